"""Simulated file system behind fsspec's LocalFileSystem for all paths below /simfs.

Files are in memory. Written data first sits in the writer's user-space buffer (8 KiB, as for real
files) and is lost when the process is killed; what has reached the simulated kernel survives.
Renames and removals are atomic and survive. Every operation is a scheduling point and a place
where an error, a short read or a kill can be injected.
"""
import errno
import io
import random
import posixpath
import re

from . import core
from .core import cur

ROOT = "/simfs"
BUF = 8192


class FaultPlan:
    """Decides which file operations fail. Counted per operation kind, seeded."""

    def __init__(self, cfg=None):
        self.cfg = cfg or {}
        self.rng = random.Random("disk:%s" % (self.cfg.get("seed", 0),))
        self.fired = {}
        self.n = 0
        self.log = []
        self.consec = {}
        self.active = True

    def fire(self, kind, what=""):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        if core.S is not None:
            core.S.count("disk:" + kind)
            core.S.ev("diskfault", kind, what)


class SimFS:
    def __init__(self):
        self.files = {}  # path -> bytes (immutable inode content) or Inode
        self.dirs = {ROOT}
        self.plan = None
        self.hook = None  # called with (op, path) before each operation, may raise
        self.ops = 0
        self.trace = []
        self.sizes_cap = None
        self.open_count = 0
        self.writers = {}  # path -> pids of the processes which wrote to it

    def snapshot(self):
        return ({k: bytes(v.data) for k, v in self.files.items()}, set(self.dirs))

    def load(self, snap):
        self.files = {k: Inode(bytearray(v)) for k, v in snap[0].items()}
        self.dirs = set(snap[1])

    def put(self, path, data):
        d = posixpath.dirname(path)
        while d and d not in self.dirs and d != "/":
            self.dirs.add(d)
            d = posixpath.dirname(d)
        self.files[path] = Inode(bytearray(data))

    def op(self, kind, path):
        self.ops += 1
        if cur() is not None:
            core.S.point("fs:" + kind)
            core.S.ev("fs", kind, path)
        if self.hook is not None:
            self.hook(kind, path)

    # --- LocalFileSystem interface
    def open(self, path, mode="rb", **kw):
        path = norm(path)
        self.op("open:" + mode, path)
        text = "b" not in mode
        m = mode.replace("b", "").replace("t", "")
        if m == "r":
            if path not in self.files:
                if path in self.dirs:
                    raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            f = Reader(self, path, self.files[path])
        elif m in ("w", "a", "x"):
            if posixpath.dirname(path) not in self.dirs:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            if m == "x" and path in self.files:
                raise FileExistsError(errno.EEXIST, "File exists", path)
            if path in self.files and m == "a":
                ino = self.files[path]
            elif path in self.files:
                ino = self.files[path]
                del ino.data[:]
            else:
                ino = self.files[path] = Inode(bytearray())
            f = Writer(self, path, ino, Desc(m == "a"))
            return TextWriter(f) if text else f
        else:
            raise ValueError(mode)
        if text:
            return io.TextIOWrapper(f, encoding="utf-8", newline=None)
        return f

    def isfile(self, path):
        path = norm(path)
        self.op("stat", path)
        return path in self.files

    def isdir(self, path):
        path = norm(path)
        self.op("stat", path)
        return path in self.dirs

    def exists(self, path, **kw):
        path = norm(path)
        self.op("stat", path)
        return path in self.files or path in self.dirs

    def size(self, path):
        path = norm(path)
        self.op("stat", path)
        if path in self.files:
            return len(self.files[path].data)
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)

    def info(self, path, **kw):
        path = norm(path)
        self.op("stat", path)
        if path in self.files:
            return {"name": path, "size": len(self.files[path].data), "type": "file"}
        if path in self.dirs:
            return {"name": path, "size": 0, "type": "directory"}
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)

    def mkdir(self, path, create_parents=True, **kw):
        path = norm(path)
        self.op("mkdir", path)
        if path in self.dirs or path in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        d = path
        while d and d != "/" and d not in self.dirs:
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def makedirs(self, path, exist_ok=False):
        path = norm(path)
        self.op("mkdir", path)
        if path in self.dirs:
            if not exist_ok:
                raise FileExistsError(errno.EEXIST, "File exists", path)
            return
        d = path
        while d and d != "/" and d not in self.dirs:
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def rm(self, path, recursive=False, maxdepth=None):
        path = norm(path)
        self.op("rm", path)
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        del self.files[path]

    def mv(self, a, b, **kw):
        a = norm(a)
        b = norm(b)
        self.op("mv", b)
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        self.files[b] = self.files.pop(a)

    def ls(self, path, detail=False, **kw):
        path = norm(path)
        self.op("ls", path)
        out = []
        for p in sorted(list(self.files) + list(self.dirs)):
            if posixpath.dirname(p) == path and p != path:
                out.append(p)
        if detail:
            return [
                {"name": p, "type": "file" if p in self.files else "directory",
                 "size": len(self.files[p].data) if p in self.files else 0}
                for p in out
            ]
        return out

    def glob(self, path, **kw):
        from fsspec.utils import glob_translate

        path = norm(path)
        self.op("glob", path)
        rx = re.compile(glob_translate(path))
        return sorted(p for p in list(self.files) + list(self.dirs) if rx.match(p))

    def touch(self, path, truncate=True, **kw):
        self.open(path, "wb" if truncate else "ab").close()


class Inode:
    __slots__ = ("data",)

    def __init__(self, data):
        self.data = data


class Reader(io.RawIOBase):
    def __init__(self, fs, path, ino):
        self.fs = fs
        self.path = path
        self.name = path
        self.ino = ino
        self.pos = 0
        self.fs.open_count += 1

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        r = self.fs.rhook("seek", self, off) if hasattr(self.fs, "rhook") else None
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.ino.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.fs.op("read", self.path)
        if n is None or n < 0:
            n = max(0, len(self.ino.data) - self.pos)
        rh = getattr(self.fs, "rhook", None)
        if rh is not None:
            n = rh("read", self, n)
        d = bytes(self.ino.data[self.pos : self.pos + n])
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def readall(self):
        return self.read(-1)

    def __deepcopy__(self, memo):
        # A forked child shares the descriptor (and its offset)
        return self


class Desc:
    """An open file description: the offset which a forked process shares."""

    def __init__(self, append):
        self.pos = 0
        self.append = append

    def __deepcopy__(self, memo):
        return self


class Writer(io.RawIOBase):
    def __init__(self, fs, path, ino, desc):
        self.desc = desc
        self.fs = fs
        self.path = path
        self.name = path
        self.ino = ino
        self.buf = bytearray()
        self.proc = core.S.cur_proc if cur() is not None else None

    def writable(self):
        return True

    def _flush(self):
        if not self.buf:
            return
        if self.proc is not None and not self.proc.alive:
            return
        self.fs.op("write", self.path)
        b, self.buf = self.buf, bytearray()
        if cur() is not None:
            self.fs.writers.setdefault(self.path, {})[core.S.cur_proc.pid] = True
        cap = self.fs.sizes_cap
        if cap is not None:
            room = cap - sum(len(i.data) for i in self.fs.files.values())
            if room < len(b):
                self._put(b[: max(0, room)])
                if core.S is not None:
                    core.S.count("disk:ENOSPC")
                raise OSError(errno.ENOSPC, "No space left on device", self.path)
        wh = getattr(self.fs, "whook", None)
        if wh is not None:
            b = wh(self, b)
        self._put(b)

    def _put(self, b):
        d = self.ino.data
        at = len(d) if self.desc.append else self.desc.pos
        if at > len(d):
            d += bytes(at - len(d))
        d[at : at + len(b)] = b
        self.desc.pos = at + len(b)

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.buf += bytes(b)
        while len(self.buf) >= BUF:
            self._flush()
        return len(b)

    def flush(self):
        if self.closed:
            return
        self._flush()

    def close(self):
        if not self.closed:
            try:
                self._flush()
            finally:
                self.buf = bytearray()
                super().close()

    def __del__(self):
        # Garbage collection flushes and closes a real file, too
        try:
            if not self.closed and (self.proc is None or self.proc.alive) and cur() is not None:
                self.close()
        except Exception:
            pass

    def __deepcopy__(self, memo):
        return self


class TextWriter:
    """A text file opened for writing. A forked process gets its own copy of what is not flushed
    yet, and shares the offset."""

    def __init__(self, raw):
        self.raw = raw
        self.name = raw.name

    encoding = "utf-8"
    closed = property(lambda self: self.raw.closed)

    def write(self, s):
        self.raw.write(s.encode("utf-8"))
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        self.raw.flush()

    def close(self):
        self.raw.close()

    def writable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __deepcopy__(self, memo):
        r = self.raw
        w = Writer(r.fs, r.path, r.ino, r.desc)
        w.buf = bytearray(r.buf)
        w.proc = None
        if r.closed:
            w.close()
        t = memo[id(self)] = TextWriter(w)
        return t


def norm(p):
    p = str(p)
    if p.startswith("file://"):
        p = p[7:]
    return posixpath.normpath(p)


FS = SimFS()
_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    from fsspec.implementations.local import LocalFileSystem as L

    def wrap(name):
        real = getattr(L, name)
        sim = name

        def f(self, path, *a, **k):
            if str(path).startswith(ROOT):
                k.pop("block_size", None)
                if name == "open" and len(a) > 1:
                    a = a[:1]
                return getattr(FS, sim)(path, *a, **k)
            return real(self, path, *a, **k)

        setattr(L, name, f)

    for n in ("open", "isfile", "isdir", "exists", "size", "info", "mkdir", "makedirs", "rm",
              "mv", "ls", "glob", "touch"):
        wrap(n)
    for alias, n in (("rm_file", "rm"), ("mv_file", "mv"), ("rename", "mv"), ("move", "mv"),
                     ("makedir", "mkdir")):
        if hasattr(L, alias):
            wrap_alias(L, alias, n)


def wrap_alias(L, alias, n):
    real = getattr(L, alias)

    def f(self, path, *a, **k):
        if str(path).startswith(ROOT):
            return getattr(FS, n)(path, *a, **k)
        return real(self, path, *a, **k)

    setattr(L, alias, f)
