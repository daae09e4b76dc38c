"""Read fault injection on the simulated disk: bursts of failing operations on shard files."""
import errno

from . import core
from .core import cur

#: Operations hit by a kind of fault
KINDS = {
    "eio": ("open:rb", "read", "seek", "stat"),
    "eio_read": ("read",),
    "eio_open": ("open:rb",),
    "eio_seek": ("seek",),
    "eio_stat": ("stat",),
    "short": ("read",),
    "eof": ("read",),
    "late": ("read",),  # fails after the first bytes of a block were transferred
}
#: Failures in a row which a reader has to survive
BUDGET = 9


class ReadFaults:
    """faults: list of [operation number, kind, length]; counted over all operations on shard data.

    Failures of one reader (process and file) since its last good read never exceed the budget,
    unless `persistent`: then the last fault of the list lasts for ever.
    """

    def __init__(self, faults, persistent=False, suffixes=(".tar", ".tar.idx")):
        self.todo = sorted(f for f in faults)
        self.persistent = persistent
        self.suffixes = suffixes
        self.n = 0
        self.bursts = {}  # (pid, path) -> [kind, remaining]
        self.fails = {}  # (pid, path) -> failures since the last good read
        self.broken = None  # path which stays broken
        self.hit_broken = 0
        self.heal = None  # operation number at which the broken path works again
        self.fired = 0

    def attach(self, fs):
        fs.hook = self.op
        fs.rhook = self.r

    def detach(self, fs):
        fs.hook = None
        if hasattr(fs, "rhook"):
            del fs.rhook

    def _key(self, path):
        return (core.S.cur_proc.pid if core.S.cur_proc is not None else 0, path)

    def _active(self, op, path):
        """The kind of fault for this operation, or None."""
        if cur() is None or not path.endswith(self.suffixes):
            return None
        key = self._key(path)
        self.n += 1
        if self.todo and self.n >= self.todo[0][0]:
            for i, f in enumerate(self.todo):
                if self.n < f[0]:
                    break
                if op in KINDS[f[1]]:
                    if self.persistent and f[2] < 0:
                        self.broken = (path, f[1])
                        self.heal = self.n - f[2] if f[2] < -1 else None
                        self.todo.pop(i)
                        break
                    if key not in self.bursts:
                        self.bursts[key] = [f[1], f[2]]
                        self.todo.pop(i)
                        break
        if self.broken is not None and self.heal is not None and self.n > self.heal:
            self.broken = None
        if self.broken is not None and self.broken[0] == path and op in KINDS[self.broken[1]]:
            self.hit_broken += 1
            return self.broken[1]
        b = self.bursts.get(key)
        if b is None or op not in KINDS[b[0]]:
            return None
        if b[0] != "short" and self.fails.get(key, 0) >= BUDGET:
            # The budget since the last good read is used up
            self.bursts.pop(key, None)
            return None
        b[1] -= 1
        if b[1] <= 0:
            self.bursts.pop(key, None)
        return b[0]

    def _fail(self, kind, op, path):
        key = self._key(path)
        self.fails[key] = self.fails.get(key, 0) + 1
        self.fired += 1
        core.S.count(f"disk:{kind}:{op}")
        core.S.ev("diskfault", kind, op, path)

    def op(self, op, path):
        if op in ("read",):
            return
        kind = self._active(op, path)
        if kind is not None:
            self._fail(kind, op, path)
            raise OSError(errno.EIO, "Input/output error", path)

    def r(self, op, f, n):
        """Seeks and reads of open files; n: bytes of the read. Returns the bytes to transfer."""
        path = f.path
        kind = self._active(op, path)
        if kind is None:
            if op == "read" and n > 0 and f.pos < len(f.ino.data):
                self.fails.pop(self._key(path), None)
            return n
        if kind == "short":
            if n > 1:
                core.S.count("disk:short:read")
                self.fired += 1
                n = max(1, min(n - 1, (n * (1 + self.n % 7)) // 8 if self.n % 3 else 1))
            return n
        self._fail(kind, op, path)
        if kind == "eof":
            return 0
        if kind == "late":
            f.pos += min(n, 100)  # the position of the failed descriptor is undefined
        raise OSError(errno.EIO, "Input/output error", path)


def gen_faults(rng, ops, persistent):
    """A list of faults for a run with about `ops` operations."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 9])):
        kind = rng.choice(["eio", "eio", "eio_read", "eio_open", "eio_seek", "eio_stat", "short", "short", "eof", "late"])
        ln = rng.choice([1, 1, 2, 3, 9]) if kind != "short" else rng.choice([1, 3, 12, 40])
        out.append([rng.randint(1, ops), kind, ln])
    if persistent:
        out.append([rng.randint(1, ops), rng.choice(["eio", "eio_read", "eio_open", "eof", "late"]), -1])
    return out
