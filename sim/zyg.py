"""A second interpreter with another PYTHONHASHSEED, in which reference runs can be executed: the order
of sets and the hashes of strings differ between real processes, too."""
import os
import pickle
import select
import signal
import socket
import subprocess
import sys
import time

SEED = "7"
_name = None
_proc = None
count = 0


def start():
    global _name, _proc
    _name = f"\0verif-hash-{os.getpid()}-{time.time_ns()}"
    env = dict(os.environ, PYTHONHASHSEED=SEED)
    code = ("import sys; sys.path.insert(0, sys.argv[1]); from sim import zyg; zyg.serve(sys.argv[2])")
    _proc = subprocess.Popen([sys.executable, "-c", code, os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                              _name[1:]], stdin=subprocess.PIPE, env=env)


def serve(name):
    from . import rt

    rt.setup()
    hash_check = hash("energon")
    srv = socket.socket(socket.AF_UNIX)
    srv.bind("\0" + name)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        r, _, _ = select.select([srv, sys.stdin], [], [])
        if sys.stdin in r:
            os._exit(0)  # the parent is gone
        c, _ = srv.accept()
        if os.fork() == 0:
            srv.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.alarm(200)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                f = c.makefile("rwb")
                out = (hash_check, _run(*pickle.load(f)))
            except BaseException as e:
                from .core import Invalid, SimHang, SimLimit

                k = next((k.__name__ for k in (Invalid, SimHang, SimLimit) if isinstance(e, k)), "Harness")
                out = (hash_check, ("!", k, repr(e)[:3000]))
            pickle.dump(out, f)
            f.flush()
            os._exit(0)
        c.close()


def _run(spec, n, rank, cfg, ops):
    from . import engine
    from .checks.common import setup_disk

    setup_disk(spec)
    h = engine.reference(spec, n, rank, cfg, ops)
    return h.inc, h.errors


def reference(spec, n, rank, cfg, ops):
    from . import core, engine

    if _name is None:
        start()
    s = socket.socket(socket.AF_UNIX)
    for _ in range(1200):
        try:
            s.connect(_name)
            break
        except (ConnectionRefusedError, BlockingIOError):
            time.sleep(0.05)
    f = s.makefile("rwb")
    pickle.dump(({k: v for k, v in spec.items() if k != "hs"}, n, rank, cfg, ops), f)
    f.flush()
    hs, out = pickle.load(f)
    s.close()
    if hs == hash("energon"):
        raise RuntimeError("same hash seed")
    if out[0] == "!":
        raise {"Invalid": core.Invalid, "SimHang": core.SimHang, "SimLimit": core.SimLimit}.get(out[1], RuntimeError)(out[2])
    global count
    count += 1
    h = engine.History()
    h.inc, h.errors = out
    return h
