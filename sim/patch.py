"""Puts every source of nondeterminism of the code under test behind the simulator.

All replacements dispatch on `core.cur()`: outside of a simulated task the originals run, so that
nothing changes for code that is not simulated. They are installed once per (forked) run process.
"""
import gc
import multiprocessing
import multiprocessing.process
import os
import queue
import random
import sys
import threading
import time
import types

from . import core
from .core import cur

_real = {}


def _disp(real, simfn):
    def f(*a, **k):
        if cur() is None:
            return real(*a, **k)
        return simfn(*a, **k)

    f.__name__ = getattr(real, "__name__", "f")
    return f


def _cls(real, simfn):
    """A class that yields simulated instances inside of simulated tasks."""

    class Shim(real):
        def __new__(cls, *a, **k):
            if cls is Shim and cur() is not None:
                return simfn(*a, **k)
            try:
                return real.__new__(cls, *a, **k)
            except TypeError:
                return real.__new__(cls)

    Shim.__name__ = real.__name__
    Shim.__qualname__ = real.__qualname__
    Shim.__module__ = real.__module__
    return Shim


class _CurProc:
    def __init__(self, p):
        self._p = p
        self.name = p.mp_name
        self.daemon = p.parent is not None
        self._config = {"semprefix": "/mp", "authkey": b""}
        self.authkey = b""
        self._identity = ()
        self._parent_pid = p.parent.pid if p.parent else 1

    @property
    def ident(self):
        return self._p.pid

    pid = ident
    exitcode = None

    def is_alive(self):
        return True


def _clock(base):
    def f():
        s = core.S
        j = s.cfg.get("clock_jump", 0.0)
        if j:
            # The wall and performance clocks may advance arbitrarily between two readings
            if s.rng.random() < s.cfg.get("clock_jump_p", 0.1):
                s.clock_skew = getattr(s, "clock_skew", 0.0) + s.rng.random() * j
                s.count("clock_jumps")
        return base + s.now + getattr(s, "clock_skew", 0.0)

    return f


def _sleep(t):
    s = core.S
    s.wait(lambda: False, t, "sleep")


class SimContext:
    """What multiprocessing.get_context() gives inside a simulated task."""

    _name = "fork"

    def __getattr__(self, k):
        return getattr(multiprocessing, k)

    def get_start_method(self, allow_none=False):
        return "fork"


class _SimpleQueue(core.SimMPQueue):
    pass


def _mpq(maxsize=0, *a, **k):
    return core.SimMPQueue(maxsize)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import torch
    import torch.multiprocessing as tmp
    import torch.utils.data._utils as tu
    import torch.utils.data.dataloader as tdl

    repl = {}  # id(original) -> replacement
    keep = []

    def setm(mod, name, new):
        old = getattr(mod, name)
        _real[(mod.__name__, name)] = old
        repl[id(old)] = new
        keep.append(old)
        setattr(mod, name, new)

    setm(time, "time", _disp(time.time, _clock(1.7e9)))
    setm(time, "perf_counter", _disp(time.perf_counter, _clock(0.0)))
    setm(time, "monotonic", _disp(time.monotonic, _clock(5000.0)))
    setm(time, "time_ns", _disp(time.time_ns, lambda: int(_clock(1.7e9)() * 1e9)))
    setm(time, "perf_counter_ns", _disp(time.perf_counter_ns, lambda: int(_clock(0.0)() * 1e9)))
    setm(time, "monotonic_ns", _disp(time.monotonic_ns, lambda: int(_clock(5000.0)() * 1e9)))
    setm(time, "sleep", _disp(time.sleep, _sleep))

    setm(threading, "Thread", _cls(threading.Thread, core.SimThread))
    setm(threading, "Lock", _disp(threading.Lock, core.SimLock))
    setm(threading, "RLock", _disp(threading.RLock, core.SimRLock))
    setm(threading, "Event", _cls(threading.Event, core.SimEvent))
    setm(threading, "Condition", _cls(threading.Condition, core.SimCondition))
    setm(threading, "Semaphore", _cls(threading.Semaphore, core.SimSemaphore))
    setm(queue, "Queue", _cls(queue.Queue, core.SimThreadQueue))

    def shared_event(*a, **k):
        return core.SimEvent(shared=True)

    mp = multiprocessing
    real_proc = mp.Process
    for m in (mp, tmp):
        for name, new in (
            ("Queue", _mpq), ("SimpleQueue", _mpq), ("JoinableQueue", _mpq),
            ("Event", shared_event), ("Lock", core.SimLock), ("RLock", core.SimRLock),
            ("Condition", core.SimCondition), ("Semaphore", core.SimSemaphore),
            ("Pool", core.SimPool),
        ):
            if hasattr(m, name):
                setm(m, name, _disp(getattr(m, name), new))
        setm(m, "Process", _cls(real_proc, core.SimMPProcess))
        setm(m, "get_context", _disp(m.get_context, lambda method=None: SimContext()))
        setm(m, "current_process",
             _disp(m.current_process, lambda: _CurProc(core.S.cur_proc)))
    multiprocessing.process.current_process = mp.current_process

    setm(os, "getpid", _disp(os.getpid, lambda: core.S.cur_proc.pid))

    def getppid():
        p = core.S.cur_proc.parent
        return p.pid if p is not None and p.alive else 1

    setm(os, "getppid", _disp(os.getppid, getppid))

    sh = tu.signal_handling

    def set_pids(lid, pids):
        core.S.cur_proc.watched.update(pids)
        core.S.cur_proc.watch_of[lid] = set(pids)

    def set_handler():
        if core.S.cfg.get("sigchld", True):
            core.S.cur_proc.sigchld = True

    setm(sh, "_set_worker_pids", _disp(sh._set_worker_pids, set_pids))

    def remove_pids(lid):
        core.S.cur_proc.watched -= core.S.cur_proc.watch_of.pop(lid, set())

    setm(sh, "_remove_worker_pids", _disp(sh._remove_worker_pids, remove_pids))
    setm(sh, "_set_SIGCHLD_handler", _disp(sh._set_SIGCHLD_handler, set_handler))
    setm(sh, "_set_worker_signal_handlers",
         _disp(sh._set_worker_signal_handlers, lambda *a: None))
    setm(sh, "_error_if_any_worker_fails",
         _disp(sh._error_if_any_worker_fails, lambda *a: None))
    tdl._MultiProcessingDataLoaderIter._register_persistent_workers_atexit = lambda self: None
    tmp._set_thread_name = lambda *a: None
    setm(torch, "set_num_threads", _disp(torch.set_num_threads, lambda n: None))

    # The collector walks all objects of all simulated processes: keep it out
    setm(gc, "collect", _disp(gc.collect, lambda *a: 0))
    setm(gc, "get_objects", _disp(gc.get_objects, lambda *a, **k: []))
    setm(gc, "freeze", _disp(gc.freeze, lambda: None))
    setm(gc, "unfreeze", _disp(gc.unfreeze, lambda: None))

    # OS entropy
    setm(os, "urandom", _disp(os.urandom, lambda n: core.S.rng.randbytes(n)))
    real_seed = torch.seed

    def seed():
        v = core.S.rng.getrandbits(60)
        torch.manual_seed(v)
        return v

    setm(torch, "seed", _disp(real_seed, seed))

    from . import dist

    dist.install(setm, _disp)

    # Names bound in the modules of the code under test
    for name, mod in list(sys.modules.items()):
        if mod is None or not (
            name.startswith("megatron.energon") or name.startswith("torch.utils.data")
        ):
            continue
        for k, v in list(vars(mod).items()):
            if id(v) in repl and not k.startswith("__"):
                setattr(mod, k, repl[id(v)])
    _real["keep"] = keep


def extra_slots():
    import torch.utils.data._utils.worker as tw

    return [(tw, "_worker_info")]


# --------------------------------------------------------------------------------------------
# Preemption at source lines of the concurrent parts of the code under test
# --------------------------------------------------------------------------------------------

TOOL = 3


def install_lines(modnames, p, sim):
    mon = sys.monitoring
    rng = random.Random("line:%s" % (sim.cfg.get("seed", 0),))
    codes = []
    left = [sim.cfg.get("line_max", 2500)]

    def walk(c, fn):
        codes.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k, fn)

    for m in modnames:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        fn = mod.__file__
        seen = set()
        for v in list(vars(mod).values()):
            if isinstance(v, types.FunctionType) and v.__code__.co_filename == fn:
                walk(v.__code__, fn)
            elif isinstance(v, type) and getattr(v, "__module__", "") == m:
                for x in vars(v).values():
                    f = getattr(x, "__func__", x)
                    if isinstance(x, property):
                        f = x.fget
                    if isinstance(f, types.FunctionType):
                        walk(f.__code__, fn)
    try:
        mon.use_tool_id(TOOL, "sim")
    except ValueError:
        pass

    def on_line(code, line):
        t = cur()
        if t is None:
            return
        if left[0] > 0 and rng.random() < p:
            left[0] -= 1
            sim.count("line_preemptions")
            try:
                sim.point("line")
            except RuntimeError:
                raise

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    for c in codes:
        mon.set_local_events(TOOL, c, mon.events.LINE)
