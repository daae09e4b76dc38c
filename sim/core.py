"""Deterministic simulator core: scheduler, virtual clock, simulated processes and threads.

Every simulated process and thread is a real Python thread, but exactly one of them runs at any
time: it runs until it reaches a *simulation point* (lock, queue, event, clock, disk operation, or
a randomly chosen source line of the monitored code), where the seeded scheduler decides who runs
next, whether a queued message is delivered, whether time passes, or whether a fault is injected.
"""
import _thread
import copy
import hashlib
import io
import pickle
import random
import sys
import traceback
import types
import weakref


class SimError(Exception):
    """An error of the simulator itself (never a property violation)."""


class Invalid(Exception):
    """The scenario does not make sense (e.g. after shrinking): not counted."""


class SimHang(Exception):
    """Raised in the root task when the simulated system can make no more progress."""


class SimLimit(Exception):
    """Raised in the root task when the step budget is used up (inconclusive run)."""


S = None  # the active Sim, set by Sim.run()
LAST = None


def cur():
    """The current simulated task of this thread, or None."""
    s = S
    if s is None:
        return None
    t = s.current
    if t is not None and t.ident == _thread.get_ident() and not s.in_sched:
        return t
    return None


class Task:
    __slots__ = (
        "name", "proc", "lock", "ident", "pred", "deadline", "state", "timed_out",
        "prio", "done", "exc", "what", "pending",
    )

    def __init__(self, name, proc):
        self.name = name
        self.proc = proc
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.ident = None
        self.pred = None
        self.deadline = None
        self.state = "ready"
        self.timed_out = False
        self.prio = 0.0
        self.done = False
        self.exc = None
        self.what = ""
        self.pending = None  # exception raised asynchronously (signal handler)


class Proc:
    """A simulated OS process."""

    def __init__(self, sim, name, parent=None):
        self.sim = sim
        self.pid = sim.next_pid
        sim.next_pid += 1
        self.name = name
        self.parent = parent
        self.children = []
        if parent is not None:
            parent.children.append(self)
        self.tasks = []
        self.alive = True
        self.exitcode = None
        self.stalled_until = -1.0
        self.globals = {}
        self.rngs = None
        self.rank = None  # distributed rank
        self.dist = parent.dist if parent is not None else None
        self.mp_name = name
        self.mpproc = None
        self.kill_hooks = []
        self.stderr = []
        self.main = None
        self.sigchld = False  # a SIGCHLD handler that raises on failed workers is installed
        self.watched = set()
        self.watch_of = {}  # loader -> its worker pids

    def kill(self, exitcode=-9, children=True):
        if not self.alive:
            return
        self.alive = False
        self.exitcode = exitcode
        for t in self.tasks:
            t.state = "dead"
        for h in self.kill_hooks:
            h()
        p = self.parent
        if p is not None and p.alive and p.sigchld and self.pid in p.watched:
            p.watched.discard(self.pid)
            if exitcode != 0 and p.main is not None:
                # torch's SIGCHLD handler raises in the main thread of the parent
                p.main.pending = RuntimeError(
                    f"DataLoader worker (pid {self.pid}) is killed by signal or exited: {exitcode}"
                )
                self.sim.count("sigchld_raised")
        if children:
            for c in list(self.children):
                c.kill(exitcode)

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------------------------
# Per process global state
# --------------------------------------------------------------------------------------------

_SKIP_TYPES = (
    types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, property, classmethod,
    staticmethod, types.MethodDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType,
    types.WrapperDescriptorType,
)
_DATA = (int, float, str, bytes, bool, type(None), tuple, list, dict, set, frozenset, bytearray)


def _is_data(v):
    if isinstance(v, _SKIP_TYPES):
        return False
    if type(v) in _DATA:
        return True
    m = type(v).__module__
    if m in ("typing", "re", "logging", "dataclasses", "abc", "_abc", "types", "functools"):
        return False
    if m.startswith("megatron.") or m.startswith("sim.workload") or m in ("collections", "torch"):
        return type(v).__name__ not in ("EPath",) or True
    return False


_MISSING = object()


class GlobalSlots:
    """All process-global mutable data of the code under test: module globals, class attributes and
    closure cells. They are swapped whenever another simulated process gets to run, and deep-copied
    when a process forks, as a real fork would."""

    def __init__(self, prefixes, extra=()):
        self.prefixes = prefixes
        self.extra = list(extra)
        self.slots = {}  # id -> (kind, obj, name)
        self.scan()

    def scan(self):
        seen_cls = set()
        seen_fn = set()

        def visit_fn(f):
            f = getattr(f, "__func__", f)
            if not isinstance(f, types.FunctionType) or id(f) in seen_fn:
                return
            seen_fn.add(id(f))
            if f.__closure__:
                for i, c in enumerate(f.__closure__):
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    if isinstance(v, types.FunctionType):
                        visit_fn(v)
                    elif f.__code__.co_freevars[i] == "__class__":
                        pass
                    elif _is_data(v):
                        self.slots.setdefault(("cell", id(c), ""), ("cell", c, ""))
            w = getattr(f, "__wrapped__", None)
            if w is not None:
                visit_fn(w)

        def visit_cls(c):
            if id(c) in seen_cls:
                return
            seen_cls.add(id(c))
            for k, v in list(vars(c).items()):
                if k.startswith("__") or k.startswith("_abc"):
                    continue
                if isinstance(v, (types.FunctionType, classmethod, staticmethod)):
                    visit_fn(v)
                elif _is_data(v):
                    self.slots.setdefault(("attr", id(c), k), ("attr", c, k))

        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith(self.prefixes):
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith("__") and k.endswith("__"):
                    continue
                if isinstance(v, type):
                    if getattr(v, "__module__", "").startswith(self.prefixes):
                        visit_cls(v)
                elif isinstance(v, types.FunctionType):
                    visit_fn(v)
                elif _is_data(v):
                    self.slots.setdefault(("attr", id(mod), k), ("attr", mod, k))
        for obj, k in self.extra:
            self.slots.setdefault(("attr", id(obj), k), ("attr", obj, k))

    def save(self):
        r = {}
        for key, (kind, o, k) in self.slots.items():
            if kind == "attr":
                r[key] = vars(o).get(k, _MISSING)
            else:
                try:
                    r[key] = o.cell_contents
                except ValueError:
                    r[key] = _MISSING
        return r

    def load(self, vals):
        for key, (kind, o, k) in self.slots.items():
            v = vals.get(key, _MISSING)
            if kind == "attr":
                c = vars(o).get(k, _MISSING)
                if c is v:
                    continue
                if v is _MISSING:
                    delattr(o, k)
                else:
                    setattr(o, k, v)
            else:
                if v is _MISSING:
                    continue
                o.cell_contents = v


def _rng_save():
    import numpy as np
    import torch

    return (torch.get_rng_state(), np.random.get_state(), random.getstate())


def _rng_load(s):
    import numpy as np
    import torch

    torch.set_rng_state(s[0])
    np.random.set_state(s[1])
    random.setstate(s[2])


# --------------------------------------------------------------------------------------------
# Decisions
# --------------------------------------------------------------------------------------------


class Decider:
    """Source of all scheduling decisions. Records them; can replay a recorded list."""

    def __init__(self, cfg, replay=None):
        self.cfg = cfg
        self.rng = random.Random("sched:%s" % (cfg.get("seed", 0),))
        self.replay = replay
        self.log = []
        self.pos = 0
        self.strategy = cfg.get("strategy", "random")
        self.switch_p = cfg.get("switch_p", 1.0)
        self.change_p = cfg.get("change_p", 0.05)

    def choose(self, n, kind, sim, cands, curidx):
        """Choose an index below n. `curidx` is the default (continue with the current task)."""
        if n == 1:
            return 0
        if self.replay is not None:
            d = self.replay[self.pos] if self.pos < len(self.replay) else -1
            self.pos += 1
            c = curidx if d < 0 or d >= n else d
            self.log.append(-1 if d < 0 else c)
            return c
        st = self.strategy
        if st == "fifo":
            c = curidx
        elif st == "pct":
            # random priorities; at change points the running one drops to the bottom
            if self.rng.random() < self.change_p and curidx < len(cands):
                e = cands[curidx]
                sim.prios[e] = sim.low_prio
                sim.low_prio -= 1
            best = None
            for i, e in enumerate(cands):
                p = sim.prios.get(e)
                if p is None:
                    p = sim.prios[e] = self.rng.random() * 100
                if best is None or p > best[0]:
                    best = (p, i)
            c = best[1]
        elif st == "starve":
            v = self.cfg.get("victim", 0)
            idx = [i for i, e in enumerate(cands) if sim.ent_no(e) % 5 != v]
            if not idx or self.rng.random() < 0.02:
                idx = list(range(n))
            c = self.rng.choice(idx)
        else:
            if self.switch_p < 1.0 and self.rng.random() >= self.switch_p:
                c = curidx
            else:
                c = self.rng.randrange(n)
        self.log.append(-1 if c == curidx else c)
        return c


# --------------------------------------------------------------------------------------------
# The simulator
# --------------------------------------------------------------------------------------------


class Sim:
    def __init__(self, cfg, replay=None, prefixes=("megatron.energon", "sim.workload"), extra_slots=()):
        self.cfg = cfg
        self.decider = Decider(cfg, replay)
        self.rng = random.Random("aux:%s" % (cfg.get("seed", 0),))
        self.next_pid = 1000
        self.procs = []
        self.tasks = []
        self.current = None
        self.cur_proc = None
        self.in_sched = False
        self.now = 1000.0
        self.wall_offset = 1.7e9
        self.steps = 0
        self.max_steps = cfg.get("max_steps", 200000)
        self.spin_steps = cfg.get("spin_steps", 80000)
        self.progress_step = 0
        self.hang_idle = cfg.get("hang_idle", 400.0)
        self.last_progress = self.now
        self.deliveries = []  # queues with pending messages
        self.prios = {}
        self.low_prio = -1.0
        self.entno = {}
        self.hash = hashlib.blake2b(digest_size=12)
        self.stats = {}
        self.trace = []
        self.progress_step = 0
        self.fair = cfg.get("fair", 400)
        self.ready_since = {}
        self.trace_on = cfg.get("trace", False)
        self.faults = []  # list of (predicate/step, fn)
        self.step_hooks = []
        self.root_exc = None
        self.dead_raise = None
        self.slots = GlobalSlots(prefixes, extra_slots)
        self.pristine = self.slots.save()
        self.pristine_rng = _rng_save()
        self.line_p = cfg.get("line_p", 0.0)
        self.tick = cfg.get("tick", 0.001)  # mean virtual time per step
        self.sampler = random.Random("tick:%s" % (cfg.get("seed", 0),))
        self.done_lock = _thread.allocate_lock()
        self.keep = []

    def __deepcopy__(self, memo):
        return self

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def ent_no(self, e):
        n = self.entno.get(e)
        if n is None:
            n = self.entno[e] = len(self.entno)
        return n

    def ev(self, *a):
        s = repr(a)
        self.hash.update(s.encode())
        if self.trace_on:
            self.trace.append((self.steps, round(self.now - 1000.0, 6)) + a)

    # -- processes ---------------------------------------------------------------------------
    def new_proc(self, name, parent=None, fork=False, memo=None):
        p = Proc(self, name, parent)
        self.procs.append(p)
        self.slots.scan()
        if fork:
            # Copy of the parent's memory (the parent is the running process)
            cur_vals = self.slots.save()
            memo = {} if memo is None else memo
            p.globals = {k: _fork_copy(v, memo) for k, v in cur_vals.items()}
            p.rngs = _rng_save()
        else:
            memo = {}
            p.globals = {k: _fork_copy(v, memo) for k, v in self.pristine.items()}
            # A fresh process has arbitrary ambient random states
            old = _rng_save()
            import numpy as np
            import torch

            v = self.rng.getrandbits(31)
            torch.manual_seed(v)
            np.random.seed(v)
            random.seed(v)
            p.rngs = _rng_save()
            _rng_load(old)
        return p

    def _swap(self, proc):
        old = self.cur_proc
        if old is proc:
            return
        if old is not None:
            old.globals = self.slots.save()
            old.rngs = _rng_save()
        self.slots.load(proc.globals)
        _rng_load(proc.rngs)
        self.cur_proc = proc

    def spawn_task(self, proc, name, fn, args=(), kwargs=None, main=False):
        t = Task(name, proc)
        proc.tasks.append(t)
        self.tasks.append(t)
        if proc.main is None:
            proc.main = t
        # Nothing may be finalised by a dying thread (it would run outside of the schedule)
        self.keep.append((fn, args, kwargs))

        def body():
            t.ident = _thread.get_ident()
            t.lock.acquire()
            try:
                fn(*args, **(kwargs or {}))
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:
                code = 1
                t.exc = e
                proc.stderr.append("".join(traceback.format_exception(e))[-3000:])
                e.__traceback__ = None
            if main and proc.alive and t.state != "dead":
                # multiprocessing joins the feeder threads of its queues at exit
                self.flush_exit(proc)
            t.done = True
            if t.state != "dead":
                t.state = "dead"
                self.progress()
                if main:
                    self.ev("exit", proc.name, code)
                    proc.kill(code, children=False)
                    for c in list(proc.children):
                        # daemonic workers end with their parent
                        c.kill(-15)
            self._schedule()

        _thread.start_new_thread(body, ())
        # Wait until the thread has parked is not needed: it blocks on its own lock.
        return t

    def flush_exit(self, proc):
        qs = [q for q in self.deliveries if proc not in q.cancelled]
        if any(p is proc for q in qs for p, _, _ in q.pending):
            self.wait(
                lambda: not any(p is proc for q in qs for p, _, _ in q.pending), None, "exitflush"
            )

    # -- simulation points -------------------------------------------------------------------
    def progress(self):
        self.last_progress = self.now
        self.progress_step = self.steps

    def point(self, what):
        """A scheduling point of the running task (it stays runnable)."""
        t = self.current
        t.what = what
        t.state = "ready"
        t.pred = None
        t.deadline = None
        self._schedule()
        if t.pending is not None:
            e, t.pending = t.pending, None
            raise e

    def wait(self, pred, timeout=None, what=""):
        """Block the running task until pred() or timeout. Returns False on timeout."""
        t = self.current
        t.what = what
        t.pred = pred
        t.deadline = None if timeout is None else self.now + max(timeout, 0.0)
        t.state = "wait"
        t.timed_out = False
        self._schedule()
        t.pred = None
        if t.pending is not None:
            e, t.pending = t.pending, None
            raise e
        return not t.timed_out

    def _runnable(self, t):
        if t.state == "ready":
            return t.proc.stalled_until <= self.now
        if t.state == "wait" and t.proc.stalled_until <= self.now:
            if t.pending is not None or t.pred():
                return True
            if t.deadline is not None and t.deadline <= self.now:
                return True
        return False

    def _schedule(self):
        me = self.current
        self.in_sched = True
        while True:
            self.steps += 1
            if self.tick:
                self.now += self.sampler.random() * 2 * self.tick
            for h in self.step_hooks:
                h(self)
            if self.steps > self.progress_step + self.spin_steps:
                return self._abort(SimLimit("step limit"), me)
            if self.steps > self.max_steps:  # long, but it makes progress
                return self._abort(Invalid("step budget"), me)
            cands = []
            curidx = 0
            for t in self.tasks:
                if t.state == "dead":
                    continue
                if self._runnable(t):
                    if t is me:
                        curidx = len(cands)
                    cands.append(t)
            for q in self.deliveries:
                if q.deliverable(self):
                    cands.append(q)
            if not cands:
                # Advance the clock to the next deadline
                nxt = None
                for t in self.tasks:
                    if t.state == "dead":
                        continue
                    if t.proc.stalled_until > self.now:
                        d = t.proc.stalled_until
                        if t.state == "wait" and not t.pred() and t.deadline is not None:
                            d = max(d, t.deadline)
                        elif t.state == "wait" and t.deadline is None and not t.pred():
                            continue
                    elif t.deadline is not None and t.state == "wait":
                        d = t.deadline
                    else:
                        continue
                    if nxt is None or d < nxt:
                        nxt = d
                for q in self.deliveries:
                    d = q.next_time(self)
                    if d is not None and (nxt is None or d < nxt):
                        nxt = d
                if nxt is None or nxt - self.last_progress > self.hang_idle:
                    desc = "; ".join(
                        f"{t.name}:{t.what}" for t in self.tasks if t.state == "wait"
                    )
                    return self._abort(SimHang("no progress possible: " + desc), me)
                if nxt > self.now:
                    self.now = nxt
                continue
            if len(self.tasks) > 64:
                self.tasks = [t for t in self.tasks if t.state != "dead"]
            if (
                self.now - self.last_progress > self.hang_idle
                and self.steps - self.progress_step > self.spin_steps * 0.6
            ):
                desc = "; ".join(f"{t.name}:{t.what}" for t in self.tasks if t.state == "wait")
                return self._abort(SimHang("no progress: " + desc), me)
            # Fairness: who was ready for long enough runs (no infinite starvation)
            e = None
            if len(cands) > 1:
                st = self.steps
                lim = st - self.fair
                rs = self.ready_since
                for c in cands:
                    b = rs.get(c)
                    if b is None:
                        rs[c] = st
                    elif b < lim:
                        e = c
                        break
            if e is None:
                i = self.decider.choose(len(cands), "sched", self, cands, curidx)
                e = cands[i]
            self.ready_since.pop(e, None)
            if not isinstance(e, Task):
                e.deliver(self)
                self.progress()
                continue
            t = e
            if t.state == "wait":
                ok = t.pending is not None or t.pred()
                t.timed_out = not ok
                if ok:
                    self.progress()
                t.state = "ready"
            self.ev("run", t.name, t.what, t.timed_out)
            break
        if t is me and t.state != "dead":
            self.in_sched = False
            return
        self.count("switches")
        self._swap(t.proc)
        self.current = t
        self.in_sched = False
        t.lock.release()
        if me is not None and me.done:
            return
        if me is not None:
            me.lock.acquire()  # park (for ever, if killed)
        return

    def _abort(self, exc, me):
        """Wake the outer thread with a final error."""
        self.root_exc = exc
        self.current = None
        self.in_sched = False
        self.done_lock.release()
        if me is not None and not me.done:
            me.lock.acquire()

    def run(self, fn):
        """Run fn() as the root task of a root process. Returns its result or raises."""
        global S, LAST
        LAST = self
        S = self
        self.done_lock.acquire()
        res = {}

        def root():
            try:
                res["v"] = fn()
            except BaseException as e:
                res["e"] = e
            self.root_exc = None
            self.current = None
            self.done_lock.release()
            lk = _thread.allocate_lock()
            lk.acquire()
            lk.acquire()

        self.rootproc = self.new_proc("root")
        self.cur_proc = None
        t = self.spawn_task(self.rootproc, "root", root)
        self._swap(self.rootproc)
        self.current = t
        t.lock.release()
        self.done_lock.acquire()
        S = None
        if self.root_exc is not None:
            raise self.root_exc
        if "e" in res:
            raise res["e"]
        return res.get("v")


def _fork_copy(v, memo):
    if isinstance(v, (int, float, str, bytes, type(None))) or v is _MISSING:
        return v
    try:
        return copy.deepcopy(v, memo)
    except Exception:
        return v


# --------------------------------------------------------------------------------------------
# Synchronisation primitives (thread level)
# --------------------------------------------------------------------------------------------


class SimLock:
    def __init__(self):
        self._owner = None
        self._n = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        t = cur()
        if t is None:
            return True
        S.point("acquire")
        if self.reentrant and self._owner is t:
            self._n += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if not S.wait(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout, "lock"):
                return False
        self._owner = t
        self._n = 1
        return True

    def release(self):
        t = cur()
        if t is None:
            return
        if self._owner is None or (self.reentrant and self._owner is not t):
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None
        S.point("release")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        r = type(self)()
        memo[id(self)] = r
        return r


class SimRLock(SimLock):
    reentrant = True


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self._waiters = []

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self._waiters.append(tok)
        n = self._lock._n
        self._lock._n = 1
        self._lock.release()
        ok = S.wait(lambda: tok[0], timeout, "cond")
        if not ok:
            try:
                self._waiters.remove(tok)
            except ValueError:
                pass
        self._lock.acquire()
        self._lock._n = n
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else S.now + timeout
        r = predicate()
        while not r:
            if end is not None and S.now >= end:
                break
            self.wait(None if end is None else end - S.now)
            r = predicate()
        return r

    def notify(self, n=1):
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]
        S.point("notify")

    def notify_all(self):
        self.notify(len(self._waiters))


class SimEvent:
    """threading.Event, and multiprocessing.Event (then shared between processes)."""

    def __init__(self, shared=False):
        self._f = False
        self._shared = shared

    def is_set(self):
        return self._f

    isSet = is_set

    def set(self):
        self._f = True
        if cur():
            S.point("ev.set")

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        if self._f:
            S.point("ev.wait")
            return True
        return S.wait(lambda: self._f, timeout, "event")

    def __deepcopy__(self, memo):
        return self if self._shared else SimEvent()


class SimSemaphore:
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        S.point("sem")
        if self._v <= 0:
            if not blocking or not S.wait(lambda: self._v > 0, timeout, "sem"):
                return False
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n
        S.point("semrel")

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class SimThread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or "Thread"
        self.daemon = daemon
        self._task = None
        self.ident = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        p = S.cur_proc
        self.ident = 1
        self._task = S.spawn_task(p, p.name + "/" + self.name, self.run)
        S.point("thread.start")

    def is_alive(self):
        return self._task is not None and self._task.state != "dead"

    def join(self, timeout=None):
        if cur() is None or self._task is None:
            return
        if self._task is cur():
            raise RuntimeError("cannot join current thread")
        if self._task.state == "dead":
            return
        S.wait(lambda: self._task.state == "dead", timeout, "thread.join")

    def __deepcopy__(self, memo):
        # Threads do not survive a fork
        r = SimThread(name=self.name)
        return r


import queue as _queue


class SimThreadQueue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self._q = []

    def put(self, x, block=True, timeout=None):
        S.point("tq.put")
        if self.maxsize > 0 and len(self._q) >= self.maxsize:
            if not block or not S.wait(lambda: len(self._q) < self.maxsize, timeout, "tq.put"):
                raise _queue.Full
        self._q.append(x)

    def get(self, block=True, timeout=None):
        S.point("tq.get")
        if not self._q:
            if not block or not S.wait(lambda: bool(self._q), timeout, "tq.get"):
                raise _queue.Empty
        return self._q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, x):
        return self.put(x, False)

    def qsize(self):
        return len(self._q)

    def empty(self):
        return not self._q

    def task_done(self):
        pass


# --------------------------------------------------------------------------------------------
# Process level primitives
# --------------------------------------------------------------------------------------------


class SimMPQueue:
    """multiprocessing.Queue. put() only hands the object to the producer's feeder; the feeder
    pickles it at a later, scheduler-chosen moment (so a change after put() is visible, as in
    reality) and it becomes available to readers; per producer FIFO."""

    _cnt = 0

    def __init__(self, maxsize=0, *, ctx=None, name="q"):
        self.maxsize = maxsize
        self.name = f"q{S.cfg.setdefault('_qn', 0)}"
        S.cfg["_qn"] += 1
        self.pending = []  # (proc, obj, ready_time)
        self.ready = []
        self.cancelled = set()
        S.deliveries.append(self)
        self.closed = False

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError("Queue objects should only be shared between processes through inheritance")

    # scheduler interface
    def _idx(self, sim):
        seen = []
        for i, (p, o, t) in enumerate(self.pending):
            if p in seen:
                continue
            seen.append(p)
            if p.alive and t <= sim.now and p.stalled_until <= sim.now:
                return i
        return None

    def deliverable(self, sim):
        if not self.pending:
            return False
        if any(not p.alive for p, _, _ in self.pending):
            n = len(self.pending)
            self.pending = [x for x in self.pending if x[0].alive]
            sim.count("msgs_lost_by_kill", n - len(self.pending))
        return self._idx(sim) is not None

    def next_time(self, sim):
        r = None
        for p, o, t in self.pending:
            if p.alive:
                t = max(t, p.stalled_until)
                if t > sim.now and (r is None or t < r):
                    r = t
        return r

    def deliver(self, sim):
        i = self._idx(sim)
        p, o, t = self.pending.pop(i)
        try:
            data = _dumps(o)
        except Exception as e:
            # The real feeder prints the error and drops the object
            p.stderr.append("feeder: " + repr(e))
            sim.count("feeder_pickle_errors")
            sim.ev("feeder_error", self.name)
            return
        self.ready.append(data)
        sim.ev("deliver", self.name, len(self.ready))

    # user interface
    def put(self, obj, block=True, timeout=None):
        if cur() is None:
            return
        d = 0.0
        lat = S.cfg.get("q_delay", 0.0)
        if lat and S.rng.random() < S.cfg.get("q_delay_p", 0.2):
            d = S.rng.random() * lat
            S.count("queue_delays")
        self.pending.append((S.cur_proc, obj, S.now + d))
        S.point("put:" + self.name)

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        if cur() is None:
            raise _queue.Empty
        S.point("get:" + self.name)
        if not self.ready:
            if not block:
                raise _queue.Empty
            if not S.wait(lambda: bool(self.ready), timeout, "get:" + self.name):
                raise _queue.Empty
        return pickle.loads(self.ready.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.ready

    def qsize(self):
        return len(self.ready)

    def close(self):
        self.closed = True

    def cancel_join_thread(self):
        if cur() is not None:
            self.cancelled.add(S.cur_proc)

    def join_thread(self):
        pass


def _dumps(o):
    b = io.BytesIO()
    p = _Pickler(b, protocol=4)
    p.dump(o)
    return b.getvalue()


class _Pickler(pickle.Pickler):
    pass


class SimMPProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.daemon = daemon
        self._proc = None
        self.name = name or "Process"
        self.authkey = b""

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        parent = S.cur_proc
        n = len(parent.children)
        memo = {}
        S.count("forks")
        p = S.new_proc(f"{parent.name}.w{n}", parent, fork=True, memo=memo)
        self._proc = p
        p.mpproc = self
        args = copy.deepcopy(self._args, memo)
        kwargs = copy.deepcopy(self._kwargs, memo)
        p.fork_memo = None
        S.spawn_task(p, p.name, self._target, args, kwargs, main=True)
        S.point("proc.start")

    @property
    def pid(self):
        return None if self._proc is None else self._proc.pid

    ident = pid

    @property
    def exitcode(self):
        return None if self._proc is None else self._proc.exitcode

    def is_alive(self):
        return self._proc is not None and self._proc.alive

    def join(self, timeout=None):
        if cur() is None or not self._proc.alive:
            return
        S.wait(lambda: not self._proc.alive, timeout, "proc.join")

    def terminate(self):
        if self._proc is not None:
            self._proc.kill(-15)
            if cur() is not None:
                S.point("terminate")

    def kill(self):
        self.terminate()

    def close(self):
        pass

    def __deepcopy__(self, memo):
        return self


class SimPool:
    """multiprocessing.Pool: n worker processes (modelled as separate simulated processes, one
    task at a time each), results in order for imap."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        self.n = min(processes or 4, S.cfg.get("pool_cap", 4))
        self.jobs = []
        self.results = {}
        self.closed = False
        self.workers = []
        self.order = []
        parent = S.cur_proc
        S.count("pools")
        for i in range(self.n):
            p = S.new_proc(f"{parent.name}.p{len(parent.children)}", parent, fork=True)
            self.workers.append(p)
            S.spawn_task(p, p.name, self._loop, (initializer, initargs), main=True)

    def _loop(self, initializer, initargs):
        if initializer:
            initializer(*initargs)
        while True:
            S.wait(lambda: self.jobs or self.closed, None, "pool.get")
            if not self.jobs:
                return
            jid, fdata = self.jobs.pop(0)
            S.point("pool.job")
            fn, arg = pickle.loads(fdata)
            try:
                r = (True, fn(*arg))
            except Exception as e:
                r = (False, e)
            data = _dumps(r)
            S.point("pool.result")
            self.results[jid] = data

    def _submit(self, fn, args):
        jid = len(self.order)
        self.order.append(jid)
        self.jobs.append((jid, _dumps((fn, args))))
        return jid

    def _fetch(self, jid):
        # A real pool blocks for ever when a worker was killed while holding a job
        S.wait(lambda: jid in self.results, None, "pool.result")
        ok, v = pickle.loads(self.results.pop(jid))
        if not ok:
            raise v
        return v

    def imap(self, fn, it, chunksize=1):
        ids = [self._submit(fn, (x,)) for x in it]
        return self._gen(ids)

    def _gen(self, ids):
        for j in ids:
            yield self._fetch(j)

    def imap_unordered(self, fn, it, chunksize=1):
        ids = [self._submit(fn, (x,)) for x in it]

        def g():
            left = list(ids)
            while left:
                S.wait(lambda: any(j in self.results for j in left), None, "pool.any")
                js = [j for j in left if j in self.results]
                # arrival order
                j = min(js, key=lambda x: list(self.results).index(x))
                left.remove(j)
                yield self._fetch(j)

        return g()

    def map(self, fn, it, chunksize=None):
        return list(self.imap(fn, it))

    def starmap(self, fn, it, chunksize=None):
        ids = [self._submit(fn, tuple(x)) for x in it]
        return [self._fetch(j) for j in ids]

    def close(self):
        self.closed = True

    def terminate(self):
        for p in self.workers:
            p.kill(-15)

    def join(self):
        S.wait(lambda: all(not p.alive for p in self.workers), None, "pool.join")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __deepcopy__(self, memo):
        return self
