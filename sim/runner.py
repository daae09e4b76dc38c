"""Check runner: many seeded simulations, minimisation, replay files, evidence, known findings."""
import argparse
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
HASHED = ("C01", "C02", "C03", "C04", "C05", "C09", "C19")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Violation:
    def __init__(self, sig, msg):
        self.sig = sig
        self.msg = msg


def exec_one(check, params, replay=None):
    """Runs one scenario in this process. Returns a JSON-able result."""
    from . import core, rt

    t = time.time()
    ctx = Ctx(params, replay)
    res = dict(ok=True, sig=None, msg=None, invalid=False, harness=None)
    try:
        v = check.run(params, ctx)
        if v is not None:
            res.update(ok=False, sig=v.sig, msg=v.msg)
    except Invalid as e:
        res.update(invalid=True, msg=str(e))
    except BaseException as e:
        res.update(harness="".join(traceback.format_exception(e))[-3000:])
    zy = sys.modules.get(__package__ + ".zyg")
    if zy is not None and zy.count:
        ctx.stats["references_with_other_hash_seed"] = zy.count
        zy.count = 0
    res.update(
        stats=ctx.stats, probes=ctx.probes, hashes=ctx.hashes, decisions=ctx.decisions,
        sim_time=ctx.sim_time, steps=ctx.steps, wall=time.time() - t, sims=ctx.sims,
        shape=ctx.shape,
    )
    return res


from .core import Invalid  # The scenario does not make sense (e.g. after shrinking): not counted


class Ctx:
    def __init__(self, params, replay=None):
        self.params = params
        self.replay = replay
        self.stats = {}
        self.probes = {}
        self.hashes = []
        self.decisions = []
        self.sim_time = 0.0
        self.steps = 0
        self.sims = 0
        self.shape = None
        self._n = 0

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def sim(self, fn, cfg=None, stalls=None, prep=None, lines=None, record=True):
        """Run a simulation under the scenario's schedule."""
        from . import core, rt, engine

        cfg = dict(cfg if cfg is not None else self.params["sched"])
        st = self.params.get("stalls", []) if stalls is None else stalls
        replay = None
        if record:
            if self.replay is not None:
                replay = self.replay[self._n] if self._n < len(self.replay) else []
            self._n += 1
        holder = {}

        def go():
            s = core.S
            holder["sim"] = s
            if st:
                engine.add_stalls(s, st)
            if prep:
                prep(s)
            return fn()

        try:
            r, sim = rt.run_sim(cfg, go, replay, lines)
            return r
        finally:
            s = holder.get("sim")
            if s is not None:
                self.add(s, record)

    def add(self, s, record=True):
        for k, v in s.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.sim_time += s.now - 1000.0
        self.steps += s.steps
        self.sims += 1
        if record:
            self.hashes.append(s.hash.hexdigest())
            self.decisions.append(list(s.decider.log))


# --------------------------------------------------------------------------------------------
# Forked execution
# --------------------------------------------------------------------------------------------


class Job:
    __slots__ = ("pid", "fd", "buf", "key", "deadline", "t0")


def _child(check, params, replay, wfd, budget):
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        if budget:
            _jump_budget(budget)
        r = exec_one(check, params, replay)
        data = json.dumps(r).encode()
    except BaseException as e:  # noqa
        data = json.dumps(dict(ok=True, harness=repr(e)[:2000], invalid=False)).encode()
    try:
        i = 0
        while i < len(data):
            i += os.write(wfd, data[i : i + 65536])
    finally:
        os._exit(0)


def _jump_budget(n):
    """Ends the run deterministically when the code executes n backward jumps without end."""
    mon = sys.monitoring
    from . import core

    cnt = [0, -1]

    def on_jump(code, a, b):
        cnt[0] += 1
        if cnt[0] > n:
            s = core.S
            if s is not None and s.current is not None:
                cnt[0] = 0
                if s.steps != cnt[1]:  # it is not one loop
                    cnt[1] = s.steps
                    return
                s._abort(core.SimLimit("busy loop in " + code.co_name), s.current)

    mon.use_tool_id(4, "budget")
    mon.register_callback(4, mon.events.JUMP, on_jump)
    mon.set_events(4, mon.events.JUMP)


class Pool:
    def __init__(self, check, jobs=JOBS, timeout=60.0, budget=None):
        self.check = check
        self.jobs = jobs
        self.timeout = timeout
        self.budget = budget
        self.act = {}

    def submit(self, key, params, replay=None):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            _child(self.check, params, replay, w, self.budget)
            os._exit(0)
        os.close(w)
        j = Job()
        j.pid = pid
        j.fd = r
        j.buf = bytearray()
        j.key = key
        j.t0 = time.time()
        j.deadline = j.t0 + self.timeout
        self.act[r] = j

    def poll(self, wait=0.5):
        """Returns finished [(key, result)]."""
        out = []
        if not self.act:
            return out
        rs, _, _ = select.select(list(self.act), [], [], wait)
        for fd in rs:
            j = self.act[fd]
            d = os.read(fd, 1 << 20)
            if d:
                j.buf += d
                continue
            out.append((j.key, self._finish(j)))
        now = time.time()
        for fd, j in list(self.act.items()):
            if now > j.deadline:
                try:
                    os.kill(j.pid, signal.SIGKILL)
                except OSError:
                    pass
                j.buf = bytearray(b'{"ok": true, "timeout": true, "invalid": false, "harness": null}')
                out.append((j.key, self._finish(j)))
        return out

    def _finish(self, j):
        os.close(j.fd)
        del self.act[j.fd]
        try:
            os.waitpid(j.pid, 0)
        except OSError:
            pass
        try:
            r = json.loads(bytes(j.buf).decode())
        except ValueError:
            r = dict(ok=True, harness="no result (child died)", invalid=False)
        return r

    def map(self, items, stop=None, deadline=None):
        """items: iterable of (key, params, replay). Yields (key, result)."""
        it = iter(items)
        done = False
        while True:
            while not done and len(self.act) < self.jobs:
                if deadline is not None and time.time() > deadline:
                    done = True
                    break
                try:
                    k, p, r = next(it)
                except StopIteration:
                    done = True
                    break
                self.submit(k, p, r)
            if not self.act:
                return
            for x in self.poll():
                yield x
                if stop is not None and stop():
                    self.kill()
                    return

    def kill(self):
        for fd, j in list(self.act.items()):
            try:
                os.kill(j.pid, signal.SIGKILL)
            except OSError:
                pass
            self._finish(j)


# --------------------------------------------------------------------------------------------
# Minimisation
# --------------------------------------------------------------------------------------------


def shrinks(v, path=()):
    """Simpler variants of a JSON value."""
    if isinstance(v, dict):
        for k in list(v):
            if k.startswith("_"):
                continue
            if k in DROPPABLE:
                c = dict(v)
                del c[k]
                yield c
            for s in shrinks(v[k], path + (k,)):
                c = dict(v)
                c[k] = s
                yield c
    elif isinstance(v, list):
        n = len(v)
        step = n // 2
        while step >= 1:
            for i in range(0, n - step + 1, step):
                yield v[:i] + v[i + step :]
            step //= 2
        for i in range(n):
            for s in shrinks(v[i], path + (i,)):
                yield v[:i] + [s] + v[i + 1 :]
    elif isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if path and path[-1] in ("seed",):
            return
        for c in (0, 1, v // 2, v - 1):
            if 0 <= c < v:
                yield c
    elif isinstance(v, float):
        if path and path[-1] in ("hang_idle", "tick"):
            return
        if v:
            yield 0.0
    elif isinstance(v, str):
        if path and path[-1] == "strategy" and v != "fifo":
            yield "fifo"
        if path and path[-1] in ("s", "b", "e", "g", "p"):
            for c in ("none", "sl", "list"):
                if c != v:
                    yield c


DROPPABLE = {
    "fail", "meta", "sbs", "vel", "som", "msps", "psi", "limit", "subflavors", "q_delay",
    "clock_jump", "line_p", "pbs", "drop_last", "crash_at", "close", "gsize", "seed_offset",
    "ck_n", "n_ck", "exclude", "crude",
}


def size(p):
    return len(json.dumps(p))


def minimise(check, params, decisions, sig, budget_s, log):
    t_end = time.time() + budget_s
    best = params
    bestdec = decisions
    tried = set()
    runs = 0

    def same(r):
        return not r.get("invalid") and not r.get("ok", True) and r.get("sig") == sig

    # 1. parameters (schedule re-drawn from its seed)
    improved = True
    while improved and time.time() < t_end:
        improved = False
        cands = []
        for c in shrinks(best):
            key = json.dumps(c, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            cands.append(c)
            if len(cands) >= 4000:
                break
        pool = Pool(check, timeout=20.0)
        found = {}

        def items():
            for i, c in enumerate(cands):
                yield i, c, None

        for k, r in pool.map(items(), stop=lambda: bool(found), deadline=t_end):
            runs += 1
            if same(r):
                found[k] = r
        if found:
            k = min(found)
            best = cands[k]
            bestdec = found[k].get("decisions")
            improved = True
    # 2. decisions
    if bestdec:
        def trydec(d):
            nonlocal runs
            pool = Pool(check, timeout=20.0)
            out = None
            for k, r in pool.map([(0, best, d)]):
                runs += 1
                out = r
            return out

        r = trydec([[] for _ in bestdec])
        if r is not None and same(r):
            bestdec = r["decisions"]
            bestdec = [strip(d) for d in bestdec]
        else:
            for si in range(len(bestdec)):
                chunk = max(1, len(bestdec[si]) // 2)
                while chunk >= 1 and time.time() < t_end:
                    i = 0
                    cands = []
                    d = bestdec[si]
                    while i < len(d):
                        if any(x >= 0 for x in d[i : i + chunk]):
                            nd = d[:i] + [-1] * len(d[i : i + chunk]) + d[i + chunk :]
                            cands.append(bestdec[:si] + [nd] + bestdec[si + 1 :])
                        i += chunk
                    found = {}
                    pool = Pool(check, timeout=20.0)
                    for k, r in pool.map(((i, best, c) for i, c in enumerate(cands)),
                                         stop=lambda: bool(found), deadline=t_end):
                        runs += 1
                        if same(r):
                            found[k] = r
                    if found:
                        k = min(found)
                        bestdec = [strip(x) for x in cands[k]]
                        # the run may read fewer decisions now
                    else:
                        chunk //= 2
                    if chunk < max(1, len(bestdec[si]) // 64):
                        break
    log(f"minimised with {runs} runs: size {size(params)} -> {size(best)}")
    return best, bestdec


def strip(d):
    d = list(d)
    while d and d[-1] < 0:
        d.pop()
    return d


# --------------------------------------------------------------------------------------------
# Main
# --------------------------------------------------------------------------------------------


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def matches(f, prop, check, params, r):
    """A known finding is identified by property, violation signature and the failing input."""
    sigs = f["sig"] if isinstance(f["sig"], list) else [f["sig"]]
    if f["property"] != prop or r.get("sig") not in sigs:
        return False
    c = f.get("condition")
    if c is None:
        return True
    return getattr(check, c)(params, r)


def get_check(prop):
    mod = importlib.import_module(f"sim.checks.{prop.lower()}")
    return mod.CHECK


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--one", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--nomin", action="store_true")
    ap.add_argument("--hashes")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    t0 = time.time()
    from . import rt

    rt.setup()
    check = get_check(prop)
    if prop in HASHED:
        from . import zyg

        zyg.start()
    if a.replay:
        return do_replay(check, prop, a.replay)

    # Scenarios kept from earlier findings come first
    cp = os.path.join(VERIF, "sim", "corpus", prop + ".jsonl")
    corpus = [json.loads(x) for x in open(cp)] if os.path.exists(cp) else []

    def params_of(i):
        if i < len(corpus):
            return dict(copy.deepcopy(corpus[i]), _id=f"corpus:{i}")
        rng = random.Random(f"{a.seed}:{prop}:{i}")
        p = check.gen(rng, a.tier)
        p["_id"] = f"{a.seed}:{i}"
        if prop in HASHED and rng.random() < (0.8 if prop == "C05" else 0.3):
            p["spec"]["hs"] = 1  # reference run in an interpreter with another hash seed
        return p

    if a.one is not None:
        p = params_of(a.one)
        print(json.dumps(p))
        r = exec_one(check, p)
        r.pop("decisions", None)
        print(json.dumps(r, indent=1)[:6000])
        return 0

    quick = a.tier == "quick"
    n = a.n or (check.quick_n if quick else check.thorough_n)
    cap = float(os.environ.get("VERIF_CAP", "420" if quick else "3000"))
    log = lambda s: print(s, flush=True)
    pool = Pool(check, timeout=45.0)
    viol = {}
    agg = dict(stats={}, probes={}, sims=0, steps=0, sim_time=0.0)
    hashes = set()
    shapes = set()
    done = invalid = 0
    harness = []
    timeouts = []
    known = load_known()
    known_hits = {}
    hashlog = {}

    def items():
        for i in range(a.start, a.start + n):
            yield i, params_of(i), None

    def stop():
        return bool(viol) and not a.all

    for i, r in pool.map(items(), stop=stop, deadline=t0 + cap):
        if r.get("timeout"):
            timeouts.append(i)
            continue
        if r.get("harness"):
            harness.append((i, r["harness"]))
            continue
        if r.get("invalid"):
            invalid += 1
            continue
        done += 1
        for k in ("stats", "probes"):
            for x, y in r[k].items():
                agg[k][x] = agg[k].get(x, 0) + y
        agg["sims"] += r["sims"]
        agg["steps"] += r["steps"]
        agg["sim_time"] += r["sim_time"]
        hashes.update(r["hashes"])
        hashlog[i] = [r["hashes"], r["ok"], r.get("sig")]
        if r.get("shape"):
            shapes.add(r["shape"])
        if not r["ok"]:
            f = next((f for f in known if matches(f, prop, check, params_of(i), r)), None)
            if f is not None:
                known_hits.setdefault(f["id"], [f, 0])[1] += 1
            else:
                viol[i] = r
    # A run that used up its wall time is repeated with a deterministic instruction budget.
    if timeouts and not viol:
        p2 = Pool(check, timeout=240.0, budget=20_000_000)
        for i, r in p2.map(((i, params_of(i), None) for i in timeouts[:4])):
            if r.get("timeout"):
                log(f"run {i}: no answer in time")  # inconclusive: an endless loop is found by its budget
            elif r.get("harness"):
                harness.append((i, r["harness"]))
            elif not r["ok"]:
                f = next((f for f in known if matches(f, prop, check, params_of(i), r)), None)
                if f is None:
                    viol[i] = r
    if a.hashes:
        json.dump(hashlog, open(a.hashes, "w"), sort_keys=True)

    for fid, (f, c) in sorted(known_hits.items()):
        log(f"KNOWN-FINDING: property={prop} {f['what']} ({c} runs)")
    rc = 0
    replays = []
    if viol:
        sigs = {}
        for i in sorted(viol):
            sigs.setdefault(viol[i]["sig"], []).append(i)
        if a.all:
            for s, l in sorted(sigs.items(), key=lambda x: -len(x[1])):
                log(f"SIG {s}: {len(l)} runs, e.g. {l[:6]}: {viol[l[0]]['msg'][:600]}")
        i = min(viol)
        if a.all and a.nomin:
            return 1
        r = viol[i]
        p = params_of(i)
        dec = r.get("decisions")
        if not a.nomin:
            try:
                p, dec = minimise(check, p, dec, r["sig"], 60.0 if quick else 240.0, log)
            except Exception as e:
                log("minimisation failed: " + repr(e))
        # The final run of the minimised scenario gives the reported message
        fin = None
        for _, x in Pool(check, timeout=120.0).map([(0, p, dec)]):
            fin = x
        if fin is None or fin.get("ok", True):
            p, dec, fin = params_of(i), r.get("decisions"), r
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{prop}-{r['sig'].replace('/', '_').replace(' ', '_')[:60]}.json")
        json.dump(
            dict(property=prop, seed=a.seed, index=i, params=p, decisions=dec, sig=r["sig"],
                 hashes=fin.get("hashes"), msg=fin.get("msg")),
            open(path, "w"), indent=1,
        )
        replays.append(path)
        log(f"seed={a.seed} index={i} sig={r['sig']}")
        log((fin.get("msg") or "")[:3000])
        log(f"VIOLATION property={prop} replay={path}")
        rc = 1
    wall = time.time() - t0
    if not rc and (harness or done == 0):
        for i, x in harness[:3]:
            log(f"HARNESS ERROR run {i}: {x[-1500:]}")
        log(f"{len(harness)} harness errors, {done} runs done")
        rc = 3
    write_evidence(check, prop, a, wall, n, done, invalid, agg, hashes, shapes, rc, replays,
                   known_hits, timeouts)
    log(
        f"{prop} {a.tier} seed={a.seed}: {done} scenarios, {agg['sims']} simulations, "
        f"{agg['steps']} steps, {agg['sim_time']:.0f}s simulated, {len(hashes)} distinct "
        f"executions, {invalid} invalid, {len(timeouts)} timeouts {timeouts[:5]}, wall {wall:.1f}s rc={rc}"
    )
    log("faults/events: " + json.dumps(agg["stats"], sort_keys=True))
    log("probes: " + json.dumps(agg["probes"], sort_keys=True))
    return rc


def do_replay(check, prop, path):
    d = json.load(open(path))
    res = None
    for _, r in Pool(check, timeout=240.0).map([(0, d["params"], d["decisions"])]):
        res = r
    if res and not res.get("ok", True) and res.get("sig") == d["sig"]:
        same = res.get("hashes") == d.get("hashes")
        print(res["msg"])
        print(f"replayed: sig={res['sig']} execution hash {'identical' if same else 'DIFFERENT'}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay did not reproduce:", json.dumps(res)[:1500])
    return 0


def write_evidence(check, prop, a, wall, n, done, invalid, agg, hashes, shapes, rc, replays,
                   known_hits, timeouts):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rng = random.Random(f"{a.seed}:{prop}:0")
    sample = check.gen(rng, a.tier)
    faults = {k: v for k, v in sorted(agg["stats"].items())}
    hours = max(wall, 1e-3) / 3600
    ev = dict(
        property=prop, tier=a.tier, seed=a.seed, level=check.level,
        coverage=dict(
            kind="exploration",
            evaluations=done,
            distinct_nontrivial=len(hashes),
            rule="distinct hashes of the complete event sequence of a simulated execution under a "
            "random schedule (who ran at which point, message deliveries, disk operations, faults)",
            samples=[json.loads(json.dumps(sample))],
            simulated_runs=agg["sims"],
            seeds_per_hour=round(done / hours),
            simulated_runs_per_hour=round(agg["sims"] / hours),
            scheduler_steps=agg["steps"],
            simulated_seconds=round(agg["sim_time"], 3),
            faults_and_events_fired=faults,
            reach_probes=dict(sorted(agg["probes"].items())),
            distinct_configuration_shapes=len(shapes),
            invalid_scenarios=invalid,
            wall_timeouts=len(timeouts),
            real_components=check.real,
            stub_components=check.stubs,
        ),
        assumptions=check.assumptions,
        violations=len(replays),
        wall_s=round(wall, 2),
    )
    if known_hits:
        ev["coverage"]["known_findings_hit"] = {k: v[1] for k, v in known_hits.items()}
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)


REAL = [
    "megatron.energon (all code of the loader, wrappers, flavors and rng from /repo)",
    "torch.utils.data DataLoader, _MultiProcessingDataLoaderIter and _worker_loop",
    "webdataset, tarfile, fsspec path handling, numpy/torch/python random generators",
]
STUBS = [
    "OS processes and fork (threads with swapped, deep-copied process state)",
    "multiprocessing queues/events/processes/pools, threading primitives, clocks, sleep",
    "local file system (in memory)", "SIGCHLD delivery", "garbage collector runs",
]
ASSUME = [
    "preemption happens at synchronisation, queue, clock and disk operations and at sampled source "
    "lines of savable_loader.py, worker.py and wrappers/base.py",
    "a forked worker gets a deep copy of what the loader hands to it and of the module state",
    "seeded search: absence of a violation is evidence, not proof",
]


class Check:
    level = "exploration"
    quick_n = 300
    thorough_n = 6000
    real = REAL
    stubs = STUBS
    assumptions = ASSUME

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, params, ctx):
        raise NotImplementedError

