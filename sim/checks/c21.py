import pickle
import traceback

import torch

from .common import *


def life(spec, ops, out, hist):
    """A training script which records how long every operation takes."""
    S = core.S
    loader = it = None
    try:
        t0, s0 = S.now, S.steps
        op = ["build"]
        loader = W.make_loader(spec)
        if spec.get("badsave"):
            break_saving(loader, *spec["badsave"])
        if hist.get("restore") is not None:
            loader.restore_state_rank(pickle.loads(hist["restore"]))
        for op in ops:
            for _ in range(op[1] if op[0] == "next" else 1):
                t0, s0 = S.now, S.steps
                if op[0] == "next":
                    if it is None:
                        it = iter(loader)
                    try:
                        b = next(it)
                        r = ("b", W.canon(b))
                        b = None
                    except StopIteration:
                        it = None
                        r = ("end",)
                elif op[0] == "save":
                    st = loader.save_state_rank()
                    r = ("save", st is not None)
                    hist["saved"] = pickle.dumps(st) if st is not None else None
                    st = None
                elif op[0] == "iter":
                    it = iter(loader)
                    r = ("iter",)
                else:
                    S.wait(lambda: False, op[1], "train")
                    r = ("slept",)
                out.append((op[0], r, t0, S.now, s0, S.steps))
    except Exception as e:
        out.append((op[0], ("err", type(e).__name__, str(e)[:200],
                            "".join(traceback.format_exception(e))[-1500:]), t0, S.now, s0, S.steps))
        e.__traceback__ = None
        del e
    t0, s0 = S.now, S.steps
    try:
        it = None
        loader = None
    except Exception as e:  # the signal handler may raise here
        out.append(("close", ("err", type(e).__name__, str(e)[:200], ""), t0, S.now, s0, S.steps))
        e.__traceback__ = None
        return
    out.append(("close", ("ok",), t0, S.now, s0, S.steps))


SAVE_ERR = {"os": OSError, "mem": MemoryError, "value": ValueError, "runtime": RuntimeError, "key": KeyError,
            "attr": AttributeError, "user": W.FatalSampleError}


def break_saving(loader, where, worker, calls, kind):
    """Let the worker fail to produce its state from the given call on."""
    wrap = loader.dataset
    tgt, name = (wrap, "get_checkpoint") if where == "request" else (wrap.dataset, "save_state")
    base = tgt.__class__

    def bad(self, *a):
        info = torch.utils.data.get_worker_info()
        if info is not None and info.id == worker:
            self._bad_calls = getattr(self, "_bad_calls", 0) + 1
            if self._bad_calls >= calls:
                core.S.count("failed_saves")
                raise SAVE_ERR[kind]("state is not available")
        return getattr(base, name)(self, *a)

    # (a method of the class, such that it belongs to the copy of the worker after the fork)
    tgt.__class__ = type(base.__name__, (base,), {name: bad})


class C21(Check):
    """Workers which die, fail, stall or are busy; oracle: time limits and the undisturbed run."""

    quick_n = 600
    thorough_n = 30000

    def gen(self, rng, tier):
        workers = rng.choice([1, 2, 2, 3, 4])
        spec = engine.gen_spec(rng, workers=workers, rng_ok=False, features=dict(fail=False))
        if rng.random() < 0.25:
            spec["loader"] = "basic"
        if rng.random() < 0.3 and spec["enc"].get("s") in ("sl", "rs"):
            spec["enc"]["slow"] = [rng.choice([0.5, 5.0, 60.0]), rng.choice([1, 3, 10])]
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops.append(["next", rng.choice([1, 2, 5, 12])])
            if rng.random() < 0.4 and spec.get("loader") != "basic":
                ops.append(["save", 0])
            if rng.random() < 0.2:
                ops.append(["sleep", rng.choice([0.01, 3.0, 30.0])])
            # (restarting the plain loader drops what its workers had prefetched, an amount the
            # schedule decides, so the reference stream is only comparable without it)
            if rng.random() < 0.1 and spec.get("loader") != "basic":
                ops.append(["iter", 0])
        p = dict(spec=spec, ops=ops, kill=None, sched=engine.gen_sched(rng, workers), stalls=[])
        mode = rng.choice(["kill", "kill", "kill", "close", "error", "badsave"])
        p["mode"] = mode
        if mode == "kill":
            p["kill"] = [rng.choice([rng.randint(1, 300), rng.randint(100, 1500), rng.randint(300, 6000)]),
                         rng.randrange(workers), rng.choice([-9, -9, -15, 0, 1])]
            p["sched"]["sigchld"] = rng.random() < 0.4
            if rng.random() < 0.2:
                p["stalls"] = engine.gen_stalls(rng, workers)
        elif mode == "badsave":
            spec["loader"] = "savable"
            spec["badsave"] = [rng.choice(["request", "request", "state"]), rng.randrange(workers),
                               rng.choice([1, 1, 2, 3]), rng.choice(sorted(SAVE_ERR))]
            ops.insert(rng.randint(1, len(ops)), ["save", 0])
        elif mode == "error":
            spec["enc"]["s"] = rng.choice(["sl", "rs"])
            if spec["enc"]["b"] == "gen":
                spec["enc"]["b"] = "list"
            spec["enc"]["fail"] = {"sample": {"fatal": rng.choice([3, 10, 40]),
                                              "exc": rng.choice(["mem", "import", "system", "fatal"])}}
            p["sched"]["sigchld"] = rng.random() < 0.7
        else:
            p["stalls"] = [[rng.randint(50, 3000), rng.randint(0, 10), rng.choice([3.0, 40.0, 100000.0])]
                           for _ in range(rng.randint(0, 3))]
            p["busy_close"] = True
        return p

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        if not spec["workers"]:
            raise Invalid("no workers")
        setup_disk(spec)
        ctx.shape = f"{spec_shape(spec)}/{p['mode']}/{p['kill'] and p['kill'][2]}"
        nn = sum(o[1] for o in p["ops"] if o[0] == "next")
        bad = spec.get("badsave")
        if bad and (bad[0] not in ("request", "state") or bad[3] not in SAVE_ERR or spec.get("loader") == "basic"):
            raise Invalid("badsave")
        quiet = {k: v for k, v in spec.items() if k != "badsave"}
        quiet["enc"] = {k: v for k, v in spec["enc"].items() if k != "slow" and (k != "fail" or p["mode"] != "error")}
        ref = []
        try:
            rt.run_sim(dict(seed=0, strategy="fifo", hang_idle=60.0, max_steps=100000),
                       lambda: rt.spawn("ref", life, quiet, [["next", nn + 2]], ref, {}).wait())
        except (SimHang, SimLimit):
            raise Invalid("reference")
        want = [e[1] for e in ref if e[0] == "next" and e[1][0] in ("b", "end")]
        if len(want) < nn + 2 or want.count(("end",)) * 2 > len(want):
            raise Invalid("reference")
        out, st, hist = [], {}, {}

        def root():
            hd = st["h"] = rt.spawn("train", life, spec, p["ops"], out, hist)
            stalls = sorted(p["stalls"])

            def hook(s):
                ws = sorted((c for c in hd.proc.children if c.mpproc is not None), key=lambda c: c.pid)
                while stalls and s.steps >= stalls[0][0] and ws:
                    _, i, dur = stalls.pop(0)
                    w = ws[i % len(ws)]
                    if w.alive:
                        w.stalled_until = max(w.stalled_until or 0, s.now + dur)
                        s.count("stalls")
                        st.setdefault("stalled", []).append((s.now, s.now + dur))
                k = p["kill"]
                if k and "killed" not in st and s.steps >= k[0] and len(ws) > k[1] and ws[k[1]].alive:
                    w = ws[k[1]]
                    # the exit of the loader is no failure
                    if any(e[0] == "close" for e in out) or st.get("closing"):
                        return
                    st["killed"] = (s.now, s.steps)
                    s.count("worker_kills")
                    w.kill(k[2])

            core.S.step_hooks.append(hook)
            hd.wait()

        cfg = dict(p["sched"])
        longest = max([0.0] + [x[2] for x in p["stalls"]])
        slow = spec["enc"].get("slow", [0])[0] * 60
        cfg["hang_idle"] = cfg["hang_idle"] + (longest if longest < 1000 else 200) + slow
        forever = longest > 1000
        try:
            ctx.sim(root, cfg=cfg, stalls=[])
        except (SimHang, SimLimit) as e:
            if forever and not any(x[0] == "close" for x in out) and "killed" not in st:
                # The request for data waits for the stalled worker, which lives
                ctx.probe("waits for a stalled worker")
                return None
            return stuck(e, "%s: " % ("after a worker died" if "killed" in st else p["mode"]))
        if st["h"].err:
            return proc_violation(st["h"].err)
        # One simulated step takes up to a tick: not part of the waiting
        tick = cfg.get("tick", 0.02)
        delay = cfg.get("q_delay", 0.0)
        got = [e[1] for e in out if e[0] == "next" and e[1][0] in ("b", "end")]
        errs = [e for e in out if e[1][0] == "err"]
        for i, g in enumerate(got):
            if g != want[i] and (g[0] != want[i][0] or g[1][0] != want[i][1][0]):
                if p["mode"] == "error":
                    return Violation("data of a failed worker is missing without an error",
                                     f"batch {i}: expected {brief(want[i])}\n received {brief(g)}")
                return Violation("wrong or missing data around a dying worker",
                                 f"batch {i}: expected {brief(want[i])}\n received {brief(g)}")
        died = st.get("killed")
        for op, r, t0, t1, s0, s1 in out:
            wait = t1 - max(t0, died[0]) if died else t1 - t0
            wait -= tick * (s1 - s0)
            lim = 15.0 + 3 * delay + 2 * slow + sum(min(x[2], 1000.0) for x in p["stalls"])
            if op == "close":
                lim = 5.5 * spec["workers"] + 6.0 + 3 * delay
                if wait > lim:
                    return Violation("closing takes too long", f"{wait:.1f} s, limit {lim:.1f} s")
                ctx.probe("closed" + (" with stalled workers" if any(a <= t0 <= b for a, b in st.get("stalled", [])) else ""))
            elif op != "sleep" and died and t1 >= died[0] and wait > lim:
                return Violation("a dead worker is reported too late", f"{op} took {wait:.1f} s after the death: {r[:3]}")
            if died and t0 > died[0] and op == "save" and r[0] == "save":
                return Violation("state of a dead worker", f"{r}")
        if bad and errs:
            if errs[0][1][1] != SAVE_ERR[bad[3]].__name__ or (bad[0] == "request") != (errs[0][0] == "save"):
                return proc_violation(rt.ProcError(errs[0][1][1], errs[0][1][2], errs[0][1][3]), "failing state: ")
            ctx.probe("state failed, error raised")
        if bad and bad[0] == "request" and not errs:
            saves = [e for e in out if e[0] == "save" and e[1] == ("save", True)]
            if len(saves) >= bad[2]:
                return Violation("a failed request for the state is not reported", f"{saves}")
        if errs and not died and not bad and p["mode"] != "error":
            return proc_violation(rt.ProcError(errs[0][1][1], errs[0][1][2], errs[0][1][3]))
        if died:
            ctx.probe("killed, error raised" if errs else "killed, not needed any more")
            after = [e for e in out if e[0] == "next" and e[2] > died[0] and e[1][0] == "b"]
            if len(after) > 4 * spec["workers"] + 2:
                return Violation("batches are delivered without the dead worker", f"{len(after)}")
        if p["mode"] == "error" and errs:
            ctx.probe("failed, error raised")
        return None


CHECK = C21()
