from collections import Counter

from .stages import *


def keys_of(c):
    """The identity of a delivered batch without indexes and random values."""
    return model.canon(c)


class C13(Check):
    """Conservation through shuffle buffer, batching, grouping and packing."""

    quick_n = 550
    thorough_n = 40000

    def gen(self, rng, tier):
        workers = rng.choice([0, 0, 1, 2, 3])
        mode = rng.choice(["stages", "stages", "stages", "buffer", "wrap"])
        split = {"buffer": "train", "wrap": "val"}.get(mode)
        spec = engine.gen_spec(rng, split=split, workers=workers, features=dict(fail=False))
        spec.pop("limit", None)
        if mode == "stages":
            e = spec["enc"]
            if rng.random() < 0.4:
                # More of the stages which hold samples back
                if rng.random() < 0.5 and e["b"] != "none" and e["s"] != "rng":
                    e.update(g="grp", gsize=rng.random() < 0.6, b=rng.choice(["list", "rs"]),
                             e=rng.choice(["none", "none", "sl", "gen"]))
                    spec["bs"] = None if e["gsize"] else rng.choice([2, 3, 4])
                elif "p" not in e and e["s"] != "rng":
                    e.update(p=rng.choice(["sl", "rs", "gen"]), pv=rng.randint(0, 1))
                    spec["pbs"] = rng.randint(2, 7)
            if spec["split"] == "val" and rng.random() < 0.2:
                spec["wrap"] = [["filter"]]
        elif mode == "buffer":
            spec = model.source_spec(spec)
            spec["sbs"] = rng.choice([2, 3, 5, 8, 20])
        else:
            spec["wrap"] = [["shuffle", rng.choice([1, 2, 3, 6, 30])]]
        if spec.get("wrap"):
            e = spec["enc"]
            e.update({k: "rs" for k in ("s", "b", "e") if e.get(k) == "rng"})
        for d in spec["data"]:
            while sum(d["shards"]) < 6 * max(workers, 1):
                d["shards"] = [x + 1 for x in d["shards"]]
        return dict(spec=spec, mode=mode, plan=gen_plan(rng, workers, tier == "quick"),
                    sched=engine.gen_sched(rng, workers), stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        if p["mode"] == "stages":
            if p["spec"].get("wrap") not in (None, [["filter"]]):
                raise Invalid("wrap")
            return run_stages(self, p, ctx, False)
        return (run_buffer if p["mode"] == "buffer" else run_wrap)(p, ctx)


def live(p, ctx):
    hist = engine.History()
    try:
        ctx.sim(lambda: engine.run_history(p["spec"], p["plan"], hist))
    except (SimHang, SimLimit) as e:
        return None, stuck(e)
    if hist.errors:
        return None, proc_violation(hist.errors[0][1])
    return effective(hist), None


def run_buffer(p, ctx):
    """The output is, at any point, the input without the samples in the buffer."""
    spec = p["spec"]
    if spec["split"] != "train" or spec["enc"].get("b") != "none" or spec.get("wrap") or spec.get("vel"):
        raise Invalid("mode")
    if not spec.get("sbs") or spec["sbs"] < 2:
        raise Invalid("buffer")
    check_spec(spec)
    setup_disk(spec)
    W0 = max(spec["workers"], 1)
    n = (nops(p["plan"]) + 2) * 2 + spec["sbs"] * W0
    try:
        src = model.sources(dict(spec, sbs=None), n)
    except (SimHang, SimLimit):
        raise Invalid("no samples")
    ev, v = live(p, ctx)
    if v:
        return v
    for w in range(W0):
        got = [e[1][0] for e in ev if e[0] == "b" and engine.worker_of(spec, 0, e[1]) == w]
        got = [(g[1][0][0], g[1], g[3]) for g in got]
        want = [(x.key, x.items, x.flav) for x in src[w]]
        left = Counter(want[: spec["sbs"]])
        j = spec["sbs"]
        for i, g in enumerate(got):
            if left[g] <= 0:
                if j >= len(want):
                    raise Invalid("reference too short")
                if g not in want[:j]:
                    return Violation("sample out of the buffer's reach", f"worker {w} output {i}: {brief(g)}")
                return Violation("sample twice out of the buffer", f"worker {w} output {i}: {brief(g)}")
            left[g] -= 1
            if j < len(want):
                left[want[j]] += 1
            j += 1
        ctx.probe("buffered samples", len(got))
    return None


def run_wrap(p, ctx):
    """A pass over a shuffled finite stream has exactly its items."""
    spec = p["spec"]
    if spec["split"] != "val" or [w[0] for w in spec.get("wrap", [])] != ["shuffle"]:
        raise Invalid("mode")
    check_spec(spec)
    setup_disk(spec)
    W0 = max(spec["workers"], 1)
    try:
        src = model.sources(spec, 0)
    except (SimHang, SimLimit):
        raise Invalid("no samples")
    inner = dict(spec)
    inner.pop("wrap")
    want = [model.expected(inner, s, 0) for s in src]
    want = [w[0][: w[1]] if w[1] else [] for w in want]
    ev, v = live(p, ctx)
    if v:
        return v
    cur = [Counter() for _ in range(W0)]
    tot = [Counter(w) for w in want]
    for e in ev:
        if e[0] == "b":
            w = engine.worker_of(spec, 0, e[1])
            x = model.canon(e[1])
            cur[w][x] += 1
            if cur[w][x] > tot[w][x]:
                return Violation("sample twice out of the buffer" if tot[w][x] else "unknown item",
                                 f"worker {w}: {brief(x)}")
            ctx.probe("buffered samples")
        elif e[0] == "end":
            if cur != tot:
                w = next(i for i in range(W0) if cur[i] != tot[i])
                return Violation("samples lost in the buffer",
                                 f"worker {w}: {brief(list((tot[w] - cur[w]).elements()))}")
            cur = [Counter() for _ in range(W0)]
            ctx.probe("complete passes")
    return None


CHECK = C13()
