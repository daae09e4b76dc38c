"""Common part of the checks which compare with the model of the stages."""
from .common import *
from .. import model


def gen_plan(rng, workers, quick=True):
    """Process lives with kills; returns (plan, number of batches kept)."""
    plan = []
    for j in range(rng.choice([1, 1, 2, 2, 3] if quick else [1, 2, 3, 4, 5])):
        ops = [["next", rng.choice([1, 2, 3, 5, 9])] for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.15:
            ops.append(["end", 40])
        ops.append(["save", f"s{j}"])
        if rng.random() < 0.5:
            ops.append(["next", rng.choice([1, 2, 4])])
        plan.append(dict(ops=ops))
        if j:
            plan[-1]["restore"] = f"s{j - 1}"
    return plan


def nops(plan):
    return sum(40 if o[0] == "end" else o[1] for i in plan for o in i["ops"] if o[0] in ("next", "end"))


def effective(hist):
    """The combined event stream: every life continues at its restored save point."""
    ev = []
    for j in range(len(hist.inc)):
        cur = hist.inc[j]
        sv = [s for s in hist.saves.values() if s["inc"] == j]
        if j + 1 < len(hist.inc) and sv:
            cur = cur[: sv[-1]["pos"]]
        ev += cur
    return ev


def run_stages(check, p, ctx, fatal_ok):
    spec = p["spec"]
    check_spec(spec)
    bad = any(d.get("bad") for d in spec["data"])
    setup_disk(dict(spec, data=[{k: v for k, v in d.items() if k != "bad"} for d in spec["data"]]))
    ctx.shape = spec_shape(spec)
    W0 = max(spec["workers"], 1)
    rank = p.get("rank", 0)
    if rank >= spec.get("world", 1):
        raise Invalid("rank")
    total = nops(p["plan"])
    # What the model expects
    n = max(60, 3 * total)
    while True:
        try:
            src = model.sources(spec, n, rank)
        except (SimHang, SimLimit):
            raise Invalid("no samples")
        want = [model.expected(spec, s, total + 1) for s in src]
        if spec["split"] == "train" and any(w[1] == "more" and len(w[0]) < total // W0 + 2 for w in want):
            if not any(src):
                raise Invalid("no samples")
            n *= 2
            if n > 4000:
                raise Invalid("the pipeline delivers too few batches")
            continue
        break
    if bad:
        setup_disk(spec)
    hist = engine.History()
    try:
        ctx.sim(lambda: engine.run_history(spec, p["plan"], hist, rank))
    except (SimHang, SimLimit) as e:
        if all(not w[0] for w in want):
            raise Invalid("no batches")
        return stuck(e)
    ev = effective(hist)
    got = [[] for _ in range(W0)]
    for e in ev:
        if e[0] == "b":
            got[engine.worker_of(spec, rank, e[1])].append(model.canon(e[1]))
        elif e[0] == "end" and spec["split"] == "val":
            for w in range(W0):
                if want[w][2] or want[w][1] is None:
                    continue
                if (want[w][1] and len(got[w]) % want[w][1]) or (not want[w][1] and got[w]):
                    return Violation("a pass ended early or late",
                                     f"worker {w} delivered {len(got[w])} batches, a pass has {want[w][1]}")
    for w in range(W0):
        for i, g in enumerate(got[w]):
            x = want[w][0]
            if i >= len(x):
                if want[w][1] == "more":
                    raise Invalid("reference too short")
                return Violation("more batches than expected", f"worker {w} batch {i}: {brief(g)}")
            if g != x[i]:
                return Violation(
                    "batch differs from the model of the stages",
                    f"worker {w} batch {i}:\n expected {brief(x[i], 500)}\n received {brief(g, 500)}")
        ctx.probe("compared batches", len(got[w]))
    if any(w[2] for w in want):
        ctx.probe("fatal error in the model")
    if hist.errors:
        err = hist.errors[0][1]
        # The error has to be the next thing of one of the workers
        if fatal_ok and any(w[2] and len(got[i]) == len(w[0]) for i, w in enumerate(want)):
            ctx.probe("fatal error surfaced")
            if not bad and not spec.get("wrap") and "FatalSampleError" not in err.kind + err.msg + err.tb:
                return Violation("wrong error", f"{err.kind}: {err.msg}")
            return None
        return proc_violation(err)
    for i, w in enumerate(want):
        if w[2] and len(got[i]) >= len(w[0]) and ("end",) in ev and spec["split"] == "val":
            return Violation("a fatal error was swallowed", f"worker {i}")
    if ("dry",) in ev:
        if spec.get("wrap") and spec.get("vel"):
            raise Invalid("a few virtual epochs in a row of which the wrapper drops everything")
        if any(w[0] for w in want):
            return Violation("no more batches", f"expected {[len(w[0]) for w in want]}")
        raise Invalid("no batches")
    return None
