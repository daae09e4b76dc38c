from .common import *


def gen_ops_to(rng, k, split):
    """Consume k batches, in a few steps; maybe through the end of the pass."""
    ops = []
    left = k
    while left:
        n = min(left, rng.choice([1, 2, 3, 5, 100]))
        ops.append(["next", n])
        left -= n
        if rng.random() < 0.15:
            ops.append(["sleep", rng.choice([0.01, 1.0, 30.0])])
    return ops


def needed(p):
    n = sum(60 if o[0] == "end" else o[1] for o in p["ops"] if o[0] in ("next", "end"))
    return n + p["more"] + p["after"] + 8 * p["spec"]["workers"]


class C01(Check):
    quick_n = 900
    thorough_n = 60000
    with_workers = True

    def gen(self, rng, tier):
        spec = engine.gen_spec(rng)
        if rng.random() < 0.12:
            spec["wrap"] = [w for w in gen_wraps(rng, spec)
                            if w[0] != "epochize" and (w[0] != "shuffle" or "rng" not in spec["enc"].values())]
        k = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 15, 22])
        ops = gen_ops_to(rng, k, spec["split"])
        if k and rng.random() < 0.15:
            ops = [["end", 60]]
        p = dict(spec=spec, ops=ops, more=rng.choice([0, 0, 1, 3, 8]), after=rng.choice([4, 8, 12, 20]),
                 sched=engine.gen_sched(rng), sched2=None, stalls=engine.gen_stalls(rng, 1))
        if rng.random() < 0.1:
            p["crash_at"] = rng.randint(50, 4000)
        return p

    def plan(self, p):
        inc0 = dict(ops=p["ops"] + [["save", "A"]] + ([["next", p["more"]]] if p["more"] else []))
        inc1 = dict(ops=[["next", p["after"]]], restore="A")
        return [inc0, inc1]

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        hist = engine.History()
        plan = self.plan(p)
        if p.get("crash_at"):
            plan[0]["crash_at"] = p["crash_at"]

        def root():
            engine.run_history(spec, plan[:1], hist)
            if "A" in hist.saves and not hist.errors:
                engine.run_history(spec, plan[1:], hist)

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, needed(p), e)
        if hist.errors:
            i, err = hist.errors[0]
            return proc_violation(err, "restore:" if i else "run:")
        if "A" not in hist.saves:
            ctx.probe("crash before save")
            return None
        sv = hist.saves["A"]
        pos = len([e for e in hist.inc[0][: sv["pos"]] if e[0] == "b"])
        got = content(hist.inc[1])
        disk.FS.snapshot() if False else None
        ref = engine.reference(spec, pos + max(p["after"], p["more"]) + 1)
        if ref.errors:
            return proc_violation(ref.errors[0][1], "reference:")
        want = content(ref.inc[0])
        first = content(hist.inc[0])
        if first != want[: len(first)]:
            ctx.probe("first run differs from reference")
            return None
        if pos == 0:
            ctx.probe("save before first batch")
        if len([e for e in hist.inc[0][: sv["pos"]] if e[0] == "end"]):
            ctx.probe("save after an epoch end")
        if hist.inc[0] and sv["pos"] and hist.inc[0][sv["pos"] - 1][0] == "end":
            ctx.probe("save exactly at the epoch end")
        if 0 < pos < spec["workers"]:
            ctx.probe("save before every worker delivered")
        v = diff_stream(got, want[pos:], "resumed stream differs",
                        f"after restoring the state saved at batch {pos}")
        if v:
            return v
        if len(got) < p["after"] and len(want) - pos > len(got):
            return Violation("resumed stream too short",
                             f"{len(got)} of {len(want) - pos} batches after the restore at {pos}")
        ctx.probe("compared batches", len(got))
        return None


CHECK = C01()
