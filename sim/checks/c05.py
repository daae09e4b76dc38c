from .common import *


class C05(Check):
    quick_n = 550
    thorough_n = 30000

    def gen(self, rng, tier):
        workers = rng.choice([0, 1, 2, 2, 3, 4, 5])
        world = rng.choice([1, 1, 2, 3])
        spec = engine.gen_spec(rng, workers=workers, world=world)
        if rng.random() < 0.25:
            spec["loader"] = "basic"
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append(rng.choice([["next", 3], ["next", 7], ["next", 12], ["end", 30], ["sleep", 6.0], ["save", "x"]]))
        if spec.get("loader") == "basic":
            ops = [o for o in ops if o[0] != "save"]
        ops.append(["next", rng.choice([2, 6])])
        return dict(spec=spec, ops=ops, rank=rng.randint(0, world - 1), sched=engine.gen_sched(rng, workers),
                    again=rng.random() < 0.3, stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        if p["rank"] >= spec["world"]:
            raise Invalid("rank")
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        hist = engine.History()
        total = sum(30 if o[0] == "end" else o[1] for o in p["ops"] if o[0] in ("next", "end"))
        inc = dict(ops=p["ops"], again=p["again"])
        try:
            ctx.sim(lambda: engine.run_history(spec, [inc], hist, rank=p["rank"]))
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, total * 2 + 8 * spec["workers"], e, rank=p["rank"])
        if hist.errors:
            return proc_violation(hist.errors[0][1], "run:")
        ops = [o for o in p["ops"] if o[0] not in ("save", "sleep")]
        ref = engine.reference(spec, 0, rank=p["rank"], ops=ops)
        if ref.errors:
            return proc_violation(ref.errors[0][1], "reference:")
        want = [e for e in ref.inc[0]]
        got = hist.inc[0]
        parts = [got]
        if ("again",) in got:
            i = got.index(("again",))
            parts = [got[:i], got[i + 1:]]
        for k, part in enumerate(parts):
            for i, g in enumerate(part):
                if i >= len(want) or g != want[i]:
                    return Violation(
                        "stream depends on timing" if k == 0 else "building the loader again gives another stream",
                        f"event {i}\n expected {brief(want[i] if i < len(want) else None)}\n received {brief(g)}")
            if len(part) != len(want):
                return Violation("stream depends on timing", f"{len(part)} events instead of {len(want)}")
            ctx.probe("compared events", len(part))
        return None


CHECK = C05()
