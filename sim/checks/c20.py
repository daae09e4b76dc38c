from .common import *
from .stages import effective, gen_plan, nops


class C20(Check):
    """Numbers visible to user functions; oracles: counting of the delivered batches and calls, and
    the uninterrupted run."""

    quick_n = 600
    thorough_n = 30000

    def gen(self, rng, tier):
        workers = rng.choice([0, 0, 1, 2, 3, 4])
        world = rng.choice([1, 1, 2, 3])
        f = dict(s=["sl", "sl", "rs", "gen", "genrs"], nobatch=rng.random() < 0.3)
        if rng.random() < 0.5:
            f.update(fail=False, s=["sl", "rs"], bgen=False, e=["none", "sl", "rs"], pack=False, group=False)
        spec = engine.gen_spec(rng, workers=workers, world=world, rng_ok=False, features=f)
        for d in spec["data"]:
            while sum(d["shards"]) < 4 * max(workers, 1) * world:
                d["shards"] = [x + 1 for x in d["shards"]]
        plan = gen_plan(rng, workers, tier == "quick")
        if rng.random() < 0.15:
            spec["loader"] = "basic"
            plan = [dict(ops=[["next", rng.randint(1, 25)]])]
        return dict(spec=spec, plan=plan, sched=engine.gen_sched(rng, workers),
                    stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        e = spec["enc"]
        if spec.get("loader") == "basic" and len(p["plan"]) > 1:
            raise Invalid("not savable")
        if "rng" in e.values():
            raise Invalid("rng")
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        n = nops(p["plan"]) + 1
        try:
            rr = ctx.sim(lambda: engine.run_ranks(spec, plans=[p["plan"]] * spec["world"]))
        except (SimHang, SimLimit) as ex:
            return stuck_or_empty(spec, n, ex, None)
        if rr.errors():
            return proc_violation(rr.errors())
        for r in range(spec["world"]):
            ev = effective(rr.hist[r])
            v = self.numbers(spec, r, ev, ctx)
            if v:
                return v
            if len(p["plan"]) > 1:
                ref = engine.reference(spec, n, r)
                if ref.errors or ("dry",) in ref.inc[0]:
                    raise Invalid("reference")
                # A function which is called again to restore a buffer sees the current batch number
                cut = lambda ix: tuple(y[:2] for y in ix[:-1]) + ix[-1:]  # noqa: E731
                got = [(e[1][0], cut(e[1][1])) for e in ev if e[0] == "b"]
                want = [(e[1][0], cut(e[1][1])) for e in ref.inc[0] if e[0] == "b"]
                for i, (a, b) in enumerate(zip(got, want)):
                    if a[0] == b[0] and a[1] != b[1]:
                        return Violation("numbers differ after a resume",
                                         f"rank {r} batch {i}:\n expected {brief(b[1], 400)}\n received {brief(a[1], 400)}")
                ctx.probe("batches compared with the uninterrupted run", len(got))
        return None

    def numbers(self, spec, r, ev, ctx):
        e = spec["enc"]
        W0 = max(spec["workers"], 1)
        lazy = e.get("e") == "gen" or e["b"] == "gen"
        gen = "gen" in e.get("s", "") or lazy or e.get("p") == "gen"
        simple = not (gen or e.get("fail") or "p" in e or "g" in e or spec.get("drop_last"))
        batched = e["b"] != "none"
        at = [0] * W0  # delivered batches of the worker
        last = {}  # (worker, stage) -> last sample number
        seen = {}  # (stage, number) -> what it was for
        for x in ev:
            if x[0] == "end" and spec["split"] == "val" and spec.get("limit"):
                # Every pass starts over with the dataset
                last, seen = {}, {}
            if x[0] != "b":
                continue
            c = x[1]
            w = engine.worker_of(spec, r, c)
            if not c[1]:
                at[w] += 1
                continue
            want = at[w] * W0 + w
            got = c[1][-1][2]
            if (batched or "p" not in e) and got != want:
                return Violation("wrong batch number",
                                 f"rank {r} worker {w}: number {got} for its batch {at[w]} of {W0} workers: {brief(c[1])}")
            at[w] += 1
            ctx.probe("batch numbers")
            src = c[0][1] if c[0][0] == "B" else (c[0][1],)
            k = 0
            for stage, si, bi in c[1]:
                if si % W0 != w or bi % W0 != w:
                    return Violation("number of another worker", f"rank {r} worker {w}: {(stage, si, bi)}")
                if bi > want:
                    return Violation("number of a later batch", f"rank {r} worker {w}: {(stage, si, bi)} in {want}")
                what = None
                if stage == "s" and "p" not in e and batched:
                    what = src[k][0][0].split("#")[0] if k < len(src) else None
                    k += 1
                elif stage in ("b", "e"):
                    what = src
                if what is not None:
                    o = seen.get((stage, si))
                    if o is not None and (o != what or not gen):
                        return Violation("sample number used twice",
                                         f"rank {r} {stage} {si}: {brief(o)} and {brief(what)}")
                    seen[(stage, si)] = what
                lo = last.get((w, stage))
                if stage in ("b", "e") and lo is not None and (si < lo or (si == lo and not gen)):
                    return Violation("sample number does not increase", f"rank {r} worker {w} {stage}: {si} after {lo}")
                if simple and si != (w if lo is None else lo + W0):
                    return Violation("gap in the sample numbers",
                                     f"rank {r} worker {w} {stage}: {si} after {lo} with {W0} workers")
                if simple:
                    ctx.probe("consecutive sample numbers")
                last[(w, stage)] = si
        return None


CHECK = C20()
