from .common import *
from .c06 import gen_exclude


class C09(Check):
    quick_n = 600
    thorough_n = 40000

    def gen(self, rng, tier):
        workers = rng.choice([0, 0, 1, 2, 3])
        world = rng.choice([1, 1, 2, 3])
        spec = engine.gen_spec(rng, workers=workers, world=world, rng_ok=False)
        if rng.random() < 0.3:
            spec["data"] = spec["data"][:1]
            spec.pop("meta", None)
            gen_exclude(rng, spec, 1.0)
        total = max(workers, 1) * world
        for d in spec["data"]:
            while sum(d["shards"]) < 2 * total:
                d["shards"] = [x + 1 for x in d["shards"]]
        if rng.random() < 0.2:
            spec["loader"] = "basic"
        if rng.random() < 0.06:
            st = ["encode_sample"] + ["batch"] * bool(spec["bs"]) + ["pack_selected_samples"] * bool(spec.get("pbs"))
            if spec["bs"] and spec["enc"].get("e", "none") != "none" and not spec["enc"].get("g"):
                st.append("encode_batch")
            spec["enc"]["unst"] = rng.choice(st)
            spec.pop("wrap", None)
            return dict(spec=spec, refuse=True, sched=engine.gen_sched(rng, workers), stalls=[])
        n = rng.randint(2, 16)
        pre = rng.choice([0, 0, rng.randint(1, n)])
        post = rng.choice([0, rng.randint(1, 6)])
        if rng.random() < 0.25:
            k = rng.choice(["itermap", "itermap", "maplog", "filter", "itergen", "itergen"])
            if k == "itergen" or spec["enc"].get("e") == "gen" or spec["enc"]["b"] == "gen":
                k = "itergen"
            spec["wrap"] = [[k]]
            for d in spec["data"]:
                while sum(d["shards"]) < 12 * total * (spec["bs"] or 1):
                    d["shards"] = [x + 1 for x in d["shards"]]
        if spec.get("wrap") == [["itergen"]]:
            # (Not resumable in the middle of the outputs of an input)
            return dict(spec=spec, n=n, cut=None, pre=pre, post=post, rank=rng.randrange(world), resume=False,
                        picks=[rng.randrange(n * world) for _ in range(rng.randint(1, 6))],
                        sched=engine.gen_sched(rng, workers), stalls=engine.gen_stalls(rng, workers))
        return dict(spec=spec, n=n, cut=rng.choice([None, None, rng.randint(0, n)]), pre=pre, post=post,
                    rank=rng.randrange(world), picks=[rng.randrange(n * world) for _ in range(rng.randint(1, 6))],
                    resume=rng.random() < 0.4,
                    sched=engine.gen_sched(rng, workers), stalls=engine.gen_stalls(rng, workers))

    def refuse(self, p, ctx, spec):
        """A pipeline with a function which can not be repeated refuses to."""
        ctx.shape = spec_shape(spec) + "/refuse"
        h = engine.History()
        try:
            ctx.sim(lambda: engine.run_history(spec, [dict(ops=[["refuse"]])], h))
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, 2, e)
        if h.errors:
            if "StopIteration" in str(h.errors[0][1]) or spec["enc"].get("fail"):
                raise Invalid("no data")
            if spec.get("pbs") or spec.get("sbs") or spec["enc"].get("g"):
                raise Invalid("buffers of such samples can not be saved")
            return proc_violation(h.errors[0][1], "run:")
        _, can, r = h.inc[0][-1]
        if can or r[0] != "AssertionError":
            return Violation("an item which can not be repeated was restored", f"{spec['enc']['unst']}: {can} {brief(r)}")
        ctx.probe("refused")
        return None

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        setup_disk(spec)
        if p.get("refuse"):
            return self.refuse(p, ctx, spec)
        ctx.shape = spec_shape(spec) + f"/{p['pre']}/{p['post']}"
        n = p["n"]
        if spec.get("wrap") == [["itergen"]] and (p["cut"] is not None or p["resume"]):
            raise Invalid("not resumable")
        basic = spec.get("loader") == "basic"
        if p["cut"] is not None and not basic:
            plan = [dict(ops=[["next", p["cut"]], ["save", "A"], ["next", 2]]),
                    dict(ops=[["next", n - p["cut"]]], restore="A")]
        else:
            plan = [dict(ops=[["next", n]])]
        rank = p["rank"]
        res = {}

        def go():
            rr = engine.run_ranks(spec, plans=[plan] * spec["world"])
            if rr.errors():
                res["first"] = rr
                return
            h2 = engine.History()
            h2.keys = [e[1] for h_ in rr.hist for inc in h_.inc for e in inc if e[0] == "b"]
            res["own"] = [r == rank for r, h_ in enumerate(rr.hist) for inc in h_.inc for e in inc if e[0] == "b"]
            picks = [i % max(len(h2.keys), 1) for i in p["picks"]]
            ops = []
            if p["pre"]:
                ops.append(["next", p["pre"]])
            if p["pre"] and p["resume"] and not basic:
                ops.append(["save", "B"])
            half = len(picks) // 2
            if p["post"]:
                ops.append(["bykey", picks[:half]])
                ops.append(["next", p["post"]])
                ops.append(["bykey", picks[half:]])
                ops.append(["next", 1])
            else:
                ops.append(["bykey", picks])
            plan2 = [dict(ops=ops)]
            if p["pre"] and p["resume"] and not basic:
                plan2.append(dict(ops=[["bykey", picks], ["next", 2]], restore="B"))
            res["first"], res["second"] = rr, h2
            engine.run_history(spec, plan2, h2, rank)

        try:
            ctx.sim(go)
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, n + 6, e, None)
        rr, h2 = res["first"], res.get("second")
        if rr.errors():
            return proc_violation(rr.errors(), "run:")
        if h2.errors:
            err = h2.errors[0][1]
            return proc_violation(err, "restore:")
        try:
            ref = engine.reference(spec, p["pre"] + p["post"] + 4, rank)
        except (SimHang, SimLimit):
            raise Invalid("reference")
        if ref.errors:
            raise Invalid("reference")
        want = content(ref.inc[0])
        start = 0
        for i, inc in enumerate(h2.inc):
            for e in inc:
                if e[0] != "k":
                    continue
                ctx.probe("restored by key")
                orig, got = h2.keys[e[1]], e[2]
                if got is None:
                    if res["own"][e[1]]:
                        return Violation("key not restorable on its own rank", f"key {brief(orig[2])}")
                    continue
                if got[0] != orig[0]:
                    return Violation("restored by key differs",
                                     f"key {brief(orig[2])}\n expected {brief(orig[0])}\n received {brief(got[0])}")
                if got[2] != orig[2]:
                    return Violation("restored item carries another restore key",
                                     f"expected {brief(orig[2], 400)}\n received {brief(got[2], 400)}")
                if [x[:2] for x in got[1]] != [x[:2] for x in orig[1]]:
                    return Violation("restored with another sample index",
                                     f"key {brief(orig[2])}\n expected {brief(orig[1], 400)}\n received {brief(got[1], 400)}")
            pos = p["pre"] if i else 0
            v = diff_stream(content(inc), want[pos:], "restoring by key changed the iteration", f"life {i}")
            if v:
                return v
        return None


CHECK = C09()
