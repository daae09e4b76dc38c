from .stages import *

EXC = ["mem", "import", "name", "system", "recursion", "reference", "fatal", "stop"]


class C12(Check):
    """Failing user functions; oracle: the model of the stages."""

    quick_n = 600
    thorough_n = 40000

    def gen(self, rng, tier):
        workers = rng.choice([0, 0, 1, 2, 3])
        spec = engine.gen_spec(rng, workers=workers, features=dict(fail=False))
        spec.pop("limit", None)
        e = spec["enc"]
        st = []
        if e["s"] in ("sl", "rs", "rng"):
            st.append("sample")
        if e["s"] == "gen":
            st.append("gen")
        if e.get("b") != "none":
            st += ["batch"]
        if e.get("e") in ("sl", "rs"):
            st.append("ebatch")
        if e.get("p") in ("sl", "rs"):
            st.append("pack")
        if e.get("p") == "sl":
            st.append("prepack")
        if e.get("g") == "grp":
            st.append("group")
        f = {}
        for s in rng.sample(st, rng.randint(1, len(st))) if st else []:
            f[s] = {"skip": rng.choice([0, 10, 30]), "err": rng.choice([0, 10, 30])}
        if st and rng.random() < 0.3:
            s = rng.choice([x for x in st if x != "gen"] or ["sample"])
            f.setdefault(s, {})["fatal"] = rng.choice([3, 10])
            f[s]["exc"] = rng.choice(EXC)
        if e.get("cook") and rng.random() < 0.5:
            e["cook"] = "cookf"
            f["cook"] = {"skip": rng.choice([0, 10, 30]), "err": rng.choice([0, 10, 30])}
        if e.get("b") == "gen" and f.get("batch", {}).get("exc") == "stop":
            f["batch"]["exc"] = "mem"  # a generator cannot raise StopIteration
        e["fail"] = f
        if rng.random() < 0.25:
            spec["wrap"] = [[rng.choice(["itermap", "itermap", "maplog", "mapraise"])]]
            if e["b"] == "gen" or e.get("e") == "gen":
                spec["wrap"] = [["mapraise"]]
        for d in spec["data"]:
            while sum(d["shards"]) < 10 * max(workers, 1):
                d["shards"] = [x + 1 for x in d["shards"]]
        if rng.random() < 0.2:
            spec.pop("sbs", None)  # (the broken samples do not enter the shuffle buffer)
            d = rng.choice(spec["data"])
            ks = [k for i in range(len(d["shards"])) for k in W.shard_keys(d, i)]
            d["bad"] = rng.sample(ks, rng.randint(1, min(4, len(ks))))
            if rng.random() < 0.7:
                spec["handler"] = "log"
        return dict(spec=spec, plan=gen_plan(rng, workers, tier == "quick"), sched=engine.gen_sched(rng, workers),
                    stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        return run_stages(self, p, ctx, True)


CHECK = C12()
