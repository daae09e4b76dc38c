from .common import *


class C08(Check):
    quick_n = 450
    thorough_n = 25000

    def gen(self, rng, tier):
        total = rng.choice([2, 2, 3, 4, 4, 6, 8])
        splits = [(w, total // w) for w in range(1, total + 1) if total % w == 0]
        a = rng.choice(splits)
        b = rng.choice([s for s in splits if s != a] or splits)
        if rng.random() < 0.25:
            b = (total, 0)
        spec = engine.gen_spec(rng, workers=max(a[1], 1), world=a[0], rng_ok=False)
        no_random(spec["enc"])
        for d in spec["data"]:
            while sum(d["shards"]) < total and rng.random() < 0.8:
                d["shards"] = [x + 1 for x in d["shards"]]
        while sum(spec["data"][0]["shards"]) < total:
            spec["data"][0]["shards"] = [x + 1 for x in spec["data"][0]["shards"]]
        spec.pop("vel", None)
        spec.pop("limit", None)
        return dict(spec=spec, a=a, b=b, n=rng.choice([3, 6, 10]), sched=engine.gen_sched(rng, 1),
                    stalls=engine.gen_stalls(rng, 1))

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        (w1, n1), (w2, n2) = p["a"], p["b"]
        if w1 * max(n1, 1) != w2 * max(n2, 1) or n1 < 1 or n2 < 0 or w1 < 1 or w2 < 1:
            raise Invalid("split")
        if any(sum(d["shards"]) < 1 for d in spec["data"]) or sum(spec["data"][0]["shards"]) < w1 * n1:
            raise Invalid("too small")
        setup_disk(spec)
        ctx.shape = spec_shape(spec) + f"/{p['a']}/{p['b']}"
        res = []
        for w, n in (p["a"], p["b"]):
            s = dict(spec, world=w, workers=n)
            k = p["n"] * max(n, 1)
            ops = [["end", k]] if spec["split"] == "val" else [["next", k]]
            try:
                rr = ctx.sim(lambda: engine.run_ranks(s, ops))
            except (SimHang, SimLimit) as e:
                try:
                    rt.run_sim(dict(seed=0, strategy="fifo", hang_idle=60.0, max_steps=120000),
                               lambda: engine.run_ranks(s, ops))
                except (SimHang, SimLimit):
                    raise Invalid("no batches")
                return stuck(e)
            if rr.errors():
                return proc_violation(rr.errors(), "run:")
            evs = [[e[1][0] for e in rr.events(r) if e[0] == "b"] for r in range(w)]
            # Full rounds (one batch of each global worker) before the first worker is exhausted
            m = max(n, 1)
            full = k
            for r in range(w):
                first = []
                for e in rr.events(r):
                    if e[0] != "b":
                        break
                    first.append(e[1])
                per = [0] * m
                for c in first:
                    per[engine.worker_of(s, r, c)] += 1
                full = min(full, min(per))
            rounds = [[c for r in range(w) for c in evs[r][j * m:(j + 1) * m]] for j in range(full)]
            whole = spec["split"] == "val" and all(("end",) in rr.events(r) for r in range(w))
            res.append((rounds, evs, whole))
            # No two global workers share data
            seen = {}
            for wk, st in rr.worker_streams().items():
                for c in st:
                    for it in W.items_of(c):
                        o = seen.setdefault(it, wk)
                        if o != wk and "#" not in it[0]:
                            return Violation("two global workers share data", f"{it} on {o} and {wk}")
        (ra, ea, wa), (rb, eb, wb) = res
        if wa and wb:
            fa = sorted(map(repr, [x for e in ea for x in e]))
            fb = sorted(map(repr, [x for e in eb for x in e]))
            if fa != fb:
                return Violation("another split gives other batches",
                                 f"{p['a']} against {p['b']}: only in one: {brief(sorted(set(fa) ^ set(fb)))}")
            ctx.probe("compared passes")
        for j in range(min(len(ra), len(rb))):
            fa = sorted(map(repr, ra[j]))
            fb = sorted(map(repr, rb[j]))
            if fa != fb:
                return Violation("another split gives other global batches",
                                 f"{p['a']} against {p['b']}: global batch {j}: only in one: {brief(sorted(set(fa) ^ set(fb)), 600)}")
            ctx.probe("compared global batches")
        return None



def no_random(e):
    """The randomness of a sample depends on its number within the rank, so only the data is compared."""
    for k, v in list(e.items()):
        if v in ("rs", "rng"):
            e[k] = "list" if k == "b" else "sl"
        if v == "genrs":
            e[k] = "gen"


CHECK = C08()
