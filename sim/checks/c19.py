from .common import *
from .stages import effective, gen_plan, nops

RS = ("rs", "genrs", "cookrs")


def gen_rs_spec(rng, workers, world, rng_ok):
    spec = engine.gen_spec(rng, workers=workers, world=world, rng_ok=rng_ok,
                           features=dict(s=["rs", "rs", "genrs", "sl"] + (["rng"] * 2 if rng_ok and workers else []),
                                         b=["rs", "rs", "list"] + (["rng"] if rng_ok and workers else []),
                                         e=["rs", "rs", "none", "sl"]))
    e = spec["enc"]
    if spec["data"][0].get("crude") and rng.random() < 0.7:
        e["cook"] = "cookrs"
    if not has_rs(e):
        if e["b"] == "none":
            e["s"] = "rs"
        else:
            e["b"] = "rs"
    return spec


def has_rs(e):
    return any(e.get(k) in RS for k in ("s", "b", "e", "p", "cook"))


def triples(c):
    """All (stage, position) -> drawn values of a canonical batch."""
    out = []

    def walk(x):
        if isinstance(x, tuple) and len(x) == 8 and isinstance(x[6], str) and isinstance(x[0], int):
            out.append(((x[6], x[7]), x[:6]))
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, str) and "|" in x:
            t, d = x.split("|")
            *v, st, ix = d.split(",")
            out.append(((st + t.split(":")[0], int(ix)), tuple(v)))

    walk(c[0])
    return out


class C19(Check):
    """Reproducible and contained randomness; oracles: runs with other use of the generators inside
    of the functions, other schedules and interruptions."""

    quick_n = 600
    thorough_n = 30000

    def gen(self, rng, tier):
        mode = rng.choice(["contain", "contain", "distinct", "bykey"])
        workers = rng.choice([0, 0, 1, 2, 3])
        world = rng.choice([1, 2, 3]) if mode == "distinct" else 1
        spec = gen_rs_spec(rng, workers, world, mode != "bykey")
        if spec["enc"].get("fail") is None and rng.random() < 0.3:
            spec["enc"]["fail"] = {rng.choice(["sample", "pack", "batch", "ebatch"]):
                                   {"skip": rng.choice([0, 25]), "err": rng.choice([0, 15])}}
        for d in spec["data"]:
            while sum(d["shards"]) < 8 * max(workers, 1) * world:
                d["shards"] = [x + 1 for x in d["shards"]]
        p = dict(spec=spec, mode=mode, xd=rng.choice([1, 2, 3, 5]), sched=engine.gen_sched(rng, workers),
                 stalls=engine.gen_stalls(rng, workers), seed2=rng.getrandbits(31))
        if mode == "distinct":
            n = rng.randint(2, 16)
            p["n"], p["cut"] = n, rng.choice([None, rng.randint(0, n)])
        elif mode == "bykey":
            p["n"] = rng.randint(1, 10)
            p["pre"] = rng.randint(0, 5)
            p["post"] = rng.choice([0, 0, 3])
            p["picks"] = [rng.randrange(p["n"]) for _ in range(rng.randint(1, 5))]
        else:
            p["plan"] = gen_plan(rng, workers, tier == "quick")
            for inc in p["plan"]:
                ops = []
                for o in inc["ops"]:
                    ops += [o] + ([["draw"]] if rng.random() < 0.6 else [])
                inc["ops"] = ops
        return p

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        e = spec["enc"]
        if not has_rs(e):
            raise Invalid("no randomness")
        if "rng" in e.values() and (not spec["workers"] or p["mode"] == "bykey" or "gen" in e.values()
                                    or "genrs" in e.values()):
            raise Invalid("randomness which is not restorable")
        if p["xd"] < 1:
            raise Invalid("xd")
        setup_disk(spec)
        ctx.shape = f"{spec_shape(spec)}/{p['mode']}"
        return getattr(self, p["mode"])(p, ctx, spec)

    def contain(self, p, ctx, spec):
        noisy = dict(spec, enc=dict(spec["enc"], xd=p["xd"]))
        h1, h2 = engine.History(), engine.History()
        try:
            plan = [dict(i, ops=[["seed", 5]] + i["ops"]) for i in p["plan"]]
            ctx.sim(lambda: engine.run_history(noisy, plan, h1))
            ctx.sim(lambda: engine.run_history(spec, plan, h2),
                    cfg=dict(p["sched"], seed=p["seed2"]), stalls=[])
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, nops(p["plan"]) + 1, e)
        for h_ in (h1, h2):
            if h_.errors:
                return proc_violation(h_.errors[0][1])
        ref = engine.reference(spec, nops(p["plan"]) + 1)
        if ref.errors or ("dry",) in ref.inc[0]:
            raise Invalid("reference")
        want = content(ref.inc[0])
        for h_, what in ((h2, "interrupted"), (h1, "using the generators differently inside of the functions")):
            v = diff_stream(content(effective(h_)), want, "randomness differs", what)
            if v:
                return v
        d1 = [[e for e in inc if e[0] == "d"] for inc in h1.inc]
        d2 = [[e for e in inc if e[0] == "d"] for inc in h2.inc]
        if d1 != d2:
            return Violation("the surrounding random state was changed", f"{brief(d1)}\n{brief(d2)}")
        ctx.probe("contained: batches", len(content(effective(h1))))
        ctx.probe("contained: draws outside", sum(len(x) for x in d1))
        return None

    def bykey(self, p, ctx, spec):
        ops0 = [["next", p["n"]]]
        res = {}

        def go(noisy, keys):
            h2 = engine.History()
            h2.keys = keys
            sp = dict(spec, enc=dict(spec["enc"], xd=p["xd"])) if noisy else spec
            picks = [i % max(1, len(keys)) for i in p["picks"]] if keys else []
            half = len(picks) // 2
            ops = ([["next", p["pre"]]] if p["pre"] else []) + [["seed", 5], ["draw"], ["bykey", picks[:half]], ["draw"]]
            ops += ([["next", p["post"]]] if p["post"] else []) + [["bykey", picks[half:]], ["draw"]]
            engine.run_history(sp, [dict(ops=ops)], h2)
            return h2

        def root():
            h1 = engine.History()
            engine.run_history(spec, [dict(ops=ops0)], h1)
            res["first"] = h1
            if h1.errors:
                return
            keys = [e[1] for inc in h1.inc for e in inc if e[0] == "b"]
            res["keys"] = keys
            res["with"] = go(True, keys)
            res["without"] = go(False, [])

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, p["n"] + p["pre"] + p["post"], e)
        for k in ("first", "with", "without"):
            if k in res and res[k].errors:
                return proc_violation(res[k].errors[0][1], "" if k != "with" else "restore:")
        a, b = res["with"].inc[0], res["without"].inc[0]
        for e in a:
            if e[0] == "k":
                ctx.probe("restored by key")
                if e[2] is None or e[2][0] != res["keys"][e[1]][0]:
                    return Violation("randomness differs when restored by key",
                                     f"expected {brief(res['keys'][e[1]][0])}\n received {brief(e[2])}")
        da, db = [e for e in a if e[0] == "d"], [e for e in b if e[0] == "d"]
        if da != db:
            return Violation("restoring by key changes the surrounding random state", f"{brief(da)}\n{brief(db)}")
        if content(a) != content(b):
            return Violation("restoring by key changes the iteration", f"{brief(content(a))}\n{brief(content(b))}")
        return None

    def distinct(self, p, ctx, spec):
        n = p["n"]
        if p["cut"] is not None and 0 <= p["cut"] <= n:
            plan = [dict(ops=[["next", p["cut"]], ["save", "A"], ["next", 2]]),
                    dict(ops=[["next", n - p["cut"]]], restore="A")]
        else:
            plan = [dict(ops=[["next", n]])]
        noisy = dict(spec, enc=dict(spec["enc"], xd=p["xd"]))
        try:
            r1 = ctx.sim(lambda: engine.run_ranks(noisy, plans=[plan] * spec["world"]))
            r2 = ctx.sim(lambda: engine.run_ranks(spec, plans=[[dict(ops=[["next", n + 2]])]] * spec["world"]),
                         cfg=dict(p["sched"], seed=p["seed2"]), stalls=[])
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, n + 3, e, None)
        pos, vals = {}, {}
        for rr in (r1, r2):
            if rr.errors():
                return proc_violation(rr.errors())
            for (r, w), bs in rr.worker_streams().items():
                for b in bs:
                    for (stage, ix), v in triples(b):
                        k = (r, w, stage, ix)
                        if pos.setdefault(k, v) != v:
                            return Violation("the same position got different randomness",
                                             f"rank {r} worker {w} {stage} {ix}: {pos[k]} and {v}")
                        o = vals.setdefault((stage, v), k)
                        if o != k:
                            return Violation("different positions got the same randomness", f"{o} and {k}: {v}")
                        for i in range(6):
                            vals.setdefault((stage, i, v[i]), set()).add(k)
        ctx.probe("positions compared", len(pos))
        # No generator may be left out: single values collide with about 1e-6
        for i in range(6):
            col = [x for x in vals.items() if len(x[0]) == 3 and x[0][1] == i and len(x[1]) > 1]
            if len(col) > 2:
                return Violation("different positions got the same randomness",
                                 f"generator {('torch', 'numpy', 'random')[i % 3]}: {brief(col)}")
        return None


CHECK = C19()
