from .common import *


def expected_items(spec):
    out = []
    for ds in spec["data"]:
        n = len(ds["keys"]) if "keys" in ds else len(ds["shards"])
        ex = set(ds.get("exclude", []))
        for i in range(n):
            if W.shard_name(i) in ex:
                continue
            for k in W.shard_keys(ds, i):
                if f"{W.shard_name(i)}/{k}" not in ex:
                    out.append((f"{W.shard_name(i)}/{k}", W.sample_text(ds, k)))
    return out


def passes_of(events):
    out = [[]]
    for e in events:
        if e[0] == "b":
            out[-1].append(e[1])
        elif e[0] == "end":
            out.append([])
    return out


def plain(spec):
    """One dataset with a fixed batch size: the length is known in advance."""
    e = spec["enc"]
    return (len(spec["data"]) == 1 and not spec.get("tree") and not spec["data"][0].get("exclude") and not e.get("g")
            and not e.get("p") and e.get("s") != "gen" and e.get("b") != "gen")


class C06(Check):
    quick_n = 450
    thorough_n = 60000

    def gen(self, rng, tier):
        workers = rng.choice([0, 1, 2, 3, 4, 5, 7])
        world = rng.choice([1, 1, 2, 2, 3, 4, 5])
        spec = engine.gen_spec(rng, split="val", workers=workers, world=world,
                               features=dict(fail=False, pgen=False, nobatch=True, bgen=False, b=["list", "rs"], e=["none", "sl"],
                                             s=["none", "sl", "rs"]))
        if rng.random() < 0.3:
            spec["data"][0]["shards"] = [rng.randint(1, 40) for _ in range(rng.randint(1, 12))]
        if rng.random() < 0.2:
            spec["data"][0]["shards"] = [1] * rng.randint(1, 9)
        spec.pop("limit", None)
        spec["drop_last"] = False
        spec["loader"] = rng.choice(["savable", "basic"])
        gen_exclude(rng, spec)
        return dict(spec=spec, passes=rng.choice([1, 2, 3]), sched=engine.gen_sched(rng, workers),
                    stalls=engine.gen_stalls(rng, workers), save=rng.random() < 0.3)

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        want = sorted(expected_items(spec))
        n = len(want) + 3
        ops = []
        for i in range(p["passes"]):
            ops.append(["end", n])
            if p["save"] and spec["loader"] == "savable":
                ops.append(["save", f"s{i}"])
        ops.append(["len"])
        try:
            rr = ctx.sim(lambda: engine.run_ranks(spec, ops))
        except (SimHang, SimLimit) as e:
            return stuck(e)
        if rr.errors():
            return proc_violation(rr.errors(), "run:")
        ps = [passes_of(rr.events(r)) for r in range(spec["world"])]
        if plain(spec):
            for r in range(spec["world"]):
                ln = rr.events(r)[-1][1]
                if ln != len(ps[r][0]):
                    return Violation("reported length differs", f"rank {r}: {ln}, delivered {len(ps[r][0])}")
                ctx.probe("lengths compared")
        for k in range(p["passes"]):
            got = []
            per = {}
            for r in range(spec["world"]):
                if len(ps[r]) <= k + 1:
                    return Violation("a pass does not end", f"pass {k} of rank {r}: {len(ps[r])} ends")
                for c in ps[r][k]:
                    its = W.items_of(c)
                    got += its
                    key = (r, engine.worker_of(spec, r, c))
                    for it in its:
                        d = it[1].split(":")[0]
                        per.setdefault(d, {}).setdefault(key, []).append(it)
            if sorted(got) != want:
                miss = sorted(set(want) - set(got))
                dup = sorted({x for x in got if got.count(x) > 1})
                extra = sorted(set(got) - set(want))
                return Violation(
                    "pass does not cover every sample exactly once",
                    f"pass {k}: {len(got)} of {len(want)}; missing {brief(miss)}; repeated {brief(dup)}; "
                    f"unknown {brief(extra)}")
            if not any(d.get("exclude") for d in spec["data"]):
                for d, x in per.items():
                    sizes = [len(x.get((r, w), [])) for r in range(spec["world"]) for w in range(max(1, spec["workers"]))]
                    if max(sizes) - min(sizes) > 1:
                        return Violation("shares differ by more than one sample", f"{d}: {sizes}")
            ctx.probe("passes")
            ctx.probe("samples", len(got))
        if len(want) < spec["world"] * max(1, spec["workers"]):
            ctx.probe("fewer samples than workers")
        if any(d.get("exclude") for d in spec["data"]):
            ctx.probe("with excludes")
        return None


def gen_exclude(rng, spec, p=0.3):
    for ds in spec["data"]:
        if rng.random() < p:
            ex = []
            for i in range(len(ds["shards"])):
                if rng.random() < 0.15:
                    ex.append(W.shard_name(i))
                for k in W.shard_keys(ds, i):
                    if rng.random() < 0.15:
                        ex.append(f"{W.shard_name(i)}/{k}")
            if not any(n and W.shard_name(i) not in ex for i, n in enumerate(ds["shards"])):
                ex = [x for x in ex if not x.endswith(".tar")]
            ds["exclude"] = ex


CHECK = C06()
