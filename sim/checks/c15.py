import math
from collections import Counter

from .. import disk
from .common import *
from .c07 import C07
from .stages import effective, gen_plan

LIMIT = 30.0  # log of the probability below which an outcome is not accepted as chance


def kl(p, q):
    """Divergence of Bernoulli p from q."""
    r = 0.0
    if p > 0:
        r += p * math.log(p / q) if q > 0 else math.inf
    if p < 1:
        r += (1 - p) * math.log((1 - p) / (1 - q)) if q < 1 else math.inf
    return r


def tree_files(tree, names, out, name="meta.yaml"):
    """Writes the description files of a tree of blends."""
    v2 = tree.get("v", 2) == 2
    y = "__module__: megatron.energon\n__class__: " + ("MetadatasetV2" if v2 else "Metadataset") + "\nsplits:\n"
    part = tree.get("part")
    body = ""
    for i, e in enumerate(tree["blend"]):
        if "ds" in e:
            path = "./" + names[e["ds"]]
        else:
            sub = name[:-5] + f"_{i}.yaml"
            tree_files(e["sub"], names, out, sub)
            path = "./" + sub
        body += f"    - path: {path}\n"
        if e.get("w") is not None:
            body += f"      weight: {e['w']}\n"
        if e.get("flav"):
            body += "      subflavors:\n" + "".join(f"        {k}: {v}\n" for k, v in e["flav"].items())
        if e.get("som"):
            body += f"      shuffle_over_epochs_multiplier: {e['som']}\n"
        if e.get("part"):
            body += f"      split_part: {e['part']}\n"
    for sp in ("train", "val", "extra"):
        single = v2 and len(tree["blend"]) == 1 and tree.get("single")
        if single:
            y += f"  {sp}:\n" + "".join(
                "    " + l[6:] + "\n" for l in body.splitlines() if "weight:" not in l)
        else:
            y += f"  {sp}:\n    {'blend' if v2 else 'datasets'}:\n" + body
    out[name] = y


def leaves(tree, split="train", w=1.0, flav=None, som=1):
    """(dataset index, part, effective weight, flavors set by the references, shuffle epochs)."""
    tot = sum(e["w"] if e.get("w") is not None else 1.0 for e in tree["blend"])
    for e in tree["blend"]:
        we = w * (e["w"] if e.get("w") is not None else 1.0) / tot
        fl = {**(e.get("flav") or {}), **(flav or {})}
        s = som * (e.get("som") or 1)
        if "ds" in e:
            yield e["ds"], e.get("part") or split, we, fl, s
        else:
            yield from leaves(e["sub"], e.get("part") or split, we, fl, s)


class C15(Check):
    quick_n = 260
    thorough_n = 12000

    def gen(self, rng, tier):
        workers = rng.choice([0, 0, 1, 2, 3])
        world = rng.choice([1, 1, 1, 2])
        n = rng.choice([2, 2, 3, 4])
        W0 = max(workers, 1) * world
        data = []
        for i in range(n):
            d = engine.gen_data(rng, f"d{i}")
            if rng.random() < 0.3 and W0 > 1:
                d["shards"] = [rng.randint(1, W0 - 1)]  # not for all workers
            elif rng.random() < 0.3:
                d["shards"] = [rng.randint(1, 3)] * rng.randint(1, 3)
            if rng.random() < 0.5:
                d["subflavors"] = {"src": d["name"], "x": "own"} if rng.random() < 0.3 else {"src": d["name"]}
            data.append(d)
        d = rng.choice(data)
        while sum(d["shards"]) < 2 * W0:
            d["shards"] = d["shards"] + [rng.randint(1, 9)]
        idx = list(range(n))
        rng.shuffle(idx)
        uid = [0]

        def ent(x):
            uid[0] += 1
            e = dict(x)
            e["w"] = rng.choice([1, 1, 2, 3, 5, 0.5, 0.1, 0.25, 10, 7.5, None])
            if rng.random() < 0.5:
                e["flav"] = {rng.choice(["mix", "x"]): f"u{uid[0]}"}
            if rng.random() < 0.2:
                e["som"] = rng.choice([2, 3])
            return e

        def tree(ids, depth):
            bl = []
            while ids:
                if depth < 2 and rng.random() < 0.45:
                    k = rng.randint(1, len(ids))
                    t = tree(ids[:k], depth + 1)
                    ids = ids[k:]
                    bl.append(ent({"sub": t}))
                else:
                    bl.append(ent({"ds": ids[0]}))
                    ids = ids[1:]
            t = {"blend": bl}
            t["v"] = rng.choice([2, 2, 2, 1])
            t["single"] = rng.random() < 0.5
            if t["single"] and len(bl) == 1:
                bl[0]["w"] = None
            return t

        t = tree(idx, 0)
        if rng.random() < 0.25:
            # one dataset under two references
            e = ent({"ds": rng.randrange(n)})
            e["flav"] = {"again": "ref"}
            t["blend"].append(e)
        enc = {"s": rng.choice(["sl", "rs"]), "b": "list", "e": "none"}
        spec = dict(split="train", workers=workers, world=world, data=data, tree=t, meta="tree", enc=enc, bs=25,
                    drop_last=False, seed_offset=rng.choice([0, 0, 3, 11]), ck_sec=rng.choice([0, 60]),
                    ck_n=rng.choice([None, 2]), n_ck=None)
        if rng.random() < 0.4:
            spec["psi"] = rng.randint(1, 4)
        if rng.random() < 0.3:
            spec["msps"] = rng.randint(1, 6)
        if rng.random() < 0.2:
            spec["vel"] = rng.choice([5, 40])
        n = (24 if tier == "quick" else 40) * max(workers, 1)
        cuts = rng.choice([0, 0, 1, 2])
        plan = []
        for j in range(cuts + 1):
            plan.append(dict(ops=[["next", n // (cuts + 1) + 1]]))
            if j < cuts:
                plan[-1]["ops"].append(["save", f"s{j}"])
            if j:
                plan[-1]["restore"] = f"s{j - 1}"
        sched = engine.gen_sched(rng, workers)
        if workers * world > 2:
            sched.pop("line_p", None)  # (the long runs; the schedule is not what matters most here)
            sched["tick"] = min(sched["tick"], 0.02)
        return dict(spec=spec, plan=plan, sched=sched, stalls=[])

    def run(self, p, ctx):
        spec = p["spec"]
        if not spec.get("tree") or not spec["tree"]["blend"] or spec["enc"].get("b") != "list":
            raise Invalid("tree")
        files = {}
        tree_files(spec["tree"], [d["name"] for d in spec["data"]], files)
        disk.FS.__init__()
        W.put_all(disk.FS, dict(spec, meta=None))
        for k, v in files.items():
            disk.FS.put("/simfs/data/" + k, v.encode())
        ctx.shape = spec_shape(dict(spec, meta=files["meta.yaml"])) + f"/{len(files)}"
        try:
            rr = ctx.sim(lambda: engine.run_ranks(spec, plans=[p["plan"]] * spec["world"]))
        except (SimHang, SimLimit) as e:
            return stuck(e)
        total = max(spec["workers"], 1) * spec["world"]
        lv = []
        for di, part, w, fl, som in leaves(spec["tree"]):
            d = spec["data"][di]
            flav = tuple(sorted({**(d.get("subflavors") or {}), **fl}.items()))
            lv.append(dict(name=d["name"], n=sum(d["shards"]), w=w, flav=flav, som=som))
        if len({(l["name"], l["flav"]) for l in lv}) < len(lv):
            raise Invalid("references not distinguishable")
        if rr.errors():
            if "empty dataset" in rr.errors().msg and max(l["n"] for l in lv) < total:
                raise Invalid("empty worker")
            return proc_violation(rr.errors())
        # The stream of samples of every worker
        seqs = {}
        for r in range(spec["world"]):
            for e in effective(rr.hist[r]):
                if e[0] == "dry":
                    return Violation("no more batches", f"rank {r}")
                if e[0] != "b":
                    continue
                x = e[1][0]
                seqs.setdefault((r, engine.worker_of(spec, r, e[1])), []).extend(
                    (i[0], f) for i, f in zip(x[1], x[3]))
        if len(seqs) < total:
            raise Invalid("not all workers have delivered")
        return self.judge(spec, lv, seqs, ctx, total)

    def judge(self, spec, lv, seqs, ctx, total):
        by = {(l["name"], l["flav"]): i for i, l in enumerate(lv)}
        draws = {}
        for who, seq in seqs.items():
            s = []
            for it, f in seq:
                k = (it[1].split(":")[0], tuple(sorted(f)))
                if k not in by:
                    return Violation("sample with the subflavors of another dataset",
                                     f"{it} with {f}, known: {sorted(by)}")
                s.append((by[k], it))
            draws[who] = s
        groups = {}
        share = [{} for _ in lv]
        for who, s in draws.items():
            have = frozenset(i for i, _ in s)
            groups.setdefault(have, []).append([i for i, _ in s])
            for i, it in s:
                o = share[i].setdefault(it, who)
                if o != who:
                    return Violation("a sample was delivered by two workers", f"{it}: {o} and {who}")
        # Which worker has samples of which dataset
        for i, l in enumerate(lv):
            want = min(l["n"], total)
            has = [w for w in draws if any(j == i for j, _ in draws[w])]
            if len(has) > want:
                return Violation("more workers with samples than samples", f"{l}: {has}")
            missing = want - len(has)
            if missing > 0:
                # Workers without any sample of it: chance?
                rest = [w for w in draws if w not in has]
                ps = []
                for w in rest:
                    # The others could have at most the complete weight
                    ps.append(-len(draws[w]) * math.log1p(-min(l["w"], 1 - 1e-12)) if l["w"] < 1 else math.inf)
                if l["w"] > 0 and sorted(ps)[missing - 1] > LIMIT + 10:
                    return Violation("a dataset is never drawn on a worker",
                                     f"{l} on {missing} of {rest} after {[len(draws[w]) for w in rest]} draws")
        # Weights
        for have, ss in groups.items():
            n = sum(map(len, ss))
            # Datasets which are possibly there but were not drawn only matter for tiny weights
            tot = sum(lv[i]["w"] for i in have)
            rest = sum(l["w"] for i, l in enumerate(lv) if i not in have)
            if rest and any(l["n"] >= total or 0 < l["w"] < 0.02 for i, l in enumerate(lv) if i not in have):
                ctx.probe("groups skipped")
                continue
            for i in have:
                q = lv[i]["w"] / tot
                k = sum(s.count(i) for s in ss)
                if n * kl(k / n, q) > LIMIT:
                    return Violation("blending does not follow the weights",
                                     f"{lv[i]['name']} {lv[i]['flav']}: {k} of {n} draws, expected share {q:.4f}, "
                                     f"{len(have)} of {len(lv)} datasets present")
                # after itself: the draws are independent
                a = b = 0
                for s in ss:
                    for x, y in zip(s, s[1:]):
                        if x == i:
                            a += 1
                            b += y == i
                if a and a * kl(b / a, q) > LIMIT:
                    return Violation("draws depend on the previous draw",
                                     f"{lv[i]['name']}: {b} of {a} draws after itself, expected share {q:.4f}")
            ctx.probe("draws", n)
        # Every dataset for itself
        for i, l in enumerate(lv):
            for who, s in draws.items():
                items = [it for j, it in s if j == i]
                if not items:
                    continue
                sub = dict(spec, sbs=None)
                v = C07.windows(self, sub, items, {l["name"]: l["som"]}, ctx, who)
                if v:
                    return v
            if len(share[i]) > l["n"]:
                return Violation("unknown samples", f"{l}")
            small = l["n"] // total
            full = all(sum(j == i for j, _ in s) >= l["som"] * (small + 1) for s in draws.values())
            if full and len(share[i]) < l["n"]:
                return Violation("samples are never delivered", f"{l['name']}: {len(share[i])} of {l['n']}")
            if full:
                ctx.probe("covered datasets")
        # A single worker: same order as the dataset alone
        return None


CHECK = C15()
