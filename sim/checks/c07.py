from .common import *
from .c06 import expected_items, gen_exclude

SLICED = [(2, 185), (2, 201), (2, 217), (2, 229)]  # slices whose bounds are not exact in floating point


class C07(Check):
    quick_n = 420
    thorough_n = 30000

    def gen(self, rng, tier):
        workers = rng.choice([0, 1, 1, 2, 3])
        world = rng.choice([1, 1, 1, 2])
        spec = engine.gen_spec(rng, split="train", workers=workers, world=world,
                               features=dict(fail=False, pack=False, group=False, bgen=False, s=["none", "sl", "rs"],
                                             b=["list"], e=["none"]))
        spec["enc"].pop("g", None)
        if rng.random() < 0.6:
            spec["sbs"] = None
        spec["som"] = rng.choice([1, 1, 2, 3, 1, -1])
        spec["drop_last"] = False
        for d in spec["data"]:
            if rng.random() < 0.5:
                d["shards"] = [rng.randint(1, 7) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.12:
            spec["msps"], n = rng.choice(SLICED)
            spec["data"] = [dict(name="d0", shards=[n])]
            spec.pop("meta", None)
            spec["bs"] = 16
            spec["som"] = 1
            spec["sbs"] = None
            spec["psi"] = rng.choice([None, 2])
        total = workers * world
        while sum(spec["data"][0]["shards"]) < total:
            spec["data"][0]["shards"] = [x + 1 for x in spec["data"][0]["shards"]]
        gen_exclude(rng, spec, 0.25)
        cut = rng.choice([0, 0, 1]) and rng.random()
        return dict(spec=spec, windows=rng.choice([1, 2, 2, 3]), cut=cut, crash=rng.random() < 0.3,
                    cross=rng.random() < 0.5, sched=engine.gen_sched(rng, workers), stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        n = max(spec["workers"], 1)
        allowed = set(expected_items(spec))
        if not allowed:
            raise Invalid("everything excluded")
        eff = {}
        for d in spec["data"]:
            eff[d["name"]] = max_epochs(spec, d["name"])
        want = 1 + p["windows"] * max(max(1, x) for x in eff.values()) * len(allowed) // spec["world"] \
            // (spec["bs"] or 1) + 2 * n
        want = min(want, 150)
        if p["cut"]:
            k = int(p["cut"] * want)
            plan = [
                dict(ops=[["next", k], ["save", "A"], ["next", 3]]), dict(ops=[["next", want - k]], restore="A")]
            if p["crash"]:
                plan[0]["ops"].append(["next", 100])
                plan[0]["crash_at"] = 50 + 60 * want
        else:
            plan = [dict(ops=[["next", want]])]

        try:
            rr = ctx.sim(lambda: engine.run_ranks(spec, plans=[plan] * spec["world"]))
        except (SimHang, SimLimit) as e:
            return stuck(e) if not emptyish(spec) else None
        if rr.errors():
            if "empty dataset" in rr.errors().msg and emptyish(spec):
                raise Invalid("empty worker")
            return proc_violation(rr.errors(), "run:")
        shares = {}  # dataset -> item -> worker
        for r in range(spec["world"]):
            h = rr.hist[r]
            evs = list(h.inc[0])
            if p["cut"]:
                if len(h.inc) < 2:
                    raise Invalid("no second life")
                evs = evs[: h.saves["A"]["pos"]] + list(h.inc[1])
                ctx.probe("resumed inside of the run")
            per = {}
            for e in evs:
                if e[0] == "b":
                    per.setdefault(engine.worker_of(spec, r, e[1]), []).extend(W.items_of(e[1]))
            for w, items in per.items():
                for it in items:
                    if it not in allowed:
                        return Violation("an excluded or unknown sample was delivered", f"{it} on rank {r} worker {w}")
                    o = shares.setdefault(it, (r, w))
                    if o != (r, w):
                        return Violation("a sample was delivered by two workers", f"{it}: {o} and {(r, w)}")
                v = self.windows(spec, items, eff, ctx, (r, w))
                if v:
                    return v
        return self.coverage(spec, shares, rr, eff, ctx, allowed, p)

    def windows(self, spec, items, eff, ctx, who):
        for d, k in eff.items():
            seq = [it for it in items if it[1].split(":")[0] == d]
            if k == -1 or not seq:
                continue
            if not spec.get("sbs") or spec["sbs"] <= 1:
                # The window ends when every sample was seen k times: no sample may be seen more
                # often before that
                share = set(seq)
                win = k * len(share)
                for s in range(0, len(seq), win):
                    part = seq[s:s + win]
                    cnt = {}
                    for it in part:
                        cnt[it] = cnt.get(it, 0) + 1
                        if cnt[it] > k:
                            return Violation(
                                "a sample was repeated inside of its shuffle window",
                                f"{who}: {it} seen {cnt[it]} times in the window of {win} samples starting at {s} "
                                f"(share {len(share)}, {k} epochs): {brief([x[0] for x in part], 800)}")
                    if len(part) == win:
                        ctx.probe("complete windows")
            else:
                share = set(seq)
                b = spec["sbs"]
                cnt = {it: 0 for it in share}
                for i, it in enumerate(seq):
                    cnt[it] += 1
                    # source position is at most i + 1 + b
                    lim = k * -(-(i + 1 + b) // (k * len(share)))
                    if cnt[it] > lim:
                        return Violation(
                            "a sample was repeated inside of its shuffle window",
                            f"{who}: {it} seen {cnt[it]} times in {i + 1} samples (share {len(share)}, {k} epochs, "
                            f"shuffle buffer {b})")
                ctx.probe("bounded windows")
        return None

    def coverage(self, spec, shares, rr, eff, ctx, allowed, p):
        """Every sample of a share is delivered: shares of a dataset cover it once enough was read."""
        # Independent partition sizes: total over all global workers, at most one apart
        n = max(spec["workers"], 1) * spec["world"]
        for d in spec["data"]:
            k = eff[d["name"]]
            if k == -1 or d.get("exclude") or (spec.get("sbs") or 0) > 1:
                continue
            total = sum(d["shards"])
            small = total // n
            per = {}
            for r in range(spec["world"]):
                h = rr.hist[r]
                evs = list(h.inc[0])
                if p["cut"]:
                    evs = evs[: h.saves["A"]["pos"]] + list(h.inc[1])
                for e in evs:
                    if e[0] == "b":
                        w = engine.worker_of(spec, r, e[1])
                        for it in W.items_of(e[1]):
                            if it[1].split(":")[0] == d["name"]:
                                per.setdefault((r, w), []).append(it)
            for who, seq in per.items():
                if len(seq) >= k * (small + 1):
                    got = len(set(seq[: k * (small + 1)]))
                    if got < small:
                        return Violation(
                            "a sample of the share is missing from its window",
                            f"{who}: {d['name']}: {got} different samples in {k * (small + 1)}, share is {small} or "
                            f"{small + 1} of {total} over {n} workers")
                    if len(set(seq)) > small + 1:
                        return Violation("a worker delivers more than its share", f"{who}: {len(set(seq))} of {total}/{n}")
                    ctx.probe("covered shares")
            if len(per) == n and all(len(s) >= k * (small + 1) for s in per.values()):
                got = set(x for s in per.values() for x in s)
                if len(got) != total:
                    return Violation("samples are never delivered", f"{d['name']}: {len(got)} of {total}")
                ctx.probe("covered datasets")
        return None


def emptyish(spec):
    n = max(spec["workers"], 1) * spec["world"]
    return any(d.get("exclude") for d in spec["data"]) or max(sum(d["shards"]) for d in spec["data"]) < n


def max_epochs(spec, name):
    m = spec.get("som", 1)
    if spec.get("meta"):
        cur = None
        for line in spec["meta"].split("  val:")[0].splitlines():
            line = line.strip()
            if line.startswith("- path:"):
                cur = line.split("./")[1]
            if cur == name and line.startswith("shuffle_over_epochs_multiplier:"):
                x = int(line.split(":")[1])
                m = -1 if -1 in (m, x) else m * x
    return m


CHECK = C07()
