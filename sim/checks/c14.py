from .stages import *


class C14(Check):
    """Virtual epochs and limits."""

    quick_n = 600
    thorough_n = 40000

    def gen(self, rng, tier):
        workers = rng.choice([0, 1, 2, 2, 3, 4, 5])
        world = rng.choice([1, 1, 1, 2, 3])
        mode = rng.choice(["vel", "vel", "limit", "limit", "wraplimit"])
        split = "val" if mode == "limit" else "train"
        spec = engine.gen_spec(rng, split=split, workers=workers, world=world, features=dict(fail=False))
        spec.pop("limit", None)
        spec.pop("vel", None)
        W0 = max(workers, 1)
        L = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, W0, W0 + 1, 2 * W0, max(W0 - 1, 1)])
        if mode == "vel":
            spec["vel"] = L
        elif mode == "limit":
            spec["limit"] = L
        else:
            spec["wrap"] = [["limit", L, rng.random() < 0.5]]
        for d in spec["data"]:
            while sum(d["shards"]) < 2 * W0 * world:
                d["shards"] = [x + 1 for x in d["shards"]]
        if mode == "vel" and rng.random() < 0.2:
            spec["loader"] = "basic"
        plan = []
        for j in range(rng.choice([1, 1, 2, 2, 3, 4]) if spec.get("loader") != "basic" else 1):
            ops = []
            for _ in range(rng.randint(1, 3)):
                ops.append(["next", rng.choice([1, 2, 3, 5, L, L, max(L - 1, 1), L + 1, 2 * L])])
                if rng.random() < 0.3:
                    ops.append(["end", 40])
                if rng.random() < 0.15:
                    ops.append(["iter"])
            if spec.get("loader") != "basic":
                ops.append(["save", f"s{j}"])
            if rng.random() < 0.4:
                ops.append(["next", rng.choice([1, 2, 4])])
            plan.append(dict(ops=ops))
            if j:
                plan[-1]["restore"] = f"s{j - 1}"
        return dict(spec=spec, mode=mode, plan=plan, rank=rng.randrange(world),
                    sched=engine.gen_sched(rng, workers), stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        spec, rank, mode = p["spec"], p["rank"], p["mode"]
        if rank >= spec["world"]:
            raise Invalid("rank")
        check_spec(spec)
        if any(o[0] == "iter" for i in p["plan"] for o in i["ops"]):
            # (a new iterator inside an epoch continues the epoch only without workers)
            if spec["workers"] or mode != "vel":
                for i in p["plan"]:
                    i["ops"] = [o for o in i["ops"] if o[0] != "iter"]
        setup_disk(spec)
        W0 = max(spec["workers"], 1)
        free = dict(spec)
        free.pop("loader", None)
        if mode == "vel":
            L = free.pop("vel", 0)
        elif mode == "limit":
            L = free.pop("limit", 0)
            if spec["split"] != "val":
                raise Invalid("mode")
        else:
            w = free.pop("wrap", None)
            if not w or w[0][0] != "limit":
                raise Invalid("mode")
            L = w[0][1]
        if not L:
            raise Invalid("mode")
        ctx.shape = spec_shape(spec) + f"/{mode}/{L % W0}/{L < W0}"
        total = nops(p["plan"]) + 1
        # The unbounded stream of every worker
        try:
            n = total * W0 + 1 if mode == "vel" else (L + 1) * W0
            ref = engine.reference(free, n, rank, ops=[["end", 10**4]] if mode == "limit" else None)
        except (SimHang, SimLimit):
            raise Invalid("no samples")
        if ref.errors or ("dry",) in ref.inc[0]:
            raise Invalid("no samples")
        want = [[] for _ in range(W0)]
        for e in ref.inc[0]:
            if e[0] == "b":
                want[engine.worker_of(free, rank, e[1])].append(model.canon(e[1]))
        hist = engine.History()
        try:
            ctx.sim(lambda: engine.run_history(spec, p["plan"], hist, rank))
        except (SimHang, SimLimit) as e:
            if not all(want):
                raise Invalid("worker without samples")
            return stuck(e)
        if hist.errors:
            if "Cannot epochize empty dataset" in hist.errors[0][1].tb and not all(want):
                raise Invalid("worker without samples")
            return proc_violation(hist.errors[0][1])
        return self.judge(p, ctx, hist, want, L, mode, ref)

    def judge(self, p, ctx, hist, want, L, mode, ref):
        spec, rank = p["spec"], p["rank"]
        W0 = max(spec["workers"], 1)
        share = [L // W0 + (1 if w < L % W0 else 0) for w in range(W0)]
        if mode == "vel":
            full = L
        else:
            # A worker with too few batches ends its pass early
            full = None if any(len(x) < -(-L // W0) for x in want) else L
            most = sum(min(len(x), -(-L // W0)) for x in want)
            least = sum(min(len(x), L // W0) for x in want)
        pos = [0] * W0
        count = 0
        fresh = True  # nothing was delivered yet in this life
        for j, cur in enumerate(hist.inc):
            sv = [s for s in hist.saves.values() if s["inc"] == j]
            last = j + 1 == len(hist.inc)
            if not last and sv:
                cur = cur[: sv[-1]["pos"]]
            fresh = True
            for e in cur:
                if e[0] == "b":
                    if fresh and j and (count == L if full else mode != "vel" and least <= count <= most):
                        # Restored exactly at the end of the epoch: it may have been concluded
                        w0 = engine.worker_of(spec, rank, e[1])
                        if mode == "vel" or model.canon(e[1]) == want[w0][:1][0]:
                            count = 0
                            if mode != "vel":
                                pos = [0] * W0
                    fresh = False
                    w = engine.worker_of(spec, rank, e[1])
                    b = model.canon(e[1])
                    count += 1
                    if count > L:
                        return Violation("epoch too long", f"life {j}: batch {count} of an epoch of {L}")
                    if pos[w] >= len(want[w]):
                        if mode == "vel":
                            raise Invalid("reference too short")
                        return Violation("pass longer than the data", f"worker {w}: {brief(b)}")
                    if b != want[w][pos[w]]:
                        return Violation(
                            "epoch does not continue with the following data" if mode == "vel"
                            else "limited pass differs from the pass without limit",
                            f"life {j} worker {w} batch {pos[w]}:\n expected {brief(want[w][pos[w]])}\n"
                            f" received {brief(b)}")
                    pos[w] += 1
                    ctx.probe("compared batches")
                elif e[0] == "end":
                    if fresh and j and count in (0, L):
                        pass  # the end of the epoch which was complete when saved
                    elif full and count != L:
                        return Violation("epoch of wrong length", f"life {j}: {count} batches, length {L}")
                    elif not full and not (least <= count <= most) and not (fresh and j):
                        return Violation("epoch of wrong length",
                                         f"life {j}: {count} batches, limit {L}, data {[len(x) for x in want]}")
                    fresh = False
                    count = 0
                    if mode != "vel":
                        pos = [0] * W0
                    ctx.probe("complete epochs")
                elif e[0] == "iter":
                    if count == L:
                        count = 0  # the end of the epoch was not asked for
                elif e[0] == "dry":
                    return Violation("no more batches", f"life {j}")
        return None


CHECK = C14()
