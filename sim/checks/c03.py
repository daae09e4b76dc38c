from .common import *
from .c01 import gen_ops_to


def gen_inc(rng, j, workers):
    """Operations of one process life; saves are named s<j>_<k>."""
    ops = []
    k = 0
    if j and rng.random() < 0.35:
        # Save again right after the restore, before any batch was fetched
        ops.append(["save", f"s{j}_{k}", "live"])
        k += 1
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.55:
            ops.append(["next", rng.choice([1, 1, 2, 3, 5, 8])])
        elif r < 0.6:
            ops.append(["end", 25])
        elif r < 0.68:
            ops.append(["sleep", rng.choice([0.1, 5.0, 40.0])])
        else:
            ops.append(["save", f"s{j}_{k}", "live"])
            k += 1
            if rng.random() < 0.3:
                ops.append(["second", f"s{j}_{rng.randint(0, k - 1)}"])
                if rng.random() < 0.3:
                    ops.append(["save", f"s{j}_{k}", "live"])
                    k += 1
    if k and not workers and rng.random() < 0.6:
        # The same state object restored several times in this process
        i = rng.randint(0, k - 1)
        for _ in range(rng.choice([2, 2, 3])):
            ops += [["second", f"s{j}_{i}"], ["next", rng.choice([1, 3, 6, 9])]]
    return ops


def nbatches(ops):
    return sum(25 if o[0] == "end" else o[1] for o in ops if o[0] in ("next", "end"))


class C03(Check):
    quick_n = 700
    thorough_n = 40000

    def gen(self, rng, tier):
        workers = rng.choice([0, 0, 1, 2, 3, 4])
        spec = engine.gen_spec(rng, workers=workers)
        incs = []
        for j in range(rng.randint(2, 4 if tier == "quick" else 6)):
            inc = dict(ops=gen_inc(rng, j, workers), pick=rng.choice([0, 0, 0, 1, 2, 5]))
            if rng.random() < 0.4:
                inc["crash_at"] = rng.randint(20, 3000)
            incs.append(inc)
        incs[-1]["ops"].append(["next", rng.choice([2, 5, 9])])
        incs[-1].pop("crash_at", None)
        return dict(spec=spec, incs=incs, sched=engine.gen_sched(rng, workers), stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        hist = engine.History()
        base = []  # per incarnation: id of the restored save

        def root():
            for j, inc in enumerate(p["incs"]):
                names = list(hist.saves)
                src = names[-1 - (inc.get("pick", 0) % len(names))] if names else None
                base.append(src)
                engine.run_history(spec, [dict(inc, restore=src)], hist, append=True)
                if hist.errors:
                    return

        total = sum(nbatches(i["ops"]) for i in p["incs"])
        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, total + 8 * spec["workers"], e)
        if hist.errors:
            i, err = hist.errors[0]
            return proc_violation(err, "chain:")
        # Absolute positions
        pos = {}
        segs = []  # (start position, batches, what)
        for j, ev in enumerate(hist.inc):
            cur = pos[base[j]] if base[j] is not None else 0
            mine = sorted((s["pos"], i, n) for i, (n, s) in enumerate(hist.saves.items()) if s["inc"] == j)
            seg = []
            start = cur
            for k in range(len(ev) + 1):
                while mine and mine[0][0] == k:
                    # A save at the position of a "restored" event happens before it, unless it is
                    # the one directly following it
                    pos[mine.pop(0)[2]] = cur
                if k == len(ev):
                    break
                e = ev[k]
                if e[0] == "b":
                    seg.append(e[1][0])
                    cur += 1
                elif e[0] == "restored":
                    segs.append((start, seg, j))
                    seg = []
                    start = cur = pos[e[1]]
            segs.append((start, seg, j))
        need = max(s + len(b) for s, b, _ in segs)
        ref = engine.reference(spec, need + 1)
        if ref.errors:
            return proc_violation(ref.errors[0][1], "reference:")
        want = content(ref.inc[0])
        for s, b, j in segs:
            v = diff_stream(b, want[s:], "chain diverges", f"process life {j}, restored at batch {s}")
            if v:
                return v
            ctx.probe("compared batches", len(b))
            ctx.probe("segments")
        for j, inc in enumerate(p["incs"]):
            ops = inc["ops"]
            if j < len(hist.inc) and base[j] is not None:
                ctx.probe("restores")
                if ops and ops[0][0] == "save":
                    ctx.probe("save right after restore")
        return None


CHECK = C03()
