from .common import *
from .c01 import gen_ops_to


class C02(Check):
    quick_n = 1500
    thorough_n = 80000

    def gen(self, rng, tier):
        spec = engine.gen_spec(rng, workers=0, rng_ok=False)
        if rng.random() < 0.3:
            spec["wrap"] = gen_wraps(rng, spec)
        mode = rng.choice(["fresh", "fresh", "used", "usediter"])
        k = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 15, 22])
        ops = gen_ops_to(rng, k, spec["split"])
        if k and rng.random() < 0.15:
            ops = [["end", 60]]
        return dict(spec=spec, ops=ops, more=rng.choice([0, 0, 1, 3, 8]), after=rng.choice([4, 8, 12, 20]),
                    mode=mode, k2=rng.choice([0, 1, 2, 5]), twice=rng.random() < 0.3,
                    sched=dict(seed=1, strategy="fifo", tick=0.001, hang_idle=100.0, max_steps=100000))

    def epochize_below(self, params, r):
        return inner_epoch_end(params)

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        if spec["workers"]:
            raise Invalid("workers")
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        hist = engine.History()
        more = [["next", p["more"]]] if p["more"] else []
        if p["mode"] == "fresh":
            plan = [dict(ops=p["ops"] + [["save", "A"]] + more)]
            if p["twice"]:
                plan += [dict(ops=[["next", p["k2"]], ["save", "B"]] if p["k2"] else [["save", "B"]], restore="A")]
            plan += [dict(ops=[["next", p["after"]]], restore="B" if p["twice"] else "A")]
        else:
            r = ["restore_here", "A"] + (["newiter"] if p["mode"] == "usediter" else [])
            ops = p["ops"] + [["save", "A"]] + more + [["restore_here", "A", "newiter"], ["next", p["after"]]]
            if p["twice"]:
                ops += [["restore_here", "A", "newiter"], ["next", p["after"]]]
            plan = [dict(ops=ops)]
        try:
            ctx.sim(lambda: engine.run_history(spec, plan, hist))
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, p["after"], e)
        if hist.errors:
            i, err = hist.errors[0]
            return proc_violation(err, "restore:" if i else "run:")
        if "A" not in hist.saves:
            raise Invalid("no save point reached")
        sv = hist.saves["A"]
        nb = lambda evs: len([e for e in evs if e[0] == "b"])
        pos = nb(hist.inc[0][: sv["pos"]])
        ref = engine.reference(spec, pos + p["k2"] + max(p["after"], p["more"]) + 1)
        if ref.errors:
            return proc_violation(ref.errors[0][1], "reference:")
        # The batch number seen by a stage is compared where no stage reads ahead of its batch: an
        # element buffered across batches is legitimately re-read under a later batch number.
        ahead = "shuffle" in [w[0] for w in spec.get("wrap", [])] or spec.get("pbs") or "g" in spec["enc"] or "gen" in spec["enc"].values()
        num = (lambda c: tuple(x[:2] for x in c)) if ahead else (lambda c: c)
        want = [(e[1][0], num(e[1][1])) for e in ref.inc[0] if e[0] == "b"]
        keys = [e[1][2] for e in ref.inc[0] if e[0] == "b"]
        if pos and hist.inc[0][sv["pos"] - 1][0] == "end":
            ctx.probe("save exactly at the epoch end")
        # Split all events into segments of the combined stream
        segs = []
        if p["mode"] == "fresh":
            segs.append(("first run", 0, hist.inc[0]))
            segs.append(("after restore", pos, hist.inc[1]))
            if p["twice"]:
                segs.append(("after second restore", pos + nb(hist.inc[1][: hist.saves["B"]["pos"]]), hist.inc[2]))
        else:
            cur = []
            segs.append(("first run", 0, cur))
            for e in hist.inc[0]:
                if e[0] == "restored":
                    cur = []
                    segs.append(("after in-place restore", pos, cur))
                else:
                    cur.append(e)
        for name, start, evs in segs:
            got = [(e[1][0], num(e[1][1])) for e in evs if e[0] == "b"]
            v = diff_stream([g[0] for g in got], [w[0] for w in want[start:]],
                            f"{name}: stream differs", f"{name} at batch {start}")
            if v:
                return v
            v = diff_stream([g[1] for g in got], [w[1] for w in want[start:]],
                            f"{name}: numbering differs", f"{name} at batch {start}")
            if v:
                return v
            if not ahead:
                v = diff_stream([e[1][2] for e in evs if e[0] == "b"], keys[start:],
                                f"{name}: restore keys differ", f"{name} at batch {start}")
                if v:
                    return v
            ctx.probe("compared batches " + p["mode"], len(got))
        got = [e for e in segs[-1][2] if e[0] == "b"]
        if len(got) < p["after"] and len(want) - segs[-1][1] > len(got):
            return Violation("resumed stream too short", f"{len(got)} batches")
        return None


def inner_epoch_end(params):
    w = [x[0] for x in params["spec"].get("wrap", [])]
    return "epochize" in w[:-1] and any(x in ("limit", "repeat") for x in w[w.index("epochize") + 1:])


CHECK = C02()
