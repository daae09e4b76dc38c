from .common import *


class C04(Check):
    quick_n = 700
    thorough_n = 40000

    def gen(self, rng, tier):
        workers = rng.choice([0, 1, 2, 3, 4])
        spec = engine.gen_spec(rng, workers=workers)
        ops = []
        n = 0
        if rng.random() < 0.3:
            ops.append(["save", "p"])
        if rng.random() < 0.5:
            ops.append(["iter"])
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.4:
                ops.append(["next", rng.choice([1, 1, 1, 2, 3, 6])])
            elif r < 0.47:
                ops.append(["end", 25])
            elif r < 0.55:
                ops.append(["sleep", rng.choice([0.1, 5.0, 40.0])])
            else:
                ops.append(["save", f"s{n}"])
                n += 1
        if rng.random() < 0.3:
            ops.append(["save", "z"])
        return dict(spec=spec, ops=ops, check=rng.randint(0, 9), after=rng.choice([3, 6, 10]),
                    sched=engine.gen_sched(rng, workers), stalls=engine.gen_stalls(rng, workers))

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        setup_disk(spec)
        ctx.shape = spec_shape(spec)
        hist = engine.History()
        total = sum(25 if o[0] == "end" else o[1] for o in p["ops"] if o[0] in ("next", "end"))

        def root():
            engine.run_history(spec, [dict(ops=p["ops"])], hist)
            if hist.saves and not hist.errors:
                names = list(hist.saves)
                engine.run_history(
                    spec, [dict(ops=[["next", p["after"]]], restore=names[p["check"] % len(names)])], hist,
                    append=True)

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck_or_empty(spec, total + p["after"] + 8 * spec["workers"], e)
        if hist.errors:
            i, err = hist.errors[0]
            return proc_violation(err, "restore:" if i else "run:")
        ref = engine.reference(spec, total + p["after"] + 1, ops=no_saves(p["ops"]) + [["next", p["after"] + 1]])
        if ref.errors:
            return proc_violation(ref.errors[0][1], "reference:")
        # Saving changed nothing, neither the batches nor where the epochs end
        got = [e[1][:2] if e[0] == "b" else e[0] for e in hist.inc[0]]
        want = [e[1][:2] if e[0] == "b" else e[0] for e in ref.inc[0]]
        for i, g in enumerate(got):
            if g != want[i]:
                return Violation("saving disturbs the run",
                                 f"event {i}\n expected {brief(want[i])}\n received {brief(g)}")
        ctx.probe("compared events", len(got))
        ctx.probe("saves", len(hist.saves))
        lim = 60 + 2 * sum(s[2] for s in p["stalls"]) + 20 * p["sched"].get("q_delay", 0) \
            + p["sched"]["tick"] * 4000 + 30 * p["sched"].get("clock_jump", 0)
        for n, s in hist.saves.items():
            if s["t"] > lim:
                return Violation("saving took too long", f"{s['t']:.1f} s simulated (limit {lim:.1f} s)")
        if len(hist.inc) > 1:
            names = list(hist.saves)
            sv = hist.saves[names[p["check"] % len(names)]]
            pos = len([e for e in hist.inc[0][: sv["pos"]] if e[0] == "b"])
            v = diff_stream(content(hist.inc[1]), content(ref.inc[0])[pos:], "saved state is not the delivered position",
                            f"after restoring the state saved at batch {pos}")
            if v:
                return v
            ctx.probe("restored states")
        return None


def no_saves(ops):
    return [o for o in ops if o[0] not in ("save", "sleep")]


CHECK = C04()
