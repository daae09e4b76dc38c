from .common import *
from .. import dist
import pickle


def train(spec, g, group, life, hist, out):
    """One rank of the job: runs inside of a simulated process."""
    from megatron.energon import WorkerConfig

    wc = WorkerConfig.default_worker_config(spec["workers"], group)
    wc.seed_offset = spec.get("seed_offset", 0)
    out.append(("rank", wc.rank, wc.world_size))
    loader = W.make_loader(spec, wc.rank, wc)
    r = life.get("restore")
    if r is not None:
        core.S.wait(lambda: False, life["delay"][g][0], "train")
        st = None
        src = r["src"]
        if r["save"] is not None and (src is None or src == wc.rank):
            # The file written by the rank which had the state
            st = pickle.loads(hist["saves"][(r["save"], r["file"] if r["file"] is not None else wc.rank, r["tp"][g])])
        if src is None:
            loader.restore_state(st)
        else:
            loader.restore_state(st, src_rank=src)
    it = None
    for i, op in enumerate(life["ops"]):
        if op[0] == "next":
            for _ in range(op[1] + (op[2] if wc.rank % 2 else 0)):
                if it is None:
                    it = iter(loader)
                try:
                    b = next(it)
                except StopIteration:
                    out.append(("end",))
                    it = None
                    continue
                out.append(("b", W.canon(b)))
                core.S.progress()
        elif op[0] == "save":
            core.S.wait(lambda: False, life["delay"][g][1 + i], "train")
            st = loader.save_state() if op[2] is None else loader.save_state(dst_rank=op[2])
            out.append(("saved", op[1], op[2], None if st is None else type(st).__name__,
                        len(st) if isinstance(st, list) else 0))
            hist["saves"][(op[1], wc.rank, life["tp"][g])] = pickle.dumps(st)
            hist["pos"][(op[1], g)] = len(out)
            core.S.progress()


class C10(Check):
    quick_n = 450
    thorough_n = 20000

    def gen(self, rng, tier):
        D = rng.choice([1, 2, 2, 3, 4])
        T = rng.choice([1, 1, 1, 2])
        spec = engine.gen_spec(rng, split=rng.choice(["train", "train", "val"]), workers=rng.choice([0, 1, 1, 2]), world=D)
        for d in spec["data"]:
            while sum(d["shards"]) < 4 * max(spec["workers"], 1) * D:
                d["shards"] = [x + 1 for x in d["shards"]]
        group = rng.random() < 0.5 or T > 1
        lives = []
        nsave = 0
        maxl = rng.choice([2, 2, 2, 3])
        skew = rng.choice([0, 0, 1, 2])
        for li in range(maxl):
            ops = []
            if li == 0 or rng.random() < 0.7:
                ops.append(["next", rng.randint(0, 6), skew])
            saves = []
            if li < maxl - 1:
                for _ in range(rng.choice([1, 1, 2])):
                    dst = rng.choice([None, None, rng.randrange(D), rng.randrange(D)])
                    ops.append(["save", nsave, dst])
                    saves.append((nsave, dst))
                    nsave += 1
                    ops.append(["next", rng.choice([0, 1, 3]), skew])
            else:
                ops.append(["next", rng.randint(2, 8), 0])
            life = dict(ops=ops, delay=[[rng.choice([0, 0, 0.01, 1.0, 20.0]) for _ in range(len(ops) + 1)]
                                        for _ in range(D * T)])
            if li:
                s, dst = lives[-1]["_saves"][rng.randrange(len(lives[-1]["_saves"]))]
                if rng.random() < 0.1:
                    life["restore"] = dict(save=None, file=None, src=rng.choice([None, rng.randrange(D)]))
                elif dst is None:
                    src = rng.choice([None, None, rng.randrange(D)])
                    life["restore"] = dict(save=s, file=rng.choice([None, rng.randrange(D)]) if src is None
                                           else rng.randrange(D), src=src)
                else:
                    life["restore"] = dict(save=s, file=dst, src=rng.choice([dst, dst, None, rng.randrange(D)]))
            life["_saves"] = saves
            lives.append(life)
        return dict(spec=spec, D=D, T=T, major=rng.choice(["dp", "tp"]), group=group, lives=lives,
                    scatter_waits=rng.random() < 0.5, sched=engine.gen_sched(rng, spec["workers"]),
                    stalls=engine.gen_stalls(rng, spec["workers"]))

    def run(self, p, ctx):
        spec = p["spec"]
        D, T = p["D"], p["T"]
        if spec.get("world") != D:
            raise Invalid("world")
        check_spec(spec)
        setup_disk(spec)
        ctx.shape = spec_shape(spec) + f"/{D}/{T}/{len(p['lives'])}"
        if p["major"] == "dp":
            where = [(g // T, g % T) for g in range(D * T)]
        else:
            where = [(g % D, g // D) for g in range(D * T)]
        groups = []
        for g, (d, t) in enumerate(where):
            ranks = [x for x, (_, tt) in enumerate(where) if tt == t]
            groups.append(dist.SimGroup(ranks, f"dp{t}") if p["group"] else None)
        if not p["group"] and T > 1:
            raise Invalid("group")
        tp = [t for _, t in where]
        hist = dict(saves={}, pos={})
        outs = []
        errors = []

        def go():
            for li, life in enumerate(p["lives"]):
                life = dict(life, tp=tp)
                if life.get("restore"):
                    life["restore"] = dict(life["restore"], tp=tp)
                outs.append([[] for _ in where])
                hd = []
                for g in range(D * T):
                    hd.append(rt.spawn(f"l{li}r{g}", train, spec, g, groups[g], life, hist, outs[-1][g],
                                       rank=g, dist=(g, D * T, li)))
                for x in hd:
                    # An error of one rank ends the job
                    core.S.wait(lambda x=x: not x.proc.alive or any(y.ok is False for y in hd), None, "job")
                    bad = [y for y in hd if y.ok is False]
                    if bad:
                        errors.append((li, bad[0].err))
                        return

        try:
            ctx.sim(go, dict(cfg_of(p), scatter_waits=p["scatter_waits"]))
        except (SimHang, SimLimit) as e:
            if errors:
                return proc_violation(errors[0][1], f"life{min(errors[0][0], 1)}:")
            return stuck_or_empty(spec, 25, e, None)
        if errors:
            return proc_violation(errors[0][1], f"life{min(errors[0][0], 1)}:")
        base = {g: 0 for g in range(D * T)}  # batches consumed before the life
        refs = {}
        total = {}
        nb = lambda evs: [e for e in evs if e[0] == "b"]
        savepos = {}
        for li, life in enumerate(p["lives"]):
            for g, (d, t) in enumerate(where):
                out = outs[li][g]
                if out[0] != ("rank", d, D):
                    return Violation("wrong rank of the group", f"global rank {g}: {out[0]}, expected {d} of {D}")
                r = life.get("restore")
                if r is not None:
                    base[g] = 0 if r["save"] is None else savepos[(r["save"], g)]
                for i, e in enumerate(out):
                    if e[0] == "saved":
                        savepos[(e[1], g)] = base[g] + len(nb(out[:i]))
                        if e[2] is None or e[2] == d:
                            ctx.probe("states gathered")
                            if e[3] != "list" or e[4] != D:
                                return Violation("the gathered state is not a list of all ranks", f"{e} on rank {d} of {D}")
                        elif e[3] is not None:
                            return Violation("a rank other than the destination got a state", f"{e} on rank {d}")
                total[g] = max(total.get(g, 0), base[g] + len(nb(out)))
        for d in range(D):
            need = max(total[g] for g in range(D * T) if where[g][0] == d)
            ref = engine.reference(spec, need + 1, d)
            if ref.errors:
                raise Invalid("reference")
            refs[d] = contents(ref.inc[0])
        base = {g: 0 for g in range(D * T)}
        for li, life in enumerate(p["lives"]):
            for g, (d, t) in enumerate(where):
                r = life.get("restore")
                if r is not None:
                    base[g] = 0 if r["save"] is None else savepos[(r["save"], g)]
                    ctx.probe("restores from nothing" if r["save"] is None else
                              "scattered restores" if r["src"] is not None else "local restores")
                got = contents(outs[li][g])
                v = diff_stream(got, refs[d][base[g]:], "after a distributed restore the stream differs" if r
                                else "stream differs", f"life {li} rank {d} (global {g})")
                if v:
                    return v
        return None


def contents(evs):
    return [e[1][0] for e in evs if e[0] == "b"]


CHECK = C10()
