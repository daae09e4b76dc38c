"""Histories of a training process: consume, save, crash, restore; and their generators."""
import pickle

from . import core, disk, rt, workload as W
from .workload import h


class History:
    """Everything observed from outside, appended to by the simulated processes."""

    def __init__(self):
        self.inc = []  # per incarnation: list of events
        self.saves = {}  # id -> dict(data, inc, pos)
        self.errors = []  # (incarnation, ProcError)
        self.notes = []
        self.live = {}
        self.keys = []  # batches to restore by key

    def batches(self, i):
        return [e[1] for e in self.inc[i] if e[0] == "b"]


MAX_ENDS = 3


def consume(spec, rank, inc, hist, out, faults=None):
    """The training script: runs inside of a simulated process."""
    loader = W.make_loader(spec, rank)
    st = inc.get("restore")
    if st is not None:
        sv = hist.saves[st]
        loader.restore_state_rank(pickle.loads(sv["data"]))
    it = None
    ends = 0
    for op in inc["ops"]:
        k = op[0]
        if k == "next":
            n = 0
            while n < op[1]:
                if it is None:
                    it = iter(loader)
                try:
                    b = next(it)
                except StopIteration:
                    out.append(("end",))
                    ends += 1
                    it = None
                    if ends >= MAX_ENDS:
                        out.append(("dry",))
                        return
                    continue
                ends = 0
                n += 1
                out.append(("b", W.canon(b)))
                core.S.progress()
        elif k == "end":
            # consume up to the end of the pass
            n = 0
            while n < op[1]:
                if it is None:
                    it = iter(loader)
                try:
                    b = next(it)
                except StopIteration:
                    out.append(("end",))
                    it = None
                    break
                n += 1
                out.append(("b", W.canon(b)))
        elif k == "seed":
            W.torch.manual_seed(op[1])
            W.np.random.seed(op[1])
            W.random.seed(op[1])
        elif k == "draw":
            out.append(("d", W.draws()))
        elif k == "iter":
            it = iter(loader)
            out.append(("iter",))
        elif k == "len":
            out.append(("len", len(loader)))
        elif k == "sleep":
            core.S.wait(lambda: False, op[1], "train")
        elif k == "save":
            t0 = core.S.now
            st = loader.save_state_rank()
            hist.saves[op[1]] = dict(
                data=pickle.dumps(st), inc=len(hist.inc) - 1, pos=len(out), t=core.S.now - t0,
                none=st is None,
            )
            if len(op) > 2 and op[2] == "live":
                hist.live[op[1]] = st
        elif k == "bykey":
            # restore items by their keys, in between of the iteration
            for i in op[1]:
                if i >= len(hist.keys):
                    continue
                try:
                    b = W.canon(loader.restore_sample(hist.keys[i][2]))
                except KeyError as e:
                    if not str(e).startswith("'shard_"):
                        raise
                    b = None  # not one of the shards of this process
                out.append(("k", i, b))
        elif k == "refuse":
            b = next(iter(loader))
            try:
                r = ("restored", W.canon(loader.restore_sample(b.__restore_key__)))
            except Exception as e:
                r = (type(e).__name__, str(e)[:200])
            out.append(("r", loader.can_restore_sample(), r))
        elif k == "restore_here":
            # used loader without workers: restore in place
            loader.restore_state_rank(pickle.loads(hist.saves[op[1]]["data"]))
            out.append(("restored", op[1]))
            if len(op) > 2 and op[2] == "newiter":
                it = None
        elif k == "second":
            # Build a second loader in the same process, from the live state object
            if spec["workers"] > 0:
                it = None
                loader = None
            loader = W.make_loader(spec, rank)
            loader.restore_state_rank(hist.live[op[1]])
            out.append(("restored", op[1]))
            it = None
        else:
            raise rt.core.SimError("bad op %r" % (op,))
    if inc.get("close"):
        it = None
        loader = None


def consume_again(spec, rank, inc, hist, out):
    """The whole life twice in one process, with a newly built loader."""
    consume(spec, rank, inc, hist, out)
    if inc.get("again"):
        out.append(("again",))
        consume(spec, rank, inc, hist, out)


def run_history(spec, plan, hist, rank=0, append=False):
    """Root task: run the incarnations one after another."""
    for i, inc in enumerate(plan):
        out = []
        hist.inc.append(out)
        if inc.get("restore") is not None and inc["restore"] not in hist.saves:
            raise core.Invalid("the save point was not reached")
        hd = rt.spawn(f"r{len(hist.inc) - 1}", consume_again, spec, rank, inc, hist, out)
        crash = inc.get("crash_at")
        if crash is None:
            hd.wait()
        else:
            lim = core.S.steps + crash
            core.S.wait(lambda: not hd.proc.alive or core.S.steps >= lim, None, "crashwait")
            if hd.proc.alive:
                core.S.count("crashes")
                hd.proc.kill(-9)
        if hd.ok is False:
            hist.errors.append((len(hist.inc) - 1, hd.err))
            return


def add_stalls(sim, stalls):
    """stalls: list of [step, worker pick, seconds]"""
    todo = sorted(stalls)

    def hook(s):
        while todo and s.steps >= todo[0][0]:
            _, pick, dur = todo.pop(0)
            ps = [p for p in s.procs if p.alive and p.name != "root"]
            if ps:
                p = ps[pick % len(ps)]
                p.stalled_until = s.now + dur
                s.count("stalls")

    sim.step_hooks.append(hook)


def reference(spec, n, rank=0, cfg=None, ops=None):
    """Uninterrupted run under the simplest schedule: list of events."""
    if spec.get("hs"):
        from . import zyg

        return zyg.reference(spec, n, rank, cfg, ops)
    hist = History()
    plan = [dict(ops=ops or [["next", n]])]
    _, sim = rt.run_sim(dict(cfg or {}, seed=0, strategy="fifo", hang_idle=60.0, max_steps=100000),
                        lambda: run_history(dict(spec, **{"ck_sec": 60}), plan, hist, rank))
    return hist


# --------------------------------------------------------------------------------------------
# Generators
# --------------------------------------------------------------------------------------------


def gen_data(rng, name, small=False, crude=False):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    mx = 6 if small else 12
    ds = dict(name=name, shards=[rng.randint(1, mx) for _ in range(n)])
    if rng.random() < 0.3:
        ds["subflavors"] = {"src": name}
    if crude:
        ds["crude"] = True
    if n > 1 and rng.random() < 0.12:
        ds["shards"][rng.randrange(n)] = 0  # a prepared archive without samples
    return ds


def gen_spec(rng, split=None, workers=None, world=1, rng_ok=True, features=None):
    f = features or {}
    split = split or rng.choice(["train", "train", "val"])
    workers = rng.choice([1, 2, 3, 4]) if workers is None else workers
    crude = rng.random() < 0.15
    nds = rng.choice([1, 1, 1, 2, 3]) if f.get("blend", True) else 1
    data = [gen_data(rng, f"d{i}", crude=crude) for i in range(nds)]
    spec = dict(split=split, workers=workers, world=world, data=data)
    if nds > 1:
        ents = []
        for d in data:
            e = {"path": "./" + d["name"], "weight": rng.choice([1, 1, 2, 3, 0.5])}
            if rng.random() < 0.3:
                e["subflavors"] = {"mix": d["name"] + "m"}
            if f.get("som", True) and rng.random() < 0.15:
                e["shuffle_over_epochs_multiplier"] = 2
            ents.append(e)
        spec["meta"] = W.blend_yaml(ents)
    enc = {}
    if crude:
        enc["cook"] = "cook"
    enc["s"] = rng.choice(["none", "sl", "rs", "gen", "genrs"] + (["rng", "rng"] if rng_ok and workers else []))
    if f.get("s"):
        enc["s"] = rng.choice(f["s"])
    spec["bs"] = rng.choice([1, 2, 2, 3, 4])
    grp = f.get("group", True) and rng.random() < 0.15
    if grp:
        enc["g"] = "grp"
        enc["gsize"] = rng.random() < 0.7
        if enc["gsize"]:
            spec["bs"] = None
        enc["b"] = rng.choice(["list", "rs"])
        enc["e"] = rng.choice(["none", "none", "sl", "rs", "gen"] if "e" not in f else f["e"])
    else:
        bs = ["list", "list", "rs"] + (["rng"] if rng_ok and workers else [])
        if f.get("bgen", True):
            bs.append("gen")
        enc["b"] = rng.choice(f.get("b", bs))
        enc["e"] = rng.choice(f.get("e", ["none", "none", "sl", "rs", "gen"]))
        if f.get("nobatch", True) and rng.random() < 0.12:
            spec["bs"] = None
            enc["b"] = enc["e"] = "none"
    if f.get("pack", True) and rng.random() < 0.25:
        enc["p"] = rng.choice(["sl", "rs"] + (["gen"] if f.get("pgen", True) else []))
        enc["pv"] = rng.randint(0, 1)
        spec["pbs"] = rng.randint(2, 6)
    if enc["s"] == "rng" and ("p" in enc or enc["b"] in ("gen",) or "g" in enc):
        enc["s"] = "rs"
    if "rng" in (enc["s"], enc["b"]) and enc.get("e") == "gen":
        # Generators need to be resumed by restoring the samples
        enc["e"] = "rs"
    if f.get("fail", True) and rng.random() < 0.2:
        st = rng.choice(["sample", "batch", "ebatch", "pack", "prepack"])
        enc["fail"] = {st: {"skip": rng.choice([0, 20]), "err": rng.choice([0, 15])}}
    spec["enc"] = enc
    if "fail" in enc or "gen" in enc.values() or "genrs" in enc.values():
        # Avoid workers without any output
        for d in data:
            while sum(d["shards"]) < 8 * max(workers, 1) * world:
                d["shards"] = [x + 1 for x in d["shards"]]
    spec["drop_last"] = rng.random() < 0.3
    if split == "train":
        spec["sbs"] = rng.choice([None, 2, 4, 8])
        if rng.random() < 0.4:
            spec["vel"] = rng.randint(1, 12)
            while sum(data[0]["shards"]) < max(workers, 1) * world:
                data[0]["shards"] = [x + 1 for x in data[0]["shards"]]
        if rng.random() < 0.3:
            spec["som"] = rng.choice([2, 3, -1])
        if rng.random() < 0.4:
            spec["msps"] = rng.randint(1, 6)
        if rng.random() < 0.5:
            spec["psi"] = rng.randint(1, 4)
        spec["seed_offset"] = rng.choice([0, 0, 7])
    else:
        if rng.random() < 0.4:
            spec["limit"] = rng.randint(1, 8)
    spec["ck_sec"] = rng.choice([0, 0, 0, 0.01, 60])
    spec["ck_n"] = rng.choice([None, None, None, 1, 2, 3, 5])
    spec["n_ck"] = rng.choice([None, None, None, 3, 5])
    return spec


def gen_sched(rng, workers=1):
    c = dict(seed=rng.getrandbits(31))
    c["strategy"] = rng.choice(["random", "random", "pct", "starve", "fifo"])
    if c["strategy"] == "random":
        c["switch_p"] = rng.choice([1.0, 0.5, 0.1])
    if c["strategy"] == "pct":
        c["change_p"] = rng.choice([0.01, 0.05, 0.2])
    if c["strategy"] == "starve":
        c["victim"] = rng.randint(0, 4)
    c["tick"] = rng.choice([0.0001, 0.001, 0.02, 0.02, 0.2])
    if rng.random() < 0.3:
        c["q_delay"] = rng.choice([0.05, 1.0, 6.0])
    if rng.random() < 0.25:
        c["clock_jump"] = rng.choice([1.0, 100.0])
    if workers and rng.random() < 0.35:
        c["line_p"] = rng.choice([0.01, 0.05, 0.3])
    c["hang_idle"] = 200.0 + 100 * c["tick"] * 20
    return c


def gen_stalls(rng, workers):
    if not workers or rng.random() < 0.6:
        return []
    return [
        [rng.randint(50, 1500), rng.randint(0, 10), rng.choice([0.5, 3.0, 12.0, 40.0])]
        for _ in range(rng.randint(1, 3))
    ]


class RankRun:
    """The event streams of all ranks of one configuration."""

    def __init__(self, spec, hist, ranks):
        self.spec, self.hist, self.ranks = spec, hist, ranks

    def events(self, r):
        return self.hist[r].inc[-1]

    def errors(self):
        for h_ in self.hist:
            for e in h_.errors:
                return e[1]
        return None

    def worker_streams(self):
        """(rank, worker) -> canonical batches in delivery order."""
        out = {}
        n = self.spec["workers"]
        for r in range(self.spec.get("world", 1)):
            for w in range(max(n, 1)):
                out[(r, w)] = []
            for inc in self.hist[r].inc:
                for e in inc:
                    if e[0] == "b":
                        out[(r, worker_of(self.spec, r, e[1]))].append(e[1])
        return out


def worker_of(spec, rank, c):
    """Local worker of a canonical batch."""
    n = spec["workers"]
    return c[2][1] - rank * n if n else 0


def run_ranks(spec, ops=None, plans=None):
    """Root task: all ranks at the same time, each in its own process (not communicating)."""
    world = spec.get("world", 1)
    hists = [History() for _ in range(world)]
    done = []
    invalid = []

    def one(r):
        try:
            run_history(spec, plans[r] if plans else [dict(ops=ops)], hists[r], r)
        except core.Invalid as e:
            invalid.append(e)
        done.append(r)

    me = core.S.current.proc
    for r in range(world):
        core.S.spawn_task(me, f"ctl{r}", lambda r=r: one(r))
    core.S.wait(lambda: len(done) == world, None, "allranks")
    if invalid:
        raise invalid[0]
    return RankRun(spec, hists, world)
