"""C22: the debug log is faithful."""

import json
import pickle
import traceback

from .common import *

LOG = "/simfs/log"


def keys_of(b):
    """The keys which a batch carries, if it is one of several samples."""
    k = getattr(b, "__key__", None)
    return list(k) if isinstance(k, list) and all(isinstance(x, str) for x in k) else None


class Watch:
    def __init__(self, loader, name):
        self.loader, self.name, self.it = loader, name, None
        self.got = []  # (canonical batch, keys), or None at the end of a pass


def life(p, rank, n, hist, out):
    """A training script with debug logging. Fills out with what it received."""
    spec = p["spec"]
    S = core.S
    kw = {}
    if p["level"]:
        kw = dict(worker_log_level=p["level"], worker_debug_path=p["path"])
    wc = W.worker_config(spec, rank, **kw)
    specs = {"a": spec}
    if p.get("val"):
        specs["b"] = dict(spec, split=p["val"], loader=p["val_loader"])
    out["pid"] = S.cur_proc.pid
    watch = {}
    for name in sorted(specs):
        if name == "b" and p.get("two_configs"):
            wc = W.worker_config(spec, rank, **kw)
        w = watch[name] = Watch(W.make_loader(specs[name], rank, wc), name)
        out[name] = w.got
        st = hist.get((rank, n, name))
        if st is not None:
            w.loader.restore_state_rank(pickle.loads(st))
    for op in p["lives"][n]["ops"]:
        w = watch.get(op[1])
        if w is None:
            continue
        if op[0] == "next":
            for _ in range(op[2]):
                if w.it is None:
                    w.it = iter(w.loader)
                try:
                    b = next(w.it)
                except StopIteration:
                    w.got.append(None)
                    w.it = None
                    continue
                w.got.append((W.canon(b), keys_of(b)))
                b = None
        elif op[0] == "iter":
            w.it = iter(w.loader)
        elif op[0] == "save":
            if specs[op[1]].get("loader") != "basic":
                st = w.loader.save_state_rank()
                if st is not None:
                    for nn in range(n + 1, len(p["lives"])):
                        hist[(rank, nn, op[1])] = pickle.dumps(st)
        elif op[0] == "key":
            done = [g for g in w.got if g is not None and g[0][2] is not None]
            if done:
                g = done[op[2] % len(done)]
                b = W.canon(w.loader.restore_sample(g[0][2]))
                out["restored"] = out.get("restored", 0) + 1
                if b[0] != g[0][0]:
                    out["bad"] = (g[0], b)
                b = None
    for w in watch.values():
        w.it = None
        w.loader = None


class C22(Check):
    id = "C22"
    quick_n = 500
    thorough_n = 25000

    def gen(self, rng, tier):
        workers = rng.choice([0, 1, 1, 2, 2, 3])
        world = rng.choice([1, 1, 1, 2])
        spec = engine.gen_spec(rng, workers=workers, world=world, rng_ok=False, features=dict(fail=False))
        spec["loader"] = rng.choice(["savable", "savable", "savable", "basic"])
        p = dict(spec=spec, level=rng.choice([1, 2, 3]), lives=[], val=None)
        if rng.random() < 0.4:
            p["val"] = rng.choice(["train", "val"])
            p["val_loader"] = rng.choice(["savable", "savable", "basic"])
            p["two_configs"] = rng.random() < 0.3
        for _ in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.randint(1, 7)):
                w = rng.choice("aab") if p["val"] else "a"
                ops.append(rng.choice([["next", w, rng.choice([1, 3, 6, 15])]] * 4
                                      + [["save", w], ["key", w, rng.randint(0, 30)], ["key", w, rng.randint(0, 30)]]))
            p["lives"].append(dict(ops=ops, crash=rng.choice([None, None, rng.randint(100, 3000)])))
        pid = p["val"] or len(p["lives"]) > 1 or rng.random() < 0.6
        p["path"] = LOG + rng.choice(["/w{worker_id}", "/sub/rank_worker{worker_id}"]) + ("_{pid}.jsonl" if pid else ".jsonl")
        if rng.random() < 0.1:
            p["path"] = LOG + "/only{pid}.log"
        p["sched"] = engine.gen_sched(rng, workers)
        return p

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        world = spec.get("world", 1)
        ctx.shape = f"{spec_shape(spec)}/{p['level']}/{p['val']}/{len(p['lives'])}"

        def play(p, crash, logs):
            """All lives of all ranks; logs gets the files' content after each life."""
            hist, outs, errs = {}, {}, []

            def root():
                for n, lf in enumerate(p["lives"]):
                    hds = []
                    for r in range(world):
                        out = outs[(r, n)] = {}
                        hds.append(rt.spawn(f"r{r}.{n}", life, p, r, n, hist, out))
                    if crash and lf["crash"] is not None:
                        lim = core.S.steps + lf["crash"]
                        core.S.wait(lambda: not any(h.proc.alive for h in hds) or core.S.steps >= lim,
                                    None, "crashwait")
                        for r, h in enumerate(hds):
                            if h.proc.alive:
                                core.S.count("crashes")
                                outs[(r, n)]["killed"] = True
                                h.proc.kill(-9)
                    else:
                        for h in hds:
                            h.wait()
                    for r, h in enumerate(hds):
                        outs[(r, n)]["procs"] = {c.pid: 1 for c in h.proc.children}
                    for h in hds:
                        if h.ok is False:
                            errs.append(h.err)
                            return
                    if logs is not None:
                        logs.append({k: bytes(v.data) for k, v in disk.FS.files.items() if k.startswith(LOG)})

            return root, outs, errs, hist

        setup_disk(spec)
        disk.FS.writers.clear()
        logs = []
        root, outs, errs, _ = play(p, True, logs)
        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck(e)
        if errs:
            return proc_violation(errs[0])
        writers = {k: list(v) for k, v in disk.FS.writers.items() if k.startswith(LOG)}
        v = self.files(p, outs, writers, logs, ctx)
        if v is not None:
            return v
        for o in outs.values():
            if "bad" in o:
                return Violation("restored sample differs with logging", f"{o['bad'][0]}\n {o['bad'][1]}"[:1500])
            if o.get("restored"):
                ctx.probe("batches restored by key while logging", o["restored"])

        # Without logging
        quiet = dict(p, level=0)
        setup_disk(spec)
        root, refs, errs, _ = play(quiet, False, None)
        try:
            rt.run_sim(dict(seed=0, strategy="fifo", hang_idle=120.0, max_steps=200000), root)
        except (SimHang, SimLimit):
            raise Invalid("reference")
        if errs:
            raise Invalid("reference")
        crashed = False
        for n in range(len(p["lives"])):
            for r in range(world):
                if not crashed:
                    for name in ("a", "b"):
                        x, y = outs[(r, n)].get(name, []), refs[(r, n)].get(name, [])
                        x = [g and g[0] for g in x]
                        y = [g and g[0] for g in y][: len(x)]
                        if x != y:
                            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), len(y))
                            return Violation("logging changes the data",
                                             f"loader {name} batch {i}: {x[i:i + 1]}\n without logging {y[i:i + 1]}"[:1800])
            # What a later life starts from depends on where the kill came
            crashed = crashed or any(outs[(r, n)].get("killed") for r in range(world))
        return None

    def files(self, p, outs, writers, logs, ctx):
        spec = p["spec"]
        world = spec.get("world", 1)
        nw = spec["workers"]
        for path, pids in sorted(writers.items()):
            if len(set(pids)) > 1:
                return Violation("several processes write the same log file", f"{path}: {pids}")
        lines = {}  # file -> entries
        final = logs[-1]
        killed = any(o.get("killed") for o in outs.values())
        for n, snap in enumerate(logs):
            for path, data in snap.items():
                if not final[path].startswith(data):
                    return Violation("logged lines are lost", f"{path}: {data[:200]!r}..., later {final[path][:200]!r}")
        for path, data in sorted(final.items()):
            ls = data.split(b"\n")
            if ls.pop() != b"" and not killed:
                return Violation("incomplete line in the log", f"{path}: {data[-200:]!r}")
            es = lines[path] = []
            for ln in ls:
                try:
                    e = json.loads(ln)
                    assert isinstance(e, dict) and isinstance(e["t"], str)
                except Exception:
                    return Violation("a line of the log is not valid", f"{path}: {ln[:300]!r}")
                es.append(e)
            ctx.probe("log lines", len(es))
        by_pid = {}
        for path, pids in writers.items():
            by_pid.setdefault(pids[0], []).append(path)
        for pid, paths in by_pid.items():
            if len(paths) > 1:
                return Violation("a process writes several log files", f"process {pid}: {sorted(paths)}")
        for (r, n), o in sorted(outs.items()):
            if "pid" not in o:
                continue
            mine = [lines[x] for x in by_pid.get(o["pid"], [])]
            mine = mine[0] if mine else []
            kinds = {"a": spec.get("loader", "savable"), "b": p.get("val_loader")}
            ids = sorted({e["id"] for e in mine if e["t"].endswith("Loader.__init__")})
            names = [x for x in ("a", "b") if x in o]
            if len(ids) < len(names) and not o.get("killed"):
                return Violation("a loader is not logged", f"{ids}")
            for name, lid in zip(names, ids):
                t = "BasicDataLoader" if kinds[name] == "basic" else "SavableDataLoader"
                got = o[name]
                log = [e for e in mine if e["t"] in (f"{t}.yield", f"{t}.StopIteration") and e["id"] == lid]
                extra = len(log) - len(got)
                if extra < 0 or extra > (1 if o.get("killed") else 0):
                    return Violation("delivered batches are not logged once each",
                                     f"rank {r} life {n} loader {name}: {len(got)} events, {len(log)} logged\n"
                                     f" {[e.get('idx') for e in log]}"[:1500])
                idx = gidx = None
                for i, (g, e) in enumerate(zip(got, log)):
                    if (g is None) != (e["t"] == f"{t}.StopIteration"):
                        return Violation("delivered batches are logged out of order", f"event {i}: {e}")
                    if g is None:
                        idx = None
                        continue
                    if e.get("keys") != g[1] and g[1] is not None:
                        return Violation("wrong keys in the log", f"event {i}: batch {g[1]} log {e}")
                    if e["r"] != r:
                        return Violation("wrong rank in the log", f"{e}")
                    rk = g[0][2]
                    if rk is not None and nw and (e["worker_id"] != rk[1] - r * nw or e["worker_idx"] != rk[2]):
                        return Violation("wrong worker or worker index in the log", f"event {i}: {rk[:3]} log {e}")
                    if kinds[name] != "basic":
                        if idx is not None and e["idx"] != idx + 1:
                            return Violation("wrong index in the log", f"event {i}: {e}, after {idx}")
                        idx = e["idx"]
                    if gidx is not None and e["global_idx"] != gidx + 1:
                        return Violation("wrong global index in the log", f"event {i}: {e}, after {gidx}")
                    gidx = e["global_idx"]
            v = self.workers(p, r, n, o, mine, lines, by_pid, ctx)
            if v is not None:
                return v
        return None

    def workers(self, p, r, n, o, mine, lines, by_pid, ctx):
        """What the workers of one life have logged."""
        spec = p["spec"]
        nw = spec["workers"]
        for name in ("a", "b"):
            if name not in o:
                continue
            split = spec["split"] if name == "a" else p["val"]
            lvl = 1 if split == "train" else 2
            if p["level"] < lvl:
                continue
            got = [g for g in o[name] if g is not None and g[0][2] is not None]
            if not got or p.get("val") == spec["split"] or not str(got[0][0][2][0]).startswith("SimpleSav"):
                # Two loaders of the same kind are not told apart in the files of the workers
                continue
            # The processes of the workers of this rank in this life
            cand = []
            for pid, paths in by_pid.items():
                es = lines[paths[0]]
                if o["procs"].get(pid) or (nw == 0 and pid == o["pid"]):
                    cand += [[e for e in es if e["t"] == "yield_batch" and e["m"] == split]]
            for c in cand:
                last = {}
                for e in c:
                    if e["r"] != r or e["w"] // max(nw, 1) != r:
                        return Violation("wrong rank or worker in the log of a worker", f"{e}")
                    k = e["w"]
                    if k in last and e["idx"] not in (last[k] + 1, 0):
                        return Violation("wrong order in the log of a worker", f"{e} after {last[k]}")
                    last[k] = e["idx"]
            for g in got:
                rk = g[0][2]
                hit = [e for c in cand for e in c if e["w"] == rk[1] and e["idx"] == rk[2]]
                if g[1] is not None:
                    hit = [e for e in hit if e.get("keys") == g[1]]
                ctx.probe("delivered batches found in a worker's log")
                if len(hit) != 1:
                    return Violation("a delivered batch is not in the log of its worker exactly once",
                                     f"{rk[:3]} {g[1]}: {hit} of {[(e['w'], e['idx']) for c in cand for e in c][:60]}"[:1500])
        return None


CHECK = C22()
