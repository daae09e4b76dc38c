import errno

from .. import prep
from .common import *
from .c18 import check_opts, check_tars, gen_tars

FAULTS = ("eio_read", "eio_open", "eio_write", "torn", "eio_mv", "eio_rm", "enospc", "eio_mkdir",
          "meta_write", "meta_torn", "split_torn", "split_torn", "meta_mv")


class PrepFaults:
    """faults: list of [operation number, kind, count]: the next `count` operations of that kind fail."""

    def __init__(self, faults):
        self.todo = sorted(faults)
        self.n = 0
        self.now = {}
        self.hit = set()  # paths
        self.fired = 0
        self.full = None

    def attach(self, fs):
        fs.hook, fs.rhook, fs.whook = self.op, self.read, self.write

    def detach(self, fs):
        fs.hook = None
        for a in ("rhook", "whook"):
            if hasattr(fs, a):
                delattr(fs, a)

    def _tick(self):
        self.n += 1
        while self.todo and self.n >= self.todo[0][0]:
            _, k, c = self.todo.pop(0)
            self.now[k] = self.now.get(k, 0) + c

    def _fail(self, kind, path, no=errno.EIO):
        self.fired += 1
        self.hit.add(path)
        core.S.count("disk:" + kind)
        core.S.ev("diskfault", kind, path)
        raise OSError(no, "injected", path)

    def _take(self, kind):
        if self.now.get(kind, 0) > 0:
            self.now[kind] -= 1
            return True
        return False

    def op(self, op, path):
        if core.cur() is None:
            return
        self._tick()
        if op.startswith("open") and self._take("eio_open"):
            self._fail("eio_open", path)
        if op == "mv" and "/.nv-meta/" in path and self._take("meta_mv"):
            self._fail("meta_mv", path)
        if op == "mv" and self._take("eio_mv"):
            self._fail("eio_mv", path)
        if op == "rm" and self._take("eio_rm"):
            self._fail("eio_rm", path)
        if op == "mkdir" and self._take("eio_mkdir"):
            self._fail("eio_mkdir", path)

    def read(self, op, f, n):
        if core.cur() is not None and op == "read" and self._take("eio_read"):
            self._fail("eio_read", f.path)
        return n

    def write(self, f, b):
        if core.cur() is None:
            return b
        if self._take("eio_write"):
            self._fail("eio_write", f.path)
        if "/.nv-meta/" in f.path:
            if self._take("meta_write"):
                self._fail("meta_write", f.path)
            kind = "split_torn" if "/split" in f.path and "split_torn" in self.now else "meta_torn"
            k = self.now.pop(kind, 0)
            if k:
                n = k % max(1, len(b))
                if k % 3:
                    n = b.rfind(b"\n", 0, n) + 1
                f.ino.data += b[:n]
                self._fail(kind, f.path)
        if self._take("torn"):
            f.ino.data += b[: len(b) // 2]
            self._fail("torn", f.path)
        if self.now.get("enospc", 0) > 0:
            # the disk is full for the rest of the run
            if self.full is None:
                self.full = self.now["enospc"]
            k = min(len(b), self.full)
            self.full -= k
            if k < len(b):
                f.ino.data += b[:k]
                self._fail("enospc", f.path, errno.ENOSPC)
        return b


class C17(Check):
    """Preparation with kills and storage faults; oracle: own model of the old and new version."""

    quick_n = 1200
    thorough_n = 20000

    def gen(self, rng, tier):
        tars = gen_tars(rng, rng.choice([1, 2, 3, 4, 6]), flat=rng.random() < 0.7)
        names = [t["name"] for t in tars]
        for t in tars:
            if rng.random() < 0.15 and t["members"]:
                t["damage"] = [rng.choice(prep.DAMAGE), rng.randint(0, 50), rng.randint(0, 3000)]
        old = None
        if rng.random() < 0.6:
            old = dict(n=rng.randint(1, len(names)), opts=prep.gen_opts(rng, names))
        runs = []
        for _ in range(rng.choice([1, 1, 2])):
            r = dict(kill=rng.choice([None, None, rng.randint(1, 60), rng.randint(20, 400), rng.randint(20, 1500)]),
                     faults=[])
            if r["kill"] is None or rng.random() < 0.3:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    k = rng.choice(FAULTS)
                    r["faults"].append([rng.randint(1, rng.choice([10, 40, 150])), k,
                                        rng.choice([1, 1, 2, 5]) if k not in ("enospc", "meta_torn", "split_torn")
                                        else rng.randint(1, 300)])

            if rng.random() < 0.4:
                r["reader"] = [rng.randint(1, 400), rng.choice(["train", "val"])]
            runs.append(r)
        return dict(tars=tars, opts=prep.gen_opts(rng, names), old=old, runs=runs, buf=rng.choice([8192, 512, 64]),
                    sched=engine.gen_sched(rng, 0), stalls=engine.gen_stalls(rng, 1))

    def run(self, p, ctx):
        tars, o, old = p["tars"], p["opts"], p["old"]
        check_tars(tars)
        check_opts(o)
        for t in tars:
            if t.get("damage") and t["damage"][0] not in prep.DAMAGE:
                raise Invalid("damage")
        names = [t["name"] for t in tars]
        good = [t["name"] for t in tars if not t.get("damage") and prep.model(t)[0]]
        ctx.shape = "%s/%s/%s" % (len(tars), bool(old),
                                  [(bool(r["kill"]), sorted({f[1] for f in r["faults"]})) for r in p["runs"]])
        disk.BUF = p.get("buf") or 8192
        disk.FS.__init__()
        prep.put_tars(tars)
        prep.put_dataset_yaml()
        raw = disk.FS.snapshot()
        cfg = dict(p["sched"], seed=0, strategy="fifo")

        def clean(paths, opts):
            hd = {}

            def root():
                hd["h"] = rt.spawn("prep", prep.prepare, paths, opts).wait()

            ctx.sim(root, cfg=cfg, stalls=[], record=False)
            if hd["h"].err:
                return proc_violation(hd["h"].err, "without faults: ")
            return None

        v = clean(names, o)
        if v:
            return v
        final = {k: bytes(x.data) for k, x in disk.FS.files.items()}
        v = self.check_clean(final, good, o)
        if v:
            return v
        disk.FS.load(raw)
        versions = []  # (split lists) of the versions a reader may see
        if old:
            if not 1 <= old["n"] <= len(names):
                raise Invalid("old")
            check_opts(old["opts"])
            v = clean(names[: old["n"]], old["opts"])
            if v:
                return v
            versions.append(prep.model_split([n for n in names[: old["n"]] if n in good], old["opts"]))
        for r in p["runs"]:
            info0 = disk.FS.files.get(prep.META + "/.info.yaml")
            info0 = None if info0 is None else bytes(info0.data)
            fl = PrepFaults(r["faults"])
            st = {}

            def root():
                fl.attach(disk.FS)
                # A reader may come at any time
                core.S.step_hooks.append(
                    lambda s: "idx" in st or st.update(idx=v) if (v := self.check_indexes(final, good)) else None)
                hd = st["h"] = rt.spawn("prep", prep.prepare, names, o)
                if r["kill"]:
                    n0 = core.S.steps

                    def k(s):
                        if s.steps >= n0 + r["kill"] and hd.proc.alive:
                            st["killed"] = True
                            s.count("kills")
                            fl.detach(disk.FS)
                            hd.proc.kill(-9)

                    core.S.step_hooks.append(k)
                if r.get("reader"):
                    n1 = core.S.steps + r["reader"][0]
                    core.S.wait(lambda: core.S.steps >= n1 or not hd.proc.alive, None, "reader")
                    st["r"] = rt.spawn("reader", self.reader, r["reader"][1], fl).wait()
                hd.wait()
                fl.detach(disk.FS)

            try:
                ctx.sim(root)
            except (SimHang, SimLimit) as e:
                return stuck(e)
            finally:
                fl.detach(disk.FS)
            h = st["h"]
            ctx.probe("killed" if st.get("killed") else "raised" if h.err else "succeeded")
            ctx.probe("faults fired", fl.fired)
            v = self.judge(p, ctx, r, st, h, fl, versions, info0, good) or st.get("idx") or self.check_indexes(final, good)
            if v:
                return v
        # Again without faults
        v = clean(names, o)
        if v:
            return v
        again = {k: bytes(x.data) for k, x in disk.FS.files.items() if not k.endswith(".tmp")}
        if again != final:
            d = sorted(k for k in set(again) | set(final) if again.get(k) != final.get(k))
            # The index of an archive which is left out may stay from before
            d = [k for k in d if not k.endswith(".tar.idx") or k[len(prep.ROOT) + 1:-4] in good]
            if d:
                return Violation("preparing again does not complete the dataset", f"{d}")
        ctx.probe("completed by another run")
        return None

    @staticmethod
    def check_indexes(final, good):
        """An index with its final name is complete at any time: the archives do not change."""
        for n in good:
            k = f"{prep.ROOT}/{n}.idx"
            f = disk.FS.files.get(k)
            if f is not None and bytes(f.data) != final[k]:
                return Violation("an incomplete index has its final name",
                                 f"{k}: {len(f.data)} of {len(final[k])} bytes")
        return None

    def check_clean(self, final, good, o):
        """The clean run leaves the damaged archives out."""
        import yaml

        info = yaml.safe_load(final[prep.META + "/.info.yaml"].decode())
        if sorted(info["shard_counts"]) != sorted(good):
            return Violation("a damaged archive is included or an intact one is left out",
                             f"{sorted(info['shard_counts'])} expected {sorted(good)}")
        split = yaml.safe_load(final[prep.META + "/split.yaml"].decode())
        if split["split_parts"] != prep.model_split(good, o):
            return Violation("splits differ", f"{split}")
        return None

    @staticmethod
    def reader(part, fl=None):
        if fl is None:
            return sorted(prep.read_split(part))
        # without faults for the reader itself
        hk = disk.FS.hook
        me = core.S.cur_proc

        def skip(f):
            def g(*a):
                if core.S.cur_proc is me:
                    return a[-1] if f != fl.op else None
                return f(*a)
            return g

        if hk is not None:
            disk.FS.hook = skip(fl.op)
            disk.FS.rhook, disk.FS.whook = skip(fl.read), skip(fl.write)
        return sorted(prep.read_split(part))

    def judge(self, p, ctx, r, st, h, fl, versions, info0, good):
        o = p["opts"]
        info1 = disk.FS.files.get(prep.META + "/.info.yaml")
        info1 = None if info1 is None else bytes(info1.data)
        allowed = list(versions)
        hit = {x[len(prep.ROOT) + 1:].split(".tar")[0] + ".tar" for x in fl.hit}
        if info1 is not None and (info1 != info0 or h.ok):
            import yaml

            try:
                have = list(yaml.safe_load(info1.decode())["shard_counts"])
            except Exception:
                have = None  # a reader can not load it, neither
            if have is not None:
                have = [t["name"] for t in p["tars"] if t["name"] in have]
                bad = [n for n in have if n not in good] + [n for n in good if n not in have and n not in hit]
                if not bad:
                    allowed.append(prep.model_split(have, o))
                elif h.ok:
                    return Violation("a readable archive is left out or an unreadable one is included",
                                     f"{bad}: {have}, readable {good}, faults at {sorted(hit)}")
        if h.ok:
            allowed = allowed[-1:]
        tars = p["tars"]
        parts = {"train", "val"}
        for v in allowed:
            parts |= set(v)
        seen = [(r["reader"][1], st["r"], True)] if "r" in st else []
        for part in sorted(parts):
            hd = {}

            def root():
                hd["h"] = rt.spawn("reader", self.reader, part).wait()

            try:
                ctx.sim(root, cfg=dict(p["sched"], seed=0, strategy="fifo"), stalls=[], record=False)
            except (SimHang, SimLimit) as e:
                return stuck(e, "reader: ")
            seen.append((part, hd["h"], False))
        for part, hd, live in seen:
            if live:
                cand = versions + allowed
            else:
                cand = allowed
            exp = [sorted(prep.content_of(tars, v[part])) for v in cand if part in v]
            if hd.err:
                ctx.probe("reader: explicit error")
                if h.ok and not live and exp and exp[-1]:
                    return proc_violation(hd.err, "reading a prepared dataset: ")
                continue
            ctx.probe("reader: complete version" + (" while preparing" if live else ""))
            if hd.value not in exp:
                return Violation(
                    "a reader finds neither the old nor the new version",
                    f"{part} {'while preparing ' if live else ''}{'killed' if st.get('killed') else ''} {h.err}: "
                    f"{brief([x[0] for x in hd.value], 600)}\n versions {brief([[x[0] for x in e] for e in exp], 900)}\n"
                    f" files {sorted(disk.FS.files)} faults at {sorted(fl.hit)}")
        versions[:] = allowed if h.ok else cand_versions(versions, allowed)
        return None


def cand_versions(a, b):
    out = list(a)
    for v in b:
        if v not in out:
            out.append(v)
    return out


CHECK = C17()
