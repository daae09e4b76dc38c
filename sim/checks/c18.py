from .. import prep
from .common import *


def gen_tars(rng, n, flat=False):
    sub = rng.random() < 0.25 and not flat
    tars = []
    for i in range(n):
        t = dict(name=("s%d/" % (i % 2) if sub else "") + f"shard_{i:03d}.tar",
                 fmt=rng.choice(["ustar", "gnu", "pax", "gnu"]),
                 members=prep.gen_members(rng, rng.choice([0, 1, 1, 2, 3, 5, 9, 30] if not flat else [1, 2, 3, 5]), flat))
        if t["fmt"] == "ustar":
            t["members"] = [m for m in t["members"] if len(m[1].encode()) < 95]
        if t["fmt"] == "pax" and rng.random() < 0.2:
            t["glob"] = True
        if rng.random() < 0.1:
            t["noeof"] = True
        tars.append(t)
    return tars


def check_tars(tars):
    for t in tars:
        if t["fmt"] not in prep.FMT or (t.get("glob") and t["fmt"] != "pax"):
            raise Invalid("format")
        if t["fmt"] == "ustar" and any(len(m[1].encode()) >= 95 for m in t["members"]):
            raise Invalid("name")
        if not t["members"] and t.get("damage"):
            raise Invalid("damage of an empty archive")
        for m in t["members"]:
            if m[0] not in "fdlh" or not m[1] or m[2] < 0:
                raise Invalid("member")
    if len({t["name"] for t in tars}) != len(tars) or not tars:
        raise Invalid("names")


def check_opts(o):
    if o["mode"] == "ratio":
        if not o["ratio"] or sum(float(r) for _, r in o["ratio"]) <= 0:
            raise Invalid("ratio")
    elif not o["pre"] or any(not p[1] or not all(p[1]) for p in o["pre"]):
        raise Invalid("patterns")
    if o["workers"] < 1:
        raise Invalid("workers")


class C18(Check):
    """Preparation of intact archives, any number of workers in any order; oracle: own model."""

    quick_n = 500
    thorough_n = 20000

    def gen(self, rng, tier):
        tars = gen_tars(rng, rng.choice([1, 2, 3, 4, 6, 7, 10, 12]))
        names = [t["name"] for t in tars]
        p = dict(tars=tars, opts=prep.gen_opts(rng, names), order=rng.random() < 0.2,
                 brace=rng.random() < 0.3, index_only=rng.random() < 0.1,
                 read=[rng.choice([0, 0, 1, 2, 3]), rng.choice([1, 1, 2])],
                 ranges=[[rng.randint(0, len(tars) - 1), rng.randint(0, 30), rng.randint(0, 30)] for _ in range(6)],
                 sched=engine.gen_sched(rng, 0), stalls=engine.gen_stalls(rng, 1))
        return p

    def run(self, p, ctx):
        tars, o = p["tars"], p["opts"]
        check_tars(tars)
        check_opts(o)
        if p["read"][1] < 1:
            raise Invalid("world")
        if p["order"]:
            tars = tars[::-1]
        names = [t["name"] for t in tars]
        paths = list(names)
        if p["brace"] and len(names) > 1 and not any("/" in n for n in names):
            paths = ["{" + ",".join(names) + "}"]
        ctx.shape = "%s/%s/%s" % (len(tars), o["mode"], sorted({t["fmt"] for t in tars}))
        models = {t["name"]: prep.model(t) for t in tars}
        res = {}

        def run_one(workers, cfg=None, stalls=None):
            disk.FS.__init__()
            prep.put_tars(tars)
            hd = {}

            def root():
                hd["h"] = rt.spawn("prep", prep.prepare, paths, o, workers, p["index_only"]).wait()

            ctx.sim(root, cfg=cfg, stalls=stalls)
            if hd["h"].err:
                return proc_violation(hd["h"].err)
            res[workers] = ({k: bytes(v.data) for k, v in disk.FS.files.items()}, hd["h"].value)
            return None

        try:
            v = run_one(1, dict(p["sched"], seed=0, strategy="fifo"), []) or run_one(o["workers"] + 1)
        except (SimHang, SimLimit) as e:
            return stuck(e)
        if v:
            return v
        (f1, parts1), (f2, parts2) = res[1], res[o["workers"] + 1]
        if f1 != f2 or parts1 != parts2:
            d = sorted(k for k in set(f1) | set(f2) if f1.get(k) != f2.get(k))
            return Violation("the result depends on the workers", f"{d} {parts1} {parts2}")
        ctx.probe("worker counts compared")
        files = set(f2) - {f"{prep.ROOT}/{n}" for n in names}
        good = [n for n in names if models[n][0]]
        for n in good:
            idx = f2.get(f"{prep.ROOT}/{n}.idx")
            if idx != models[n][1]:
                return Violation("index differs from the archive",
                                 f"{n}: {list(memoryview(idx).cast('Q')) if idx is not None else None}, "
                                 f"expected {list(memoryview(models[n][1]).cast('Q'))}")
        ctx.probe("indexes compared", len(good))
        want_parts = set().union(*[models[n][2] for n in good]) if good else set()
        if set(parts2) != want_parts:
            return Violation("found parts differ", f"{sorted(parts2)}, expected {sorted(want_parts)}")
        if any(x.endswith(".tmp") for x in files):
            return Violation("temporary files are left", str(sorted(files)))
        if p["index_only"]:
            if any(x.endswith(".yaml") for x in files):
                return Violation("index only preparation wrote metadata", str(sorted(files)))
            return self.ranges(p, ctx, good, models)
        info, split = prep.meta_yaml()
        counts = {n: len(models[n][0]) for n in good}
        if (info or {}).get("shard_counts") != counts:
            return Violation("shard counts differ", f"{info}, expected {counts}")
        want = prep.model_split(good, o)
        if (split or {}).get("split_parts") != want:
            return Violation("splits differ", f"{brief(split, 500)}\n expected {brief(want, 500)}\n {o}")
        if o["mode"] == "ratio" and sorted(sum(split["split_parts"].values(), [])) != sorted(good):
            return Violation("shards are lost by the split", str(split))
        ctx.probe("splits compared", len(want))
        v = self.ranges(p, ctx, good, models)
        if v:
            return v
        prep.put_dataset_yaml()
        workers, world = p["read"]
        for part in sorted(want):
            n = sum(counts[x] for x in want[part])
            if n == 0:
                continue
            hd = {}

            def root():
                hd["h"] = rt.spawn("read", prep.read_split, part, workers, world).wait()

            try:
                ctx.sim(root)
            except (SimHang, SimLimit) as e:
                return stuck(e)
            if hd["h"].err:
                return proc_violation(hd["h"].err, "reading: ")
            got = sorted(hd["h"].value)
            exp = sorted(prep.content_of(tars, want[part]))
            if got != exp:
                a = [x for x in exp if x not in got]
                b = [x for x in got if x not in exp]
                return Violation("reading the prepared dataset differs from the archives",
                                 f"{part}: missing {brief(a)} wrong {brief(b)} counts {len(got)} {len(exp)}")
            ctx.probe("samples read", len(got))
        return None

    def ranges(self, p, ctx, good, models):
        out = {}

        def read():
            for i, a, b in p["ranges"]:
                if not good:
                    return
                n = good[i % len(good)]
                k = len(models[n][0])
                a, b = sorted((a % (k + 1), b % (k + 1)))
                got = prep.read_range(n, a, b)
                if got != models[n][0][a:b]:
                    return Violation("a range read through the index differs",
                                     f"{n} {a}..{b}: {brief(got)} expected {brief(models[n][0][a:b])}")
                out["n"] = out.get("n", 0) + 1

        hd = {}

        def root():
            hd["h"] = rt.spawn("ranges", read).wait()

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck(e)
        if hd["h"].err:
            return proc_violation(hd["h"].err, "range: ")
        ctx.probe("ranges read", out.get("n", 0))
        return hd["h"].value


CHECK = C18()
