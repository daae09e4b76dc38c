from .common import *
from .. import faults


class C11(Check):
    """Faults while reading shards and indexes; oracle: the run without faults."""

    quick_n = 1200
    thorough_n = 30000

    def gen_stream(self, rng):
        """Random access to an archive and its index through the retrying streams."""
        spec = engine.gen_spec(rng, workers=0, features=dict(fail=False))
        spec["data"] = spec["data"][:1]
        spec.pop("meta", None)
        d = spec["data"][0]
        d["big"] = rng.choice([0, 300, 3000])
        big = 4000 if not d["big"] else 20000
        ops = []
        for _ in range(rng.randint(2, 25)):
            k = rng.choice(["read", "read", "seek", "seek", "all", "idx", "idx", "len"])
            if k == "read":
                ops.append([k, rng.choice([0, 1, 10, 512, 5000, 100000])])
            elif k == "seek":
                ops.append([k, rng.choice([rng.randint(-50, big), 0, rng.randint(-600, 600)]), rng.choice([0, 0, 1, 2])])
            elif k == "idx":
                ops.append([k, rng.randint(0, 20)])
            else:
                ops.append([k])
        return dict(spec=spec, stream=ops, sub=rng.choice([None, None, [rng.randint(0, 3000), rng.randint(0, 3000)]]),
                    persistent=False, faults=faults.gen_faults(rng, rng.choice([6, 20, 60]), False),
                    sched=engine.gen_sched(rng, 0), stalls=[])

    def run_stream(self, p, ctx):
        from megatron.energon.epathlib import EPath
        from megatron.energon.flavors.webdataset.itar import SubFileReader, TarIndexReader
        from megatron.energon.retry_stream import RetryReadStream

        spec = p["spec"]
        ctx.shape = "stream/%s/%s" % (bool(p["sub"]), [o[0] for o in p["stream"]])
        i = next(i for i, n in enumerate(spec["data"][0]["shards"]) if n)
        path = f"/simfs/data/{spec['data'][0]['name']}/{W.shard_name(i)}"
        data = bytes(disk.FS.files[path].data)
        idx = bytes(disk.FS.files[path + ".idx"].data)
        off, size = 0, len(data)
        if p["sub"]:
            off = min(max(p["sub"][0], 0), len(data))
            size = min(max(p["sub"][1], 0), len(data) - off)
        part = data[off:off + size]
        fl = faults.ReadFaults(p["faults"], False)
        bad = []

        def body():
            pos = 0
            with RetryReadStream(EPath(path)) as f, TarIndexReader(EPath(path)) as ix:
                if p["sub"]:
                    f = SubFileReader(f, off, size)
                for o in p["stream"]:
                    if o[0] in ("read", "all"):
                        n = size - pos if o[0] == "all" else min(o[1], size - pos)
                        got = f.read() if o[0] == "all" else f.read(o[1])
                        want = part[pos:pos + n]
                        pos += n
                    elif o[0] == "seek":
                        base = {0: 0, 1: pos, 2: size}[o[2]]
                        pos = want = min(max(base + o[1], 0), size)
                        got = (f.seek(o[1], o[2]), f.tell())
                        want = (pos, pos)
                    elif o[0] == "len":
                        got, want = len(ix), len(idx) // 8
                    else:
                        k = o[1] % (len(idx) // 8)
                        got, want = ix[k], int.from_bytes(idx[8 * k:8 * k + 8], "little")
                    ctx.probe("stream operations")
                    if got != want:
                        bad.append(f"{o}: expected {brief(want)}\n received {brief(got)}\n faults {p['faults']}")
                        return

        def root():
            fl.attach(disk.FS)
            try:
                body()
            finally:
                fl.detach(disk.FS)

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck(e, "with read faults:")
        except OSError as e:
            return Violation("transient faults: error of the stream", f"{e!r} {p['faults']}")
        ctx.probe("faults fired", fl.fired)
        if bad:
            return Violation("wrong data of the stream", bad[0])

    def gen(self, rng, tier):
        if rng.random() < 0.15:
            return self.gen_stream(rng)
        workers = rng.choice([0, 0, 0, 1, 2, 3])
        spec = engine.gen_spec(rng, workers=workers, features=dict(fail=False))
        spec.pop("sbs", None) if rng.random() < 0.5 else None
        for d in spec["data"]:
            if rng.random() < 0.6:
                d["big"] = rng.choice([300, 3000, 20000])
            d["parts"] = rng.choice([1, 1, 2, 3])
        n = rng.choice([6, 12, 20])
        plan = [dict(ops=[["next", n]])]
        if rng.random() < 0.3:
            plan = [dict(ops=[["next", n // 2], ["save", "s"]]), dict(ops=[["next", n]], restore="s")]
        persistent = rng.random() < 0.35
        if rng.random() < 0.3:
            # A handler which ignores errors, and storage which is broken for longer than the retries
            spec["handler"] = "log"
            e = spec["enc"]
            for k in [k for k in e if k not in ("cook", "s", "b", "e")]:
                e.pop(k)
            e["s"] = rng.choice(["none", "sl", "rs"])
            if e["b"] == "gen":
                e["b"] = "list"
            e["e"] = "none"
            if spec["bs"] is None and e["b"] != "none":
                spec["bs"] = 2
            spec.pop("pbs", None)
            if rng.random() < 0.6:
                e["cook"] = "cook"
                for d in spec["data"]:
                    d["crude"] = True
                    d["parts"] = rng.choice([2, 3, 3])
                    d["big"] = 20000
            if spec["split"] == "val":
                plan = [dict(ops=[["end", 1000]])]
            fl = faults.gen_faults(rng, rng.choice([20, 60, 200]), True)
            for _ in range(rng.choice([0, 1, 2])):
                fl.append([rng.randint(1, 100), "eio_read", -rng.choice([12, 25, 40])])
            fl[-1][2] = -rng.choice([12, 25, 40, 1])
            return dict(spec=spec, plan=plan, persistent=True, faults=fl,
                        sched=engine.gen_sched(rng, workers), stalls=[])
        return dict(spec=spec, plan=plan, persistent=persistent,
                    faults=faults.gen_faults(rng, rng.choice([20, 60, 200]), persistent),
                    sched=engine.gen_sched(rng, workers), stalls=[])

    def run(self, p, ctx):
        spec = p["spec"]
        check_spec(spec)
        for f in p["faults"]:
            if f[1] not in faults.KINDS or f[2] == 0 or f[0] < 1:
                raise Invalid("fault")
        setup_disk(spec)
        if p.get("stream"):
            return self.run_stream(p, ctx)
        ctx.shape = "%s/%s/%s" % (spec_shape(spec), p["persistent"], [f[1] for f in p["faults"]])
        if spec.get("handler") == "log":
            return self.run_log(p, ctx)
        total = sum(o[1] for i in p["plan"] for o in i["ops"] if o[0] == "next")
        ref = engine.reference(spec, total + 1)
        if ref.errors:
            return proc_violation(ref.errors[0][1], "reference:")
        want = content(ref.inc[0])
        if ("dry",) in ref.inc[0]:
            raise Invalid("no batches")
        fl = faults.ReadFaults(p["faults"], p["persistent"])
        hist = engine.History()

        def root():
            fl.attach(disk.FS)
            try:
                engine.run_history(spec, p["plan"], hist)
            finally:
                fl.detach(disk.FS)

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            return stuck(e, "with read faults:")
        got = []
        for inc in hist.inc:
            got += content(inc)
        v = diff_stream(got, want, "wrong data after read faults", f"faults {p['faults']}")
        if v:
            return v
        ctx.probe("compared batches", len(got))
        ctx.probe("faults fired", fl.fired)
        if hist.errors:
            e = hist.errors[0][1]
            if fl.hit_broken:
                ctx.probe("broken storage: error raised")
                return None
            return proc_violation(e, "transient faults: ")
        if fl.hit_broken:
            ctx.probe("broken storage: not needed")
        if len(got) < total:
            return Violation("data is silently missing", f"{len(got)} of {total} batches were delivered without an error")
        return None

    def run_log(self, p, ctx):
        """The handler ignores errors: samples may be dropped, but nothing wrong may be delivered."""
        spec = p["spec"]
        e = spec["enc"]
        if set(e) - {"cook", "s", "b", "e"} or e["s"] not in ("none", "sl", "rs") or e.get("e") == "gen":
            raise Invalid("encoder")
        known = {it: d["name"] for d in spec["data"] for it in W.all_items(d)}
        fl = faults.ReadFaults(p["faults"], True)
        hist = engine.History()

        def root():
            fl.attach(disk.FS)
            try:
                engine.run_history(spec, p["plan"], hist)
            finally:
                fl.detach(disk.FS)

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as e:
            if fl.hit_broken:
                raise Invalid("storage too broken")
            return stuck(e, "with read faults:")
        n = 0
        for inc in hist.inc:
            seen = set()
            for e in inc:
                if e[0] == "end":
                    seen = set()
                if e[0] != "b":
                    continue
                for it in W.items_of(e[1]):
                    n += 1
                    if it not in known:
                        return Violation("wrong data after read faults", f"{brief(it)} is no sample, faults {p['faults']}")
                    if spec["split"] == "val" and not spec.get("meta"):
                        if it in seen:
                            return Violation("a sample was repeated after read faults", f"{brief(it)}")
                        seen.add(it)
        ctx.probe("samples with ignored errors", n)
        ctx.probe("faults fired", fl.fired)
        if hist.errors and not fl.hit_broken:
            return proc_violation(hist.errors[0][1], "transient faults: ")
        return None


CHECK = C11()
