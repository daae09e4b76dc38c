from .. import faults
from .common import *
from .stages import effective, gen_plan, nops
from .. import model


class C16(Check):
    """Joined datasets."""

    quick_n = 700
    thorough_n = 40000

    def gen(self, rng, tier):
        workers = rng.choice([0, 0, 1, 2, 3])
        spec = engine.gen_spec(rng, workers=workers,
                               features=dict(fail=False, blend=False, group=False, pack=False, s=["none", "sl", "rs"],
                                             b=["list", "rs"], e=["none", "sl"]))
        spec.pop("meta", None)
        d0 = dict(spec["data"][0], name="d0")
        d0.pop("crude", None)
        spec["enc"].pop("cook", None)
        d0["shards"] = [x + 1 for x in d0["shards"]]
        while sum(d0["shards"]) < 3 * max(workers, 1):
            d0["shards"] = d0["shards"] + [rng.randint(1, 8)]
        if rng.random() < 0.25:
            d0["exclude"] = rng.sample([f"{W.shard_name(i)}/{k}" for i in range(len(d0["shards"]))
                                        for k in W.shard_keys(d0, i)], rng.randint(1, 2))
        cols = [d0]
        for i in range(rng.choice([1, 1, 2, 3])):
            c = dict(name=f"c{i}", shards=list(d0["shards"]), parts=rng.choice([1, 1, 2, 3]))
            if d0.get("exclude"):
                c["exclude"] = list(d0["exclude"])
            if rng.random() < 0.4:
                c["big"] = rng.choice([300, 3000, 20000])
            if rng.random() < 0.3:
                c["subflavors"] = {"src": c["name"]}
            cols.append(c)
        if rng.random() < 0.4:
            d0["big"] = rng.choice([300, 3000])
        mode = rng.choice(["match", "match", "match", "mismatch", "mismatch", "faults"])
        spec["data"] = cols
        spec["join"] = dict(kind=rng.choice(["list", "dict"]), cls=rng.random() < 0.5,
                            subs=[rng.choice([None, None, f"s{i}"]) for i in range(len(cols))])
        p = dict(spec=spec, mode=mode, bykey=rng.random() < 0.5,
                 plan=gen_plan(rng, workers, tier == "quick"), sched=engine.gen_sched(rng, workers),
                 stalls=engine.gen_stalls(rng, workers))
        if mode == "match" and rng.random() < 0.3:
            spec["data"].append(engine.gen_data(rng, "dx"))
            d = spec["data"][-1]
            while sum(d["shards"]) < 2 * max(workers, 1):
                d["shards"] = [x + 1 for x in d["shards"]]
            spec["join"]["extra"] = True
        if mode == "mismatch":
            if rng.random() < 0.5:
                spec["split"] = "val"
                spec.pop("limit", None)
                p["plan"] = [dict(ops=[["end", 1000]])]
            if rng.random() < 0.5:
                spec["handler"] = "log"
            i = rng.randrange(1, len(cols))
            c = cols[i]
            keys = [W.shard_keys(d0, j) for j in range(len(d0["shards"]))]
            kind = rng.choice(["swap", "rename", "shift", "count", "shard", "exclude", "swapshards"])
            j = rng.randrange(len(keys))
            if kind == "swap" and len(keys[j]) > 1:
                a = rng.randrange(len(keys[j]) - 1)
                keys[j][a], keys[j][a + 1] = keys[j][a + 1], keys[j][a]
            elif kind == "shift":
                keys[j] = keys[j][1:] + keys[j][:1] if len(keys[j]) > 1 else ["other"]
            elif kind == "count":
                keys[j].append("more")
            elif kind == "shard":
                keys.append(["more"])
            elif kind == "swapshards" and len(keys) > 1:
                keys[0], keys[-1] = keys[-1], keys[0]
            elif kind == "exclude":
                c["exclude"] = (c.get("exclude") or []) + [f"{W.shard_name(0)}/{keys[0][0]}"] * (not c.get("exclude"))
                if d0.get("exclude"):
                    c["exclude"] = c["exclude"][1:]
            else:
                keys[j][rng.randrange(len(keys[j]))] = "other"
            c["keys"] = keys
            c["shards"] = [len(k) for k in keys]
        elif mode == "faults":
            if rng.random() < 0.5:
                spec["handler"] = "log"
            p["faults"] = faults.gen_faults(rng, rng.choice([30, 80]), True)
            p["faults"][-1][2] = -rng.choice([1, 12, 25])
        return p

    def run(self, p, ctx):
        spec, mode, j = p["spec"], p["mode"], p["spec"].get("join")
        check_spec(dict(spec, data=spec["data"][:1]))
        e = spec["enc"]
        if not j or e["s"] not in ("none", "sl", "rs") or set(e) - {"s", "b", "e"}:
            raise Invalid("spec")
        cols = [d for d in spec["data"] if d["name"] != "dx"]
        if len(cols) < 2 or cols[0]["name"] != "d0" or (j.get("extra") and len(cols) == len(spec["data"])):
            raise Invalid("spec")
        if mode != "mismatch" and any(
                "keys" in c or c["shards"] != cols[0]["shards"] or c.get("exclude") != cols[0].get("exclude")
                for c in cols):
            raise Invalid("columns differ")
        spec = dict(spec, meta=W.join_yaml([c["name"] for c in cols], j["kind"], j["cls"],
                                           "dx" if j.get("extra") else None, j.get("subs")))
        setup_disk(spec)
        ctx.shape = "%s/%s/%d/%s" % (spec_shape(spec), mode, len(cols), spec.get("handler"))
        known = set()
        for i, ks in enumerate([W.shard_keys(cols[0], i) for i in range(len(cols[0]["shards"]))]):
            for k in ks:
                known.add((f"{W.shard_name(i)}/{k}", "&".join(W.sample_text(c, k) for c in cols)))
        if j.get("extra"):
            known |= set(W.all_items(next(d for d in spec["data"] if d["name"] == "dx")))
        aligned = mode == "mismatch" and is_aligned(cols)
        hist = engine.History()
        fl = faults.ReadFaults(p["faults"], True) if mode == "faults" else None

        def root():
            if fl:
                fl.attach(disk.FS)
            try:
                engine.run_history(spec, p["plan"], hist)
            finally:
                if fl:
                    fl.detach(disk.FS)
            if mode == "match" and not hist.errors and p["bykey"]:
                h2 = engine.History()
                h2.keys = [e[1] for inc in hist.inc for e in inc if e[0] == "b"]
                if h2.keys:
                    hist.again = h2
                    engine.run_history(spec, [dict(ops=[["bykey", list(range(len(h2.keys)))[-6:]]])], h2)

        try:
            ctx.sim(root)
        except (SimHang, SimLimit) as ex:
            if mode != "match" and spec.get("handler") == "log":
                raise Invalid("everything is dropped")
            return stuck(ex)
        n = 0
        for inc in hist.inc:
            for e in inc:
                if e[0] == "b":
                    for it in W.items_of(e[1]):
                        n += 1
                        if it not in known:
                            return Violation("wrongly combined sample", brief(it, 600))
        ctx.probe(f"joined samples {mode}", n)
        if mode == "faults":
            if hist.errors and not fl.hit_broken:
                return proc_violation(hist.errors[0][1], "transient faults: ")
            return None
        if mode == "mismatch":
            if aligned:
                raise Invalid("no mismatch")
            if hist.errors:
                ctx.probe("mismatch reported")
            elif any(e[0] == "end" for e in hist.inc[0]) and spec["split"] == "val" and not spec.get("limit") \
                    and spec.get("handler") != "log":
                return Violation("a mismatch was not reported", f"complete pass over {[c.get('keys') for c in cols]}")
            return None
        if hist.errors:
            return proc_violation(hist.errors[0][1])
        return self.same_as_plain(spec, p, hist, ctx, j, cols)

    def same_as_plain(self, spec, p, hist, ctx, j, cols):
        """The joined dataset delivers what the primary dataset alone delivers, in the same order."""
        h2 = getattr(hist, "again", None)
        if h2 is not None:
            if h2.errors:
                return proc_violation(h2.errors[0][1], "restore: ")
            for e in h2.inc[0]:
                if e[0] == "k" and e[2] is not None:
                    o = h2.keys[e[1]]
                    ctx.probe("restored by key")
                    if e[2][0] != o[0] or e[2][2] != o[2]:
                        return Violation("restored by key differs",
                                         f"expected {brief(o, 500)}\n received {brief(e[2], 500)}")
        ev = effective(hist)
        plain = dict(spec)
        plain["meta"] = None
        if j.get("extra"):
            plain["meta"] = W.blend_yaml([dict(path="./dx", weight=1), dict(path="./d0", weight=2)])
        n = sum(e[0] == "b" for e in ev)
        try:
            ref = engine.reference(plain, n + 1)
        except (SimHang, SimLimit):
            raise Invalid("reference")
        if ref.errors or ("dry",) in ref.inc[0]:
            raise Invalid("reference")
        if ("dry",) in ev:
            return Violation("no more batches", f"after {n}, the primary dataset alone delivers more")
        cut = lambda c: tuple((k, t.split("&")[0]) for k, t in W.items_of(c))  # noqa: E731
        got = [cut(e[1]) for e in ev if e[0] == "b"]
        want = [cut(e[1]) for e in ref.inc[0] if e[0] == "b"]
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return Violation("joined dataset delivers other samples than its primary dataset",
                                 f"batch {i}: expected {brief(b)}\n received {brief(a)}")
        ctx.probe("compared with the primary dataset", len(got))
        # subflavors: those of the primary column
        if not j.get("extra"):
            own = {**(cols[0].get("subflavors") or {})}
            if (j.get("subs") or [None])[0]:
                own["j"] = j["subs"][0]
            for e in ev:
                if e[0] == "b" and e[1][0][0] in ("B", "E"):
                    fl = e[1][0][3]
                    for f in (fl if e[1][0][0] == "B" else [fl]):
                        if tuple(sorted(own.items())) != tuple(f):
                            return Violation("subflavors of another column", f"{f}, expected {own}")
        return None


def is_aligned(cols):
    ks = [[list(W.shard_keys(c, i)) for i in range(len(c["keys"] if "keys" in c else c["shards"]))] for c in cols]
    ex = [set(c.get("exclude") or []) for c in cols]
    # (Excluded samples may be at any place)
    ks = [[[k for k in shard if f"{W.shard_name(i)}/{k}" not in x] for i, shard in enumerate(c)] for c, x in zip(ks, ex)]
    return all(k == ks[0] for k in ks)


CHECK = C16()
