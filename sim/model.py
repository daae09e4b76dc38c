"""Executable model of the sample processing stages: what one worker delivers, given its source samples.

Independent of the code under test: it is fed with the sequence of source samples of each worker
(obtained from a plain run which only reads) and applies the documented rule of every stage.
"""
from . import engine, workload as W
from .core import Invalid
from .workload import few, h


class NeedMore(Exception):
    """The model consumed all source samples which were read."""


class Fatal(Exception):
    """A user function raised an error which denotes a broken program."""


class Drop(Exception):
    pass


BAD = "bad"  # a sample which cannot be decoded


class S:
    """A sample of the model."""

    __slots__ = ("key", "items", "flav", "raw")

    def __init__(self, key, items, flav, raw=False):
        self.key, self.items, self.flav, self.raw = key, items, flav, raw


def fail(e, stage, key):
    f = e.get("fail", {}).get(stage)
    if not f:
        return
    x = h(stage, "fail", key) % 100
    if x < f.get("skip", 0) + f.get("err", 0):
        raise Drop()
    if x < f.get("skip", 0) + f.get("err", 0) + f.get("fatal", 0):
        raise Fatal()


def encode(e, it):
    s = e.get("s", "none")
    for x in it:
        if x is BAD:
            raise Fatal()
        try:
            fail(e, "cook", x.key)
        except Drop:
            continue
        if s == "none":
            yield x
        elif s in ("sl", "rs", "rng"):
            try:
                fail(e, "sample", x.key)
            except Drop:
                continue
            yield S(x.key, x.items, x.flav)
        else:
            for i in range(few("gen", x.key)):
                if s == "gen":
                    try:
                        fail(e, "gen", (x.key, i))
                    except Drop:
                        break  # the generator ended with the error
                yield S(x.key, ((f"{x.key}#{i}", x.items[0][1]),), x.flav)


def pack(e, n, it):
    kind = e.get("p", "none")
    if kind == "none":
        yield from it
        return
    src = iter(it)
    more = True
    rounds = 0
    while more:
        buf = []
        while len(buf) < n:
            try:
                buf.append(next(src))
            except StopIteration:
                more = False
                break
        if not buf:
            break
        try:
            if kind == "sl":
                fail(e, "prepack", tuple(x.key for x in buf))
            packs = pack_plan(buf, e.get("pv", 0))
        except Drop:
            packs = []
            rounds += 1
            if rounds > 9 and more:
                raise Invalid("nothing packed in ten rounds")
            continue
        rounds = 0
        for p in packs:
            try:
                if kind in ("sl", "rs"):
                    fail(e, "pack", p[0].key)
            except Drop:
                continue
            out = S(p[0].key, tuple(i for x in p for i in x.items), p[0].flav)
            for _ in range(few("pgen", p[0].key) if kind == "gen" else 1):
                yield out


def pack_plan(samples, variant):
    key = lambda x: h("pk", x.key if x.raw else x.items[0][0])  # noqa: E731
    out = sorted(samples, key=key) if variant % 2 else list(samples)
    res = []
    while out:
        n = 1 + key(out[0]) % 3
        res.append(out[:n])
        out = out[n:]
    return res


def one_batch(e, b):
    items = tuple(x.items for x in b)
    flav = tuple(x.flav for x in b)
    key = tuple(x[0][0] for x in items)
    n = few("bgen", b[0].key) if e.get("b") == "gen" else 1
    for _ in range(n):
        try:
            fail(e, "batch", key)
        except Drop:
            return
        yield ("B", items, flav)


def batches(spec, it):
    e = spec["enc"]
    bs = spec.get("bs")
    drop = spec.get("drop_last", False)
    if e.get("g") == "grp":
        buckets = {}
        for x in it:
            try:
                fail(e, "group", x.key)
            except Drop:
                continue
            g, n = W.group_of(x.key if x.raw else x.items[0][0])
            n = n if e.get("gsize", True) else bs
            b = buckets.setdefault(g, [])
            b.append(x)
            if len(b) >= n:
                full = list(b)
                b.clear()
                yield from one_batch(e, full)
        if not drop:
            for b in buckets.values():
                if b:
                    yield from one_batch(e, b)
        return
    b = []
    for x in it:
        b.append(x)
        if len(b) == bs:
            yield from one_batch(e, b)
            b = []
    if b and not drop:
        yield from one_batch(e, b)


def encode_batches(e, it):
    k = e.get("e", "none")
    for b in it:
        if k == "gen":
            for _ in range(few("egen", b[1][0][0][0])):
                yield b
            continue
        try:
            if k in ("sl", "rs"):
                fail(e, "ebatch", b[1][0][0][0])
        except Drop:
            continue
        yield b


def pipeline(spec, src):
    it = stages(spec, src)
    for w in spec.get("wrap", []):
        it = wrapped(it, w[0])
    return it


def _wkey(b):
    return b[1][0][0][0] if b[0] == "B" else b[1][0][0] if b[0] == "E" else b[1]


def wrapped(it, kind):
    for b in it:
        if kind == "itermap":
            if h("itm", _wkey(b)) % 8 < 3:
                continue
        elif kind == "filter":
            if h("filt", _wkey(b)) % 4 == 0:
                continue
        elif h("mapf", _wkey(b)) % 16 == 0:
            if kind == "mapraise":
                raise Fatal()
            continue
        yield b


def stages(spec, src):
    """Yields the outputs of one pass over the source samples (lists or generators of S)."""
    e = spec["enc"]
    it = encode(e, src)
    it = pack(e, spec.get("pbs"), it)
    if e.get("b") == "none":
        for x in it:
            if x.raw:
                yield ("S", x.items[0][0], x.items[0][1])
            else:
                yield ("E", x.items, x.flav)
        return
    it = batches(spec, it)
    it = encode_batches(e, it)
    yield from it


def canon(c):
    """A delivered batch in the form of the model."""
    x = c[0]
    if x[0] == "B":
        return ("B", x[1], x[3])
    if x[0] == "E":
        return ("E", x[1], x[3])
    return x


# --------------------------------------------------------------------------------------------


def source_spec(spec, **kw):
    """The same data, only read."""
    e = {"s": "sl"}
    if spec["enc"].get("cook"):
        e["cook"] = "cook"
    e["b"] = "none"
    s = dict(spec, enc=e, bs=None, drop_last=False, **kw)
    for k in ("vel", "pbs", "limit", "wrap"):
        s.pop(k, None)
    return s


def sources(spec, n, rank=0, **kw):
    """Per worker: the list of source samples of one pass (val) or of the first n of the rank (train)."""
    s = source_spec(spec, **kw)
    bad = {(d["name"], k) for d in spec["data"] for k in d.get("bad", ())}
    if spec["split"] == "train":
        ops = [["next", n]]
    else:
        ops = [["end", 10**6]]
    hist = engine.reference(s, n, rank, ops=ops)
    if hist.errors:
        raise SourceError(hist.errors[0][1])
    out = [[] for _ in range(max(spec["workers"], 1))]
    choices = [[] for _ in out]
    for e in hist.inc[0]:
        if e[0] != "b":
            continue
        c = e[1]
        w = c[1][0][1] % max(spec["workers"], 1)
        # c = (("E", items, aug, flav), idx, rk)
        key = c[0][1][0][0]
        choices[w].append(c[0][1][0][1].split(":")[0])
        if bad and (c[0][1][0][1].split(":")[0], key.split("/")[-1]) in bad:
            if spec.get("handler") != "log":
                out[w].append(BAD)
            continue
        out[w].append(S(c[0][1][0][0], c[0][1], c[0][3], raw=spec["enc"].get("s", "none") == "none"))
    if bad and spec.get("handler") == "log" and spec["split"] == "train" and len(spec["data"]) > 1:
        meta = spec.get("meta") or ""
        if "epochized" in meta or any(meta.count(f"path: ./{d['name']}\n") > 2 for d in spec["data"]):
            raise Invalid("cannot follow the blending")
        for w in range(len(out)):
            out[w] = reblend(out[w], choices[w])
    return out


def reblend(left, choices):
    """The blending picks the datasets independent of their samples; a dropped one is replaced."""
    per = {}
    for x in left:
        per.setdefault(x.items[0][1].split(":")[0], []).append(x)
    res = []
    for c in choices:
        if not per.get(c):
            break
        res.append(per[c].pop(0))
    return res


class SourceError(Exception):
    pass


def lazy(lst):
    yield from lst
    raise NeedMore()


def expected(spec, src, n):
    """The first n outputs of a worker: (list, pass length or None, fatal at the end?)"""
    if spec["split"] == "train":
        out = []
        try:
            for b in pipeline(spec, lazy(src)):
                out.append(b)
                if len(out) >= n:
                    return out, None, False
        except NeedMore:
            return out, "more", False
        except Fatal:
            return out, None, True
        return out, None, False
    one = []
    try:
        for b in pipeline(spec, src):
            one.append(b)
    except Fatal:
        return one, None, True
    if not one:
        return [], 0, False
    return (one * (n // len(one) + 1)), len(one), False
