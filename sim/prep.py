"""Raw archives for the preparation checks, what preparation has to find in them (own model), and
readers of prepared datasets."""
import io
import posixpath
import random
import struct
import tarfile
from fractions import Fraction

from megatron.energon import (
    Cooker, TaskEncoder, WorkerConfig, basic_sample_keys, get_loader, get_savable_loader, get_train_dataset,
    get_val_dataset, stateless,
)
from megatron.energon.flavors.webdataset.itar import get_itar_byte_offset, open_itar

from . import disk, workload as W
from .workload import h

ROOT = "/simfs/data/raw"
META = ROOT + "/.nv-meta"
FMT = {"ustar": tarfile.USTAR_FORMAT, "gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}

# A tar is dict(name, fmt, members=[[kind, name, size]], ...); kinds: f file, d directory, l symlink,
# h hard link


def gen_members(rng, n, flat=False):
    out = []
    style = rng.choice(["plain", "plain", "dir", "dot", "long", "uni"])
    exts = rng.choice([["txt"], ["txt", "cls"], ["json", "txt", "jpg"], ["a", "b.c", "txt.gz", "d.e.f"]])
    if flat:
        style, exts = "plain", exts[:2]
    pre = {"plain": "", "dir": "sub/x.y/", "dot": "./", "long": "d" * 60 + "/" + "e" * 60 + "/", "uni": "dä€/"}[style]
    if rng.random() < 0.3 and not flat:
        out.append(["d", pre.rstrip("/") or "dir", 0])
    for i in range(n):
        key = f"k{i:03d}"
        if rng.random() < 0.1 and not flat:
            key = key + "n" * rng.choice([100, 300])
        if rng.random() < 0.15 and not flat:
            out.append(rng.choice([["f", "__meta__/x.txt", 20], ["f", "__note__", 3], ["d", "some", 0],
                                   ["f", pre + "noext", 700], ["l", pre + key + ".lnk", 0],
                                   ["h", pre + key + ".hln", 0]]))
        es = list(exts)
        if rng.random() < 0.2:
            es = es[: rng.randint(1, len(es))]
        if rng.random() < 0.1:
            rng.shuffle(es)
        for e in es:
            out.append(["f", f"{pre}{key}.{e}", rng.choice([0, 1, 10, 511, 512, 513, 3000])])
    if rng.random() < 0.15 and not flat:
        out.append(rng.choice([["f", "__end__.txt", 20], ["d", "tail", 0], ["f", pre + "noext", 600]]))
    return out


def payload(tar, name, size):
    r = random.Random(f"{tar}|{name}|{size}")
    return r.randbytes(size)


def build(t):
    """The archive, member start offsets and the offset of the end of the members."""
    b = io.BytesIO()
    tf = tarfile.open(fileobj=b, mode="w", format=FMT[t["fmt"]],
                      pax_headers={"comment": "global"} if t.get("glob") else None)
    offs = []
    for kind, name, size in t["members"]:
        offs.append(tf.offset)
        ti = tarfile.TarInfo(name)
        if kind == "f":
            d = payload(t["name"], name, size)
            ti.size = len(d)
            if t["fmt"] == "pax" and h("m", name) % 3 == 0:
                ti.mtime = 1.5
            tf.addfile(ti, io.BytesIO(d))
        else:
            ti.type = {"d": tarfile.DIRTYPE, "l": tarfile.SYMTYPE, "h": tarfile.LNKTYPE}[kind]
            if kind in "lh":
                ti.linkname = "elsewhere"
            tf.addfile(ti)
    end = tf.offset
    tf.close()
    data = b.getvalue()
    if t.get("noeof"):
        data = data[:end]
    return data, offs, end


def damaged(t, data, offs, end):
    """Applies the damage of t: returns the stored bytes (None: the file is missing)."""
    d = t.get("damage")
    if not d:
        return data
    kind, a, b = d
    i = a % len(offs)
    if kind == "missing":
        return None
    if kind == "empty":
        return b""
    if kind == "junk":
        return random.Random(a).randbytes(1000 + b)
    if kind == "cut_head":
        return data[: offs[i] + 1 + b % 511]
    if kind == "flip":
        x = bytearray(data)
        x[offs[i] + b % 120] ^= 0x41
        return bytes(x)
    if kind == "cut_data":
        # Inside of the data of a file member
        fs = [j for j, m in enumerate(t["members"]) if m[0] == "f" and m[2] > 1]
        if not fs:
            return b""
        i = fs[a % len(fs)]
        nxt = offs[i + 1] if i + 1 < len(offs) else end
        pad = -(-t["members"][i][2] // 512) * 512
        return data[: nxt - pad + b % t["members"][i][2]]
    raise W_Invalid(kind)


class W_Invalid(Exception):
    pass


DAMAGE = ["missing", "empty", "junk", "cut_head", "cut_head", "flip", "flip", "cut_data"]


def put_tars(tars):
    for t in tars:
        data, offs, end = build(t)
        x = damaged(t, data, offs, end)
        if x is not None:
            disk.FS.put(f"{ROOT}/{t['name']}", x)
    if ROOT not in disk.FS.dirs:
        disk.FS.dirs |= {"/simfs/data", ROOT}


def sample_name(name):
    """(base name, part) of a member name, or None if it belongs to no sample."""
    first = name.split("/")[0]
    if len(first) >= 4 and first.startswith("__") and first.endswith("__"):
        return None
    d, f = posixpath.split(name)
    if "." not in f:
        return None
    a, e = f.split(".", 1)
    return (name[: len(name) - len(f)] + a, e)


def model(t):
    """(samples [(base, {part: bytes})], index, parts) of an archive."""
    data, offs, end = build(t)
    out, idx, parts = [], [], set()
    for (kind, name, size), o in zip(t["members"], offs):
        if kind != "f":
            continue
        m = sample_name(name)
        if m is None:
            continue
        parts.add(m[1])
        if not out or out[-1][0] != m[0]:
            out.append((m[0], {}))
            idx.append(o)
        out[-1][1][m[1]] = payload(t["name"], name, size)
    idx.append(end)
    return out, b"".join(struct.pack("<Q", o) for o in idx), parts


def model_split(names, opts):
    """Shard lists of the splits."""
    if opts["mode"] == "ratio":
        names = list(names)
        if opts["shuffle"] is not None:
            random.Random(opts["shuffle"]).shuffle(names)
        total = sum(Fraction(r) for _, r in opts["ratio"])
        cum, at, out = Fraction(0), 0, {}
        for part, r in opts["ratio"]:
            cum += Fraction(r)
            e = int(len(names) * cum / total)
            out[part] = names[at:e]
            at = e
        return out
    return {part: [n for n in names if any(n.startswith(x) for x in pre)] for part, pre in opts["pre"]}


def gen_opts(rng, names):
    o = dict(mode=rng.choice(["ratio", "ratio", "pre"]), shuffle=rng.choice([None, 42, 42, 7]),
             workers=rng.choice([1, 2, 3, 4]))
    if o["mode"] == "ratio":
        k = rng.choice([1, 2, 3, 3, 4])
        vals = rng.choice([["1"] * k, [str(rng.randint(1, 9)) for _ in range(k)],
                           [rng.choice(["0.1", "0.2", "0.7", "0.15", "0.8", "0.05"]) for _ in range(k)],
                           ["8", "1", "1", "0"][:k]])
        o["ratio"] = [[p, v] for p, v in zip(["train", "val", "test", "more"], vals)]
    else:
        ps = sorted({n[: rng.choice([len(n), len(n) - 5, 1])] for n in rng.sample(names, min(len(names), 3))})
        cut = rng.randint(0, len(ps))
        o["pre"] = [["train", ps[:cut] or ps[:1]], ["val", ps[cut:] or ps[-1:]]]
    return o


def prepare(paths, opts, workers=None, index_only=False):
    """Runs the code under test; call inside of a simulated process."""
    from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator
    import re

    kw = {}
    if opts["mode"] == "ratio":
        kw["split_parts_ratio"] = [(p, float(r)) for p, r in opts["ratio"]]
    else:
        def pat(pre):
            es = [re.escape(x) + ".*" for x in pre]
            return es[0] if len(es) == 1 else "{" + ",".join(es) + "}"

        kw["split_parts_patterns"] = [(p, pat(pre)) for p, pre in opts["pre"]]
    return WebdatasetPreparator.prepare_dataset(
        ROOT, paths, shuffle_seed=opts["shuffle"], workers=workers or opts["workers"],
        tar_index_only=index_only, **kw)


class RawEnc(TaskEncoder):
    @staticmethod
    def _cook(sample):
        from megatron.energon import TextSample

        parts = tuple(sorted((k, v) for k, v in sample.items() if not k.startswith("__")))
        return TextSample(**basic_sample_keys(sample), text=parts)

    def __init__(self):
        self.cookers = [Cooker(RawEnc._cook)]


def put_dataset_yaml():
    disk.FS.put(META + "/dataset.yaml",
                b"__module__: megatron.energon\n__class__: CrudeWebdataset\n")


def read_split(part, workers=0, world=1):
    """All samples of the split: {key: [parts, ...]}."""
    out = []
    for r in range(world):
        wc = WorkerConfig(rank=r, world_size=world, num_workers=workers)
        ds = get_val_dataset(ROOT, split_part=part, worker_config=wc, batch_size=None, task_encoder=RawEnc(),
                             auto_decode=False)
        for s in get_loader(ds):
            out.append((s.__key__, s.text))
    return out


def read_range(name, a, b):
    """Members of the samples a..b of the shard, through the index."""
    path = f"{ROOT}/{name}"
    x, y = get_itar_byte_offset(path, a), get_itar_byte_offset(path, b)
    out = []
    if x == y:
        return out
    with open_itar(path, byte_offset=x, byte_size=y - x) as tf:
        for m in tf:
            if not m.isreg():
                continue
            nm = sample_name(m.name)
            if nm is None:
                continue
            if not out or out[-1][0] != nm[0]:
                out.append((nm[0], {}))
            out[-1][1][nm[1]] = tf.extractfile(m).read()
    return out


def content_of(tars, names):
    """Expected multiset of (key, parts) of the shards."""
    out = []
    by = {t["name"]: t for t in tars}
    for n in names:
        for base, parts in model(by[n])[0]:
            out.append((f"{n}/{base}", tuple(sorted(parts.items()))))
    return out


def meta_yaml():
    """(info, split) as stored, parsed; None if missing."""
    import yaml

    out = []
    for n in (".info.yaml", "split.yaml"):
        f = disk.FS.files.get(f"{META}/{n}")
        out.append(None if f is None else yaml.safe_load(bytes(f.data).decode()))
    return out
