"""Generated workloads: datasets on the simulated disk, task encoders and loader pipelines.

Everything is a function of a JSON-able `spec` dict, so that a spec in a replay file rebuilds exactly
the same system. Module globals here count as process-global state of the simulated processes.
"""
import dataclasses
import inspect
import hashlib
import io
import json
import random
import struct
import tarfile
import time
from dataclasses import dataclass
from typing import Any, List, Optional, Tuple

import numpy as np
import torch

from megatron.energon import (
    Batch,
    Cooker,
    Sample,
    SkipSample,
    TaskEncoder,
    WorkerConfig,
    basic_sample_keys,
    get_loader,
    get_savable_loader,
    TextSample,
    get_train_dataset,
    get_val_dataset,
    stateless,
)
from megatron.energon.errors import FatalSampleError
from megatron.energon.task_encoder.base import get_stateless  # noqa: F401


def h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=4).digest(), "big")


# --------------------------------------------------------------------------------------------
# Data
# --------------------------------------------------------------------------------------------


def sample_text(ds, key, big=0):
    t = f"{ds['name']}:{key}:{h(ds['name'], key)}"
    if ds.get("big"):
        n = h("len", key) % ds["big"]
        t += ":" + "".join(chr(97 + (h(key, i) % 26)) for i in range(8)) * (n // 8 + 1)
    return t


def shard_keys(ds, i):
    if "keys" in ds:
        return ds["keys"][i]
    return [f"k{i:02d}x{j:03d}" for j in range(ds["shards"][i])]


def json_part(ds, k):
    d = {"a": h("j", k) % 100}
    if ds.get("big"):
        d["pad"] = "x" * (h("jl", k) % ds["big"])
    return d


def tar_bytes(ds, i):
    """Returns the tar file and the sample offsets (ending with the end of the samples)."""
    b = io.BytesIO()
    offs = []
    t = tarfile.open(fileobj=b, mode="w", format=tarfile.USTAR_FORMAT)
    for k in shard_keys(ds, i):
        offs.append(t.offset)
        parts = [("txt", sample_text(ds, k).encode())]
        if k in ds.get("bad", ()):
            parts = [("txt", b"\xff\xfe\xfd broken")]
        if ds.get("parts", 1) > 1:
            parts.append(("cls", str(h("cls", k) % 10).encode()))
        if ds.get("parts", 1) > 2:
            parts.append(("json", json.dumps(json_part(ds, k)).encode()))
        for ext, d in parts:
            ti = tarfile.TarInfo(f"{k}.{ext}")
            ti.size = len(d)
            ti.mtime = 0
            t.addfile(ti, io.BytesIO(d))
    offs.append(t.offset)
    t.close()
    return b.getvalue(), offs


def shard_name(i):
    return f"shard_{i:03d}.tar"


def put_dataset(fs, ds, root="/simfs/data"):
    """Writes a prepared dataset (without using the code under test)."""
    p = f"{root}/{ds['name']}"
    n = len(ds["keys"]) if "keys" in ds else len(ds["shards"])
    counts = {}
    names = []
    for i in range(n):
        data, offs = tar_bytes(ds, i)
        c = len(offs) - 1
        fs.put(f"{p}/{shard_name(i)}", data)
        if c == 0:
            continue
        fs.put(f"{p}/{shard_name(i)[:-4]}.tar.idx", b"".join(struct.pack("Q", o) for o in offs))
        counts[shard_name(i)] = c
        names.append(shard_name(i))
    y = "shard_counts:\n" + "".join(f"  {k}: {v}\n" for k, v in counts.items())
    if not counts:
        y = "shard_counts: {}\n"
    fs.put(f"{p}/.nv-meta/.info.yaml", y.encode())
    lst = "".join(f"  - {x}\n" for x in names) if names else " []\n"
    sep = "\n" if names else ""
    sp = "split_parts:\n"
    for part in ("train", "val"):
        sp += f"  {part}:" + ("\n" + "".join(f"  - {x}\n" for x in names) if names else " []\n")
    ex = ds.get("exclude", [])
    sp += "exclude:" + ("\n" + "".join(f"- {x}\n" for x in ex) if ex else " []\n")
    fs.put(f"{p}/.nv-meta/split.yaml", sp.encode())
    if ds.get("crude"):
        dy = "__module__: megatron.energon\n__class__: CrudeWebdataset\n"
        if ds.get("subflavors"):
            dy += "subflavors:\n" + "".join(f"  {k}: {v}\n" for k, v in ds["subflavors"].items())
    else:
        dy = "sample_type:\n  __module__: megatron.energon\n  __class__: TextSample\nfield_map:\n  text: txt\n"
        if ds.get("subflavors"):
            dy += "subflavors:\n" + "".join(f"  {k}: {v}\n" for k, v in ds["subflavors"].items())
    fs.put(f"{p}/.nv-meta/dataset.yaml", dy.encode())


def put_all(fs, spec):
    for ds in spec["data"]:
        put_dataset(fs, ds)
    if spec.get("meta"):
        fs.put("/simfs/data/meta.yaml", spec["meta"].encode())


def blend_yaml(entries, split="train", val=None):
    """entries: list of dicts path, weight, extra keys; nested `blend` lists allowed."""

    def emit(e, ind):
        out = ""
        first = True
        for k, v in e.items():
            pre = " " * ind + ("- " if first else "  ")
            first = False
            if isinstance(v, dict):
                out += f"{pre}{k}:\n" + "".join(
                    " " * (ind + 4) + f"{a}: {b}\n" for a, b in v.items()
                )
            else:
                out += f"{pre}{k}: {v}\n"
        return out

    y = "__module__: megatron.energon\n__class__: MetadatasetV2\nsplits:\n"
    for sp in ("train", "val"):
        y += f"  {sp}:\n    blend:\n" + "".join(emit(e, 6) for e in entries)
    return y


def join_yaml(names, kind, cls, extra=None, subs=None):
    """A metadataset which joins the named datasets; `extra`: a dataset to blend with."""
    ind = "      " if extra is None else "          "
    y = "__module__: megatron.energon\n__class__: MetadatasetV2\nsplits:\n"
    for sp in ("train", "val"):
        y += f"  {sp}:\n"
        pre = "    "
        if extra is not None:
            y += f"    blend:\n      - path: ./{extra}\n        weight: 1\n      - weight: 2\n"
            pre = "        "
        y += f"{pre}join:\n"
        for i, n in enumerate(names):
            y += f"{ind}- path: ./{n}\n" if kind == "list" else f"{ind}{'abcd'[i]}:\n{ind}  path: ./{n}\n"
            if subs and subs[i]:
                y += f"{ind}  subflavors:\n{ind}    j: {subs[i]}\n"
        y += f"{pre}joiner:\n{pre}  __module__: {__name__}\n"
        y += f"{pre}  __class__: JText\n" if cls else f"{pre}  __function__: joiner\n"
    return y


# --------------------------------------------------------------------------------------------
# Task encoder
# --------------------------------------------------------------------------------------------


@dataclass
class JText(TextSample):
    """Joined sample: the texts of all columns."""

    @staticmethod
    def from_joined(a, b, c=None, d=None):
        return JText.derive_from(a, text="&".join(x.text for x in (a, b, c, d) if x is not None))


def joiner(a, b, c=None, d=None):
    return TextSample.derive_from(a, text="&".join(x.text for x in (a, b, c, d) if x is not None))


@dataclass
class Enc(Sample):
    items: tuple  # one tuple per source sample: (key, text)
    aug: tuple = ()
    idx: tuple = ()


@dataclass
class WBatch(Batch):
    __key__: Any
    __restore_key__: Any
    items: list
    aug: tuple
    idx: tuple
    flav: list = dataclasses.field(default_factory=list)


def draws():
    return (
        int(torch.randint(0, 1 << 30, (1,)).item()),
        int(np.random.randint(0, 1 << 30)),
        random.getrandbits(30),
        # One value each: the generators keep the second one of a pair as part of their state
        float(np.random.normal()).hex(),
        random.gauss(0.0, 1.0).hex(),
        float(torch.randn(1, dtype=torch.float64).item()).hex(),
    )


def _mk(sample, items, aug, idx):
    return Enc(
        __key__=sample.__key__,
        __restore_key__=sample.__restore_key__,
        __subflavor__=sample.__subflavor__,
        __subflavors__=sample.__subflavors__,
        items=items,
        aug=aug,
        idx=idx,
    )


def text_of(s):
    return s.text if hasattr(s, "text") else (s["txt"] if isinstance(s["txt"], str) else s["txt"].decode())


FATAL = {
    "mem": MemoryError, "import": ImportError, "name": NameError, "system": SystemError,
    "recursion": RecursionError, "reference": ReferenceError, "stop": StopIteration,
    "fatal": FatalSampleError,
}
CALLS = []  # (stage, key) calls seen by user functions of this process


class Base(TaskEncoder):
    def __init__(self, e):
        self.e = e

    def _ix(self, stage):
        return ((stage, self.current_sample_index, self.current_batch_index),)

    def _rs(self, stage):
        """Draws of a function with restored seeds, and the position they belong to."""
        d = draws() + (stage, self.current_sample_index)
        self._xd()
        return d

    def _xd(self):
        """Uses the random generators in ways which must not be seen outside."""
        n = self.e.get("xd", 0)
        for _ in range(n):
            draws()
            random.gauss(0, 1)
            np.random.randn()
        if n > 2:
            torch.manual_seed(n)
            np.random.seed(n)
            random.seed(n)

    def _fail(self, stage, key):
        """Deterministically fail on some items."""
        if stage == "sample" and self.e.get("slow"):
            sec, mod = self.e["slow"]
            if h("slow", key) % mod == 0:
                time.sleep(sec)
        f = self.e.get("fail", {}).get(stage)
        if not f:
            return
        x = h(stage, "fail", key) % 100
        if x < f.get("skip", 0):
            raise SkipSample()
        x -= f.get("skip", 0)
        if x < f.get("err", 0):
            raise ValueError(f"user error {stage} {key}")
        x -= f.get("err", 0)
        if x < f.get("fatal", 0):
            raise FATAL[f.get("exc", "mem")]("fatal user error")


def _first(items):
    return items[0][0]


class S_none:
    pass


class S_sl:
    @stateless
    def encode_sample(self, s):
        self._fail("sample", s.__key__)
        return _mk(s, ((s.__key__, text_of(s)),), (), self._ix("s"))


class S_rs:
    @stateless(restore_seeds=True)
    def encode_sample(self, s):
        d = self._rs("s")
        self._fail("sample", s.__key__)
        return _mk(s, ((s.__key__, text_of(s)),), d, self._ix("s"))


class S_rng:
    def encode_sample(self, s):
        self._fail("sample", s.__key__)
        return _mk(s, ((s.__key__, text_of(s)),), draws(), self._ix("s"))


def few(*k):
    """How many elements a generator yields for the key."""
    return (0, 1, 2, 1, 3, 1, 2, 2)[h(*k) % 8]


class S_gen:
    @stateless
    def encode_sample(self, s):
        n = few("gen", s.__key__)
        for i in range(n):
            self._fail("gen", (s.__key__, i))
            yield _mk(s, ((f"{s.__key__}#{i}", text_of(s)),), (), self._ix("s"))


class S_genrs:
    @stateless(restore_seeds=True)
    def encode_sample(self, s):
        n = few("gen", s.__key__)
        for i in range(n):
            d = draws() + (f"g{i}", self.current_sample_index)
            if i == n - 1:
                self._xd()
            yield _mk(s, ((f"{s.__key__}#{i}", text_of(s)),), d, self._ix("s"))


class B_list:
    @stateless
    def batch(self, samples):
        return _batch(self, samples, ())


class B_none:
    pass


class B_rs:
    @stateless(restore_seeds=True)
    def batch(self, samples):
        return _batch(self, samples, self._rs("b"))


class B_rng:
    def batch(self, samples):
        return _batch(self, samples, draws())


class B_gen:
    @stateless
    def batch(self, samples):
        n = few("bgen", samples[0].__key__)
        for i in range(n):
            yield _batch(self, samples, (i,))


def _batch(self, samples, aug):
    items = []
    ix = ()
    a = []
    keys = []
    flav = []
    for s in samples:
        if isinstance(s, Enc):
            items.append(s.items)
            ix += s.idx
            a.append(s.aug)
        else:
            items.append(((s.__key__, text_of(s)),))
            a.append(())
        keys.append(s.__key__)
        flav.append(tuple(sorted((s.__subflavors__ or {}).items())))
    self._fail("batch", tuple(x[0][0] for x in items))
    return WBatch(
        __key__=keys,
        __restore_key__=(),
        items=items,
        aug=(tuple(a), aug),
        idx=ix + self._ix("b"),
        flav=flav,
    )


class E_none:
    pass


class E_sl:
    @stateless
    def encode_batch(self, b):
        self._fail("ebatch", b.items[0][0][0])
        return dataclasses.replace(b, idx=b.idx + self._ix("e"))


class E_rs:
    @stateless(restore_seeds=True)
    def encode_batch(self, b):
        d = self._rs("e")
        self._fail("ebatch", b.items[0][0][0])
        return dataclasses.replace(b, aug=(b.aug, d), idx=b.idx + self._ix("e"))


class E_rng:
    def encode_batch(self, b):
        return dataclasses.replace(b, aug=(b.aug, draws()), idx=b.idx + self._ix("e"))


class E_gen:
    @stateless
    def encode_batch(self, b):
        n = few("egen", b.items[0][0][0])
        for i in range(n):
            yield dataclasses.replace(b, aug=(b.aug, i), idx=b.idx + self._ix("e"))


def group_of(key):
    g = h("grp", key.split("#")[0]) % 3
    return f"group-{g}", 1 + h("gsz", g) % 4


class G_none:
    pass


class G_grp:
    def batch_group_criterion(self, s):
        self._fail("group", s.__key__)
        g, n = group_of(s.items[0][0] if isinstance(s, Enc) else s.__key__)
        return g, (n if self.e.get("gsize", True) else None)


class P_none:
    pass


def pack_plan(samples, variant):
    """Deterministic packing: by hash order, chunks of 1..3."""
    key = lambda s: h("pk", s.items[0][0] if isinstance(s, Enc) else s.__key__)
    out = sorted(samples, key=key) if variant % 2 else list(samples)
    res = []
    while out:
        n = 1 + key(out[0]) % 3
        res.append(out[:n])
        out = out[n:]
    return res


def _pack(samples, aug, ix):
    it = ()
    ixs = ()
    augs = []
    for s in samples:
        if isinstance(s, Enc):
            it += s.items
            ixs += s.idx
            augs.append(s.aug)
        else:
            it += ((s.__key__, text_of(s)),)
            augs.append(())
    return _mk(samples[0], it, (tuple(augs), aug), ixs + ix)


class P_sl:
    def select_samples_to_pack(self, samples):
        self._fail("prepack", tuple(s.__key__ for s in samples))
        return pack_plan(samples, self.e.get("pv", 0))

    @stateless
    def pack_selected_samples(self, samples):
        self._fail("pack", samples[0].__key__)
        return _pack(samples, (), self._ix("p"))


class P_rs:
    def select_samples_to_pack(self, samples):
        return pack_plan(samples, self.e.get("pv", 0))

    @stateless(restore_seeds=True)
    def pack_selected_samples(self, samples):
        d = self._rs("p")
        self._fail("pack", samples[0].__key__)
        return _pack(samples, d, self._ix("p"))


class P_gen:
    def select_samples_to_pack(self, samples):
        return pack_plan(samples, self.e.get("pv", 0))

    @stateless
    def pack_selected_samples(self, samples):
        n = few("pgen", samples[0].__key__)
        for i in range(n):
            yield _pack(samples, (i,), self._ix("p"))


class C_none:
    pass


def other_parts(s):
    return "".join(f":{k}={s[k]}" for k in ("cls", "json") if k in s)


def all_items(ds):
    """All (key, text) as delivered, when nothing but the plain sample is read."""
    for i in range(len(ds["keys"]) if "keys" in ds else len(ds["shards"])):
        for k in shard_keys(ds, i):
            t = sample_text(ds, k)
            if ds.get("crude"):
                p = ds.get("parts", 1)
                d = {}
                if p > 1:
                    d["cls"] = h("cls", k) % 10
                if p > 2:
                    d["json"] = json_part(ds, k)
                t += other_parts(d)
            yield f"{shard_name(i)}/{k}", t


def _cook(sample):
    from megatron.energon import TextSample

    return TextSample(**basic_sample_keys(sample), text=text_of(sample) + other_parts(sample))


class C_cook:
    cookers = [Cooker(_cook)]


class C_cookrs:
    """Cooks with randomness."""

    def __init__(self, e):
        super().__init__(e)
        self.cookers = [Cooker(self._cook)]

    @stateless(restore_seeds=True)
    def _cook(self, sample):
        d = self._rs("c")
        self._fail("cook", sample["__key__"])
        s = _cook(sample)
        s.text += "|" + ",".join(str(x) for x in d)
        return s


class C_cookf:
    """Cooks, with failures."""

    def __init__(self, e):
        super().__init__(e)
        self.cookers = [Cooker(self._cook)]

    @stateless
    def _cook(self, sample):
        self._fail("cook", sample["__key__"])
        return _cook(sample)


def make_encoder(e):
    g = globals()
    bases = (
        g["C_" + e.get("cook", "none")], g["S_" + e.get("s", "none")],
        g["B_" + e.get("b", "list")], g["E_" + e.get("e", "none")],
        g["G_" + e.get("g", "none")], g["P_" + e.get("p", "none")], Base,
    )
    d = {}
    if e.get("unst"):
        # The same function without the declaration that it can be repeated
        name = e["unst"]

        def f(self, *a):
            return getattr(super(cls, self), name)(*a)

        def fg(self, *a):
            yield from getattr(super(cls, self), name)(*a)

        d[name] = fg if inspect.isgeneratorfunction(getattr(type("W", bases, {}), name)) else f
    cls = type("WEnc", bases, d)
    return cls(e)


# --------------------------------------------------------------------------------------------
# Pipelines
# --------------------------------------------------------------------------------------------


def worker_config(spec, rank=0, **kw):
    return WorkerConfig(
        rank=rank, world_size=spec.get("world", 1), num_workers=spec["workers"],
        seed_offset=spec.get("seed_offset", 0), **kw,
    )


def handler_of(spec):
    return None


def make_dataset(spec, rank=0, wc=None):
    wc = wc or worker_config(spec, rank)
    path = "/simfs/data/meta.yaml" if spec.get("meta") else f"/simfs/data/{spec['data'][0]['name']}"
    kw = {}
    if spec.get("psi") is not None:
        kw["parallel_shard_iters"] = spec["psi"]
    if spec.get("handler") == "log":
        from megatron.energon.flavors.webdataset.error_handler import ErrorHandler  # noqa: F401
        from megatron.energon.task_encoder import TaskEncoder  # noqa: F401

        kw["handler"] = _log_handler
    enc = make_encoder(spec.get("enc", {}))
    common = dict(
        worker_config=wc, batch_size=spec.get("bs"), batch_drop_last=spec.get("drop_last", False),
        packing_buffer_size=spec.get("pbs"), task_encoder=enc,
    )
    if spec.get("msps") is not None or spec["split"] == "train":
        kw["max_samples_per_sequence"] = spec.get("msps")
    if spec["split"] == "train":
        ds = get_train_dataset(
            path, shuffle_buffer_size=spec.get("sbs"),
            virtual_epoch_length=spec.get("vel", 0),
            shuffle_over_epochs_multiplier=spec.get("som", 1), **common, **kw,
        )
    else:
        kw.pop("parallel_shard_iters", None)
        kw.pop("max_samples_per_sequence", None)
        ds = get_val_dataset(path, limit=spec.get("limit"), **common, **kw)
    for w in spec.get("wrap", []):
        ds = wrap(ds, w, wc, spec)
    return ds


def _log_handler(e, key):
    pass


def wrap(ds, w, wc, spec):
    from megatron.energon.wrappers.filter_dataset import FilterDataset
    from megatron.energon.wrappers.limit_dataset import LimitDataset
    from megatron.energon.wrappers.repeat_dataset import RepeatDataset
    from megatron.energon.wrappers.shuffle_buffer_dataset import ShuffleBufferDataset
    from megatron.energon.wrappers.epochize_dataset import EpochizeDataset
    from megatron.energon.wrappers.iter_map_dataset import IterMapDataset

    k = w[0]
    if k == "filter":
        return FilterDataset(ds, filter_fn=_filt, worker_config=wc)
    if k == "limit":
        return LimitDataset(ds, length=w[1], reset_after_epoch=w[2], worker_config=wc)
    if k == "repeat":
        return RepeatDataset(ds, repeats=w[1], worker_config=wc)
    if k == "shuffle":
        return ShuffleBufferDataset(ds, size=w[1], worker_config=wc)
    if k == "itergen":
        return IterMapDataset(ds, iter_map_fn=_iter_gen, stateless_iter_fn=True, worker_config=wc)
    if k == "itermap":
        return IterMapDataset(ds, iter_map_fn=_iter_fn, stateless_iter_fn=True, worker_config=wc)
    if k in ("mapraise", "maplog"):
        from megatron.energon.wrappers.map_dataset import MapDataset

        kw = dict(error_handler=_raise) if k == "mapraise" else {}
        return MapDataset(ds, _map_fn, stateless_map_fn=True, worker_config=wc, **kw)
    if k == "epochize":
        return EpochizeDataset(ds, length=w[1], worker_config=wc)
    if k == "mix":
        from megatron.energon.wrappers.mix_batch_dataset import MixBatchDataset

        other = make_dataset({**spec, "wrap": []}, wc.rank, wc)
        return MixBatchDataset((ds, w[2]), (other, 1.0), batch_size=w[1], batch_mix_fn=_mix_fn, worker_config=wc)
    raise ValueError(k)


def _ix(stage):
    wc = WorkerConfig.active_worker_config
    return ((stage, wc.active_worker_sample_index, wc.active_worker_batch_index),)


def _numbered(b, stage):
    """The output of a wrapper's function, with the numbers the function sees."""
    return dataclasses.replace(b, idx=b.idx + _ix(stage)) if hasattr(b, "idx") else b


def _mix_fn(bs):
    x = h("mix", _key_of(bs[0])) % 8
    if x == 0:
        raise SkipSample()
    if x == 1:
        raise ValueError("user error")
    return WBatch(__key__=[b.__key__ for b in bs], __restore_key__=(), items=[i for b in bs for i in _items(b)],
                  aug=tuple(getattr(b, "aug", ()) for b in bs),
                  idx=tuple(i for b in bs for i in getattr(b, "idx", ())) + _ix("mix"))


def _items(b):
    return b.items if isinstance(b, WBatch) else [b.items] if isinstance(b, Enc) else [((b.__key__, text_of(b)),)]


def _filt(b):
    return h("filt", _key_of(b)) % 4 != 0


def _key_of(b):
    return b.items[0][0][0] if isinstance(b, WBatch) else b.items[0][0] if isinstance(b, Enc) else b.__key__


def _raise(e, x):
    raise e


def _iter_fn(it):
    for b in it:
        x = h("itm", _key_of(b)) % 8
        if x == 0:
            raise ValueError("user error")
        if x == 1:
            continue
        if x == 2:
            raise SkipSample()
        yield _numbered(b, "it")


def _iter_gen(it):
    for b in it:
        if h("itm", _key_of(b)) % 8 == 0:
            raise ValueError("user error")
        for i in range(h("itg", _key_of(b)) % 3):
            yield dataclasses.replace(b, idx=b.idx + ((f"it{i}", i, 0),)) if hasattr(b, "idx") else b


def _map_fn(b):
    if h("mapf", _key_of(b)) % 16 == 0:
        raise ValueError("user error")
    return _numbered(b, "mp")


def make_loader(spec, rank=0, wc=None, ds=None):
    ds = ds or make_dataset(spec, rank, wc)
    if spec.get("loader", "savable") == "basic":
        return get_loader(ds)
    lk = {}
    if "ck_sec" in spec:
        lk["checkpoint_every_sec"] = spec["ck_sec"]
    if spec.get("ck_n") is not None:
        lk["checkpoint_every_min_n_samples"] = spec["ck_n"]
    if spec.get("n_ck") is not None:
        lk["n_checkpoints"] = spec["n_ck"]
    return get_savable_loader(ds, **lk)


def canon(b):
    """Canonical content of a delivered batch or sample: (content, idx, restore key)."""
    rk = getattr(b, "__restore_key__", None)
    if isinstance(b, WBatch):
        fl = tuple(b.flav)
        return (("B", tuple(b.items), b.aug, fl), b.idx, rk)
    if isinstance(b, Enc):
        return (("E", b.items, b.aug, tuple(sorted((b.__subflavors__ or {}).items()))), b.idx, rk)
    return (("S", b.__key__, text_of(b)), (), rk)


def items_of(c):
    """Flat source items (key, text) of a canonical batch."""
    content = c[0]
    if content[0] == "B":
        return [it for g in content[1] for it in g]
    if content[0] == "E":
        return list(content[1])
    return [(content[1], content[2])]
