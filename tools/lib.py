"""Helper of the demonstrations: small prepared datasets in a scratch directory, real loaders."""
import io, os, pickle, shutil, struct, sys, tarfile, tempfile

os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import warnings

warnings.filterwarnings("ignore")
import torch
from megatron.energon import (
    SkipSample, TaskEncoder, WorkerConfig, get_loader, get_savable_loader, get_train_dataset,
    get_val_dataset, stateless,
)


def scratch():
    d = tempfile.mkdtemp(prefix="demo_")
    import atexit

    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return d


def mkds(root, name, shards, key="k", exclude=(), parts=("txt",), prefix="shard", meta=True, subflavors=None):
    p = os.path.join(root, name)
    os.makedirs(p + "/.nv-meta")
    names = []
    g = 0
    for i, n in enumerate(shards):
        fn = f"{prefix}_{i:03d}.tar"
        names.append(fn)
        b = io.BytesIO()
        t = tarfile.open(fileobj=b, mode="w", format=tarfile.USTAR_FORMAT)
        offs = []
        for j in range(n):
            offs.append(t.offset)
            for ext in parts:
                d = f"{name}:{g}:{ext}".encode()
                ti = tarfile.TarInfo(f"{key}{i:02d}x{j:03d}.{ext}")
                ti.size = len(d)
                t.addfile(ti, io.BytesIO(d))
            g += 1
        offs.append(t.offset)
        t.close()
        open(f"{p}/{fn}", "wb").write(b.getvalue())
        if meta:
            open(f"{p}/{fn}.idx", "wb").write(b"".join(struct.pack("Q", o) for o in offs))
    if not meta:
        return p
    open(p + "/.nv-meta/.info.yaml", "w").write(
        "shard_counts:\n" + "".join(f"  {n}: {c}\n" for n, c in zip(names, shards)))
    lst = "".join(f"  - {n}\n" for n in names)
    ex = "exclude:\n" + "".join(f"- {e}\n" for e in exclude) if exclude else "exclude: []\n"
    open(p + "/.nv-meta/split.yaml", "w").write(f"split_parts:\n  train:\n{lst}  val:\n{lst}{ex}")
    sf = "subflavors:\n" + "".join(f"  {k}: {v}\n" for k, v in subflavors.items()) if subflavors else ""
    open(p + "/.nv-meta/dataset.yaml", "w").write(
        "sample_type:\n  __module__: megatron.energon\n  __class__: TextSample\nfield_map:\n  text: txt\n" + sf)
    return p


def wc(workers=0, rank=0, world=1, **kw):
    return WorkerConfig(rank=rank, world_size=world, num_workers=workers, **kw)


class Enc(TaskEncoder):
    @stateless
    def batch(self, samples):
        import dataclasses

        return dataclasses.replace(samples[0], text=tuple(s.text for s in samples),
                                   __key__=tuple(s.__key__ for s in samples), __restore_key__=())


def train(path, workers=0, bs=2, rank=0, world=1, enc=None, loader=None, sbs=None, som=1, vel=0, conf=None, **kw):
    c = conf or wc(workers, rank, world)
    ds = get_train_dataset(path, worker_config=c, batch_size=bs, shuffle_buffer_size=sbs,
                           max_samples_per_sequence=kw.pop("msps", None), virtual_epoch_length=vel,
                           shuffle_over_epochs_multiplier=som, task_encoder=enc or Enc(), **kw)
    return get_savable_loader(ds, **(loader or {}))


def val(path, workers=0, bs=2, rank=0, world=1, enc=None, loader=None, savable=True, limit=None, **kw):
    ds = get_val_dataset(path, worker_config=wc(workers, rank, world), batch_size=bs, limit=limit,
                         task_encoder=enc or Enc(), **kw)
    return get_savable_loader(ds, **(loader or {})) if savable else get_loader(ds)


def take(loader, n):
    """n batches (texts), through the ends of passes."""
    out = []
    dry = 0
    while len(out) < n and dry < 3:
        k = len(out)
        it = iter(loader)
        while len(out) < n:
            try:
                out.append(next(it).text)
            except StopIteration:
                break
        dry = dry + 1 if len(out) == k else 0
    return out


def save(loader):
    return pickle.dumps(loader.save_state_rank())


def restored(make, st):
    l = make()
    l.restore_state_rank(pickle.loads(st))
    return l


def check(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0) if False else sys.exit(0)
