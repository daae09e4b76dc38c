"""Shared pieces of the checks."""
import json

from .. import core, disk, engine, rt, workload as W
from ..core import SimHang, SimLimit
from ..runner import Check, Invalid, Violation


def content(events):
    return [e[1][0] for e in events if e[0] == "b"]


def brief(x, n=260):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def spec_shape(spec):
    e = spec.get("enc", {})
    return "/".join(
        str(x)
        for x in (
            spec["split"], spec["workers"], spec.get("world", 1), len(spec["data"]), e.get("s"), e.get("b"),
            e.get("e"), e.get("g"), e.get("p"), e.get("cook"), bool(e.get("fail")),
            spec.get("sbs"), bool(spec.get("vel")), spec.get("som"), spec.get("psi"),
            bool(spec.get("msps")), bool(spec.get("limit")), [w[0] for w in spec.get("wrap", [])],
        )
    )


def proc_violation(err, prefix=""):
    """Exception of the code under test where none is allowed."""
    where = ""
    for line in err.tb.splitlines():
        line = line.strip()
        if line.startswith("File") and "energon" in line:
            where = line.split(" in ")[-1]
    msg = err.msg.split("\n")[0][:60] if err.kind == "AssertionError" else ""
    return Violation(
        f"{prefix}{err.kind} in {where}", f"{err.kind}: {err.msg}\n{err.tb[-1800:]}"
    )


def stuck(e, prefix=""):
    return Violation(f"{prefix}{type(e).__name__}", f"no progress: {str(e)[:1500]}")


def stuck_or_empty(spec, n, e, rank=0):
    """Step limit: only a violation if the plain run delivers batches (rank None: on all ranks)."""
    for r in range(spec.get("world", 1)) if rank is None else [rank]:
        try:
            ref = engine.reference(spec, n, r)
        except (SimHang, SimLimit):
            raise Invalid("the pipeline delivers no batches")
        if ref.inc and ("dry",) in ref.inc[0]:
            raise Invalid("the pipeline delivers no batches")
    return stuck(e)


def diff_stream(got, want, sig, what, key="content"):
    """got must be a prefix of want."""
    for i, g in enumerate(got):
        if i >= len(want):
            raise Invalid("reference too short")
        if g != want[i]:
            where = ""
            if g in want:
                where = f" (the received batch is number {want.index(g)} of the expected stream)"
            else:
                where = " (the received batch is not in the expected stream window)"
            return Violation(
                sig, f"{what}: batch {i} differs{where}\n expected {brief(want[i])}\n received {brief(g)}"
            )
    return None


def check_spec(spec):
    """Rejects specs without sense (after shrinking)."""
    if not spec.get("data"):
        raise Invalid("no data")
    for d in spec["data"]:
        if d.get("parts") == 0:
            raise Invalid("samples without files")
        if "shards" in d and (sum(d["shards"]) < 1 or any(x < 0 for x in d["shards"])):
            raise Invalid("bad shards")
        if "shards" in d and not any(n and W.shard_name(i) not in d.get("exclude", ()) for i, n in enumerate(d["shards"])):
            raise Invalid("everything excluded")
    if spec.get("bs") == 0 or spec.get("pbs") == 0 or spec.get("msps") == 0 or spec.get("psi") == 0:
        raise Invalid("zero size")
    if spec.get("sbs") == 0 or spec.get("ck_n") == 0 or spec.get("som") == 0 or spec.get("limit") == 0:
        raise Invalid("zero size")
    if spec["split"] == "train" and spec.get("vel", None) == 0:
        spec.pop("vel")
    if spec.get("n_ck") is not None and spec["n_ck"] < 2:
        raise Invalid("n_ck")
    if spec.get("meta") and len(spec["data"]) != spec["meta"].count("path:") // 2:
        raise Invalid("meta")
    if not spec.get("meta") and len(spec["data"]) != 1:
        raise Invalid("meta")
    if spec.get("world", 1) < 1:
        raise Invalid("world")
    e = spec.get("enc", {})
    if e.get("g") == "grp" and (spec.get("bs") is None) != bool(e.get("gsize", True)):
        raise Invalid("group size")
    if e.get("b") == "none" and e.get("e", "none") != "none":
        raise Invalid("batch size")
    if e.get("g") != "grp" and (spec.get("bs") is None) != (e.get("b") == "none"):
        raise Invalid("batch size")
    if e.get("p", "none") != "none" and not spec.get("pbs"):
        raise Invalid("pack")
    if spec.get("pbs") and e.get("p", "none") == "none":
        raise Invalid("pack")
    if spec.get("data")[0].get("crude") and e.get("cook") not in ("cook", "cookf", "cookrs"):
        raise Invalid("cook")
    if spec["split"] == "train" and "som" not in spec:
        pass


def setup_disk(spec):
    disk.FS.__init__()
    W.put_all(disk.FS, spec)


def cfg_of(params):
    return dict(params["sched"])


def gen_wraps(rng, spec):
    """Wrappers around the pipeline (around a virtual epoch only those which do not see its end, see F1)."""
    r = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["filter", "limit", "epochize", "repeat", "filter", "limit", "itermap", "maplog", "shuffle", "mix"])
        if k in ("filter", "itermap", "maplog"):
            r.append([k])
        elif k == "shuffle":
            # (Below the shuffle buffer: all can be repeated, and no inner end of an epoch, see F1)
            if not any(w[0] in ("mix", "epochize") for w in r):
                r.append(["shuffle", rng.randint(1, 9)])
        elif k == "mix":
            r.append(["mix", rng.randint(1, 3), rng.choice([0.5, 1.0, 3.0])])
        elif k == "limit":
            r.append(["limit", rng.randint(1, 8), rng.random() < 0.5])
        elif k == "repeat":
            r.append(["repeat", rng.choice([1, 2, 3])])
        elif k == "epochize":
            r.append(["epochize", rng.randint(1, 9)])
    if "vel" in spec:
        r = [w for w in r if w[0] in ("filter", "itermap", "maplog", "mix")]
    return r
