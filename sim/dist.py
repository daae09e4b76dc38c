"""Simulated torch.distributed object collectives (stub): rendezvous inside of the simulator.

Semantics of the real functions: `src`/`dst` are global ranks, every rank of the group has to take
part in the same order, gather and all-gather wait for everybody, scatter only for the source (the
source may or may not wait for the receivers). Objects are pickled.
"""
import pickle

from . import core
from .core import cur


class SimGroup:
    """A process group; plain data, so that it survives forks and pickling."""

    def __init__(self, ranks, name):
        self.ranks = list(ranks)
        self.name = name

    def __repr__(self):
        return f"SimGroup({self.name}: {self.ranks})"


class State:
    def __init__(self):
        self.calls = {}  # (group, number) -> dict
        self.count = {}  # (pid, group) -> number of calls


def _st():
    if not hasattr(core.S, "dist_state"):
        core.S.dist_state = State()
    return core.S.dist_state


def _me():
    d = core.S.cur_proc.dist
    if d is None:
        raise ValueError("Default process group has not been initialized, please make sure to call init_process_group.")
    return d


def _grp(group):
    rank, world, incarnation = _me()
    if group is None:
        group = SimGroup(range(world), "world")
    if rank not in group.ranks:
        raise ValueError(f"Global rank {rank} is not part of group {group}")
    return rank, group, incarnation


def _call(group, kind, root, data):
    rank, g, inc = _grp(group)
    if root is not None and root not in g.ranks:
        raise ValueError(f"Global rank {root} is not part of group {g}")
    st = _st()
    gname = (inc, g.name)
    n = st.count[(rank, gname)] = st.count.get((rank, gname), 0) + 1
    c = st.calls.setdefault((gname, n), dict(kind=kind, root=root, data={}, done=set()))
    if c["kind"] != kind or c["root"] != root:
        raise RuntimeError(
            f"Collective mismatch: rank {rank} calls {kind}(root={root}), others {c['kind']}(root={c['root']})")
    core.S.point("coll")
    c["data"][rank] = data
    return rank, g, c


def all_gather_object(object_list, obj, group=None):
    rank, g, c = _call(group, "all_gather", None, pickle.dumps(obj))
    if len(object_list) != len(g.ranks):
        raise ValueError(f"Expected a list of {len(g.ranks)} elements")
    core.S.wait(lambda: len(c["data"]) == len(g.ranks), None, "all_gather_object")
    for i, r in enumerate(g.ranks):
        object_list[i] = pickle.loads(c["data"][r])


def gather_object(obj, object_gather_list=None, dst=0, group=None, group_dst=None):
    if group_dst is not None:
        dst = _grp(group)[1].ranks[group_dst]
    rank, g, c = _call(group, "gather", dst, pickle.dumps(obj))
    if rank == dst and (not isinstance(object_gather_list, list) or len(object_gather_list) != len(g.ranks)):
        raise ValueError("Argument ``object_gather_list`` must be specified on destination rank.")
    if rank != dst and object_gather_list is not None:
        raise ValueError("Argument ``object_gather_list`` must NOT be specified on non-destination ranks.")
    core.S.wait(lambda: len(c["data"]) == len(g.ranks), None, "gather_object")
    if rank == dst:
        for i, r in enumerate(g.ranks):
            object_gather_list[i] = pickle.loads(c["data"][r])


def scatter_object_list(scatter_object_output_list, scatter_object_input_list=None, src=0, group=None, group_src=None):
    if group_src is not None:
        src = _grp(group)[1].ranks[group_src]
    data = None
    rank, g, _ = _grp(group)
    if not isinstance(scatter_object_output_list, list) or len(scatter_object_output_list) < 1:
        raise ValueError("Expected argument scatter_object_output_list to be a list of size at least 1.")
    if rank == src:
        if not isinstance(scatter_object_input_list, list) or len(scatter_object_input_list) != len(g.ranks):
            raise ValueError("Expected argument scatter_object_input_list to be a list of group size")
        data = [pickle.dumps(x) for x in scatter_object_input_list]
    rank, g, c = _call(group, "scatter", src, data)
    if rank == src and not core.S.cfg.get("scatter_waits"):
        pass
    else:
        core.S.wait(lambda: len(c["data"]) == len(g.ranks) if core.S.cfg.get("scatter_waits") else src in c["data"],
                    None, "scatter_object_list")
    scatter_object_output_list[0] = pickle.loads(c["data"][src][g.ranks.index(rank)])


def broadcast_object_list(object_list, src=0, group=None, device=None, group_src=None):
    if group_src is not None:
        src = _grp(group)[1].ranks[group_src]
    rank = _grp(group)[0]
    rank, g, c = _call(group, "broadcast", src, [pickle.dumps(x) for x in object_list] if rank == src else None)
    if rank != src:
        core.S.wait(lambda: src in c["data"], None, "broadcast_object_list")
        for i, x in enumerate(c["data"][src]):
            object_list[i] = pickle.loads(x)


def barrier(group=None, **kw):
    rank, g, c = _call(group, "barrier", None, b"")
    core.S.wait(lambda: len(c["data"]) == len(g.ranks), None, "barrier")


def is_initialized():
    return core.S.cur_proc.dist is not None


def get_rank(group=None):
    rank, g, _ = _grp(group)
    return g.ranks.index(rank)


def get_world_size(group=None):
    return len(_grp(group)[1].ranks)


def get_global_rank(group, group_rank):
    return group.ranks[group_rank]


def get_group_rank(group, global_rank):
    return group.ranks.index(global_rank)


def get_process_group_ranks(group=None):
    return list(_grp(group)[1].ranks)


def install(setm, disp):
    import torch.distributed as d
    from torch.distributed import distributed_c10d as c

    for f in (all_gather_object, gather_object, scatter_object_list, broadcast_object_list, barrier,
              is_initialized, get_rank, get_world_size, get_global_rank, get_group_rank, get_process_group_ranks):
        new = disp(getattr(c, f.__name__), f)
        setm(c, f.__name__, new)
        setattr(d, f.__name__, new)
