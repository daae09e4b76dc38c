"""Runtime of the checks: running simulations, simulated training processes, comparisons."""
import copy
import os
import pickle
import sys
import traceback
import warnings

from . import core, disk, patch
from .core import Sim, SimHang, SimLimit

_ready = False


def setup():
    """Import everything and install the seams (once per OS process)."""
    global _ready
    if _ready:
        return
    _ready = True
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    import megatron.energon  # noqa
    import megatron.energon.savable_loader  # noqa
    from . import workload  # noqa
    import gc

    gc.disable()
    patch.install()
    disk.install()


class ProcError(Exception):
    """An exception of the code under test in a simulated process."""

    def __init__(self, kind, msg, tb=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.tb = tb

    def __reduce__(self):
        return (ProcError, (self.kind, self.msg, self.tb))


class Handle:
    def __init__(self, proc):
        self.proc = proc
        self.ok = None
        self.value = None
        self.err = None

    def wait(self, timeout=None):
        core.S.wait(lambda: not self.proc.alive, timeout, "waitproc")
        return self


def spawn(name, fn, *args, rank=None, dist=None):
    """Start a fresh simulated process running fn(*args)."""
    s = core.S
    p = s.new_proc(name)
    p.rank = rank
    p.dist = dist
    hd = Handle(p)

    def main():
        try:
            v = fn(*args)
            hd.value = v
            hd.ok = True
        except (SimHang, SimLimit):
            raise
        except BaseException as e:
            hd.ok = False
            hd.err = ProcError(
                type(e).__name__, str(e)[:500], "".join(traceback.format_exception(e))[-4000:]
            )
            e.__traceback__ = None

    s.spawn_task(p, name, main, main=True)
    return hd


def run_sim(cfg, fn, replay=None, lines=None):
    """Runs fn() as root task. Returns (result, sim)."""
    sim = Sim(cfg, replay, extra_slots=patch.extra_slots())
    if cfg.get("line_p"):
        patch.install_lines(
            lines or ("megatron.energon.savable_loader", "megatron.energon.worker",
                      "megatron.energon.wrappers.base"), cfg["line_p"], sim)
    old = core._rng_save()
    try:
        r = sim.run(fn)
    finally:
        core.S = None
        if cfg.get("line_p"):
            sys.monitoring.register_callback(patch.TOOL, sys.monitoring.events.LINE, None)
        sim.slots.load(sim.pristine)
        core._rng_load(old)
    return r, sim
