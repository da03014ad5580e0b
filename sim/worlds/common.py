"""Pieces shared by the worlds."""

import json
import os
import sys

from .. import boot, kernel, net, seams, vfs
from ..modstate import State
from ..runner import V  # noqa: F401

DATA = boot.DATA + "/edulint"
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")

# message loss/delay/errors, disk errors, ... : what a run may enable
DISK = ["read:EIO", "write:EIO", "write:ENOSPC", "create:EIO", "create:EACCES", "create:ENOSPC", "create:EMFILE",
        "open:EIO", "open:EACCES", "open:EMFILE", "rename:EIO", "rename:EACCES", "unlink:EIO", "unlink:EACCES",
        "mkdir:EIO", "mkdir:EACCES", "mkdir:ENOSPC", "fsync:EIO", "stat:EIO", "stat:EACCES", "listdir:EIO"]
SHORT = ["read:short", "write:slow"]
TORN = ["write:torn_kill"]

_state = None


def edulint_modules(exclude=("edulint.linting.checkers", "edulint.linting.analyses", "edulint.prepare_explanations")):
    return [m for n, m in sorted(sys.modules.items())
            if (n == "edulint" or n.startswith("edulint.")) and m is not None
            and not any(n == e or n.startswith(e + ".") for e in exclude)]


def warm_state():
    global _state
    for n in IMPORTED:
        m = sys.modules.get(n)
        if getattr(m, "__file__", None):
            with open(m.__file__, "rb") as f:
                _codes[n] = compile(f.read(), m.__file__, "exec")
    _state = State(["edulint"], exclude=("edulint.linting.checkers", "edulint.linting.analyses"))


def attach(sim, state=True):
    """Give a Sim its disk and network."""
    sim.vfs = vfs.VFS(seams.VROOT, sim.wall)
    sim.vfs.makedirs(os.path.dirname(boot.DATA))
    sim.vfs.makedirs(os.environ["TMPDIR"])
    sim.vfs.sync_all()
    sim.net = net.Net(sim)
    if state:
        sim.state = _state


IMPORTED = ("edulint.atomic_write", "edulint.config.file_config", "edulint.config.utils", "edulint.explanations",
            "edulint.versions.pypi_helper", "edulint.versions.version_checker", "edulint.version",
            "edulint.linting.process_handler", "edulint.linting.overrides", "edulint.linting.linting", "edulint.edulint", "edulint")
_codes = {}


def import_effects():
    """What importing edulint does in a fresh process: the code of its modules that deal with disk, network and processes runs
    again, in name spaces of its own (the state of the live modules is modstate's business)."""
    import types

    for n, code in _codes.items():
        m = sys.modules[n]
        fresh = types.ModuleType(n)
        for k in ("__file__", "__package__", "__path__", "__spec__", "__loader__"):
            if hasattr(m, k):
                setattr(fresh, k, getattr(m, k))
        exec(code, fresh.__dict__)


def cli(argv):
    """The console script, as a simulated process."""

    def main():
        import_effects()
        import edulint.edulint as e

        sys.exit(e.main())

    return main, ["edulint"] + list(argv)


def api(fn):
    def main():
        import_effects()
        return fn()

    return main


def traceback_in(text):
    return "Traceback (most recent call last)" in text or "Exception in thread" in text


def power_loss(sim, label):
    sim.kill_all()
    n = [0]

    def pick(k, what):
        n[0] += 1
        if k <= 0:
            return k
        v = sim.decide(f"pl:{label}:{n[0]}:{what}", lambda: sim.rng.choice([0, 0, k, sim.rng.randint(0, k)]))
        return k - min(int(v or 0), k)

    meta, data = sim.vfs.power_loss(pick)
    sim.count("power_loss")
    if meta or data:
        sim.count("power_loss_lost_updates")
    sim.log("POWER", label, meta, data)


class Arm:
    """Trigger `fn(task)` at the n-th scheduling point of a group of processes."""

    def __init__(self, sim, n, fn):
        self.sim, self.left, self.fn = sim, n, fn
        sim.on_point = self

    def __call__(self, task, kind, detail):
        if kind == "line":
            return
        self.left -= 1
        if self.left == 0:
            self.sim.on_point = None
            self.fn(task)

    def disarm(self):
        self.sim.on_point = None


def swarm(rng, pool, keep=0.5):
    """A random subset of the fault kinds (swarm testing); sometimes all, sometimes none."""
    r = rng.random()
    if r < 0.1:
        return []
    if r < 0.25:
        return list(pool)
    return [f for f in pool if rng.random() < keep]


def dumps(o):
    return json.dumps(o, sort_keys=True, default=str)


__all__ = [n for n in dir() if not n.startswith("_")] + ["V"]


def monitor_housekeeping():
    """Every line of edulint that can run between a decision and its effect on disk, network or output."""
    skip = ("edulint.linting", "edulint.options", "edulint.option_parses", "edulint.linters", "edulint.config.arg",
            "edulint.config.config", "edulint.config.option_sets", "edulint.config.utils",
            "edulint.config.language_translations", "edulint.config.raw_flake8_patterns", "edulint.version")
    mods = [m for m in edulint_modules() if not any(m.__name__ == s or m.__name__.startswith(s + ".") for s in skip)]
    return seams.monitor_lines(mods, skip=("setup_argparse", "format_options_help", "extract_line", "to_json",
                                           "config_to_json", "setup_logger", "<listcomp>", "<genexpr>"))


def cheaper_logger():
    """loguru recomputes the library directories for every handler; the answer does not change."""
    try:
        from loguru._better_exceptions import ExceptionFormatter as F

        dirs = F._get_lib_dirs()
        F._get_lib_dirs = staticmethod(lambda: dirs)
    except Exception:
        pass
