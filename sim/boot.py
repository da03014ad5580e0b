"""Bring up the interpreter: environment, seams, then edulint from the working tree (always compiled from source)."""

import os
import sys

REPO = os.environ.get("EDULINT_REPO", "/repo")
DATA = "/simfs/home/.local/share"
BOOTED = False
BOOT_DIRS = []


def boot(fake_dbm=True):
    global BOOTED
    if BOOTED:
        return
    BOOTED = True
    sys.dont_write_bytecode = True
    os.environ["XDG_DATA_HOME"] = DATA
    os.environ["XDG_CACHE_HOME"] = "/simfs/home/.cache"
    os.environ["HOME"] = "/simfs/home"
    os.environ["TMPDIR"] = "/simfs/tmp"
    os.environ.pop("PYTHONPATH", None)
    for k in list(os.environ):
        if k.lower().endswith("_proxy") or k in ("NETRC", "PYLINTHOME", "PYLINTRC", "REQUESTS_CA_BUNDLE"):
            os.environ.pop(k)
    sys.path.insert(0, REPO)
    import importlib._bootstrap_external as be

    orig = be.cache_from_source

    def cache_from_source(path, *a, **k):
        if str(path).startswith(REPO.rstrip("/") + "/"):
            raise NotImplementedError("edulint is always compiled from its source")
        return orig(path, *a, **k)

    be.cache_from_source = cache_from_source
    import locale  # noqa
    import encodings.idna  # noqa
    import requests  # noqa: before the seams: it has locks of its own that outlive runs
    import urllib3  # noqa
    from . import seams

    seams.install()
    if fake_dbm:
        import dbm
        import dbm.dumb

        dbm._names = ["dbm.dumb"]
        dbm._defaultmod = None
        dbm._modules = {}
    from . import net, procs

    net.install()
    procs.install()
    import edulint  # noqa
    import edulint.edulint  # noqa

    if not os.path.realpath(edulint.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise RuntimeError(f"edulint imported from {edulint.__file__}, not from {REPO}")
    import multiprocessing.pool  # noqa
    import pylint.lint  # noqa
    import flake8.main.application  # noqa

    import tempfile

    tempfile.tempdir = "/simfs/tmp"
    from loguru import logger

    logger.remove()
    seams.BOOT_VFS.sync_all()
    BOOT_DIRS[:] = [p for p, n in seams.BOOT_VFS.walk() if n.kind == "d"]
