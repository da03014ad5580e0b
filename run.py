#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--runs N] [--jobs N]   search
run.py --replay FILE                                           re-execute a recorded violation"""

import argparse
import os
import sys

PY = os.environ.get("EDULINT_PY", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="a few runs of each world, executed twice, must be identical")
    ap.add_argument("--hash-server", action="store_true", help=argparse.SUPPRESS)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if os.environ.get("SIM_BOOTED") != "1" or os.environ.get("PYTHONHASHSEED") is None:
        env = dict(os.environ, SIM_BOOTED="1", PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"),
                   PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
        os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    replay_file = os.path.abspath(a.replay) if a.replay else None
    os.chdir("/")
    from sim import boot

    boot.boot()
    import gc

    gc.collect()
    gc.freeze()
    from sim import registry, runner

    if a.hash_server:
        from sim import hashserver

        return hashserver.serve()
    if a.selftest:
        return runner.selftest()
    if a.replay:
        return runner.replay(replay_file)
    spec = registry.PROPS[a.property]
    runs = a.runs or spec["runs"][0 if a.tier == "quick" else 1]
    cap = a.cap or (240 if a.tier == "quick" else 800)
    return runner.check(a.property, spec, a.tier, a.seed, runs, cap, a.jobs)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    os._exit(code)
