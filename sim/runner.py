"""Seeded search: fork one child per simulated run, collect, minimise, write the replay file, report."""

import hashlib
import importlib
import json
import os
import pickle
import random
import re
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("EDULINT_PY", "/opt/venv/bin/python")


class Viol(dict):
    """cls: violation class (what is preserved while minimising); sig: specific instance; msg: for humans."""


def V(cls, msg, sig=None):
    return {"cls": cls, "msg": msg, "sig": sig or cls}


def load(world):
    return importlib.import_module(f"sim.worlds.{world}")


# ------------------------------------------------------------------------------------------------ one run
def run_here(world, prop, seed, sc=None, replay=None, tier="quick", full=False):
    """Runs inside a throw-away child process."""
    from . import kernel

    w = load(world)
    rng = random.Random(f"{prop}-{seed}")
    if sc is None:
        sc = w.gen(rng, prop, tier)
    sc = json.loads(json.dumps(sc))
    random.seed(f"code-{seed}")
    sim = kernel.Sim(seed, sc.get("cfg", {}), replay)
    kernel.ACTIVE = sim
    t0 = time.perf_counter()
    viols = w.run(sim, sc, prop) or []
    if sim.harness_error:
        raise kernel.HarnessError(sim.harness_error)
    res = {
        "seed": seed, "viols": viols, "hash": sim.hash.hexdigest(), "counts": dict(sim.counts),
        "probes": dict(sim.probes), "simtime": sim.mono, "steps": sim.steps, "nontrivial": bool(sim.nontrivial),
        "shape": sim.shape, "procs": len(sim.procs), "wall": time.perf_counter() - t0,
    }
    if viols or full:
        res["sc"], res["decisions"], res["trace"] = sc, sim.decisions, sim.trace
    return res


def fork_run(world, prop, seed, sc=None, replay=None, tier="quick", full=False, timeout=120):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = run_here(world, prop, seed, sc, replay, tier, full)
            except BaseException:
                res = {"seed": seed, "error": traceback.format_exc()}
            data = pickle.dumps(res)
            from .seams import O

            wr = O.get("os_write", os.write)
            while data:
                n = wr(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    res = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            res = {"seed": seed, "error": f"run exceeded {timeout} s of real time", "timeout": True}
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    if res is not None:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if res is None:
        try:
            res = pickle.loads(b"".join(buf))
        except Exception:
            res = {"seed": seed, "error": "the child died without an answer", "died": True}
    return res


# ------------------------------------------------------------------------------------------------ batch
def batch(world, prop, seeds, tier, jobs, wall_cap, per_run_timeout=75, stop_on_viol=True, on_result=None):
    """Run seeds over `jobs` forked workers; results are a function of the seed only."""
    import mmap

    stop = mmap.mmap(-1, 8)
    stop[:] = (2**62).to_bytes(8, "little")
    t0 = time.monotonic()
    pipes = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = os.fdopen(w, "wb")
            try:
                if hasattr(load(world), "worker_start"):
                    load(world).worker_start(prop)
                for i in range(j, len(seeds), jobs):
                    if i > int.from_bytes(stop[:], "little") or time.monotonic() - t0 > wall_cap:
                        break
                    res = fork_run(world, prop, seeds[i], tier=tier, timeout=per_run_timeout, full=i < 3)
                    if res.get("timeout") or res.get("died"):  # a busy machine, or a run that never ends
                        res = fork_run(world, prop, seeds[i], tier=tier, timeout=2 * per_run_timeout, full=i < 3)
                    res["i"] = i
                    bad = res.get("error") or (stop_on_viol and res.get("viols"))
                    if bad and i < int.from_bytes(stop[:], "little"):
                        stop[:] = i.to_bytes(8, "little")
                    pickle.dump(res, out)
                    out.flush()
            except BaseException:
                pickle.dump({"error": traceback.format_exc(), "i": -1}, out)
            finally:
                out.flush()
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    results = []
    bufs = {r: b"" for _, r in pipes}
    live = set(bufs)
    import io

    while live:
        rd, _, _ = select.select(list(live), [], [])
        for r in rd:
            d = os.read(r, 1 << 20)
            if not d:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += d
            while bufs[r]:
                f = io.BytesIO(bufs[r])
                try:
                    res = pickle.load(f)
                except (EOFError, pickle.UnpicklingError):
                    break
                bufs[r] = bufs[r][f.tell():]
                results.append(res)
                if on_result:
                    on_result(res)
    for pid, _ in pipes:
        os.waitpid(pid, 0)
    results.sort(key=lambda r: r["i"])
    return results


# ------------------------------------------------------------------------------------------------ minimise
def minimise(world, prop, res, cls, wall=45.0):
    w = load(world)
    end = time.monotonic() + wall
    best = {"sc": res["sc"], "dec": dict(res["decisions"]), "seed": res["seed"]}
    tries = [0]

    def ok(sc, dec):
        if time.monotonic() > end:
            return None
        tries[0] += 1
        r = fork_run(world, prop, res["seed"], sc=sc, replay=dec, full=True, timeout=60)
        for v in r.get("viols") or []:
            if v["cls"] == cls:
                return r
        return None

    first = ok(best["sc"], best["dec"])
    if first is None:
        return None, tries[0]
    last = first

    def ddmin(items, rebuild):
        nonlocal last
        n = 2
        while len(items) >= 1 and time.monotonic() < end:
            size = max(1, len(items) // n)
            progressed = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                r = ok(*rebuild(cand))
                if r is not None:
                    items, last, progressed = cand, r, True
                    n = max(n - 1, 2)
                else:
                    i += size
            if not progressed:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    for _round in range(2):
        before = json.dumps([best["sc"], best["dec"]], sort_keys=True)
        if isinstance(best["sc"].get("actions"), list):
            def with_actions(a):
                return {**best["sc"], "actions": a}, best["dec"]

            best["sc"] = {**best["sc"], "actions": ddmin(list(best["sc"]["actions"]), with_actions)}
        keys = ddmin(list(best["dec"]), lambda ks: (best["sc"], {k: best["dec"][k] for k in ks}))
        best["dec"] = {k: best["dec"][k] for k in keys}
        if hasattr(w, "simpler"):
            again = True
            while again and time.monotonic() < end:
                again = False
                for cand in w.simpler(best["sc"]):
                    r = ok(cand, best["dec"])
                    if r is not None:
                        best["sc"], last, again = cand, r, True
                        break
                    if time.monotonic() > end:
                        break
        if json.dumps([best["sc"], best["dec"]], sort_keys=True) == before:
            break
    best["dec"] = {k: v for k, v in best["dec"].items() if k in last["decisions"]} or best["dec"]
    final = ok(best["sc"], best["dec"]) or last
    return {"sc": final["sc"], "decisions": best["dec"], "res": final}, tries[0]


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ------------------------------------------------------------------------------------------------ a check
def check(prop, spec, tier, seed0, runs, wall_cap, jobs):
    world = spec["world"]
    t0 = time.monotonic()
    w = load(world)
    if hasattr(w, "warm"):
        w.warm(prop)
    boot_s = time.monotonic() - t0
    seeds = [seed0 * 10_000_000 + i for i in range(runs)]
    known = known_findings(prop)

    def is_known(v):
        return next((txt for rx, txt in known if rx.fullmatch(v["sig"])), None)

    results = batch(world, prop, seeds, tier, jobs, wall_cap, stop_on_viol=not known)
    search_s = time.monotonic() - t0 - boot_s
    errors = [r for r in results if r.get("error")]
    bad = []
    known_hit = {}
    for r in results:
        for v in r.get("viols") or []:
            k = is_known(v)
            if k:
                known_hit.setdefault(k, r["seed"])
            else:
                bad.append((r, v))
                break
    status = 0
    replay_path = None
    for k in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {k} (seed {known_hit[k]})")
    if errors and not bad:
        e = errors[0]
        stuck = next((e for e in errors if e.get("timeout")), None) if spec.get("timeout_is_violation") else None
        if stuck is not None:
            status = report_stuck(prop, world, stuck["seed"], tier)
        else:
            print(f"HARNESS-ERROR property={prop} seed={e.get('seed')}\n{e['error']}")
            status = 2
    confirmed = None
    for r, v in bad[:5]:
        m, tries = minimise(world, prop, r, v["cls"])
        if m is None:
            print(f"seed {r['seed']}: violation {v['cls']} did not reproduce; ignored", file=sys.stderr)
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        mv = next(x for x in m["res"]["viols"] if x["cls"] == v["cls"])
        replay_path = os.path.join(VERIF, "replays", f"{prop}-{r['seed']}.json")
        with open(replay_path, "w", encoding="utf-8") as f:
            json.dump({
                "property": prop, "world": world, "seed": r["seed"], "violation": mv,
                "scenario": m["sc"], "schedule_and_faults": m["decisions"], "hash": m["res"]["hash"],
                "trace": m["res"]["trace"], "shrink_runs": tries,
                "original": {"actions": len(r["sc"].get("actions", [])), "decisions": len(r["decisions"])},
                "how": f"{PY} {VERIF}/run.py --replay {replay_path}",
            }, f, indent=1)
        rr = subprocess.run([PY, os.path.join(VERIF, "run.py"), "--replay", replay_path],
                            capture_output=True, text=True, timeout=300)
        if rr.returncode != 1:
            print(f"replay of {replay_path} did not reproduce in a fresh process (rc {rr.returncode})\n{rr.stdout}"
                  f"{rr.stderr}", file=sys.stderr)
            continue
        confirmed = (r, mv)
        print(f"{prop} violated: {mv['msg']}")
        print(f"  seed {r['seed']}; minimised to {len(m['sc'].get('actions', []))} actions and "
              f"{len(m['decisions'])} scheduling/fault decisions: {json.dumps(m['decisions'])[:600]}")
        for line in m["res"]["trace"][-25:]:
            print("  | " + line[:200])
        print(f"VIOLATION property={prop} replay={replay_path}")
        status = 1
        break
    if bad and confirmed is None:
        print(f"HARNESS-ERROR property={prop}: {len(bad)} violating runs, none reproducible: {bad[0][1]}")
        status = 2
    write_evidence(prop, spec, tier, seed0, results, runs, boot_s, search_s, time.monotonic() - t0, jobs,
                   1 if status == 1 else 0, known_hit)
    done = [r for r in results if not r.get("error")]
    print(f"{prop} {tier}: {len(done)}/{runs} simulated runs in {search_s:.1f} s, "
          f"{len(set(r['hash'] for r in done))} distinct executions, exit {status}")
    return status


def report_stuck(prop, world, seed, tier):
    """A run that twice kept computing without ever coming back to the scheduler."""
    msg = f"the run with seed {seed} computes for minutes without an end"
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-{seed}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "world": world, "seed": seed, "tier": tier, "violation": V("never-ends", msg),
                   "scenario": None, "schedule_and_faults": None, "hash": None, "trace": [],
                   "how": f"{PY} {VERIF}/run.py --replay {path}"}, f, indent=1)
    print(f"{prop} violated: {msg}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def write_evidence(prop, spec, tier, seed0, results, runs, boot_s, search_s, wall, jobs, violations, known_hit):
    done = [r for r in results if not r.get("error")]
    counts, probes = Counter(), Counter()
    for r in done:
        counts.update(r["counts"])
        probes.update(r["probes"])
    nontrivial = {r["hash"] for r in done if r["nontrivial"]}
    shapes = Counter(r.get("shape") for r in done)
    samples = []
    for r in done[:3]:
        if "sc" in r:
            samples.append({"seed": r["seed"], "scenario": trim(r["sc"]), "schedule_and_faults": dict(
                list(r["decisions"].items())[:40]), "trace_tail": [x[:160] for x in r["trace"][-12:]]})
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(nontrivial),
            "rule": spec["rule"],
            "samples": samples or [{"note": "no run completed"}],
            "runs_planned": runs,
            "runs_per_hour": int(len(done) / max(search_s, 1e-6) * 3600),
            "seeds": [done[0]["seed"], done[-1]["seed"]] if done else [],
            "simulated_seconds": round(sum(r["simtime"] for r in done), 1),
            "simulated_processes": sum(r["procs"] for r in done),
            "scheduling_points": sum(r["steps"] for r in done),
            "faults_and_events_injected": dict(sorted(counts.items())),
            "rare_condition_probes": dict(sorted(probes.items())),
            "distinct_executions": len({r["hash"] for r in done}),
            "distinct_measure": "hash of the full event log (operations, faults, schedule switches) of a run",
            "distinct_shapes": len(shapes),
            "components_real": spec.get("real", []),
            "components_stubbed": spec.get("stub", []),
            "workers": jobs,
            "known_findings_hit": sorted(known_hit),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)


def trim(o, n=300, depth=0):
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + "..."
    if isinstance(o, list):
        return [trim(x, n, depth + 1) for x in o[:20]]
    if isinstance(o, dict):
        return {k: trim(v, n, depth + 1) for k, v in o.items()}
    return o


def replay(path):
    """Re-execute a replay file; exit 1 if it fails the same way, 0 if it does not."""
    d = json.load(open(path, encoding="utf-8"))
    w = load(d["world"])
    if hasattr(w, "warm"):
        w.warm(d["property"])
    r = fork_run(d["world"], d["property"], d["seed"], sc=d["scenario"], replay=d["schedule_and_faults"], full=True,
                 tier=d.get("tier", "quick"))
    if d["violation"]["cls"] == "never-ends":
        print("reproduced: " + d["violation"]["msg"] if r.get("timeout") else "not reproduced: the run ended")
        return 1 if r.get("timeout") else 0
    if r.get("error"):
        print(r["error"])
        return 2
    for v in r["viols"]:
        if v["cls"] == d["violation"]["cls"]:
            print(f"reproduced: {v['msg']}")
            print(f"event log identical to the recorded one: {r['hash'] == d['hash']}")
            for line in r["trace"][-40:]:
                print("  | " + line[:200])
            return 1
    print("not reproduced; violations seen:", r["viols"])
    return 0


def selftest(n=2):
    """Each world: the same seed gives the same event log twice, and its record replays to the same log."""
    from . import registry

    bad = 0
    worlds = {}
    for prop, spec in sorted(registry.PROPS.items()):
        worlds.setdefault(spec["world"], prop)
    for world, prop in worlds.items():
        w = load(world)
        if hasattr(w, "warm"):
            w.warm(prop)
        for seed in range(n):
            a = fork_run(world, prop, seed, full=True)
            b = fork_run(world, prop, seed, full=True)
            c = fork_run(world, prop, seed, sc=a.get("sc"), replay=a.get("decisions"), full=True)
            ok = not a.get("error") and a.get("hash") == b.get("hash") == c.get("hash")
            bad += not ok
            print(f"selftest {world} seed {seed}: {'ok' if ok else 'NOT REPRODUCIBLE'} {a.get('error') or a['hash']}")
    return 1 if bad and os.environ.get("SELFTEST_STRICT") else 0
