"""Child processes under a time limit (C18).

Simulated: subprocess.Popen and the children behind it (sim/procs.py), clock, signals to the caller, threads, atexit.
Real: edulint.linting.process_handler, edulint.linting.linting.lint_in_subprocess.
Oracle: what the child's script does undisturbed (time, status, output), and the limit.
"""

import sys
import threading

from .common import *  # noqa: F403
from .common import V
from . import common
from .. import procs
from .lint import describe

GRACE = 1.5  # "a small constant"
EPS = 0.02


def warm(prop):
    import edulint.edulint  # noqa

    common.cheaper_logger()


# ------------------------------------------------------------------------------------------------ generator
def text(rng, n, uid):
    r = rng.random()
    if r < 0.5:
        return {"text": f"{uid}-{n} ahoj\n"}
    if r < 0.75:
        return {"text": f"{uid}-{n} žluťoučký €😀\n", "times": rng.choice([1, 1, 3])}
    if r < 0.85:
        return {"text": f"{uid}-{n} řádek\n", "times": rng.choice([3000, 9000])}
    if r < 0.93:
        return {"hex": rng.choice(["ff", "c5", "e282", "41f09f98"])}
    return {"text": ""}


def script(rng, limit, uid, heavy):
    """Timed actions; the total time is aimed around the limit."""
    ops = []
    n = rng.randint(0, 5)
    frac = rng.choice([0.1, 0.5, 0.9, 0.97, 1.03, 1.2, 3.0, 20.0])
    if rng.random() < 0.15:
        frac = rng.random() * 2
    budget = limit * frac
    if rng.random() < 0.25:
        ops.append({"op": "ignore_term"})
    elif rng.random() < 0.15:
        ops.append({"op": "on_term", "after": rng.choice([0.01, 0.15, 0.5, 5.0]), "code": rng.choice([0, 1, 9, 15, 143])})
    for i in range(n):
        r = rng.random()
        dt = budget / (n + 1) * rng.choice([0, 1, 1, 1])
        if r < 0.6:
            ops.append({"op": rng.choice(["out", "out", "err"]), **text(rng, i, uid), "dt": dt})
        elif r < 0.72:
            ops.append({"op": rng.choice(["read", "echo"]), "dt": dt})
        elif r < 0.8 and heavy:
            ops.append({"op": "fork", "hold": limit * rng.choice([0.3, 1.5, 30]), "dt": dt,
                        **({"text": "late\n"} if rng.random() < 0.4 else {})})
        elif r < 0.85:
            ops.append({"op": "close", "dt": dt})
        elif r < 0.9 and heavy:
            ops.append({"op": "stuck", "for": limit * rng.choice([0.2, 1.5, 10]), "dt": dt})
        else:
            ops.append({"op": "nothing", "dt": dt})
    used = sum(o.get("dt", 0) + o.get("for", 0) for o in ops)
    r = rng.random()
    if r < 0.75:
        ops.append({"op": "exit", "code": rng.choice([0, 0, 0, 1, 2, 9, 15, 32, 137, 143, 255]), "dt": max(0.0, budget - used)})
    elif r < 0.85:
        ops.append({"op": "die", "sig": rng.choice([6, 11, 9, 15]), "dt": max(0.0, budget - used)})
    else:
        ops.append({"op": "hang", "dt": 0.0})
    for o in ops:
        if "dt" in o:
            o["dt"] = round(o["dt"], 4)
        for k in ("hold", "for"):
            if k in o:
                o[k] = round(o[k], 4)
    return ops


def gen(rng, prop, tier):
    heavy = rng.random() < 0.5
    calls = []
    for i in range(rng.randint(1, 4)):
        how = "lint" if rng.random() < 0.2 else "run"
        limit = 1000 if how == "lint" else rng.choice([0, 0.05, 0.5, 1, 5, 5, 30])
        inp = None
        if how == "run" and rng.random() < 0.5:
            inp = rng.choice(["", "vstup 1\n", "ěšč\n", "x" * 200000])
        calls.append({"how": how, "limit": limit, "input": inp, "script": script(rng, limit or 1, f"c{i}", heavy),
                      "default_limit": limit == 5 and rng.random() < 0.4})
    stalls = rng.random() < 0.25
    return {"cfg": {"p_stall": 0.3 if stalls else 0, "p_switch": rng.choice([0, 0.2]), "p_pick": rng.choice([0, 0.3]),
                    "p_fault": {"spawn": rng.choice([0, 0, 0.1]), "nice": rng.choice([0, 0.2])}, "max_wait": 1e9},
            "threads": rng.random() < 0.3, "interrupt": rng.randint(1, 12) if rng.random() < 0.15 else 0, "actions": calls}


def simpler(sc):
    for k, v in (("threads", False), ("interrupt", 0)):
        if sc[k] != v:
            yield {**sc, k: v}
    if sc["cfg"]["p_stall"]:
        yield {**sc, "cfg": {**sc["cfg"], "p_stall": 0}}
    for i, c in enumerate(sc["actions"]):
        def with_(**k):
            return {**sc, "actions": sc["actions"][:i] + [{**c, **k}] + sc["actions"][i + 1:]}

        if c["input"]:
            yield with_(input=None)
        for j in range(len(c["script"]) - 1):
            yield with_(script=c["script"][:j] + c["script"][j + 1:])
        for j, o in enumerate(c["script"]):
            if o.get("times", 1) > 1:
                yield with_(script=c["script"][:j] + [{**o, "times": 1}] + c["script"][j + 1:])


# ------------------------------------------------------------------------------------------------ running it
def call(sim, i, c, records):
    from edulint.linting.process_handler import ProcessHandler
    from edulint.linting import linting
    from edulint.linters import Linter

    rec = {"t0": sim.mono, "stalled": sim.stalled}
    records[i] = rec
    try:
        if c["how"] == "lint":
            rec["cmd"] = [sys.executable, "-m", "pylint", "--x=1", "--y", f"id{i}"]
            try:
                v = linting.lint_in_subprocess(Linter.PYLINT, [f"id{i}"], ["--x=1"], ("--y",))
                rec["value"], rec["timed_out"] = list(v), False
            except TimeoutError:
                rec["value"], rec["timed_out"] = None, True
        else:
            rec["cmd"] = ["prog", "-a", f"id{i}"]
            k = {} if c["default_limit"] else {"timeout": c["limit"]}
            v = ProcessHandler.run(list(rec["cmd"]), input_str=c["input"], **k)
            rec["value"], rec["timed_out"] = list(v), ProcessHandler.is_status_code_by_timeout(v[0])
    except (KeyboardInterrupt, SystemExit):
        rec["exc"] = "interrupt"
        raise
    except procs.Hang:
        rec["exc"] = "hang"
    except Exception as e:
        rec["exc"], rec["error"] = "error", e
    finally:
        rec["t1"], rec["stalled"] = sim.mono, sim.stalled - rec["stalled"]
        mine = [ch for ch in sim.children if ch.args[-1:] == [f"id{i}"]]
        rec["children"] = mine
        for ch in mine:
            ch.advance(sim.mono)
        rec["alive"] = [ch for ch in mine if ch.alive()]
        rec["excused"] = [ch for ch in rec["alive"] if ch.stuck_until > sim.mono and 9 in [int(s) for s in ch.signals]]
        sim.log("call", i, rec.get("exc"), rec.get("timed_out"), len(mine), len(rec["alive"]))


def run(sim, sc, prop):
    common.attach(sim, state=False)
    sim.children, sim.stalled = [], 0.0
    sim.int_at = sc["interrupt"] or None
    calls, records, ts = sc["actions"], {}, []

    def main():
        try:
            if sc["threads"] and len(calls) > 1:
                ts.extend(threading.Thread(target=call, args=(sim, i, c, records)) for i, c in list(enumerate(calls))[1:])
                for t in ts:
                    t.start()
                call(sim, 0, calls[0], records)
                for t in ts:
                    t.join()
            else:
                for i, c in enumerate(calls):
                    call(sim, i, c, records)
        finally:
            sim.int_at = None
            for t in ts:  # as the interpreter does before atexit
                if getattr(t, "_sim_task", None) is not None:
                    t.join()
            for fn, a, k in reversed(proc.meta["atexit"]):
                try:
                    fn(*a, **k)
                except Exception as e:
                    proc.meta.setdefault("atexit_errors", []).append(e)

    proc = sim.new_proc("p", main)
    proc.meta["atexit"] = []

    def commands(args):
        try:
            return calls[int(args[-1][2:])]
        except (ValueError, IndexError, TypeError, AttributeError):
            return None

    proc.meta["commands"] = commands
    sim.drain()
    if sim.stop:
        return [V("hang", f"the calls never end: {sim.stop}")]
    if isinstance(proc.exc, procs.Hang):
        return [V("hang", "the program never ends")]
    if proc.exc is not None and not isinstance(proc.exc, KeyboardInterrupt):
        raise kernel.HarnessError(f"session: {describe(proc.exc)} {getattr(proc.exc, 'sim_tb', '')}")
    for i, c in enumerate(calls):
        if i in records:
            v = judge(sim, sc, i, c, records[i], proc)
            if v:
                return v
    for ch in sim.children:
        ch.advance(sim.mono)
        if ch.alive() and not (ch.stuck_until > sim.mono and 9 in [int(s) for s in ch.signals]):
            return [V("left_running", f"a child runs on after the program has ended: {ch.args}")]
    return []


def judge(sim, sc, i, c, rec, proc):
    where = f"call {i} ({c['how']}, limit {c['limit']})"
    sim.nontrivial = True
    if rec.get("exc") == "hang":
        return [V("hang", f"{where} never returns")]
    if rec.get("exc") == "interrupt":
        sim.probes["interrupted"] += 1
        return []
    took = rec["t1"] - rec["t0"] - rec["stalled"]
    stalled = sim.stalled
    others = stalled if sc["threads"] else rec["stalled"]
    if rec.get("exc") == "error":
        e = rec["error"]
        if isinstance(e, OSError) and proc.meta.get("spawn_failed") and not rec["children"]:
            sim.probes["not_started"] += 1
            return []
        return [V("raised", f"{where} raised {describe(e)}")]
    if not rec["children"]:
        return [V("not_started", f"{where}: returned {str(rec['value'])[:100]} although no child was started")]
    ch = rec["children"][-1]
    if ch.args != rec["cmd"]:
        return [V("command", f"{where}: started {ch.args} instead of {rec['cmd']}")]
    if took > c["limit"] + GRACE + others:
        return [V("late", f"{where}: returned after {took:.2f} s")]
    alive = [x for x in rec["alive"] if x not in rec["excused"]]
    if rec["excused"]:
        sim.probes["unkillable"] += 1
    if alive:
        return [V("left_running", f"{where}: the child runs on after the call has returned")]
    T, status, out, err, _ = procs.ideal(c["script"], (c["input"] or "").encode())
    v = rec["value"]
    if T + others + EPS < c["limit"]:
        sim.probes["finished_in_time"] += 1
        if rec["timed_out"] and status not in (-9, -15):
            return [V("timeout_reported", f"{where}: reported as timed out, the child ended after {T:.3f} s with status {status}")]
        if v is None:
            return []
        if v[0] != status:
            return [V("status", f"{where}: status {v[0]}, the child ended with {status}")]
        for name, a, b in (("output", v[1], out), ("error output", v[2], err)):
            try:
                b = b.decode()
            except UnicodeDecodeError:
                sim.probes["undecodable"] += 1
                continue
            if a != b:
                return [V("output", f"{where}: {name} is {short(a)}, the child wrote {short(b)}")]
    elif T > c["limit"] + EPS:
        sim.probes["timed_out"] += 1
        if not rec["timed_out"]:
            return [V("timeout_hidden", f"{where}: status {v[0]} does not tell of the timeout; undisturbed the child needs {T:.3f} s")]
        if v is not None:
            for name, a, b in (("output", v[1], ch.written[1] + b"late\n"), ("error output", v[2], ch.written[2])):
                if not b.decode(errors="replace").startswith(a.rstrip("\ufffd")) and not late(a, ch):
                    return [V("output", f"{where}: {name} is {short(a)}, the child wrote {short(b)}")]
    return []


def late(a, ch):
    """Output of a helper may come in between."""
    return "late\n" in a


def short(t):
    t = t if isinstance(t, str) else t.decode(errors="replace")
    return repr(t if len(t) < 80 else t[:40] + f"...({len(t)})..." + t[-20:])
