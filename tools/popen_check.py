"""Sanity check of the model of subprocess.Popen: the same scripts through ProcessHandler with real children and simulated
ones must give the same outcome.  Not a registered check (it depends on real time); run by hand: popen_check.py [N]."""

import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

CHILD = r'''
import sys, os, time, signal, json
ops = json.loads(sys.argv[1])
data = b""
def term(o):
    def h(*a):
        time.sleep(o["after"]); os._exit(o["code"])
    return h
for o in ops:
    time.sleep(o.get("dt", 0))
    k = o["op"]
    if k in ("out", "err"):
        b = bytes.fromhex(o["hex"]) if "hex" in o else o["text"].encode() * o.get("times", 1)
        fd = 1 if k == "out" else 2
        try:
            while b: b = b[os.write(fd, b):]
        except OSError: pass
    elif k in ("read", "echo"):
        b = sys.stdin.buffer.read()
        if k == "echo":
            try:
                while b: b = b[os.write(1, b):]
            except OSError: pass
    elif k == "exit": os._exit(o["code"])
    elif k == "die":
        signal.signal(o["sig"], signal.SIG_DFL) if o["sig"] != 9 else None
        os.kill(os.getpid(), o["sig"]); time.sleep(5)
    elif k == "ignore_term": signal.signal(signal.SIGTERM, signal.SIG_IGN)
    elif k == "on_term": signal.signal(signal.SIGTERM, term(o))
    elif k == "close":
        try: os.close(1); os.close(2)
        except OSError: pass
    elif k == "hang":
        time.sleep(1000)
    elif k == "fork":
        if os.fork() == 0:
            time.sleep(o["hold"])
            try: os.write(1, o.get("text", "").encode())
            except OSError: pass
            os._exit(0)
os._exit(0)
'''


def main(n):
    from sim import boot

    boot.boot()
    from sim import kernel
    from sim.worlds import proc, common
    from edulint.linting.process_handler import ProcessHandler
    import edulint.linting.process_handler as m

    os.nice = lambda n: 0
    rng = random.Random(7)
    bad = judged = 0
    for k in range(n):
        limit = 1.0
        script = [o for o in proc.script(rng, limit, "c0", True) if o["op"] != "stuck"]
        inp = rng.choice([None, "", "vstup\n", "x" * 200000])
        sc = {"cfg": {}, "threads": False, "interrupt": 0,
              "actions": [{"how": "run", "limit": limit, "input": inp, "script": script, "default_limit": False}]}
        t0 = time.monotonic()
        real = ProcessHandler.run([sys.executable, "-S", "-c", CHILD, json.dumps(script)], input_str=inp, timeout=limit)
        took = time.monotonic() - t0
        sim = kernel.Sim(1, sc["cfg"])
        kernel.ACTIVE = sim
        got = {}
        orig = ProcessHandler.run
        m.ProcessHandler.run = staticmethod(lambda *a, **kw: got.setdefault("v", orig(*a, **kw)))
        v = proc.run(sim, sc, "C18")
        m.ProcessHandler.run = staticmethod(orig)
        kernel.ACTIVE = None
        t = sim.mono
        T = proc.procs.ideal(script, (inp or "").encode())[0]
        judged += 1
        if abs(T - limit) < 0.15:
            continue
        if v or real[0] != got["v"][0] or real[1:] != got["v"][1:] and T < limit or abs(t - took) > 0.4:
            bad += 1
            print("DIFFERS", v, T, script, repr(inp)[:20], real[0], got["v"][0], round(took, 2), round(t, 2),
                  [x[:60] for x in real[1:]], [x[:60] for x in got["v"][1:]])
    print(f"{judged} scripts, {bad} differ")


main(int(sys.argv[1]) if len(sys.argv) > 1 else 40)
