"""Writes MANIFEST.json from sim/registry.py and properties.jsonl."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import registry  # noqa: E402

PY = "/opt/venv/bin/python"
NA = {
    "C21": "pure function of one program text: no scheduling, time, I/O or second party takes part, so there is no fault or "
           "interleaving to simulate (translation validation or property-based testing would be the technique)",
    "C22": "pure function of one program text (a static analysis); nothing for a simulator to schedule or to fail",
    "C23": "pure function of one condition, decided by an SMT solver; nothing for a simulator to schedule or to fail",
    "C24": "pure function of one program text; nothing for a simulator to schedule or to fail",
}
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        s = registry.PROPS[i]
        checks.append({
            "property": i, "quick_cmd": f"{PY} run.py {i} --tier quick", "thorough_cmd": f"{PY} run.py {i} --tier thorough",
            "technique": "deterministic simulation with fault injection, seeded schedule and fault search",
            "level": "exploration",
            "level_note": s.get("note") or "Seeded search over simulated executions of the real code; finds violations, does not "
            "prove their absence. Trusts the simulator's model of disk, network, clock and threads (DESIGN.md)."})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is still being built")})
m = {"version": 1, "setup_cmd": f"{PY} run.py --selftest",
     "hooks": {"guard": "none", "enable": "no hooks: the simulator replaces operating-system and library entry points from "
               "outside, /repo carries only fix: commits", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check imports edulint from /repo's working tree (EDULINT_REPO overrides the path), compiled from source "
              "on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
