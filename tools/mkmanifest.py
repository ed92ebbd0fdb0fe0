#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the notes below; properties without a plan go to not_applicable."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "harness"))
sys.dont_write_bytecode = True
import plans
NOTES = getattr(plans, "NOTES", {})
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        t, n = NOTES.get(i, ("TLA+ specification model checked with TLC; traces of the real code judged by TLC",
                             "Exhaustive within the stated bounds for the specification; the code is bound by the recorded traces only."))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. No hooks in /repo: everything is observed at the public API, the (simulated) serial port and the patched threading/time primitives."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
