#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from config.py and properties.jsonl (run: python3 tools/gen_manifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
NA = "a pure function of its arguments: no schedule, clock, I/O, fault, sharing or history for a simulator to control, so deterministic simulation cannot add to plain testing"
TODO = "simulator world for this property is not finished yet"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i} --tier quick",
            "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA if i.startswith("N") else TODO})
m = {"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(config.TARGETS), "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam the simulator needs is an existing interface or an external header that /verif/shim provides. "
              "Every check rebuilds the simulator from /repo's working tree. Replay a violation: python3 tools/check.py replay FILE."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
