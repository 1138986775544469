#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties import PROPS
import properties
allp = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = getattr(properties, "NA", {})
m = {"version": 1,
     "setup_cmd": "bash /verif/setup.sh",
     "checks": [], "not_applicable": []}
H = getattr(properties, "HOOKS", None)
if H: m["hooks"] = H
for p in allp:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 /verif/vx/check.py {i}", "thorough_cmd": f"python3 /verif/vx/check.py {i} --tier thorough",
            "technique": q.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo; executable contracts for replay and bounded stand-ins"),
            "level": q["level"], "level_note": q.get("note") or (q["bounded_for"] + ". Assumes: " + "; ".join(q["assumptions"]))})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
