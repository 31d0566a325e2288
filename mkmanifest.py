#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
from plan import PLAN, CONFIGS, TECHNIQUE, PENDING

here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PLAN:
        t, note = TECHNIQUE[i]
        confs = []
        for p in PLAN[i]["parts"]:
            if p["config"] not in confs:
                confs.append(p["config"])
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t,
            "level": "exploration",
            "level_note": note + " Builds searched: " + "; ".join(CONFIGS[c]["what"] for c in confs) + ".",
        })
    else:
        na.append({"property": i, "reason": PENDING[i]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive the public API only. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
