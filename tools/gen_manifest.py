#!/usr/bin/env python3
import json, os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
hooks = []
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLANS:
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py %s quick" % i,
                       "thorough_cmd": "python3 /verif/check.py %s thorough" % i,
                       "evidence_file": "/verif/evidence/%s.json" % i,
                       "technique": plan.TECHNIQUE.get(i, plan.TECH_DEFAULT), "level": "model_checking",
                       "level_note": plan.NOTE.get(i, plan.NOTE_DEFAULT)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Checks exit 0 (held), 1 (VIOLATION), 3 (tool error: no verdict)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks", len(na), "not applicable")
