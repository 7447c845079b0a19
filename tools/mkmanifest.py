#!/usr/bin/env python3
"""writes MANIFEST.json from the plans that exist"""
import json, os, sys
sys.path.insert(0, "/verif/lib")
import plans
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = {}
PENDING = "check under construction"
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 /verif/check.py %s" % i,
            "thorough_cmd": "python3 /verif/check.py %s --thorough" % i,
            "evidence_file": "/verif/evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; calls generated by TLC from the specification, executed by the real code, every observation validated as a step of the specification by TLC",
            "level": "model_checking",
            "level_note": plans.NOTES.get(i, "bounded, generated operands; see DESIGN.md")})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
