#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of finished checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
import importlib.util, sys
sys.path.insert(0, os.path.join(here, "lib"))
try:
    from registry import CHECKS, NA
except ImportError:
    CHECKS, NA = {}, {}
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
if CHECKS:
    man["setup_cmd"] = "python3 bin/check.py setup"
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        man["checks"].append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s quick" % i,
            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"], "level": c.get("level", "model_checking"),
            "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet (work in progress)")})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks;", len(man["not_applicable"]), "not claimed")
