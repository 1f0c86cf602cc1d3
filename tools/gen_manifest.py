#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of implemented checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = json.load(open(os.path.join(here, "tools", "checks.json")))
m = {"version": 1,
     "setup_cmd": "python3 -c \"import shutil,sys; sys.exit(0 if all(map(shutil.which,['clang++','make','python3'])) else 1)\"",
     "checks": [], "not_applicable": []}
for p in props:
    c = T.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "./check.py %s quick" % p["id"], "thorough_cmd": "./check.py %s thorough" % p["id"],
        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
