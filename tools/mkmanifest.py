#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per check module, the rest not_applicable."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, os.path.join(V, "checks"))
from manifest_notes import CHECKS, NA, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[], notes=NOTES)
for i in ids:
    if i in CHECKS and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        tech, level, note = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i,
                                thorough_cmd="python3 tools/check.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i,
                                technique=tech, level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
