#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": c.get("technique", "property-based testing: generated sites against a reference model, shrinking"),
        "level": "exploration",
        "level_note": c.get("note", "Searches generated inputs for a counterexample; what it covered is in the evidence file. It does not establish absence."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
