#!/usr/bin/env python3
"""Write MANIFEST.json from dst/props.py, properties.jsonl and tools/na.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dst import props  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = {x["property"]: x["reason"] for x in json.load(open(os.path.join(HERE, "tools", "na.json")))}
checks = []
for i in ids:
  if i in props.TABLE:
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": "deterministic simulation with fault injection: " + props.TECH[i], "level": "exploration",
        "level_note": props.NOTE[i]})
missing = [i for i in ids if i not in props.TABLE and i not in na]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": na.get(i, "No check is built for this property yet.")} for i in ids if i not in props.TABLE],
     "notes": "No hooks in /repo: every seam is taken at language or system-call level from the harness. Only 'fix:' commits touch /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(checks), "pending", missing)
