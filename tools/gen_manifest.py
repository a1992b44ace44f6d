#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the list of checks below."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HERE, "tools", "manifest_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in CHECKS:
        tech, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier=thorough",
                       "technique": tech, "level": "other", "level_note": note})
na = [{"property": i, "reason": NA[i]} for i in ids if i in NA and i not in CHECKS]
na += [{"property": i, "reason": "no check built yet"} for i in ids if i not in NA and i not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 -c \"import ast\" && python3 tools/gen_properties.py >/dev/null", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo's current source (python ast), never import or run it. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
