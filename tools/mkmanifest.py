#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKS: property -> (technique, level_note)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
COMMON = " Search, not proof: cases come from a seeded structured generator (random type schema, then instances), with shrinking."
CHECKS = {}
def c(id, technique, note):
    CHECKS[id] = {"property": id, "quick_cmd": "./check " + id, "thorough_cmd": "VERIF_TIER=thorough ./check " + id,
        "technique": PBT + technique, "level": "exploration", "level_note": note + COMMON}
exec(open(os.path.join(ROOT, "tools", "checks.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = []
for p in props:
    if p not in CHECKS:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./check build", "checks": [CHECKS[p] for p in props if p in CHECKS], "not_applicable": na,
     "notes": "No hooks in /repo: every check uses the public API, the binaries and the generated code. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(na), "not claimed")
