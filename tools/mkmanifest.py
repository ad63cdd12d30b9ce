#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in registry.CHECKS:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": registry.TECHNIQUE.get(p, registry.DEFAULT_TECHNIQUE),
        "level": registry.CHECKS[p][1],
        "level_note": registry.NOTES.get(p, registry.DEFAULT_NOTE),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": registry.NOT_APPLICABLE.get(
         p, "check not built yet")} for p in props if p not in registry.CHECKS]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
