#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(HERE, "tools_manifest_table.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
           "technique": TECH[p], "level": "exploration", "level_note": NOTE[p]} for p in props if p in TECH]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check still being built"} for p in props if p not in TECH],
     "notes": "No hooks: every check drives the exported API or the built programs. KNOWN_FINDINGS.txt lists findings and fixes; seeded/ holds planted bugs."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
