#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
checks = []
for pid, tech, note in CLAIMS:
    checks.append({"property": pid, "quick_cmd": "./check %s --tier quick" % pid, "thorough_cmd": "./check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": p, "reason": w} for p, w in NOT_CLAIMED],
     "notes": NOTES}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
