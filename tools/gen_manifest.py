#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(V, "tools", "claims.json")))
checks = []
for pid in sorted(CLAIMED["checks"]):
    c = CLAIMED["checks"][pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "technique": c["technique"],
        "level": "other",
        "level_note": c["note"],
    })
na = [{"property": k, "reason": v} for k, v in sorted(CLAIMED["not_applicable"].items())]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": CLAIMED.get("notes", "")}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
