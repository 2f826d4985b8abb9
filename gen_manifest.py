#!/usr/bin/env python3
"""Writes MANIFEST.json from the check table and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
from table import CHECKS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "its check is still being built; property-based testing applies to it (see DESIGN.md)"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 vlib/check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 vlib/check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
json.dump({"version": 1, "setup_cmd": "python3 vlib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles its harness from /verif/harness against /repo/include at the time it runs. No hooks are needed in /repo. Genuine defects repaired by fix: commits are listed in known_findings.txt."},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
