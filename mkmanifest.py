#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
INFO = json.load(open(V + "/levels.json"))
checks = []
for p in props:
    i = INFO.get(p["id"])
    if not i:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                   "technique": i["technique"], "level": i["level"], "level_note": i["note"], "evidence_file": f"evidence/{p['id']}.json"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": INFO.get("_na", {}).get(p["id"], "not built yet")} for p in props if p["id"] not in INFO],
     "notes": "Contract-based deductive verification of the real code; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
