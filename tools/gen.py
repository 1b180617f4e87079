#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["level_note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
