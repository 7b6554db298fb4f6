#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE

root = os.path.dirname(here)
TECH = "static analysis: "
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
na = dict(NOT_APPLICABLE)
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick ./check.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
            "technique": TECH + p["technique"],
            "level": p.get("level", "other"),
            "level_note": p["level_note"],
        }
        for p in PROPS if p["id"] not in na
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(man["checks"]), "checks,", len(na), "not applicable")
