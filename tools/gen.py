#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p.get("state"):
            anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p.get("observe"):
            anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
        "thorough_cmd": "./run.sh %s thorough" % p["id"], "technique": p["technique"],
        "level": "other", "level_note": p["note"]})
for p in NOT_APPLICABLE:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
