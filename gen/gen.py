#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py (development helper)."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA_REASON
root = os.path.dirname(here)
lines, checks, na = [], [], []
for p in PROPS:
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["q"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps(d, ensure_ascii=False))
    if p.get("technique"):
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(lines), "properties,", len(checks), "checks")
