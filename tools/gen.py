#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py-style tables (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                       technique=p.get("technique", props.TECH), level="other", level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes=props.NOTES),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
