#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (single source of truth)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(f"{ROOT}/properties.jsonl", "w") as h:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        h.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["space"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(f"{ROOT}/checks/{p['id']}.py") and not p.get("na"):
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}",
            thorough_cmd=f"./check {p['id']} --tier thorough", technique=p["technique"],
            level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p.get("na") or "check not built yet"))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
    notes="All checks drive the real code imported from /repo/src; no hook is needed in /repo. See DESIGN.md.")
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
