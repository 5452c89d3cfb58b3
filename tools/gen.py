#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS, NA

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS + [n for n in NA], key=lambda p: p["id"]):
        d = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["id"]
        d["quantifier"] = {"over": p["over"], "text": p["all"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("observe"):
            d["anchors"]["observe_at"] = [p["observe"]]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        continue
    c = "python3 check.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c + " --tier thorough",
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA] +
                       [{"property": p["id"], "reason": "no check yet"} for p in PROPS
                        if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))],
     "notes": "Static analysis of the LLVM intermediate representation of /repo's sources; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(NA), "not applicable")
