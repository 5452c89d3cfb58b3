#!/usr/bin/env python3
"""rewrites the tables of DESIGN.md: the properties with their deciding analysis (from the checks), the planted
changes (from seeded) and the repaired defects (from known_findings.json)"""
import ast
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import PROPS, NA
MISSED = {}
for l in open(V + "/tools/missed.txt") if os.path.exists(V + "/tools/missed.txt") else ():
    n, _, w = l.strip().partition(" ")
    MISSED[n] = w


def props():
    out = ["| id | property | decided by | cost |", "|---|---|---|---|"]
    cost = json.load(open(V + "/tools/cost.json")) if os.path.exists(V + "/tools/cost.json") else {}
    for p in PROPS:
        doc = ast.get_docstring(ast.parse(open("%s/checks/%s.py" % (V, p["id"].lower())).read()))
        out.append("| %s | %s | %s | %s |" % (p["id"], p["title"], " ".join(doc.split("\n\n")[0].split()), cost.get(p["id"], "")))
    return out


def plants():
    out = ["| change | manifests with | caught by |", "|---|---|---|"]
    for n in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
        out.append("| %s | %s | %s |" % (n, m["needs"].replace("|", "/"), "missed: " + MISSED[n] if n in MISSED else m["property"]))
    return out


def na():
    return ["* **%s %s**: %s" % (n["id"], n["title"], n["reason"]) for n in NA]


def fixed():
    out = []
    for f in json.load(open(V + "/known_findings.json"))["fixed"]:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
        out.append("* %s (%s): %s" % (m.group(2), m.group(1), m.group(3)))
    return out


s = open(V + "/DESIGN.md").read()
for k, f in (("properties", props), ("plants", plants), ("na", na), ("fixed", fixed)):
    a, b = "<!-- %s -->" % k, "<!-- end %s -->" % k
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(f()) + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
