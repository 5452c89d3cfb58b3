#!/usr/bin/env python3
"""applies every planted change (or the named ones) to a copy of /repo and runs its property's check (or all) there"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "--all" in sys.argv
names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))


def one(n):
    d = os.path.join(V, "seeded", n)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/try/" + n
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo", w + "/repo", symlinks=True, ignore=shutil.ignore_patterns("_build", "integration"))
    r = subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return n, prop, "DOES NOT APPLY " + r.stdout
    res = []
    props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if ALL else [prop]
    for p in props:
        e = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_EVIDENCE=w, VERIF_BUILD=w + "/build")
        r = subprocess.run(["python3", "check.py", p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not ALL:
            v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "error" in l.lower()]
            res.append("%s exit %d %s" % (p, r.returncode, (v[0] if v else r.stdout[-200:])[:150] if not ALL else ""))
    shutil.rmtree(w, ignore_errors=True)
    return n, prop, "; ".join(res)


with ThreadPoolExecutor(3) as ex:
    for n, p, r in ex.map(one, names):
        print("%-28s %s -> %s" % (n, p, r), flush=True)
