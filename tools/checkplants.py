#!/usr/bin/env python3
"""every planted change: applies to HEAD, demo passes without and fails with it, changes lines of the original repository"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "17262a5"


def sh(*c, **k):
    return subprocess.run(c, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def one(n):
    d, w = os.path.join(V, "seeded", n), "/tmp/cp/" + n
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("_build"))
    a = sh("bash", d + "/demo.sh", cwd=w).returncode
    r = sh("git", "apply", d + "/patch.diff", cwd=w)
    own = []
    if r.returncode:
        return n, "DOES NOT APPLY"
    b = sh("bash", d + "/demo.sh", cwd=w).returncode
    diff = sh("git", "diff", "-U0", cwd=w).stdout
    f, orig = None, 0
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            x = l.split()[1][1:].split(",")
            s, c = int(x[0]), int(x[1]) if len(x) > 1 else 1
            if c:
                bl = sh("git", "blame", "-s", "-l", "-L", "%d,+%d" % (s, c), "%s..HEAD" % BASE, "--", f, cwd="/repo").stdout
                for y in bl.split("\n"):
                    if y:
                        orig += y.startswith("^")
                        if not y.startswith("^"):
                            own.append(y.split(")", 1)[-1].strip()[:50])
    shutil.rmtree(w, ignore_errors=True)
    return n, ("ok" if a == 0 and b not in (0,) else "BAD") + " %d->%d" % (a, b) + (" own lines: %d (original %d) %s" % (len(own), orig, own[:2]) if own else "")


names = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(4) as ex:
    for n, r in ex.map(one, names):
        if not r.startswith("ok") or "own" in r or sys.argv[1:]:
            print(n, r, flush=True)
