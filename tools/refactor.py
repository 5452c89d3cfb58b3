#!/usr/bin/env python3
"""Runs the checks on copies of the repository with edits that keep the behaviour (tools/refactor/*.py): every check has to
stay quiet.   refactor.py [set|set:C01,C02 ...]"""
import importlib.util, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETS = {}
for f in sorted(os.listdir(V + "/tools/refactor")):
    if f.endswith(".py"):
        s = importlib.util.spec_from_file_location(f[:-3], V + "/tools/refactor/" + f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        SETS.update(m.SETS)


def prepare(name):
    w = "/tmp/refactor/" + name
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("_build", ".git"))
    for p, old, new in SETS[name]:
        t = open(w + "/" + p).read()
        if t.count(old) != 1:
            sys.exit("%s: %s: %d matches of\n%s" % (name, p, t.count(old), old))
        open(w + "/" + p, "w").write(t.replace(old, new))
    return w


def one(job):
    name, w, c = job
    r = subprocess.run(["timeout", "900", "python3", V + "/check.py", c], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE="/tmp/refactor/ev-" + name))
    return name, c, r.returncode, r.stdout


ALL = sorted("C" + f[1:-3] for f in os.listdir(V + "/checks") if f.startswith("c") and f.endswith(".py"))
jobs = []
for a in sys.argv[1:] or sorted(SETS):
    n, _, c = a.partition(":")
    w = prepare(n)
    os.makedirs("/tmp/refactor/ev-" + n, exist_ok=True)
    jobs += [(n, w, x) for x in (c.split(",") if c else ALL)]
bad = 0
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for n, c, rc, out in ex.map(one, jobs):
        und = [l for l in out.split("\n") if l.startswith("OK ")]
        if rc or " 0 undecided" not in out:
            print(n, c, "exit", rc, (und or out.strip().split("\n")[-1:])[0][:150], flush=True)
            if rc:
                bad += 1
                print("\n".join(out.split("\n")[:6])[:1500], flush=True)
print("done", bad, "alarms")
