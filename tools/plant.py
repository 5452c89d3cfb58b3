"""Creates /verif/seeded/<id>: applies edits in a scratch copy of /repo, builds and tests it there,
writes the demonstration with the output of the unchanged tree as expectation, and confirms both outcomes.

plant("c07-depth", "C07", [("src/NodesetLoader.c", old, new)], runs=[("-x", [doc, doc])], needs=, breaks=)
"""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"

DEMO = """#!/bin/bash
# builds the loader's sources with a stand-in for open62541 and compares what a user of the loader
# observes for the documents beside this file with what they say
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
gcc -g -w -DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=undefined \\
    -I"$D/stubs" -I"$R/include" -I"$R/src" -I/usr/include/libxml2 \\
    "$R"/src/*.c "$R"/src/nodes/*.c "$D/ua_shim.c" "$D/%(driver)s" %(extra)s -lxml2 -o "$T/probe" || exit 2
export ASAN_OPTIONS=detect_leaks=%(leaks)d
cd "$D" || exit 2
%(cmds)s
diff "$T/out" "$D/expected.txt"
"""
BACK = ' -I"$R/backends/open62541/include" -I"$R/backends/open62541/src" "$R"/backends/open62541/src/*.c'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def plant(id, prop, edits, runs=(), needs="", breaks="", leaks=True, driver=None, extra=""):
    out = os.path.join(V, "seeded", id)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    shutil.copytree("/repo", SCRATCH + "/repo", symlinks=True)
    R = SCRATCH + "/repo"
    sh("git -C %s checkout -q -- . " % R)
    d = out
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(V + "/stubs", d + "/stubs")
    shutil.copy(V + "/shim/ua_shim.c", d)
    if driver:
        open(d + "/driver.c", "w").write(driver)
    else:
        shutil.copy(V + "/shim/probe.c", d)
    cmds, n = [], 0
    for flags, docs in runs:
        names = []
        for t in docs:
            name = "doc%d.xml" % n
            n += 1
            with open(os.path.join(d, name), "w") as f:
                f.write(t)
            names.append(name)
        cmds.append('timeout 60 "$T/probe" %s %s >>"$T/out" 2>"$T/err" || { echo "status $?" >>"$T/out"; head -20 "$T/err"; }'
                    % (flags, " ".join(names)))
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO % dict(leaks=leaks, cmds="\n".join(cmds), driver="driver.c" if driver else "probe.c", extra=extra))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/expected.txt", "w").close()
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode == 2:
        print(id, "DOES NOT BUILD", r.stdout)
        return
    exp = "".join(l[2:] + "\n" for l in r.stdout.split("\n") if l.startswith("< "))
    if "status" in exp or not exp:
        print(id, "the unchanged tree fails:", r.stdout[-1500:])
        return
    with open(d + "/expected.txt", "w") as f:
        f.write(exp)
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode:
        print(id, "unstable", r.stdout[-800:])
        return
    for path, old, new in edits:
        t = open(os.path.join(R, path)).read()
        if t.count(old) != 1:
            print(id, "edit matches %d times in %s" % (t.count(old), path))
            return
        open(os.path.join(R, path), "w").write(t.replace(old, new))
    patch = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd=R)
    shown = [l for l in r.stdout.split("\n") if l.startswith(("<", ">")) or "ERROR" in l or "leak" in l]
    print(id, "demo with the change:", r.returncode, "|", " ".join(shown[:3])[:300])
    if r.returncode in (0, 2):
        print(id, "NOT A BUG?", r.stdout[-500:])
    shutil.rmtree(SCRATCH, ignore_errors=True)
