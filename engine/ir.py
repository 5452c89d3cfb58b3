"""Front end: compiles every translation unit of /repo to LLVM IR (no
optimisation except mem2reg), links them, and loads the JSON dump produced by
tools/irdump.  Nothing of /repo is executed."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
IRDUMP = os.path.join(BUILD, "irdump")


class FrontendError(Exception):
    pass


CFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names",
          "-g", "-std=c99", "-D_GNU_SOURCE", "-DNDEBUG",
          "-DUSE_CLEANUP_CUSTOM_DATATYPES=1", "-w",
          "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion",
          "-Wno-error=incompatible-function-pointer-types"]


def sources():
    out = []
    for pat in ("src/*.c", "src/nodes/*.c", "backends/open62541/src/*.c"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return out


def headers():
    out = []
    for d in ("src", "include", "backends/open62541/src", "backends/open62541/include"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if f.endswith(".h")]
    return sorted(out)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def ensure_irdump():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = IRDUMP + ".%d.tmp" % os.getpid()
    r = run(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include",
             src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode:
        raise FrontendError("cannot build irdump: " + r.stderr.decode()[-2000:])
    os.replace(tmp, IRDUMP)


def load_module():
    """Compile /repo's current sources and return the parsed JSON module.
    Keyed by a content hash of the inputs so that the checks of one tree state
    share the front-end work; any change in the tree recompiles."""
    ensure_irdump()
    h = hashlib.sha256()
    stubs = []
    for root, _, files in os.walk(os.path.join(VERIF, "stubs")):
        stubs += [os.path.join(root, f) for f in files]
    for f in sources() + headers() + sorted(stubs) + [os.path.join(VERIF, "tools", "irdump.cpp")]:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(" ".join(CFLAGS).encode())
    cache = os.path.join(BUILD, "ir-%s.json" % h.hexdigest()[:24])
    if os.path.exists(cache):
        try:
            with open(cache) as fh:
                return json.load(fh)
        except ValueError:
            pass
    os.makedirs(BUILD, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=BUILD) as td:
        bcs = []
        procs = []
        for f in sources():
            o = os.path.join(td, f[len(REPO):].strip("/").replace("/", "_") + ".bc")
            cmd = ["clang", "-c", "-emit-llvm"] + CFLAGS + [
                "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src"),
                "-I", os.path.join(REPO, "backends/open62541/include"),
                "-I", os.path.join(REPO, "backends/open62541/src"),
                "-I", os.path.join(VERIF, "stubs"), "-I", "/usr/include/libxml2", f, "-o", o]
            procs.append((f, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        for f, o, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise FrontendError("cannot compile %s:\n%s" % (f, err.decode()[-3000:]))
            bcs.append(o)
        allbc = os.path.join(td, "all.bc")
        r = run(["llvm-link"] + bcs + ["-o", allbc])
        if r.returncode:
            raise FrontendError("llvm-link: " + r.stderr.decode()[-3000:])
        mbc = os.path.join(td, "m.bc")
        r = run(["opt", "-passes=mem2reg", allbc, "-o", mbc])
        if r.returncode:
            raise FrontendError("opt: " + r.stderr.decode()[-3000:])
        r = run([IRDUMP, mbc])
        if r.returncode:
            raise FrontendError("irdump: " + r.stderr.decode()[-3000:])
        mod = json.loads(r.stdout)
        tmp = cache + ".%d.tmp" % os.getpid()
        with open(tmp, "wb") as fh:
            fh.write(r.stdout)
        # keep the cache directory small
        old = sorted(glob.glob(os.path.join(BUILD, "ir-*.json")), key=os.path.getmtime)
        for p in old[:-4]:
            try:
                os.unlink(p)
            except OSError:
                pass
        os.replace(tmp, cache)
    return mod


class Fn:
    """One function with CFG helpers."""

    def __init__(self, name, d):
        self.name = name
        self.src = d.get("src") or name
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.internal = d["internal"]
        self.params = d["params"]
        self.ptypes = d.get("ptypes", {})
        self.ditypes = d.get("ditypes", [])
        self.ret = d["ret"]
        self.blocks = d["blocks"]
        self.decl = d["decl"]
        if self.decl:
            return
        n = len(self.blocks)
        self.succ = []
        for b in self.blocks:
            t = b[-1]
            s = []
            if t["op"] == "br":
                s = [t["t"]] + ([t["f"]] if "f" in t else [])
            elif t["op"] == "switch":
                s = [t["d"]] + [c[1] for c in t["cases"]]
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            self.succ.append(seen)
        order = []
        seen = set()
        self.backedges = set()
        onstack = set()

        def dfs(b0):
            stack = [(b0, iter(self.succ[b0]))]
            seen.add(b0)
            onstack.add(b0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s in onstack:
                        self.backedges.add((b, s))
                    if s not in seen:
                        seen.add(s)
                        onstack.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    stack.pop()
                    onstack.discard(b)
                    order.append(b)
        dfs(0)
        self.rpo = order[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: set() for b in range(n)}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].add(b)
        self.pred = pred
        self.loops = {}
        for (u, h) in self.backedges:
            body = self.loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += [p for p in pred[x]]
        self._liveness()
        self.defs = {}
        for bi, b in enumerate(self.blocks):
            for i in b:
                self.defs[i["id"]] = (bi, i)

    @staticmethod
    def operands(i):
        out = []

        def v(x):
            if not x:
                return
            if x[0] == "v":
                out.append(x[1])
            elif x[0] == "agg":
                for e in x[1]:
                    v(e)
        op = i["op"]
        if op == "phi":
            return []
        for k in ("p", "v", "b", "a", "c", "fp", "n"):
            if k in i and isinstance(i[k], list):
                v(i[k])
        if op == "gep":
            for e, _ in i.get("vars", []):
                v(e)
        if op == "call":
            for a in i["args"]:
                v(a["v"])
        if op.startswith("other:"):
            for e in i["ops"]:
                v(e)
        return out

    def _liveness(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = {}
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i["op"] == "phi":
                    for val, pb in i["in"]:
                        if val[0] == "v":
                            phiuse.setdefault((pb, bi), set()).add(val[1])
                    deff[bi].add(i["id"])
                    continue
                for o in self.operands(i):
                    if o not in deff[bi]:
                        use[bi].add(o)
                deff[bi].add(i["id"])
        livein = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= livein[s]
                    out |= phiuse.get((b, s), set())
                li = use[b] | (out - deff[b])
                if li != livein[b]:
                    livein[b] = li
                    changed = True
        # phi results are live-in by definition of their own block for our use
        self.livein = livein
        self.phidefs = [set(i["id"] for i in b if i["op"] == "phi") for b in self.blocks]
        # live after call: computed lazily
        self._lac = {}
        self._phiuse = phiuse

    def live_after(self, bi, idx):
        k = (bi, idx)
        if k not in self._lac:
            out = set()
            for s in self.succ[bi]:
                out |= self.livein[s] | self._phiuse.get((bi, s), set())
            b = self.blocks[bi]
            live = set(out)
            for j in range(len(b) - 1, idx, -1):
                live.discard(b[j]["id"])
                live |= set(self.operands(b[j]))
            self._lac[k] = live
        return self._lac[k]


def vals(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "v" and isinstance(x[1], int):
            yield x[1]
        else:
            for y in x:
                yield from vals(y)
    elif isinstance(x, dict):
        for k, y in x.items():
            if k != "loc":
                yield from vals(y)


class Module:
    def __init__(self, d):
        self.globals = d["globals"]
        self.structs = d["structs"]
        self.enums = d["enums"]
        self.fns = {}
        self.bysrc = {}
        for n, f in d["functions"].items():
            fn = Fn(n, f)
            self.fns[n] = fn
            if not fn.decl:
                self.bysrc.setdefault(fn.src, []).append(fn)
        self._layout = {}
        self._paths = {}
        self.freeze()

    def freeze(self):
        """variables of one file which are only ever read are constants"""
        cand = {n for n, g in self.globals.items() if g.get("internal") and not g.get("const") and "init" in g}
        if not cand:
            return

        def names(x):
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == "g" and isinstance(x[1], str):
                    yield x[1]
                else:
                    for y in x:
                        yield from names(y)
            elif isinstance(x, dict):
                for k, y in x.items():
                    if k != "loc":
                        yield from names(y)
        for n, g in self.globals.items():
            for _, _, v in g.get("init") or ():
                cand -= set(names(v))
        for f in self.fns.values():
            if f.decl or not cand:
                continue
            derived = {}
            for b in f.blocks:
                for i in b:
                    if i["op"] == "gep" and i["b"][0] == "g" and i["b"][1] in cand:
                        derived[i["id"]] = i["b"][1]
            for b in f.blocks:
                for i in b:
                    for k, y in i.items():
                        if k in ("loc", "id"):
                            continue
                        direct = set(names(y)) & cand
                        if direct and not (i["op"] == "load" and k == "p" or i["op"] == "gep" and k == "b"):
                            cand -= direct
                        if derived and not (i["op"] == "load" and k == "p"):
                            cand -= {derived[v] for v in vals(y) if v in derived}
        for n in cand:
            self.globals[n]["const"] = True

    def fn(self, src, file=None):
        """Function definition by source name (optionally by file suffix)."""
        c = [f for f in self.bysrc.get(src, []) if file is None or f.file.endswith(file)]
        return c[0] if c else None

    def layout(self, tname):
        """(offset, size) -> (path, typename, kind); leaf members win."""
        if tname in self._layout:
            return self._layout[tname]
        out = {}
        paths = {}

        def rec(members, base, path, depth):
            for m in members:
                off = base + m["off"]
                p = path + ("." if path else "") + m["name"]
                k = (off, m["size"])
                paths.setdefault(p, k)
                if k not in out or (out[k][2] in ("struct", "union") and m["kind"] not in ("struct", "union")):
                    out[k] = (p, m["type"], m["kind"])
                if depth < 6:
                    if "members" in m:
                        rec(m["members"], off, p, depth + 1)
                    elif m["kind"] in ("struct", "union") and m["type"] in self.structs:
                        rec(self.structs[m["type"]]["members"], off, p, depth + 1)
        s = self.structs.get(tname)
        if s:
            rec(s["members"], 0, "", 0)
        self._layout[tname] = out
        self._paths[tname] = paths
        return out

    def off(self, tname, field):
        self.layout(tname)
        k = self._paths.get(tname, {}).get(field)
        if k is None:
            raise FrontendError("no field %s.%s in the current sources" % (tname, field))
        return k[0]

    def fsize(self, tname, field):
        self.layout(tname)
        k = self._paths.get(tname, {}).get(field)
        if k is None:
            raise FrontendError("no field %s.%s in the current sources" % (tname, field))
        return k[1]

    def sizeof(self, tname):
        if tname not in self.structs:
            raise FrontendError("no struct %s in the current sources" % tname)
        return self.structs[tname]["size"]


_mod = None


def module():
    global _mod
    if _mod is None:
        _mod = Module(load_module())
    return _mod
