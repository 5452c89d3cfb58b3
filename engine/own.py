"""Ownership client: release exactly once, no use after release, no loss of the
last handle.  The ownership table says which members own what they point to;
releasing an object obliges the program to have released, or to release or
hand on, every owned member."""
from .lin import Lin, ZERO, ONE, const, S
from .core import Client, Chunk, Infeasible


class Field:
    def __init__(self, path, kind, off, count=None, elem=None, cond=None):
        self.path = path
        self.kind = kind      # ptr | nid | array
        self.off = off
        self.count = count    # offset of the element count (array)
        self.elem = elem      # element struct, or None for pointer elements
        self.cond = cond      # (offset,size,value): owns only if field == value


def table(mod, spec, missing=None):
    """spec: {struct: [("ptr", path) | ("nid", path) | ("array", path, countpath, elem, cond)]}
    Members which the sources do not have (any more) are left out."""
    from .ir import FrontendError
    out = {}
    for t, fs in spec.items():
        l = []
        for f in fs:
            try:
                add(mod, t, f, l)
            except FrontendError as e:
                if missing is not None:
                    missing.append(str(e))
        out[t] = l
    return out


def add(mod, t, f, l):
    if True:
        if True:
            if f[1].endswith("]"):
                n, k = f[1][:-1].split("[")
                off = mod.off(t, n) + 8 * int(k)
            else:
                off = mod.off(t, f[1])
            if f[0] in ("ptr", "flat"):
                cond = None
                if len(f) > 2 and f[2]:
                    cond = (mod.off(t, f[2][0]), mod.fsize(t, f[2][0]), f[2][1])
                l.append(Field(f[1], f[0], off, cond=cond))
            elif f[0] == "nid":
                l.append(Field(f[1], "nid", off))
            else:
                cond = None
                if len(f) > 4 and f[4]:
                    cond = (mod.off(t, f[4][0]), mod.fsize(t, f[4][0]), f[4][1])
                l.append(Field(f[1], "array", off, mod.off(t, f[2]), f[3], cond))


class Own(Client):
    """collects problems through self.report(rule, st, inst, msg)"""
    check_leaks = True
    check_exit = True

    def __init__(self, mod, spec, report, free_owned=True):
        self.m = mod
        self.missing = []
        self.spec = spec
        self.table = table(mod, spec, self.missing)
        self.report = report
        self.free_owned = free_owned
        self.releases = 0
        self.obligations = 0
        self.releasers = {}
        self.assume = set()

    ptypes = {}       # (struct, member) -> struct behind a void pointer
    downcast = {}     # base struct -> (offset, size, {value: struct})

    def type_of(self, eng, st, base):
        return self.retype(eng, st, base, eng.syms[base].ptype, 1 << 30)

    def retype(self, eng, st, base, t, off):
        d = self.downcast.get(t)
        if d is None or (isinstance(off, int) and off < self.m.sizeof(t)):
            return t
        o = st.mem.get(base)
        if o is None or d[0] not in o.cells:
            return t
        c = eng.norm(st, o.cells[d[0]][1])
        if isinstance(c, Lin) and not c.t:
            return d[2].get(c.c, t)
        return t

    def owned_fields(self, eng, st, base):
        return self.table.get(self.type_of(eng, st, base), ())

    def field_value(self, eng, st, base, f):
        off = f.off + (16 if f.kind == "nid" else 0)
        v = eng.read_cells(st, base, off, 8, "p")
        v = eng.norm(st, v)
        if isinstance(v, Lin) and v.single() is not None:
            y = eng.syms[v.single()]
            if y.kind == "load":
                y.ptr = True
                if f.kind == "nid":
                    y.nullable = True
        return v

    deep = {}         # releaser -> (argument, accepts NULL): verified on its own

    def on_call(self, eng, st, inst, name, args):
        if name not in self.deep:
            return None
        k, null_ok = self.deep[name]
        p = eng.norm(st, args[k])
        out = []
        if null_ok:
            s2 = st.copy()
            try:
                eng.assume_eq0(s2, p)
                out.append((s2, None))
            except Infeasible:
                pass
            try:
                eng.assume_ne0(st, p)
            except Infeasible:
                return out
        elif eng.known_0(st, p):
            self.on_null(eng, st, p, "call of " + name, inst, None)
            return []
        eng.do_free(st, eng.norm(st, p), inst, "deep")
        return out + [(st, None)]

    def on_free(self, eng, st, base, inst, what):
        self.releases += 1
        if what in ("realloc", "deep", "recursion"):
            return
        if self.check_array(eng, st, base, inst) or self.is_flat(eng, st, base):
            return
        t = self.type_of(eng, st, base)
        for f in self.owned_fields(eng, st, base):
            if f.kind == "array":
                continue
            if f.cond:
                c = eng.norm(st, eng.read_cells(st, base, f.cond[0], f.cond[1], "i"))
                if eng.known_ne0(st, c - const(f.cond[2])):
                    continue
            v = self.field_value(eng, st, base, f)
            if not isinstance(v, Lin) or not v.t:
                continue
            s = v.single()
            if s is None:
                continue
            y = eng.syms[s]
            if y.kind in ("global", "fn", "alloca", "uninit"):
                continue
            self.obligations += 1
            if s in st.freed:
                continue
            st.owed[s] = "%s.%s of the %s released at %s" % (t, f.path, t, eng.where(inst))

    def is_flat(self, eng, st, base):
        """an array of copies which own nothing"""
        y = eng.syms[base]
        return y.kind == "load" and y.key[0] not in st.freed and any(
            f.kind == "flat" and f.off == y.key[1] for f in self.owned_fields(eng, st, y.key[0]))

    def check_array(self, eng, st, base, inst):
        """base may be an array owned by a container"""
        y = eng.syms[base]
        if y.kind != "load":
            return False
        ob, off, sz, ver = y.key
        if ob in st.freed:
            return False
        found = False
        t = self.type_of(eng, st, ob)
        for f in self.table.get(t, ()):
            if f.kind != "array" or f.off != off:
                continue
            found = True
            if f.cond:
                c = eng.norm(st, eng.read_cells(st, ob, f.cond[0], f.cond[1], "i"))
                if eng.known_ne0(st, c - const(f.cond[2])):
                    if eng.obj(st, base).cov:
                        self.report("over-release", st, inst,
                                    "elements of %s.%s are released although the %s does not own them" % (t, f.path, t))
                    continue
            n = eng.norm(st, eng.read_cells(st, ob, f.count, 8, "i"))
            if f.elem is None:
                subs = [(0, 8, "element")]
                stride = 8
            else:
                stride = self.m.sizeof(f.elem)
                subs = [(g.off + (16 if g.kind == "nid" else 0), stride, g.path) for g in self.table.get(f.elem, ())]
            o = eng.obj(st, base)
            for so, stride, path in subs:
                self.obligations += 1
                if eng.entails_ge(st, n.scale(-1)):
                    continue
                ok = False
                for cf, lo, hi, mode in o.cov:
                    if cf == so and eng.entails_ge(st, const(so) - lo) and \
                            eng.entails_ge(st, hi - so - n.scale(stride)):
                        ok = True
                if not ok and any(eng.syms[x].kind in ("phi", "join") for cf, lo, hi, mode in o.cov if cf == so
                                  for l in (lo, hi, n) for x, _ in l.t):
                    # some elements are released, how many got lost when the iterations were summed up
                    self.unsure(st, inst, "%s.%s" % (t, f.path))
                elif not ok:
                    self.report("leak", st, inst, "%s.%s is released without releasing every %s it holds"
                                % (t, f.path, path if f.elem else "element"))
        return found

    def unsure(self, st, inst, what):
        pass

    def on_double_free(self, eng, st, base, inst, what):
        self.report("double-release", st, inst, "%s is released twice (first release: %s)" % (
            self.name(eng, st, base), st.freed.get(base)))

    def on_bad_free(self, eng, st, base, off, inst, what):
        self.report("bad-release", st, inst, "%s passed to %s is not a heap block of its own" % (self.name(eng, st, base), what))

    def on_uaf(self, eng, st, base, what, inst):
        self.report("use-after-release", st, inst, "%s is accessed after its release at %s" % (
            self.name(eng, st, base), st.freed.get(base)))

    def on_leak(self, eng, st, s, kind, label, inst):
        if not self.check_leaks:
            return
        if kind == "alloc":
            self.report("leak", st, inst, "the object allocated at %s is lost" % label)
        else:
            self.report("leak", st, inst, "%s is lost: it is neither released nor handed on" % label)

    def on_load(self, eng, st, base, off, size, v, inst):
        if self.ptypes and isinstance(v, Lin) and v.single() is not None:
            fi = eng.field_info(st, base, off)
            if fi and len(fi) == 2:
                e = self.m.layout(fi[0]).get((fi[1], size))
                t = self.ptypes.get((fi[0], e[0])) if e else None
                if t:
                    eng.syms[v.single()].ptype = t
                    eng.syms[v.single()].ptr = True
        return None

    def on_recursion(self, eng, st, inst, name, args):
        """Induction: the recursive call releases its argument, provided that
        the function does so under this assumption (checked separately)."""
        k = self.releaser(eng, name)
        if k is None:
            return None
        eng.do_free(st, args[k], inst, "recursion")
        return [(st, None)]

    def releaser(self, eng, name):
        if name in self.assume:
            return 0
        if name not in self.releasers:
            self.releasers[name] = None
            fn = self.m.fn(name)
            if fn and fn.params and fn.params[0]["ty"] == "p":
                c = Own(self.m, self.spec, lambda *a: None)
                c.assume = {name}
                c.downcast, c.ptypes, c.deep = self.downcast, self.ptypes, self.deep
                e = type(eng)(self.m, c)
                t = fn.ptypes.get(str(fn.params[0]["id"]), "")
                args = e.default_args(fn)
                s = args[0].single()
                e.syms[s].nonnull = False
                e.syms[s].nullable = True
                rets = e.run(fn, args)
                if rets and all(s in st.freed or e.known_0(st, args[0]) for st, _ in rets):
                    self.releasers[name] = 0
        return self.releasers[name]

    def name(self, eng, st, base):
        return show(eng.desc(st, S(base)))

    def at_exit(self, eng, rets, fn, keep_params=True):
        for st, rv in rets:
            roots = [rv] if rv is not None else []
            roots += [S(b) for b in st.mem if eng.syms[b].kind in ("param", "global") and b not in st.freed]
            roots += list(st.ghost.values())
            live = eng.reach(st, roots)
            for s, lab in st.alloc.items():
                if s not in live and s not in st.freed:
                    self.report("leak", st, fn, "the object allocated at %s is lost when %s returns" % (lab, fn.src))
            for s, lab in st.owed.items():
                if s in st.freed:
                    continue
                v = eng.norm(st, S(s))
                if not v.t:
                    continue
                if v.single() in live or v.single() in st.freed:
                    continue
                self.report("leak", st, fn, "%s is lost when %s returns" % (lab, fn.src))


def show(d):
    """short text for a descriptor set"""
    return " or ".join(sorted(show1(x) for x in d)) if d else "?"


def show1(x):
    if not isinstance(x, tuple):
        return str(x)
    k = x[0]
    if k == "int":
        return str(x[1])
    if k == "str":
        return '"%s"' % x[1]
    if k == "param":
        return x[1]
    if k in ("global", "fn"):
        return x[1]
    if k == "load":
        f = x[2]
        if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], str) and f[0] != "idx":
            return "%s->%s" % (show(x[1]), f[1])
        if isinstance(f, tuple):
            return "%s[..]" % show(x[1])
        return "%s[%s]" % (show(x[1]), f)
    if k == "heap":
        return "object from %s" % (x[1],)
    if k == "lin":
        return "+".join(sorted(("%s" % show(p[1])) for p in x[2]))
    if k == "local":
        return "local %s" % x[1]
    return k
