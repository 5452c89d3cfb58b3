"""Abstract interpreter over the dumped IR.

Domain: per program point a set of abstract states.  A state maps SSA values
and memory cells of abstract objects to linear expressions over abstract
symbols (symbolic constants), with equalities, disequalities and linear
inequalities between symbols, plus the ghost state of the client analysis
(typestate, ownership obligations, coverage of lists and arrays).  Loops are
iterated to a fixpoint: the states at a loop head are joined by
anti-unification (values that differ become a fresh symbol; values that advance
by a constant per iteration are related to one common iteration counter), and
only facts that hold for both operands survive.  No path is enumerated beyond
the disjunctions the client asks to keep apart and no solver is called; the
inequality domain is plain Fourier-Motzkin elimination.
"""
import sys
import time
from .lin import Lin, ZERO, ONE, const, S, infeasible

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


class Budget(AnalysisError):
    """the time set aside for one scenario is used up"""


class Sym:
    __slots__ = ("id", "kind", "key", "ptr", "nonneg", "boolean", "ptype", "nonnull",
                 "nullable", "alts", "label", "unique", "sized", "name")

    def __init__(self, id, kind, key):
        self.id = id
        self.kind = kind
        self.key = key
        self.ptr = False
        self.nonneg = False
        self.boolean = False
        self.ptype = None
        self.nonnull = False
        self.nullable = False
        self.alts = None
        self.label = None
        self.unique = False
        self.sized = None
        self.name = None


class Obj:
    __slots__ = ("cells", "default", "ver", "size", "spans", "kind", "dead", "realloc_from", "tag", "cov")

    def __init__(self, kind, default, size=None):
        self.kind = kind        # alloca heap global ext arena
        self.default = default  # zero uninit ext
        self.cells = {}
        self.ver = 0
        self.size = size
        self.spans = ()
        self.dead = False
        self.tag = None
        self.realloc_from = None
        self.cov = ()           # released elements: ((field, lo, hi, mode), ...)

    def copy(self):
        o = Obj(self.kind, self.default, self.size)
        o.cells = dict(self.cells)
        o.ver = self.ver
        o.spans = self.spans
        o.dead = self.dead
        o.tag = self.tag
        o.realloc_from = self.realloc_from
        o.cov = self.cov
        return o


class Chunk:
    """A byte range holding several values (struct passed in registers)."""
    __slots__ = ("size", "pieces", "h")

    def __init__(self, size, pieces):
        self.size = size
        self.pieces = tuple(sorted(pieces, key=lambda p: p[0]))
        self.h = hash((size, self.pieces))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Chunk) and self.size == o.size and self.pieces == o.pieces

    def __repr__(self):
        return "{%s}" % ",".join("%d:%r" % (o, v) for o, s, v in self.pieces)


class Frame:
    __slots__ = ("fn", "env", "site")

    def __init__(self, fn, env, site):
        self.fn = fn
        self.env = env
        self.site = site


class State:
    __slots__ = ("stack", "mem", "sub", "ne", "ge", "ghost", "freed", "alloc", "owed", "owned_env")

    def __init__(self):
        self.stack = []
        self.mem = {}
        self.sub = {}
        self.ne = frozenset()
        self.ge = ()
        self.ghost = {}
        self.freed = {}
        self.alloc = {}
        self.owed = {}

    def copy(self):
        s = State()
        s.stack = [Frame(f.fn, f.env, f.site) for f in self.stack[:-1]]
        if self.stack:
            f = self.stack[-1]
            s.stack.append(Frame(f.fn, dict(f.env), f.site))
        s.mem = dict(self.mem)
        s.sub = dict(self.sub)
        s.ne = self.ne
        s.ge = self.ge
        s.ghost = dict(self.ghost)
        s.freed = dict(self.freed)
        s.alloc = dict(self.alloc)
        s.owed = dict(self.owed)
        return s


class Infeasible(Exception):
    pass


class Alarm:
    def __init__(self, rule, fn, loc, msg, trace):
        self.rule = rule
        self.fn = fn
        self.loc = loc
        self.msg = msg
        self.trace = trace

    def key(self):
        return (self.rule, self.fn, self.msg)


STRUCTURAL = ("load", "term", "cond", "param", "global", "fn", "alloca", "float")


class Engine:
    MAX_STATES = 80
    MAX_STEPS = 3000000
    HEAD_LIMIT = 24
    debug = False
    why = 0

    def __init__(self, mod, client=None):
        self.m = mod
        self.client = client
        self.syms = []
        self.low4 = {}          # symbol -> its lowest four bytes, where these are known
        self.intern = {}
        self.counter = 0
        self.alarms = {}
        self.stats = {"steps": 0, "functions": set(), "calls": set(), "loops": 0, "joins": 0,
                      "unmodelled": set(), "states": 0, "derefs": 0}
        self.models = {}
        self.no_inline = set()
        self.recursion = {}
        self.cur_inst = None
        self.desc_cache = {}
        self.loopstack = []
        self.join_returns = True
        self.return_limit = 6
        from . import models
        models.install(self)
        if client:
            client.setup(self)

    # ------------------------------------------------------------ symbols
    def mk(self, kind, *key, **attrs):
        k = (kind,) + key
        if k in self.intern:
            return self.intern[k]
        s = Sym(len(self.syms), kind, key)
        for a, v in attrs.items():
            setattr(s, a, v)
        self.syms.append(s)
        self.intern[k] = s.id
        return s.id

    def fresh(self, kind, label=None, **attrs):
        self.counter += 1
        i = self.mk(kind, "#", self.counter, **attrs)
        self.syms[i].label = label
        return i

    def term(self, op, *args, **attrs):
        return S(self.mk("term", op, *args, **attrs))

    def sym(self, i):
        return self.syms[i]

    # ------------------------------------------------------------ facts
    def norm(self, st, v):
        if isinstance(v, Lin):
            if not v.t or not st.sub:
                return v
            return v.subst(st.sub)
        if isinstance(v, Chunk):
            return Chunk(v.size, [(o, s, self.norm(st, x)) for o, s, x in v.pieces])
        return v

    def implicit(self, syms):
        out = []
        for s in syms:
            y = self.syms[s]
            if y.nonneg or y.boolean:
                out.append(S(s))
            if y.boolean:
                out.append(const(1) - S(s))
        return out

    def relevant(self, st, lin):
        want = set(lin.syms())
        facts = []
        rest = list(st.ge)
        ch = True
        while ch:
            ch = False
            r2 = []
            for f in rest:
                if any(s in want for s, _ in f.t):
                    facts.append(f)
                    for s, _ in f.t:
                        want.add(s)
                    ch = True
                else:
                    r2.append(f)
            rest = r2
        return facts + self.implicit(want)

    def entails_ge(self, st, lin):
        lin = self.norm(st, lin)
        if not lin.t:
            return lin.c >= 0
        return infeasible(self.relevant(st, lin) + [lin.scale(-1) - 1])

    def nonneg(self, st, lin):
        lin = self.norm(st, lin)
        if lin.c >= 0 and all(k > 0 and (self.syms[s].nonneg or self.syms[s].boolean) for s, k in lin.t):
            return True
        return self.entails_ge(st, lin)

    def is_unique_addr(self, s):
        y = self.syms[s]
        return y.kind in ("alloca", "heap", "global", "fn", "arena")

    def known_ne0(self, st, lin):
        """Is lin != 0 certain?"""
        lin = self.norm(st, lin)
        if not lin.t:
            return lin.c != 0
        if lin in st.ne or lin.scale(-1) in st.ne:
            return True
        # pointers
        pos = [s for s, k in lin.t if k == 1 and self.syms[s].ptr]
        neg = [s for s, k in lin.t if k == -1 and self.syms[s].ptr]
        if len(pos) == 1 and not neg and len(lin.t) == 1:
            y = self.syms[pos[0]]
            if y.nonnull:
                return True
            if lin.c and (S(pos[0]) in st.ne):
                return True
            if lin.c and not y.nullable and 0 < lin.c < 4096:
                return True
            return False
        if len(pos) == 1 and not neg:
            y = self.syms[pos[0]]
            if y.nonnull or S(pos[0]) in st.ne:
                return True
        if len(pos) == 1 and len(neg) == 1:
            a, b = pos[0], neg[0]
            ua, ub = self.is_unique_addr(a), self.is_unique_addr(b)
            if ua and ub:
                return True
            # a freshly created object never equals a pointer that existed before
            if (ua and self.syms[a].kind in ("heap", "arena", "alloca")) or \
               (ub and self.syms[b].kind in ("heap", "arena", "alloca")):
                return True
        if not any(self.syms[s].ptr for s, _ in lin.t):
            if self.entails_ge(st, lin - 1) or self.entails_ge(st, lin.scale(-1) - 1):
                return True
        return False

    def known_0(self, st, lin):
        lin = self.norm(st, lin)
        if not lin.t:
            return lin.c == 0
        if st.ge and self.entails_ge(st, lin) and self.entails_ge(st, lin.scale(-1)):
            return True
        return False

    def renorm_facts(self, st, m):
        ne = set()
        for l in st.ne:
            l2 = l.subst(m)
            if not l2.t:
                if l2.c == 0:
                    raise Infeasible()
                continue
            ne.add(l2)
        st.ne = frozenset(ne)
        ge = []
        for l in st.ge:
            l2 = l.subst(m)
            if not l2.t:
                if l2.c < 0:
                    raise Infeasible()
                continue
            ge.append(l2)
        st.ge = tuple(dict.fromkeys(ge))
        # linear keys of cells
        for b, o in list(st.mem.items()):
            if any(isinstance(k, Lin) for k in o.cells):
                n = None
                for k in list(o.cells):
                    if isinstance(k, Lin):
                        k2 = k.subst(m)
                        if k2 is not k and k2 != k:
                            if n is None:
                                n = o.copy()
                            v = n.cells.pop(k)
                            n.cells[k2 if k2.t else k2.c] = v
                if n is not None:
                    st.mem[b] = n

    def sym_rank(self, st, s):
        y = self.syms[s]
        if s in st.mem and (st.mem[s].cells or st.mem[s].spans):
            return 100
        return {"param": 50, "global": 99, "alloca": 99, "heap": 99, "arena": 99, "fn": 99, "iter": 30, "phi": 20,
                "load": 10}.get(y.kind, 5)

    def assume_eq0(self, st, lin):
        lin = self.norm(st, lin)
        if not lin.t:
            if lin.c != 0:
                raise Infeasible()
            return
        if self.known_ne0(st, lin):
            raise Infeasible()
        cands = [(self.sym_rank(st, s), -s, s, k) for s, k in lin.t if abs(k) == 1]
        if len(lin.t) == 1:
            s, k = lin.t[0]
            if lin.c % k:
                raise Infeasible()
            self.set_sub(st, s, const(-lin.c // k))
            return
        cands.sort()
        if cands and cands[0][0] < 99:
            _, _, s, k = cands[0]
            rest = (lin - S(s).scale(k)).scale(-k)
            self.set_sub(st, s, rest)
            return
        self.assume_ge0(st, lin)
        self.assume_ge0(st, lin.scale(-1))

    def set_sub(self, st, s, val):
        y = self.syms[s]
        if not val.t:
            if (y.nonneg or y.boolean) and val.c < 0:
                raise Infeasible()
            if y.boolean and val.c > 1:
                raise Infeasible()
            if y.ptr and val.c == 0 and y.nonnull:
                raise Infeasible()
        elif y.nonneg or y.boolean:
            # keep the sign information of the eliminated symbol
            if not all(k > 0 and (self.syms[x].nonneg or self.syms[x].boolean) for x, k in val.t) or val.c < 0:
                st.ge = st.ge + (val,)
        m = {s: val}
        for k in list(st.sub):
            st.sub[k] = st.sub[k].subst(m)
        st.sub[s] = val
        self.renorm_facts(st, m)

    def assume_ne0(self, st, lin):
        lin = self.norm(st, lin)
        if not lin.t:
            if lin.c == 0:
                raise Infeasible()
            return
        if lin.t[0][1] < 0:
            lin = lin.scale(-1)
        if len(lin.t) == 1:
            s, k = lin.t[0]
            y = self.syms[s]
            if k == 1 and lin.c == 0 and (y.boolean):
                self.set_sub(st, s, ONE)
                return
            if k == 1 and lin.c == -1 and y.boolean:
                self.set_sub(st, s, ZERO)
                return
            if k == 1 and lin.c == 0 and y.nonneg:
                self.assume_ge0(st, lin - 1)
                return
        if st.ge and not any(self.syms[s].ptr for s, _ in lin.t):
            if self.entails_ge(st, lin):
                self.assume_ge0(st, lin - 1)
                return
            if self.entails_ge(st, lin.scale(-1)):
                self.assume_ge0(st, lin.scale(-1) - 1)
                return
            if self.known_0(st, lin):
                raise Infeasible()
        st.ne = st.ne | {lin}

    def assume_ge0(self, st, lin):
        lin = self.norm(st, lin)
        if not lin.t:
            if lin.c < 0:
                raise Infeasible()
            return
        if lin in st.ge:
            return
        rel = self.relevant(st, lin)
        if infeasible(rel + [lin]):
            raise Infeasible()
        st.ge = st.ge + (lin,)
        # strengthen disequalities
        for l in list(st.ne):
            if l == lin or l == lin.scale(-1):
                st.ne = st.ne - {l}
                self.assume_ge0(st, lin - 1)
        if len(lin.t) and self.entails_ge(st, lin.scale(-1)):
            # equality
            l2 = self.norm(st, lin)
            if any(abs(k) == 1 and self.sym_rank(st, s) < 99 for s, k in l2.t) or len(l2.t) == 1:
                self.assume_eq0(st, l2)

    # conditions ---------------------------------------------------------
    def cond(self, op, lin):
        if op == "eq0" and lin.t and lin.t[0][1] < 0:
            lin = lin.scale(-1)
        return S(self.mk("cond", op, lin, boolean=True))

    def assume_true(self, st, v, truth):
        """v: boolean Lin."""
        v = self.norm(st, v)
        if not isinstance(v, Lin):
            return
        if not v.t:
            if bool(v.c) != truth:
                raise Infeasible()
            return
        if self.client:
            self.client.on_open(self, st, v)
        s = v.single()
        neg = False
        if s is None and v.c == 1 and len(v.t) == 1 and v.t[0][1] == -1:
            s = v.t[0][0]
            neg = True
        if s is not None:
            t = truth != neg
            y = self.syms[s]
            if y.kind == "cond":
                op, lin = y.key[0], y.key[1]
                st.sub[s] = ONE if t else ZERO
                if op == "eq0":
                    (self.assume_eq0 if t else self.assume_ne0)(st, lin)
                elif op == "ge0":
                    if t:
                        self.assume_ge0(st, lin)
                    else:
                        self.assume_ge0(st, lin.scale(-1) - 1)
                elif op == "uge0":
                    a, b = y.key[2], y.key[3]
                    if t:
                        if self.nonneg(st, a):
                            self.assume_ge0(st, lin)
                    else:
                        if self.nonneg(st, b):
                            self.assume_ge0(st, a)
                            self.assume_ge0(st, lin.scale(-1) - 1)
                if self.client:
                    self.client.on_assume(self, st, y, t)
                return
            if y.boolean:
                self.set_sub(st, s, ONE if t else ZERO)
                return
            if t:
                self.assume_ne0(st, S(s))
            else:
                self.assume_eq0(st, S(s))
            return
        if truth:
            self.assume_ne0(st, v)
        else:
            self.assume_eq0(st, v)

    def compare(self, st, pred, a, b, bits=64):
        a = self.norm(st, a)
        b = self.norm(st, b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return S(self.fresh("cmp", boolean=True))
        d = a - b
        if pred in ("eq", "ne"):
            # comparison of a boolean with 0/1
            if not b.t and len(a.t) == 1 and b.c in (0, 1):
                s = a.t[0][0]
                y = self.syms[s]
                if y.boolean and a.t[0][1] in (1, -1) and a.c in (0, 1) and (a.c == (0 if a.t[0][1] == 1 else 1)):
                    r = a if b.c == 1 else (ONE - a)
                    return r if pred == "eq" else ONE - r
            if not d.t:
                r = d.c == 0
                return const(int(r if pred == "eq" else not r))
            if self.known_ne0(st, d):
                return const(0 if pred == "eq" else 1)
            if self.known_0(st, d):
                return const(1 if pred == "eq" else 0)
            c = self.cond("eq0", d)
            c = self.norm(st, c)
            return c if pred == "eq" else ONE - c
        # order: reduce to ge0
        if pred in ("ult", "slt"):
            return self.norm(st, ONE - self.compare(st, "uge" if pred[0] == "u" else "sge", a, b))
        if pred in ("ugt", "sgt"):
            return self.compare(st, "ult" if pred[0] == "u" else "slt", b, a)
        if pred in ("ule", "sle"):
            return self.compare(st, "uge" if pred[0] == "u" else "sge", b, a)
        if not d.t and (pred == "sge" or (self.nonneg(st, a) and self.nonneg(st, b))):
            return const(int(d.c >= 0))
        if pred == "uge":
            if not b.t and b.c == 0:
                return ONE
            an, bn = self.nonneg(st, a), self.nonneg(st, b)
            ptrs = any(self.syms[s].ptr for s in a.syms()) or any(self.syms[s].ptr for s in b.syms())
            if not ptrs and not (an and bn):
                if not a.t and not b.t:
                    ua, ub = a.c % (1 << bits), b.c % (1 << bits)
                    return const(int(ua >= ub))
                return self.norm(st, S(self.mk("cond", "uge0", d, a, b, boolean=True)))
        if self.entails_ge(st, d):
            return ONE
        if self.entails_ge(st, d.scale(-1) - 1):
            return ZERO
        return self.norm(st, self.cond("ge0", d))

    # ------------------------------------------------------------ memory
    def resolve(self, st, p):
        """pointer value -> (base sym, offset int|Lin) or (None, lin)"""
        p = self.norm(st, p)
        if not isinstance(p, Lin):
            return None, None
        cands = [s for s, k in p.t if k == 1 and self.syms[s].ptr]
        if not cands:
            cands = [s for s, k in p.t if k == 1 and s in st.mem]
        if not cands:
            if len(p.t) == 1 and p.t[0][1] == 1:
                cands = [p.t[0][0]]
            else:
                return None, p
        base = cands[0]
        if len(cands) > 1:
            for c in cands:
                if c in st.mem:
                    base = c
        off = p - S(base)
        return base, (off.c if not off.t else off)

    def obj(self, st, base):
        o = st.mem.get(base)
        if o is None:
            y = self.syms[base]
            if y.kind == "global":
                o = self.global_obj(y.key[0])
            else:
                o = Obj("ext", "ext")
            st.mem[base] = o
        return o

    def wobj(self, st, base):
        o = self.obj(st, base).copy()
        st.mem[base] = o
        return o

    def global_obj(self, name):
        g = self.m.globals.get(name)
        o = Obj("global", "ext")
        if name.startswith("str:"):
            o.default = "zero"
            for i, b in enumerate(name[4:].encode("latin1")):
                o.cells[i] = (1, const(b if b < 128 else b - 256))
            o.size = const(len(name) - 3)
            return o
        if g is None:
            return o
        o.size = const(g["size"]) if "size" in g else None
        if name == "UA_NODEID_NULL" or (name.startswith("UA_") and name.endswith("_NULL")):
            o.default = "zero"
        if g.get("const") and "init" in g:
            o.default = "zero"
            for off, sz, v in g["init"]:
                if v[0] == "str":
                    o.tag = bytes.fromhex(v[1]) if off == 0 else o.tag
                    raw = bytes.fromhex(v[1])
                    if len(raw) <= 256:
                        for i, b in enumerate(raw):
                            o.cells[off + i] = (1, const(b if b < 128 else b - 256))
                elif v[0] == "z":
                    continue
                else:
                    o.cells[off] = (sz, self.cval(v))
        return o

    def cval(self, v):
        k = v[0]
        if k == "c":
            n = v[2]
            if v[1] == 1:
                n &= 1
            return const(n)
        if k in ("n", "z"):
            return ZERO
        if k == "g":
            return self.gaddr(v[1]) + v[2]
        if k == "f":
            if v[1] == int(v[1]) and abs(v[1]) < 1e15:
                return S(self.mk("float", v[1]))
            return S(self.mk("float", v[1]))
        if k == "agg":
            return Chunk(len(v[1]) * 8, [(i * 8, 8, self.cval(x)) for i, x in enumerate(v[1])])
        return S(self.mk("term", "undef"))

    def gaddr(self, name):
        if name in self.m.fns:
            s = self.mk("fn", name, ptr=True, nonnull=True, unique=True)
        else:
            s = self.mk("global", name, ptr=True, nonnull=True, unique=True)
            if self.syms[s].ptype is None:
                self.syms[s].ptype = (self.m.globals.get(name) or {}).get("type")
        return S(s)

    def str_addr(self, cs):
        """canonical address of a constant string: equal literals agree"""
        return S(self.mk("global", "str:" + cs, ptr=True, nonnull=True, unique=True))

    def const_str(self, st, v):
        """Python string if v points at a constant string."""
        v = self.norm(st, v)
        if not isinstance(v, Lin) or len(v.t) != 1 or v.t[0][1] != 1:
            return None
        y = self.syms[v.t[0][0]]
        if y.kind != "global":
            return None
        if y.key[0].startswith("str:"):
            return y.key[0][4:][v.c:]
        g = self.m.globals.get(y.key[0])
        if not g or not g.get("const") or "init" not in g:
            return None
        init = g["init"]
        if len(init) == 1 and init[0][2][0] == "z":
            return ""
        if not init or init[0][2][0] != "str":
            return None
        raw = bytes.fromhex(init[0][2][1])
        if v.c < 0 or v.c > len(raw):
            return None
        raw = raw[v.c:]
        return raw.split(b"\0")[0].decode("latin1")

    def field_info(self, st, base, off):
        """(path, typename, kind, size) of the member at base+off, using the
        declared pointee type of base."""
        y = self.syms[base]
        t = y.ptype
        if self.client:
            t = self.client.retype(self, st, base, t, off)
        if not t:
            return None
        t = t.rstrip()
        if t.endswith("*"):
            return ("[]", t, "ptr", 8)
        if t.endswith("[]"):
            t = t[:-2]
            if t.endswith("*"):
                return ("[]", t, "ptr", 8)
        if t not in self.m.structs:
            return None
        size = self.m.structs[t]["size"]
        if self.client and t in self.client.downcast and isinstance(off, int) and off >= size:
            return None
        if isinstance(off, Lin):
            if any(k % size for _, k in off.t):
                return None
            o = off.c % size
        else:
            o = off % size if off >= size or off < 0 else off
        return (t, o)

    def typed_load_attrs(self, st, base, off, size):
        fi = self.field_info(st, base, off)
        if not fi:
            return {}
        if len(fi) == 4:
            t = fi[1]
            inner = t[:-1] if t.endswith("*") else None
            return dict(ptr=True, ptype=inner)
        t, o = fi
        lay = self.m.layout(t)
        e = lay.get((o, size))
        if not e:
            # union members of the same size are shadowed: search
            return {}
        path, tn, kind = e
        a = {}
        if kind == "ptr":
            a["ptr"] = True
            a["ptype"] = tn[:-1] if tn.endswith("*") else None
            if self.client and self.client.nullable(t, path):
                a["nullable"] = True
        elif kind == "fn":
            a["ptr"] = True
        elif kind == "basic":
            if tn in ("size_t", "unsigned int", "unsigned short", "unsigned char", "uint16_t", "uint32_t", "uint64_t",
                      "uint8_t", "UA_UInt16", "UA_UInt32", "UA_UInt64", "UA_Byte", "unsigned long", "UA_StatusCode"):
                a["nonneg"] = True
            if tn in ("_Bool", "bool", "UA_Boolean"):
                a["boolean"] = True
        elif kind == "enum":
            a["nonneg"] = True
        return a

    def default_load(self, st, base, o, off, size, ty):
        if o.default == "zero":
            return ZERO
        if o.default == "uninit":
            return S(self.mk("uninit", base, self.offkey(off), size))
        for f, lo, hi, mode in o.cov:
            stride = self.stride(base)
            offl = off if isinstance(off, Lin) else const(off)
            if stride and (offl.c - f) % stride == 0 and size == 8 and \
                    self.entails_ge(st, offl - lo) and self.entails_ge(st, hi - offl - 1):
                if mode == "z":
                    return ZERO
                if mode == "x":
                    break
                s = self.mk("freedelem", base, f, ptr=True, nonnull=True)
                st.freed.setdefault(s, "released earlier")
                return S(s)
        v = self.mk("load", base, self.offkey(off), size, o.ver)
        y = self.syms[v]
        if y.label is None:
            y.label = "load"
            for a, x in self.typed_load_attrs(st, base, off, size).items():
                setattr(y, a, x)
            if ty == "p":
                y.ptr = True
        elif ty == "p" and not y.ptr:
            y.ptr = True
        return S(v)

    def offkey(self, off):
        return off

    def subvalue(self, st, v, d, size, ty):
        """bytes [d, d+size) of value v (whole cell)."""
        v = self.norm(st, v)
        if isinstance(v, Chunk):
            for o, s, x in v.pieces:
                if o == d and s == size:
                    return x
                if o <= d and d + size <= o + s:
                    return self.subvalue(st, x, d - o, size, ty)
            ps = [(o - d, s, x) for o, s, x in v.pieces if d <= o and o + s <= d + size]
            if ps:
                return Chunk(size, ps)
            return S(self.mk("term", "undef"))
        if not v.t:
            n = (v.c >> (8 * d)) & ((1 << (8 * size)) - 1)
            if n >= 1 << (8 * size - 1):
                n -= 1 << (8 * size)
            return const(n)
        s = v.single()
        if s is not None:
            y = self.syms[s]
            if y.kind == "load":
                b, o, sz, ver = y.key
                o2 = o + d if isinstance(o, int) else o + d
                tmp = Obj("ext", "ext")
                tmp.ver = ver
                return self.default_load(st, b, tmp, o2, size, ty)
            if y.kind == "uninit":
                b, o, sz = y.key
                return S(self.mk("uninit", b, o + d, size))
            if d == 0 and size == 4 and s in self.low4:
                return const(self.low4[s])
        if d == 0 and size in (1, 2, 4):
            return self.trunc(st, v, size * 8)
        return self.term("bits", v, d, size)

    def read_cells(self, st, base, off, size, ty, quiet=False):
        o = self.obj(st, base)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.norm(st, c[1])
        ov = []
        if isinstance(off, int):
            for k, (s, v) in o.cells.items():
                if isinstance(k, int) and k < off + size and off < k + s:
                    ov.append((k - off, s, v))
        else:
            for k, (s, v) in o.cells.items():
                if isinstance(k, Lin):
                    d = k - off
                    if not d.t and d.c < size and 0 < d.c + s:
                        ov.append((d.c, s, v))
        if not ov:
            if o.default in ("zero", "uninit") and self.ambiguous(st, o, off, size):
                # which of several cells is read depends on the input
                if quiet:
                    return S(self.mk("load", base, self.offkey(off), size, "amb"))
                if self.client:
                    self.client.on_ambiguous(self, st, base, off)
                v = self.mk("load", base, self.offkey(off), size, ("amb", self.fresh("amb")))
                self.syms[v].ptr = ty == "p"
                return S(v)
            v = self.default_load(st, base, o, off, size, ty)
            if o.default == "ext" and isinstance(v, Lin):
                v = self.norm(st, v)
                w = self.wobj(st, base)
                w.cells[off] = (size, v)
            return v
        ov.sort(key=lambda x: x[0])
        if len(ov) == 1 and ov[0][0] <= 0 and ov[0][0] + ov[0][1] >= size:
            return self.norm(st, self.subvalue(st, ov[0][2], -ov[0][0], size, ty))
        pieces = []
        pos = 0
        for d, s, v in ov:
            if d > pos:
                pieces.append((pos, d - pos, self.default_load(st, base, o, off + pos, d - pos, "i")))
            if d < 0:
                v = self.subvalue(st, v, -d, min(s + d, size), "i")
                s = min(s + d, size)
                d = 0
            if d + s > size:
                v = self.subvalue(st, v, 0, size - d, "i")
                s = size - d
            if isinstance(v, Chunk):
                for po, ps, pv in v.pieces:
                    pieces.append((d + po, ps, self.norm(st, pv)))
            else:
                pieces.append((d, s, self.norm(st, v)))
            pos = d + s
        if pos < size:
            pieces.append((pos, size - pos, self.default_load(st, base, o, off + pos, size - pos, "i")))
        return Chunk(size, pieces)

    def ambiguous(self, st, o, off, size):
        """a cell at another kind of offset may or may not be the one read"""
        sym = isinstance(off, Lin)
        for k, (s, v) in o.cells.items():
            if sym or isinstance(k, Lin):
                d = (k if isinstance(k, Lin) else const(k)) - (off if sym else const(off))
                d = self.norm(st, d)
                if not d.t:
                    continue
                if self.entails_ge(st, d - size) or self.entails_ge(st, d.scale(-1) - s) or self.known_disjoint_stride(st, d, size, s):
                    continue
                return True
        return False

    def kill(self, st, w, off, size):
        """remove cells possibly overlapping [off, off+size); keep the rest of
        partially overlapped cells."""
        for k in list(w.cells):
            s, v = w.cells[k]
            if isinstance(k, int) and isinstance(off, int):
                if k < off + size and off < k + s:
                    del w.cells[k]
                    if k < off:
                        w.cells[k] = (off - k, self.subvalue(st, v, 0, off - k, "i"))
                    if k + s > off + size:
                        e = off + size
                        w.cells[e] = (k + s - e, self.subvalue(st, v, e - k, k + s - e, "i"))
            else:
                d = (k if isinstance(k, Lin) else const(k)) - (off if isinstance(off, Lin) else const(off))
                d = self.norm(st, d)
                if not d.t:
                    if d.c < size and 0 < d.c + s:
                        del w.cells[k]
                        if d.c < 0:
                            w.cells[k] = (-d.c, self.subvalue(st, v, 0, -d.c, "i"))
                        if d.c + s > size:
                            e = (off + size)
                            w.cells[e if not isinstance(e, Lin) or e.t else e.c] = (
                                d.c + s - size, self.subvalue(st, v, size - d.c, d.c + s - size, "i"))
                else:
                    # symbolic distance: disjoint if provable, or congruence of fields
                    if self.entails_ge(st, d - size) or self.entails_ge(st, d.scale(-1) - s):
                        continue
                    if self.known_disjoint_stride(st, d, size, s):
                        continue
                    del w.cells[k]
                    w.default = "ext" if w.default == "zero" else w.default
                    w.ver = ("w", self.fresh("ver")) if w.default == "ext" else w.ver

    def known_disjoint_stride(self, st, d, size, s):
        from math import gcd
        g = 0
        for _, k in d.t:
            g = gcd(g, abs(k))
        if g <= 1:
            return False
        r = d.c % g
        # distance is r (mod g): overlap iff some representative in (-s, size)
        if r != 0 and r >= size and r - g <= -s:
            return True
        if d in st.ne or d.scale(-1) in st.ne:
            # multiples of g apart, not zero
            if d.c % g == 0 and g >= max(size, s):
                return True
        if r == 0 and g >= max(size, s) and self.known_ne0(st, d):
            return True
        return False

    def write_cells(self, st, base, off, size, v):
        w = self.wobj(st, base)
        self.kill(st, w, off, size)
        if isinstance(v, Chunk):
            for o, s, x in v.pieces:
                k = off + o
                if isinstance(k, Lin) and not k.t:
                    k = k.c
                w.cells[k] = (s, x)
        else:
            w.cells[off] = (size, v)
        if w.spans:
            w.spans = w.spans  # byte stores after a span are kept as cells

    def check_ptr(self, st, p, what, inst):
        """dereference check; returns (base, off) or None"""
        base, off = self.resolve(st, p)
        self.stats["derefs"] += 1
        if base is None:
            pn = self.norm(st, p)
            if isinstance(pn, Lin) and not pn.t:
                if self.client:
                    self.client.on_null(self, st, pn, what, inst, None)
            raise Infeasible()
        y = self.syms[base]
        if self.client:
            self.client.on_deref(self, st, base, off, what, inst)
        if not (y.nonnull or S(base) in st.ne):
            if y.nullable and self.client:
                self.client.on_null(self, st, S(base), what, inst, base)
            if y.ptr and not y.nonnull:
                st.ne = st.ne | {S(base)}
        if base in st.freed and self.client:
            self.client.on_uaf(self, st, base, what, inst)
        return base, off

    def load(self, st, p, size, ty, inst):
        base, off = self.check_ptr(st, p, "read", inst)
        if self.client:
            self.client.on_range(self, st, base, off, const(size), "read", inst)
        v = self.read_cells(st, base, off, size, ty)
        if self.client:
            r = self.client.on_load(self, st, base, off, size, v, inst)
            if r is not None:
                v = r
        return v

    def store(self, st, p, size, v, inst):
        base, off = self.check_ptr(st, p, "write", inst)
        if self.client:
            self.client.on_range(self, st, base, off, const(size), "write", inst)
            r = self.client.on_store(self, st, base, off, size, v, inst)
            if r is not None:
                v = r
        self.write_cells(st, base, off, size, v)

    def memset(self, st, p, byte, n, inst):
        base, off = self.check_ptr(st, p, "write", inst)
        n = self.norm(st, n)
        if self.client:
            self.client.on_range(self, st, base, off, n, "write", inst)
        byte = self.norm(st, byte)
        if not n.t and isinstance(off, int) and n.c <= 8192:
            w = self.wobj(st, base)
            self.kill(st, w, off, n.c)
            if not byte.t and byte.c == 0:
                if w.default == "zero":
                    return
                if off == 0 and w.size is not None and not w.size.t and w.size.c == n.c:
                    w.cells = {}
                    w.default = "zero"
                    return
                i = 0
                while i < n.c:
                    s = min(8, n.c - i)
                    w.cells[off + i] = (s, ZERO)
                    i += s
            else:
                w.cells[off] = (n.c, S(self.fresh("memset")))
            return
        w = self.wobj(st, base)
        if w.default == "zero" and not byte.t and byte.c == 0:
            return
        if w.size is not None and self.norm(st, w.size) == n and off == 0 and not byte.t and byte.c == 0:
            w.cells = {}
            w.default = "zero"
            return
        w.cells = {}
        w.default = "ext"
        w.ver = ("m", self.fresh("ver"))

    def memcpy(self, st, d, s, n, inst):
        n = self.norm(st, n)
        if not n.t and n.c == 0:
            return
        db, do = self.check_ptr(st, d, "write", inst)
        sb, so = self.check_ptr(st, s, "read", inst)
        if self.client:
            self.client.on_range(self, st, db, do, n, "write", inst)
            self.client.on_range(self, st, sb, so, n, "read", inst)
            self.client.on_memcpy(self, st, db, do, sb, so, n, inst)
        if not n.t and n.c <= 4096 and self.client is not None and self.client.as_span(self, st, sb, so):
            w = self.wobj(st, db)
            self.kill(st, w, do, n.c)
            w.spans = w.spans + ((do if isinstance(do, Lin) else const(do), n, self.norm(st, s)),)
            return
        if not n.t and n.c <= 4096:
            size = n.c
            pieces = []
            pos = 0
            so_ = self.obj(st, sb)
            # boundaries of known cells
            marks = set()
            for k, (cs, v) in so_.cells.items():
                dd = None
                if isinstance(k, int) and isinstance(so, int):
                    dd = k - so
                elif isinstance(k, Lin) and isinstance(so, Lin):
                    x = self.norm(st, k - so)
                    dd = x.c if not x.t else None
                if dd is not None and dd < size and dd + cs > 0:
                    marks.add((max(dd, 0), min(dd + cs, size)))
            pos = 0
            spans = sorted(marks)
            i = 0
            for lo, hi in spans + [(size, size)]:
                while pos < lo:
                    step = min(8 - (pos % 8), lo - pos)
                    if size - pos < 8 and pos % 8 == 0:
                        step = min(size - pos, lo - pos)
                    pieces.append((pos, step, self.read_cells(st, sb, so + pos, step, self.guess_ty(st, sb, so + pos, step))))
                    pos += step
                if hi > pos:
                    pieces.append((pos, hi - pos, self.read_cells(st, sb, so + pos, hi - pos, "i")))
                    pos = hi
            # pointer-typed pieces keep pointer attribute by the type layout
            w = self.wobj(st, db)
            self.kill(st, w, do, size)
            for o, sz, v in pieces:
                k = do + o
                if isinstance(k, Lin) and not k.t:
                    k = k.c
                if isinstance(v, Chunk):
                    for po, ps, pv in v.pieces:
                        k2 = do + o + po
                        if isinstance(k2, Lin) and not k2.t:
                            k2 = k2.c
                        w.cells[k2] = (ps, pv)
                else:
                    w.cells[k] = (sz, v)
            return
        w = self.wobj(st, db)
        src = self.norm(st, s)
        dofs = do if isinstance(do, Lin) else const(do)
        w.spans = w.spans + ((dofs, n, src),)

    def guess_ty(self, st, base, off, size):
        return "i"

    def stride(self, base):
        """element size of the array base points to, from its declared type"""
        t = self.syms[base].ptype
        if not t:
            return None
        if t.endswith("*") or t.endswith("*[]"):
            return 8
        t = t[:-2] if t.endswith("[]") else t
        if t in self.m.structs:
            return self.m.structs[t]["size"]
        return None

    def note_release(self, st, p):
        """extend the released range of the array p was loaded from"""
        s = p.single()
        if s is None or self.syms[s].kind != "load":
            return
        base, off, sz, ver = self.syms[s].key
        stride = self.stride(base)
        if stride is None or base in st.freed or base not in st.mem:
            return
        if not (self.syms[base].ptype.endswith("*") or isinstance(off, Lin) or off >= stride or True):
            return
        off = self.norm(st, off) if isinstance(off, Lin) else const(off)
        f = off.c % stride
        o = st.mem[base]
        cov = list(o.cov)
        for k, (f2, lo, hi, mode) in enumerate(cov):
            if f2 != f:
                continue
            if self.norm(st, hi - off) == ZERO:
                cov[k] = (f, lo, hi + stride, mode)
                break
            if self.norm(st, lo - off - stride) == ZERO:
                cov[k] = (f, off, hi, mode)
                break
            if self.norm(st, lo - hi) == ZERO:
                cov[k] = (f, off, off + stride, mode)
                break
        else:
            if any(c[0] == f for c in cov):
                return
            cov.append((f, off, off + stride, "f"))
        w = self.wobj(st, base)
        w.cov = tuple(cov)

    def fold_cov(self, st):
        """forget the cells of released array elements"""
        for b, o in list(st.mem.items()):
            if b in st.freed:
                continue
            self.null_cov(st, b)
            o = st.mem[b]
            if not o.cov:
                continue
            stride = self.stride(b)
            drop = []
            modes = {}
            for k, (sz, v) in o.cells.items():
                kl = k if isinstance(k, Lin) else const(k)
                for f, lo, hi, mode in o.cov:
                    d = kl - lo + f % stride
                    if self.entails_ge(st, kl - (lo - f)) and self.entails_ge(st, (hi - f) - kl - 1):
                        v2 = self.norm(st, v)
                        if sz == 8 and (kl.c - f) % stride == 0 and isinstance(v2, Lin):
                            if not v2.t and v2.c == 0:
                                modes[f] = "z"
                            elif not (v2.single() is not None and v2.single() in st.freed):
                                continue
                        drop.append(k)
                        break
            if drop or modes:
                w = self.wobj(st, b)
                for k in drop:
                    w.cells.pop(k, None)
                w.cov = tuple((f, lo, hi, modes.get(f, m)) for f, lo, hi, m in w.cov)

    def null_cov(self, st, b):
        """an element of a pointer array found to be null needs no release"""
        t = self.syms[b].ptype
        if not t or not t.endswith("*") or self.syms[b].kind not in ("load", "heap", "phi", "join"):
            return
        o = st.mem[b]
        for k in sorted(o.cells, key=lambda k: (0, k) if isinstance(k, int) else (1, k.c)):
            sz, v = o.cells[k]
            if sz != 8 or not isinstance(v, Lin) or not v.t or self.norm(st, v) != ZERO:
                continue
            kl = self.norm(st, k if isinstance(k, Lin) else const(k))
            cov = list(st.mem[b].cov)
            for n, (f, lo, hi, mode) in enumerate(cov):
                if self.norm(st, hi - kl) == ZERO:
                    cov[n] = (f, lo, hi + 8, "x" if self.norm(st, hi - lo) != ZERO and mode != "z" else mode)
                    break
            else:
                if cov or kl.t:
                    continue
                cov.append((0, kl, kl + 8, "z"))
            w = self.wobj(st, b)
            w.cov = tuple(cov)

    def new_heap(self, st, size, zero, inst, kind="heap", label=None):
        lab = label or self.where(inst)
        s = self.fresh(kind, lab, ptr=True, nonnull=True, unique=True)
        vt = inst.get("vty") if inst else None
        if vt and vt.endswith("*") and vt not in ("char*", "void*"):
            self.syms[s].ptype = vt[:-1]
        o = Obj(kind, "zero" if zero else "uninit", size)
        st.mem[s] = o
        if kind == "heap":
            st.alloc[s] = lab
        return S(s)

    def do_free(self, st, p, inst, what="free"):
        p = self.norm(st, p)
        if not isinstance(p, Lin):
            return
        if not p.t:
            return
        base, off = self.resolve(st, p)
        if base is None:
            return
        y = self.syms[base]
        if base in st.freed:
            if self.client:
                self.client.on_double_free(self, st, base, inst, what)
            return
        if y.kind in ("alloca", "global", "arena", "fn") or (off != 0):
            if self.client:
                self.client.on_bad_free(self, st, base, off, inst, what)
            return
        if self.client:
            self.client.on_free(self, st, base, inst, what)
        self.note_release(st, p)
        st.freed[base] = self.where(inst)
        st.alloc.pop(base, None)
        st.owed.pop(base, None)

    # ------------------------------------------------------------ helpers
    def where(self, inst):
        if not inst:
            return "?"
        f, l = inst.get("loc", ("", 0))
        f = f.replace("/repo/", "")
        return "%s:%d" % (f, l)

    def callpath(self, st):
        return " > ".join(f.fn.src for f in st.stack)

    def alarm(self, st, rule, inst, msg):
        fn = st.stack[-1].fn.src if st and st.stack else "?"
        a = Alarm(rule, fn, self.where(inst), msg, self.callpath(st) if st else "")
        k = (rule, a.loc, msg)
        if k not in self.alarms:
            self.alarms[k] = a
        return a

    # ------------------------------------------------------------ values
    def val(self, st, v):
        if v[0] == "v":
            env = st.stack[-1].env
            if v[1] not in env:
                return S(self.mk("term", "undef"))
            return self.norm(st, env[v[1]])
        return self.cval(v)

    def trunc(self, st, v, bits):
        if isinstance(v, Chunk):
            return self.subvalue(st, v, 0, max(1, bits // 8), "i")
        if not v.t:
            n = v.c & ((1 << bits) - 1)
            if bits == 1:
                return const(n)
            if n >= 1 << (bits - 1):
                n -= 1 << bits
            return const(n)
        s = v.single()
        if len(v.t) == 1 and self.syms[v.t[0][0]].boolean and v.c in (0, 1):
            return v
        if bits == 1:
            if s is not None:
                y = self.syms[s]
                y.boolean = y.boolean or y.kind == "load"
                if y.boolean:
                    return v
            r = self.mk("term", "trunc1", v, boolean=True)
            return S(r)
        if self.entails_ge(st, v) and self.entails_ge(st, const((1 << (bits - 1)) - 1) - v):
            return v
        if s is not None and self.syms[s].kind == "term" and self.syms[s].key[0] in ("zext", "sext") and self.syms[s].key[2] == bits:
            return self.syms[s].key[1]
        if s is not None and self.syms[s].kind in ("load", "param") and self.syms[s].sized is not None and self.syms[s].sized <= bits:
            return v
        r = self.mk("term", "trunc", v, bits)
        return S(r)

    def binop(self, st, op, a, b, inst):
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return S(self.fresh("bin"))
        bits = int(inst["ty"][1:]) if inst["ty"].startswith("i") else 64
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            if not a.t:
                return b.scale(a.c)
            if not b.t:
                return a.scale(b.c)
            x, y = sorted((a, b), key=lambda l: (l.c, l.t))
            return S(self.mk("term", "mul", x, y, nonneg=self.nonneg(st, a) and self.nonneg(st, b)))
        if op == "shl" and not b.t and 0 <= b.c < 63:
            return a.scale(1 << b.c)
        if op == "xor" and bits == 1:
            if not b.t:
                return ONE - a if b.c & 1 else a
            if not a.t:
                return ONE - b if a.c & 1 else b
        if op in ("and", "or") and bits == 1:
            for x, y in ((a, b), (b, a)):
                if not x.t:
                    if op == "and":
                        return y if x.c & 1 else ZERO
                    return ONE if x.c & 1 else y
        if not a.t and not b.t:
            m = (1 << bits) - 1
            ua, ub = a.c & m, b.c & m
            r = None
            if op == "and":
                r = ua & ub
            elif op == "or":
                r = ua | ub
            elif op == "xor":
                r = ua ^ ub
            elif op == "lshr" and ub < bits:
                r = ua >> ub
            elif op == "udiv" and ub:
                r = ua // ub
            elif op == "urem" and ub:
                r = ua % ub
            elif op == "sdiv" and b.c:
                r = int(a.c / b.c)
            elif op == "srem" and b.c:
                r = a.c - int(a.c / b.c) * b.c
            elif op == "ashr" and ub < bits:
                r = a.c >> ub
            if r is not None:
                r &= m
                if r >= 1 << (bits - 1) and bits > 1:
                    r -= 1 << bits
                return const(r)
        if op in ("sdiv", "udiv") and not b.t and b.c > 0:
            if a.c % b.c == 0 and all(k % b.c == 0 for _, k in a.t):
                return Lin(a.c // b.c, tuple((s, k // b.c) for s, k in a.t))
        if op in ("and", "or", "xor", "mul", "fadd", "fmul"):
            a, b = sorted((a, b), key=lambda l: (l.c, l.t))
        at = {}
        if op in ("udiv", "urem", "lshr", "and") and self.nonneg(st, a):
            at["nonneg"] = True
        r = S(self.mk("term", op, a, b, bits, **at))
        facts = ()
        if op in ("urem", "srem") and not b.t and b.c > 0 and self.nonneg(st, a):
            facts = (r, const(b.c - 1) - r)
        elif op in ("udiv", "sdiv") and not b.t and b.c > 0 and self.nonneg(st, a):
            facts = (a - r.scale(b.c), r.scale(b.c) + (b.c - 1) - a)
        elif op == "lshr" and not b.t and 0 < b.c < 48 and self.nonneg(st, a):
            facts = (a - r.scale(1 << b.c), r.scale(1 << b.c) + ((1 << b.c) - 1) - a)
        elif op == "and" and self.nonneg(st, a if a.t else b):
            x, k = (a, b) if not b.t else (b, a)
            if not k.t and k.c > 0:
                facts = (const(k.c) - r, x - r)
            elif not k.t and k.c < 0 and (-k.c) & (-k.c - 1) == 0:
                facts = (x - r, r - x + (-k.c - 1))
        for f in facts:
            try:
                self.assume_ge0(st, f)
            except Infeasible:
                pass
        return r

    def cast(self, st, op, a, inst):
        ty = inst["ty"]
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            if op == "inttoptr" and isinstance(a, Lin):
                s = a.single()
                if s is not None and not self.syms[s].ptr and self.syms[s].kind == "load":
                    self.syms[s].ptr = True
            return a
        if op in ("zext", "sext"):
            if isinstance(a, Chunk):
                return a
            fb = int(inst["from"][1:])
            if not a.t:
                n = a.c
                if op == "zext" and n < 0:
                    n += 1 << fb
                if op == "sext" and fb == 1 and n == 1:
                    n = -1
                return const(n)
            if op == "zext" and not self.nonneg(st, a):
                s = a.single()
                if s is not None and self.syms[s].kind in ("load", "call"):
                    # treat as unsigned quantity of that width
                    return S(self.mk("term", "zext", a, fb, nonneg=True))
                return S(self.mk("term", "zext", a, fb, nonneg=True))
            return a
        if op == "trunc":
            return self.trunc(st, a, int(ty[1:]))
        if isinstance(a, Lin):
            return S(self.mk("term", op, a, ty))
        return S(self.fresh("cast"))

    # ------------------------------------------------------------ execution
    def step(self, st, i):
        """Execute a non-terminator; returns list of states."""
        self.stats["steps"] += 1
        if self.stats["steps"] > self.MAX_STEPS:
            raise AnalysisError("step budget exhausted in %s" % self.callpath(st))
        self.cur_inst = i
        op = i["op"]
        env = st.stack[-1].env
        if op == "load":
            v = self.load(st, self.val(st, i["p"]), i["sz"], i["ty"], i)
            if i["ty"] == "p" and isinstance(v, Chunk):
                v = self.subvalue(st, v, 0, 8, "p")
            if i["ty"] == "p" and isinstance(v, Lin):
                s = v.single()
                if s is not None and not self.syms[s].ptr and self.syms[s].kind in ("load", "uninit"):
                    self.syms[s].ptr = True
                if s is not None and self.syms[s].kind == "load" and self.syms[s].ptype is None and i.get("vty", "").endswith("*"):
                    vt = i["vty"][:-1]
                    if vt not in ("void", "char"):
                        self.syms[s].ptype = vt
            env[i["id"]] = v
            return [st]
        if op == "store":
            v = self.val(st, i["v"])
            self.store(st, self.val(st, i["p"]), i["ssz"], v, i)
            return [st]
        if op == "gep":
            b = self.val(st, i["b"])
            if i.get("bad") or not isinstance(b, Lin):
                env[i["id"]] = S(self.fresh("gep", ptr=True))
                return [st]
            r = b + i["off"]
            for e, k in i["vars"]:
                x = self.val(st, e)
                if not isinstance(x, Lin):
                    x = S(self.fresh("idx"))
                r = r + x.scale(k)
            env[i["id"]] = r
            return [st]
        if op == "icmp":
            a, b = self.val(st, i["a"]), self.val(st, i["b"])
            if i["oty"] == "p":
                for v in (a, b):
                    if isinstance(v, Lin) and v.single() is not None:
                        y = self.syms[v.single()]
                        if y.kind in ("load",):
                            y.ptr = True
            env[i["id"]] = self.compare(st, i["pred"], a, b, 64 if i["oty"] == "p" else int(i["oty"][1:]))
            return [st]
        if op == "bin":
            env[i["id"]] = self.norm(st, self.binop(st, i["bop"], self.val(st, i["a"]), self.val(st, i["b"]), i))
            return [st]
        if op == "cast":
            env[i["id"]] = self.norm(st, self.cast(st, i["cop"], self.val(st, i["a"]), i))
            return [st]
        if op == "alloca":
            fr = st.stack[-1]
            s = self.mk("alloca", fr.fn.name, i["id"], len(st.stack), ptr=True, nonnull=True, unique=True)
            y = self.syms[s]
            y.label = i.get("var")
            vt = i.get("vty")
            if vt and y.ptype is None:
                y.ptype = vt
            sz = const(i["size"]) if i["size"] >= 0 else None
            if sz is None:
                n = self.val(st, i["n"])
                sz = n.scale(i["el"]) if isinstance(n, Lin) else None
            st.mem[s] = Obj("alloca", "uninit", sz)
            env[i["id"]] = S(s)
            return [st]
        if op == "select":
            c = self.val(st, i["c"])
            if isinstance(c, Lin) and not c.t:
                env[i["id"]] = self.val(st, i["a"] if c.c else i["b"])
                return [st]
            out = []
            for t in (True, False):
                s2 = st.copy()
                try:
                    self.assume_true(s2, c, t)
                except Infeasible:
                    continue
                s2.stack[-1].env[i["id"]] = self.val(s2, i["a"] if t else i["b"])
                out.append(s2)
            return out
        if op == "extractvalue":
            a = self.val(st, i["a"])
            if isinstance(a, Chunk):
                env[i["id"]] = self.subvalue(st, a, i["off"], i["sz"], i["ty"])
            else:
                env[i["id"]] = S(self.mk("term", "extract", a, i["off"], i["sz"], ptr=i["ty"] == "p")) if a.t else ZERO
            return [st]
        if op == "insertvalue":
            a = self.val(st, i["a"])
            v = self.val(st, i["v"])
            ps = [p for p in a.pieces if not (p[0] < i["off"] + i["vsz"] and i["off"] < p[0] + p[1])] if isinstance(a, Chunk) else []
            if isinstance(v, Chunk):
                ps += [(i["off"] + o, s, x) for o, s, x in v.pieces]
            else:
                ps.append((i["off"], i["vsz"], v))
            env[i["id"]] = Chunk(i["sz"], ps)
            return [st]
        if op == "call":
            return self.call(st, i)
        if op == "fcmp":
            env[i["id"]] = S(self.mk("term", "fcmp", i["pred"], self.val(st, i["a"]), self.val(st, i["b"]), boolean=True))
            return [st]
        if op in ("freeze",):
            env[i["id"]] = self.val(st, i["a"])
            return [st]
        if op == "fneg":
            env[i["id"]] = S(self.mk("term", "fneg", self.val(st, i["a"])))
            return [st]
        env[i["id"]] = S(self.fresh("op", label=op))
        return [st]

    # calls ---------------------------------------------------------------
    def call(self, st, i):
        if "fn" in i:
            name = i["fn"]
        else:
            fp = self.val(st, i["fp"])
            name = None
            if isinstance(fp, Lin):
                if not fp.t:
                    if self.client:
                        self.client.on_null(self, st, fp, "call", i, None)
                    return []
                s = fp.single()
                if s is not None and self.syms[s].kind == "fn":
                    name = self.syms[s].key[0]
            if name is None:
                args = [self.val(st, a["v"]) for a in i["args"]]
                return self.indirect(st, i, fp, args)
        if name.startswith("llvm."):
            return self.intrinsic(st, i, name)
        args = [self.val(st, a["v"]) for a in i["args"]]
        return self.call_named(st, i, name, args)

    def indirect(self, st, i, fp, args):
        s = fp.single() if isinstance(fp, Lin) else None
        if s is not None and self.client:
            y = self.syms[s]
            if not (y.nonnull or S(s) in st.ne) and y.nullable:
                self.client.on_null(self, st, S(s), "call", i, s)
        field = None
        if s is not None and self.syms[s].kind == "load":
            b, off, sz, ver = self.syms[s].key
            fi = self.field_info(st, b, off)
            if fi and len(fi) == 2:
                e = self.m.layout(fi[0]).get((fi[1], sz))
                if e:
                    field = (fi[0], e[0])
        self.stats["calls"].add(self.where(i))
        if self.client:
            r = self.client.on_indirect(self, st, i, field, fp, args)
            if r is not None:
                return self.finish_call(i, r)
        ret = self.ret_sym(st, i, ("indirect", field))
        return self.finish_call(i, [(st, ret)])

    def ret_sym(self, st, i, what):
        if i["ty"] == "void":
            return None
        s = self.fresh("call", label=(what, self.where(i)))
        if i["ty"] == "p":
            self.syms[s].ptr = True
            vt = i.get("vty") or ""
            if vt.endswith("*") and vt not in ("char*", "void*"):
                self.syms[s].ptype = vt[:-1]
        if i["ty"] in ("i1",):
            self.syms[s].boolean = True
        if i["ty"] in ("s", "a"):
            return Chunk(i["sz"], [(0, i["sz"], S(s))])
        return S(s)

    def finish_call(self, i, results):
        out = []
        for s2, r in results:
            if r is not None and i["ty"] != "void":
                s2.stack[-1].env[i["id"]] = r
            out.append(s2)
        return out

    def call_named(self, st, i, name, args):
        self.stats["calls"].add(self.where(i))
        fn = self.m.fns.get(name)
        src = fn.src if fn is not None else name
        if self.client:
            r = self.client.on_call(self, st, i, src, args)
            if r is not None:
                return self.finish_call(i, r)
        mdl = self.models.get(src)
        if mdl is not None:
            r = mdl(self, st, i, args)
            if r is not None:
                return self.finish_call(i, r)
        if fn is None or fn.decl or src in self.no_inline:
            if src not in self.no_inline:
                self.stats["unmodelled"].add(src)
            # unknown external: result unknown; may write through pointers to locals
            for a, ad in zip(args, i["args"]):
                if ad["ty"] == "p" and isinstance(a, Lin) and a.t:
                    b, off = self.resolve(st, a)
                    if b is not None and self.syms[b].kind == "alloca" and not ad.get("byval"):
                        w = self.wobj(st, b)
                        w.cells = {}
                        w.default = "ext"
                        w.ver = ("x", self.fresh("ver"))
            return self.finish_call(i, [(st, self.ret_sym(st, i, src))])
        if sum(f.fn is fn for f in st.stack) > self.RECURSION:
            if self.client:
                r = self.client.on_recursion(self, st, i, src, args)
                if r is not None:
                    return self.finish_call(i, r)
            return self.finish_call(i, [(st, self.ret_sym(st, i, src))])
        rets = self.invoke(st, fn, args, i)
        return self.finish_call(i, rets)

    def invoke(self, st, fn, args, inst):
        """Inline analysis of fn; returns [(state, ret)]."""
        self.stats["functions"].add(fn.src)
        env = {}
        # byval copies
        for k, p in enumerate(fn.params):
            a = args[k] if k < len(args) else S(self.mk("term", "undef"))
            if p.get("byval"):
                s = self.mk("alloca", fn.name, ("byval", k), len(st.stack) + 1, ptr=True, nonnull=True, unique=True)
                st.mem[s] = Obj("alloca", "uninit", const(p["byval"]))
                try:
                    self.memcpy(st, S(s), a, const(p["byval"]), inst)
                except Infeasible:
                    return []
                a = S(s)
            elif p["ty"] == "p" and isinstance(a, Lin):
                sy = a.single()
                if sy is not None and self.syms[sy].ptype is None:
                    t = fn.ptypes.get(str(p["id"]), "")
                    if t.endswith("*") and t not in ("char*", "void*"):
                        self.syms[sy].ptype = t[:-1]
            env[p["id"]] = a
        st.stack[-1] = Frame(st.stack[-1].fn, st.stack[-1].env, inst["id"] if inst else None) if st.stack else None
        st.stack.append(Frame(fn, env, None))
        depth = len(st.stack)
        rets = self.region(fn, fn.rpo, {0: [(st, None)]}, None)[0]
        out = []
        for s2, rv in rets:
            self.pop_frame(s2, rv, inst)
            out.append((s2, rv))
        # the caller's live-after set prunes dead values for merging
        if len(out) > 1:
            out = self.merge_returns(out, fn, inst)
        return out

    def pop_frame(self, st, rv, inst):
        fr = st.stack[-1]
        d = len(st.stack)
        dead = [b for b in st.mem if self.syms[b].kind == "alloca" and self.syms[b].key[2] == d and self.syms[b].key[0] == fr.fn.name]
        if dead:
            ds = set(dead)
            if self.client:
                # dangling addresses
                def uses(v):
                    if isinstance(v, Lin):
                        return any(s in ds for s, _ in v.t)
                    if isinstance(v, Chunk):
                        return any(uses(x) for _, _, x in v.pieces)
                    return False
                if rv is not None and uses(rv):
                    self.client.on_dangling(self, st, "return value of %s" % fr.fn.src, inst or self.cur_inst)
                for b, o in st.mem.items():
                    if b in ds or o.kind == "alloca":
                        continue
                    if b in st.freed:
                        continue
                    for k, (sz, v) in o.cells.items():
                        if uses(v):
                            self.client.on_dangling(self, st, "stored in memory that outlives %s" % fr.fn.src, inst or self.cur_inst)
            for b in dead:
                del st.mem[b]
        st.stack.pop()

    def merge_returns(self, rets, fn, inst):
        groups = {}
        order = []
        # liveness of the caller after this call
        for st, rv in rets:
            if st.stack and inst is not None:
                cf = st.stack[-1].fn
                bi = cf.defs[inst["id"]][0] if inst["id"] in cf.defs else None
                if bi is not None:
                    idx = next(k for k, x in enumerate(cf.blocks[bi]) if x is inst)
                    live = cf.live_after(bi, idx)
                    fr = st.stack[-1]
                    fr.env = {k: v for k, v in fr.env.items() if k in live}
        for st, rv in rets:
            sig = (self.canon(st, None), self.retclass(st, rv))
            if sig not in groups:
                groups[sig] = []
                order.append(sig)
            groups[sig].append((st, rv))
        out = []
        for sig in order:
            g = groups[sig]
            if len(g) == 1:
                out.append(g[0])
                continue
            self.stats["joins"] += 1
            st, rv = g[0]
            vals = []
            for s2, r2 in g:
                r2 = self.norm(s2, r2) if r2 is not None else None
                if (s2, r2) not in vals:
                    vals.append((s2, r2))
            if rv is None or all(r == vals[0][1] for _, r in vals):
                out.append((st, rv))
                continue
            out.append((st, self.join_values(st, vals)))
        if len(out) > self.return_limit:
            out = self.reduce(out)
        return out

    def retclass(self, st, rv):
        return None

    def join_values(self, st, vals):
        """one value standing for several alternatives (st is representative)"""
        if any(isinstance(v, Chunk) for _, v in vals):
            ch = [v for _, v in vals]
            if all(isinstance(c, Chunk) and [(o, s) for o, s, _ in c.pieces] == [(o, s) for o, s, _ in ch[0].pieces] for c in ch):
                ps = []
                for k, (o, s, _) in enumerate(ch[0].pieces):
                    sub = [(s2, v.pieces[k][2]) for s2, v in vals]
                    if all(x == sub[0][1] for _, x in sub):
                        ps.append((o, s, sub[0][1]))
                    else:
                        ps.append((o, s, self.join_values(st, sub)))
                return Chunk(ch[0].size, ps)
            return S(self.fresh("join"))
        alts = set()
        ptr = False
        allnn = True
        nonneg = True
        boolean = True
        nullable = False
        ptype = None
        for s2, v in vals:
            alts |= self.desc(s2, v)
            isnull = not v.t and v.c == 0
            if v.t and any(self.syms[s].ptr and k == 1 for s, k in v.t):
                ptr = True
                b, _ = self.resolve(s2, v)
                if b is not None and ptype is None:
                    ptype = self.syms[b].ptype
                if b is not None and self.syms[b].nullable and S(b) not in s2.ne:
                    nullable = True
            if isnull:
                nullable = True
            if not self.known_ne0(s2, v):
                allnn = False
            if not self.nonneg(s2, v):
                nonneg = False
            if not (v.t and len(v.t) == 1 and self.syms[v.t[0][0]].boolean) and not (not v.t and v.c in (0, 1)):
                boolean = False
        s = self.fresh("join", ptr=ptr, nonneg=nonneg and not ptr, boolean=boolean and not ptr)
        y = self.syms[s]
        y.alts = frozenset(alts)
        y.ptype = ptype
        if ptr:
            y.nonnull = allnn
            y.nullable = nullable and not allnn
        return S(s)

    def reduce(self, rets):
        """bound the number of disjuncts by anti-unification within a key"""
        out = []
        for st, rv in rets:
            done = False
            for k, (s0, r0) in enumerate(out):
                j = self.join(s0, st, loop=False, extra=(r0, rv))
                if j is not None:
                    out[k] = (j[0], j[2])
                    self.stats["joins"] += 1
                    done = True
                    break
            if not done:
                out.append((st, rv))
        return out

    def intrinsic(self, st, i, name):
        args = [self.val(st, a["v"]) for a in i["args"]]
        try:
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                if args[2].t and not self.norm(st, args[2]).t == ():
                    pass
                self.memcpy(st, args[0], args[1], args[2], i)
                return [st]
            if name.startswith("llvm.memset"):
                self.memset(st, args[0], args[1], args[2], i)
                return [st]
        except Infeasible:
            return []
        if name.startswith("llvm.lifetime"):
            b, off = self.resolve(st, args[1])
            if b is not None and b in st.mem:
                w = self.wobj(st, b)
                w.cells = {}
                w.spans = ()
                w.default = "uninit"
                w.dead = "end" in name
            return [st]
        if name.startswith("llvm.va_start"):
            b, off = self.resolve(st, args[0])
            if b is not None:
                w = self.wobj(st, b)
                w.tag = "va"
            if self.client:
                self.client.on_call(self, st, i, "va_start", args)
            return [st]
        if name.startswith("llvm.va_end") or name.startswith("llvm.va_copy"):
            if self.client:
                self.client.on_call(self, st, i, "va_end" if "end" in name else "va_copy", args)
            return [st]
        if i["ty"] != "void":
            if all(isinstance(a, Lin) for a in args):
                st.stack[-1].env[i["id"]] = S(self.mk("term", name, *args))
            else:
                st.stack[-1].env[i["id"]] = S(self.fresh("intr"))
        return [st]

    # regions ---------------------------------------------------------------
    def enter(self, st, fn, u, v):
        """take edge u->v: phis and liveness pruning. st is consumed."""
        fr = st.stack[-1]
        env = fr.env
        newv = {}
        for i in fn.blocks[v]:
            if i["op"] != "phi":
                break
            for val, pb in i["in"]:
                if pb == u:
                    x = self.val(st, val)
                    if i["ty"] == "p" and i.get("vty", "").endswith("*") and isinstance(x, Lin) and x.single() is not None:
                        y = self.syms[x.single()]
                        if y.ptype is None and y.kind in ("load", "call", "phi", "join", "heap") and i["vty"] not in ("void*", "char*"):
                            y.ptype = i["vty"][:-1]
                    newv[i["id"]] = x
                    break
        live = fn.livein[v]
        env2 = {k: x for k, x in env.items() if k in live}
        env2.update(newv)
        fr.env = env2
        return st

    deadline = None

    def exec_block(self, st, fn, b):
        """returns list of (state, succ) and list of returns"""
        if self.deadline and time.monotonic() > self.deadline:
            raise Budget("not finished within the time set aside")
        cur = [st]
        blk = fn.blocks[b]
        for i in blk[:-1]:
            if i["op"] == "phi":
                continue
            nxt = []
            for s in cur:
                try:
                    nxt += self.step(s, i)
                except Infeasible:
                    pass
            cur = nxt
            if not cur:
                return [], []
            if len(cur) > 1 and i["op"] == "call":
                cur = self.dedupe(cur)
        t = blk[-1]
        outs, rets = [], []
        for s in cur:
            self.cur_inst = t
            if t["op"] == "ret":
                rv = self.val(s, t["v"]) if "v" in t else None
                if self.client:
                    self.client.on_ret(self, s, fn, rv, t)
                rets.append((s, rv))
            elif t["op"] == "br":
                if "c" not in t:
                    outs.append((s, t["t"]))
                    continue
                c = self.val(s, t["c"])
                if not isinstance(c, Lin):
                    c = S(self.fresh("cond", boolean=True))
                if not c.t:
                    nx = t["t"] if c.c & 1 else t["f"]
                    if self.loopstack:
                        ls = self.loopstack[-1]
                        if ls[2] is fn and nx in ls[0] and (t["t"] not in ls[0] or t["f"] not in ls[0]):
                            ls[1] = True
                    outs.append((s, nx))
                    continue
                s2 = s.copy()
                try:
                    self.assume_true(s, c, True)
                    outs.append((s, t["t"]))
                except Infeasible:
                    pass
                try:
                    self.assume_true(s2, c, False)
                    outs.append((s2, t["f"]))
                except Infeasible:
                    pass
            elif t["op"] == "switch":
                c = self.val(s, t["c"])
                if not isinstance(c, Lin):
                    c = S(self.fresh("sw"))
                if not c.t:
                    tgt = t["d"]
                    for k, bb in t["cases"]:
                        if k == c.c:
                            tgt = bb
                    outs.append((s, tgt))
                    continue
                for k, bb in t["cases"]:
                    s2 = s.copy()
                    try:
                        self.assume_eq0(s2, c - k)
                        if self.client:
                            self.client.on_case(self, s2, c, k)
                        outs.append((s2, bb))
                    except Infeasible:
                        pass
                s2 = s.copy()
                try:
                    for k, bb in t["cases"]:
                        self.assume_ne0(s2, c - k)
                    outs.append((s2, t["d"]))
                except Infeasible:
                    pass
            # unreachable: dropped
        return outs, rets

    def dedupe(self, states):
        seen = {}
        for s in states:
            k = self.canon(s, None)
            if k not in seen:
                seen[k] = s
        r = list(seen.values())
        if len(r) > self.MAX_STATES:
            r = [s for s, _ in self.reduce([(s, None) for s in r])]
        return r

    def region(self, fn, blocks, inputs, head):
        """blocks in rpo; inputs: block -> [(state, pred)].
        returns (returns, exits: block -> [(state, pred)], back: [(state,pred)])"""
        inset = set(blocks)
        inp = {}
        for b, l in inputs.items():
            inp[b] = list(l)
        rets, exits, back = [], {}, []
        consumed = set()

        def route(s, u, v):
            if v == head:
                back.append((s, u))
            elif v in inset:
                inp.setdefault(v, []).append((s, u))
            else:
                exits.setdefault(v, []).append((s, u))

        for b in blocks:
            if b in consumed:
                continue
            ins = inp.pop(b, [])
            if b in fn.loops and b != head:
                body = [x for x in blocks if x in fn.loops[b]]
                consumed |= set(body)
                if ins:
                    r, ex = self.loop(fn, b, body, ins)
                    rets += r
                    for v, l in ex.items():
                        for s, u in l:
                            route(s, u, v)
                continue
            if not ins:
                continue
            states = []
            for s, u in ins:
                if u is not None:
                    try:
                        s = self.enter(s, fn, u, b)
                    except Infeasible:
                        continue
                states.append(s)
            if len(states) > 1:
                states = self.dedupe(states)
            self.stats["states"] += len(states)
            for s in states:
                outs, rr = self.exec_block(s, fn, b)
                rets += rr
                for s2, v in outs:
                    route(s2, b, v)
        return rets, exits, back

    def loop(self, fn, h, body, ins):
        self.stats["loops"] += 1
        pending = []
        for s, u in ins:
            pending.append(self.enter(s, fn, u, h) if u is not None else s)
        pending = self.dedupe(pending) if len(pending) > 1 else pending
        r = self.unrolled(fn, h, body, pending)
        if r is not None:
            return r
        stored = []   # entries: dict(state, K, rets, exits)
        rounds = 0
        pending = [(s, None, None) for s in pending]
        while pending:
            rounds += 1
            if rounds > 60:
                raise AnalysisError("no fixpoint at loop in %s" % fn.src)
            todo = []
            for B, origin, kval in pending:
                self.gc(B)
                hit = False
                # states that come from outside the loop are different cases; those of an iteration belong to its own case
                for e in sorted(stored, key=lambda e: e is not origin) if origin or len(stored) >= self.ENTRIES else ():
                    j = self.join(e["state"].copy(), B.copy(), loop=True, K=e["K"], force=len(stored) >= self.HEAD_LIMIT,
                                  kval=kval if e is origin else None)
                    if j is None:
                        if self.debug:
                            print("nojoin", self.why, fn.src, rounds)
                        continue
                    R, changed, _, K = j
                    hit = True
                    if changed:
                        self.stats["joins"] += 1
                        e["state"] = R
                        e["K"] = K
                        e["n"] += 1
                        if e["n"] > 12:
                            raise AnalysisError("widening did not converge in %s line %s" % (fn.src, fn.blocks[h][0].get("loc")))
                        if e not in todo:
                            todo.append(e)
                    break
                if not hit:
                    e = {"state": B, "K": None, "n": 0, "rets": [], "exits": {}}
                    stored.append(e)
                    todo.append(e)
            pending = []
            for e in todo:
                r, ex, back = self.region(fn, body, {h: [(e["state"].copy(), None)]}, h)
                e["rets"], e["exits"] = r, ex
                own, kv = [], e["K"]
                for s, u in back:
                    try:
                        own.append(self.enter(s, fn, u, h))
                    except Infeasible:
                        pass
                pending += [(s, e, ONE if kv is None else None) for s in (self.dedupe(own) if len(own) > 1 else own)]
        rets, exits = [], {}
        for e in stored:
            rets += e["rets"]
            for v, l in e["exits"].items():
                exits.setdefault(v, []).extend(l)
        return rets, exits

    ENTRIES = 4       # different states on entry to a loop that are kept apart
    UNROLL = 96
    UNROLL_SMALL = 1200     # a walk over a text
    RECURSION = 0     # nested calls of a function that are followed

    def unrolled(self, fn, h, body, pending):
        """A loop whose exit test is decided in every iteration (a constant
        trip count, a walk over a list whose length is known here) is followed
        iteration by iteration; anything else is left to the fixpoint."""
        rets, exits = [], {}
        cur = [s.copy() for s in pending]
        bset = set(body)
        for n in range(max(self.UNROLL, self.UNROLL_SMALL)):
            if n >= self.UNROLL and (len(cur) > 1 or len(body) > 12):
                return None
            nxt = []
            for s in cur:
                self.loopstack.append([bset, False, fn])
                try:
                    r, ex, back = self.region(fn, body, {h: [(s, None)]}, h)
                finally:
                    conc = self.loopstack.pop()[1]
                if back and not conc:
                    return None
                rets += r
                for v, l in ex.items():
                    exits.setdefault(v, []).extend(l)
                for s2, u in back:
                    try:
                        nxt.append(self.enter(s2, fn, u, h))
                    except Infeasible:
                        pass
            if not nxt:
                return rets, exits
            cur = self.dedupe(nxt) if len(nxt) > 1 else nxt
            if len(cur) > 24:
                return None
        return None

    # ------------------------------------------------------------ canonical form
    def reach(self, st, roots):
        """set of syms reachable from root values through memory"""
        seen = set()
        work = []

        def addv(v):
            if isinstance(v, Lin):
                for s, _ in v.t:
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            elif isinstance(v, Chunk):
                for _, _, x in v.pieces:
                    addv(x)
            elif isinstance(v, tuple):
                for x in v:
                    addv(x)
        for r in roots:
            addv(self.norm(st, r) if isinstance(r, (Lin, Chunk)) else r)
        while work:
            s = work.pop()
            if s in st.freed:
                continue
            o = st.mem.get(s)
            if o is not None:
                for k, (sz, v) in o.cells.items():
                    if isinstance(k, Lin):
                        addv(k)
                    addv(self.norm(st, v))
                for sp in o.spans:
                    for x in sp:
                        addv(self.norm(st, x))
                for f, lo, hi, mode in o.cov:
                    addv(self.norm(st, lo))
                    addv(self.norm(st, hi))
                if isinstance(o.size, Lin):
                    addv(o.size)
        return seen

    def root_values(self, st, extra=None):
        out = []
        for f in st.stack:
            for k in f.env:
                out.append(f.env[k])
        for k in sorted(st.ghost, key=str):
            out.append(st.ghost[k])
        if extra is not None:
            out.append(extra)
        for b in st.mem:
            kind = self.syms[b].kind
            if kind in ("alloca", "param", "global"):
                out.append(S(b))
        return out

    def gc(self, st):
        self.fold_cov(st)
        for s in list(st.owed):
            if not self.norm(st, S(s)).t or s in st.freed:
                del st.owed[s]
        keep = self.reach(st, self.root_values(st))
        for b in list(st.mem):
            if b in st.freed:
                st.mem[b] = Obj(st.mem[b].kind, "uninit")
        if self.client:
            self.client.on_gc(self, st, keep)
        for b in list(st.mem):
            if b not in keep:
                del st.mem[b]
        # facts: keep those over reachable syms, or over syms whose parts are reachable
        kk = lambda s: s in keep or self.struct_live(s, keep)
        st.ne = frozenset(l for l in st.ne if all(kk(s) for s, _ in l.t))
        st.ge = tuple(l for l in st.ge if all(kk(s) for s, _ in l.t))
        st.sub = {s: v for s, v in st.sub.items() if kk(s)}
        if self.client:
            for s in [s for s in st.alloc if s not in keep and s not in st.freed]:
                self.client.on_leak(self, st, s, "alloc", st.alloc[s], self.cur_inst)
            for s in list(st.owed):
                if s not in keep:
                    v = self.norm(st, S(s))
                    if v.t and not (v.single() is not None and v.single() in keep):
                        self.client.on_leak(self, st, s, "owed", st.owed[s], self.cur_inst)
                    del st.owed[s]
        st.freed = {s: v for s, v in st.freed.items() if s in keep}
        st.alloc = {s: v for s, v in st.alloc.items() if s in keep}

    def struct_live(self, s, keep, depth=0):
        if s in keep:
            return True
        if depth > 6:
            return False
        y = self.syms[s]
        if y.kind in ("global", "fn", "param", "float"):
            return True
        if y.kind == "load":
            b = y.key[0]
            return (b in keep or self.syms[b].kind in ("param", "global")) and self.key_live(y.key[1], keep, depth)
        if y.kind in ("term", "cond"):
            return all(self.key_live(x, keep, depth) for x in y.key)
        return False

    def key_live(self, x, keep, depth):
        if isinstance(x, Lin):
            return all(self.struct_live(s, keep, depth + 1) for s, _ in x.t)
        if isinstance(x, tuple):
            return all(self.key_live(e, keep, depth) for e in x)
        if isinstance(x, Chunk):
            return all(self.key_live(e[2], keep, depth) for e in x.pieces)
        return True

    def canon(self, st, extra):
        names = {}
        out = []
        queue = []

        def nm(s):
            if s in names:
                return names[s]
            y = self.syms[s]
            if y.kind in ("global", "fn", "float", "param"):
                n = (y.kind, y.key)
            elif y.kind == "alloca":
                n = ("al", y.key)
            elif y.kind in ("load", "uninit"):
                n = (y.kind, nm(y.key[0]), kv(y.key[1]), y.key[2], kv(y.key[3]) if len(y.key) > 3 else 0)
            elif y.kind in ("term", "cond"):
                n = (y.kind,) + tuple(kv(x) for x in y.key)
            elif y.kind == "join" and y.alts is not None:
                n = ("join", len(names), y.alts)
            else:
                n = (y.kind, len(names), y.label)
            names[s] = n
            queue.append(s)
            return n

        def kv(x):
            if isinstance(x, Lin):
                return vv(x)
            if isinstance(x, Chunk):
                return vv(x)
            if isinstance(x, tuple):
                if len(x) == 2 and isinstance(x[1], int) and isinstance(x[0], str):
                    return (x[0], "v", nm(x[1]))
                return tuple(kv(e) for e in x)
            return x

        def vv(v):
            if isinstance(v, Lin):
                v = self.norm(st, v)
                if not v.t:
                    return v.c
                return (v.c,) + tuple((nm(s), k) for s, k in sorted(v.t, key=lambda q: (self.syms[q[0]].kind, str(self.syms[q[0]].label), q[0])))
            if isinstance(v, Chunk):
                return ("ck", v.size) + tuple((o, s, vv(x)) for o, s, x in v.pieces)
            if isinstance(v, tuple):
                return tuple(vv(x) for x in v)
            return v

        for f in st.stack:
            out.append((f.fn.name, f.site))
            for k in sorted(f.env):
                out.append((k, vv(f.env[k])))
        for k in sorted(st.ghost, key=str):
            out.append((k, vv(st.ghost[k])))
        for b in sorted((b for b in st.mem if self.syms[b].kind in ("alloca", "param", "global")),
                        key=lambda b: str((self.syms[b].kind, self.syms[b].key))):
            nm(b)
        done = 0
        while done < len(queue):
            s = queue[done]
            done += 1
            o = st.mem.get(s)
            if o is not None:
                ents = []
                for k in sorted(o.cells, key=lambda k: (0, k) if isinstance(k, int) else (1, k.c)):
                    sz, v = o.cells[k]
                    v = self.norm(st, v)
                    # clean cells (equal to the default content) carry no information
                    if o.default == "ext" and isinstance(v, Lin):
                        sg = v.single()
                        if sg is not None and self.syms[sg].kind == "load" and self.syms[sg].key[:3] == (s, k, sz) and self.syms[sg].key[3] == o.ver:
                            continue
                    if o.default == "zero" and isinstance(v, Lin) and not v.t and v.c == 0:
                        continue
                    ents.append((vv(k) if isinstance(k, Lin) else k, sz, vv(v)))
                out.append((names[s], o.kind, o.default, kv(o.ver), tuple(ents),
                            tuple(tuple(vv(x) for x in sp) for sp in o.spans), o.dead,
                            tuple((f, vv(lo), vv(hi), md) for f, lo, hi, md in o.cov)))
            if s in st.freed:
                out.append(("freed", names[s]))
            if s in st.alloc:
                out.append(("alloc", names[s]))
            if s in st.owed:
                out.append(("owed", names[s]))
        for s in st.owed:
            if s not in names:
                out.append(("owedx", self.syms[s].label, st.owed[s]))
        keep = set(names)

        def live(l):
            return all(self.struct_live(s, keep) for s, _ in l.t)
        facts = []
        for l in st.ne:
            if live(l):
                facts.append(("ne", vv(l)))
        for l in st.ge:
            if live(l):
                facts.append(("ge", vv(l)))
        for s, v in st.sub.items():
            y = self.syms[s]
            if y.kind in ("term", "load") and self.struct_live(s, keep):
                if s in names or y.kind == "term" or y.kind == "load":
                    if y.kind == "term" and y.key[0] not in ("strcmp", "strncmp", "neq", "pure"):
                        continue
                    facts.append(("sub", (y.kind,) + tuple(kv(x) if not isinstance(x, int) or y.kind == "term" else x for x in y.key) if y.kind == "term" else nmload(self, y, nm, kv), vv(v)))
        out.append(frozenset(facts))
        return tuple(out)

    # ------------------------------------------------------------ join
    def nojoin(self, n):
        self.why = n
        return None

    def join(self, A, B, loop=False, K=None, force=False, extra=None, kval=None):
        """anti-unification; returns (R, changed, joined_extra, K) or None."""
        if len(A.stack) != len(B.stack):
            return self.nojoin(1)
        for f, g in zip(A.stack, B.stack):
            if f.fn is not g.fn or f.site != g.site or set(f.env) != set(g.env):
                return self.nojoin(2)
        if set(A.ghost) != set(B.ghost):
            return self.nojoin(3)
        eng = self
        memo = {}
        result_of = {}     # result sym -> (a, b)
        changed = [False]
        newK = [K]
        kinv = {}
        queue = []
        first = K is None
        steps = set()
        fail = [False]
        # the number of the iteration in B: the first one when A was no iteration yet when B began
        later = ONE if kval == ONE or K is None else S(K) + 1

        def shift(l):
            if newK[0] is None:
                return l
            return l.subst({newK[0]: later})

        def fail_if(c):
            if c and not force:
                fail[0] = True

        def jv(a, b, ty=None):
            if fail[0]:
                return ZERO
            if isinstance(a, Chunk) or isinstance(b, Chunk):
                if isinstance(a, Chunk) and isinstance(b, Chunk) and [(o, s) for o, s, _ in a.pieces] == [(o, s) for o, s, _ in b.pieces]:
                    return Chunk(a.size, [(o, s, jv(x, y)) for (o, s, x), (_, _, y) in zip(a.pieces, b.pieces)])
                key = (a, b)
                if key not in memo:
                    memo[key] = S(eng.fresh("join"))
                    changed[0] = True
                return memo[key]
            if isinstance(a, tuple) or isinstance(b, tuple):
                if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                    fail[0] = True
                    return a
                return tuple(jv(x, y) for x, y in zip(a, b))
            if not isinstance(a, Lin) or not isinstance(b, Lin):
                if a != b:
                    fail[0] = True
                return a
            a = eng.norm(A, a)
            b = eng.norm(B, b)
            key = (a, b)
            if key in memo:
                return memo[key]
            if not a.t and not b.t and a.c == b.c:
                memo[key] = a
                return a
            # bases
            pa, oa = eng.ptr_split(A, a)
            pb, ob = eng.ptr_split(B, b)
            if pa is not None and pb is not None:
                if pa == pb:
                    queue.append((pa, pb, pa))
                    r = S(pa) + jint(oa, ob)
                else:
                    r = jbase(pa, pb) + jint(oa, ob)
                memo[key] = r
                return r
            if (pa is None) != (pb is None):
                # null versus pointer
                fail_if(loop or True)
                if fail[0]:
                    return a
                s = eng.fresh("phi", ptr=True, nullable=True)
                p = pa if pa is not None else pb
                eng.syms[s].ptype = eng.syms[p].ptype
                eng.syms[s].alts = frozenset(eng.desc(A, a) | eng.desc(B, b))
                changed[0] = True
                memo[key] = S(s)
                result_of[s] = (a, b)
                return S(s)
            r = jint(a, b)
            memo[key] = r
            return r

        def jint(a, b):
            key = ("i", a, b)
            if key in memo:
                return memo[key]
            if a == b and (newK[0] is None or not a.coef(newK[0])):
                for s, _ in a.t:
                    queue.append((s, s, s))
                memo[key] = a
                return a
            if loop:
                if newK[0] is not None and not first:
                    if shift(a) == b:
                        memo[key] = a
                        return a
                d = b - a
                if first and not d.t and d.c != 0 and not _isbool(a, b):
                    if newK[0] is None:
                        newK[0] = eng.fresh("iter", nonneg=True)
                        result_of[newK[0]] = (ZERO, ONE)
                    changed[0] = True
                    steps.add(abs(d.c))
                    r = a + S(newK[0]).scale(d.c)
                    memo[key] = r
                    return r
            if _isbool(a, b):
                fail_if(not a.t and not b.t)
                if fail[0]:
                    return a
            sa = a.single()
            if sa is not None and eng.syms[sa].kind == "phi" and sa not in result_of and loop:
                # reuse the generalised symbol of the stored state
                result_of[sa] = (a, b)
                memo[key] = a
                return a
            nn = eng.nonneg(A, a) and eng.nonneg(B, b)
            bl = _isbool(a, b)
            s = eng.fresh("phi" if loop else "join", nonneg=nn and not bl, boolean=bl)
            eng.syms[s].alts = frozenset(eng.desc(A, a) | eng.desc(B, b)) if not loop else None
            changed[0] = True
            result_of[s] = (a, b)
            memo[key] = S(s)
            return S(s)

        def _isbool(a, b):
            def f(x):
                return len(x.t) == 1 and eng.syms[x.t[0][0]].boolean
            return f(a) or f(b)

        def jbase(pa, pb):
            key = ("b", pa, pb)
            if key in memo:
                return memo[key]
            ya, yb = eng.syms[pa], eng.syms[pb]
            if ya.kind in ("global", "fn", "alloca") and yb.kind in ("global", "fn", "alloca"):
                # distinct fixed addresses: keep apart unless forced
                fail_if(loop)
                if fail[0]:
                    return S(pa)
            fail_if((pa in A.freed) != (pb in B.freed))
            fail_if((pa in A.alloc) != (pb in B.alloc))
            if fail[0]:
                return S(pa)
            if ya.kind == "phi" and pa not in result_of and loop:
                result_of[pa] = (S(pa), S(pb))
                memo[key] = S(pa)
                queue.append((pa, pb, pa))
                if ya.nonnull and not eng.known_ne0(B, S(pb)):
                    ya.nonnull = False
                    changed[0] = True
                return S(pa)
            if ya.kind == "heap" and yb.kind == "heap" and ya.label == yb.label and loop:
                s = eng.fresh("heap", ya.label, ptr=True, nonnull=True, unique=True)
                eng.syms[s].ptype = ya.ptype
                if (pa in A.alloc) != (pb in B.alloc):
                    fail[0] = True
            else:
                s = eng.fresh("phi" if loop else "join", ptr=True)
                y = eng.syms[s]
                y.ptype = ya.ptype or yb.ptype
                y.nonnull = eng.known_ne0(A, S(pa)) and eng.known_ne0(B, S(pb))
                y.nullable = (ya.nullable and not eng.known_ne0(A, S(pa))) or (yb.nullable and not eng.known_ne0(B, S(pb)))
                if not loop:
                    y.alts = frozenset(eng.desc(A, S(pa)) | eng.desc(B, S(pb)))
            changed[0] = True
            result_of[s] = (S(pa), S(pb))
            memo[key] = S(s)
            queue.append((pa, pb, s))
            return S(s)

        R = State()
        for f, g in zip(A.stack, B.stack):
            env = {}
            for k in sorted(f.env):
                env[k] = jv(f.env[k], g.env[k])
                if fail[0]:
                    return self.nojoin(4)
            R.stack.append(Frame(f.fn, env, f.site))
        for k in sorted(A.ghost, key=str):
            R.ghost[k] = jv(A.ghost[k], B.ghost[k])
            if fail[0]:
                return self.nojoin(5)
        ex = None
        if extra is not None and (extra[0] is not None or extra[1] is not None):
            if (extra[0] is None) != (extra[1] is None):
                return self.nojoin(6)
            ex = jv(extra[0], extra[1])
            if fail[0]:
                return self.nojoin(7)
        for b in A.mem:
            if eng.syms[b].kind in ("alloca", "param", "global"):
                queue.append((b, b, b))
        for b in B.mem:
            if eng.syms[b].kind in ("alloca", "param", "global") and b not in A.mem:
                queue.append((b, b, b))
        done = set()
        qi = 0
        while qi < len(queue):
            pa, pb, s = queue[qi]
            qi += 1
            if (pa, pb, s) in done:
                continue
            done.add((pa, pb, s))
            if pa != pb or pa in A.freed or pb in B.freed:
                if (pa in A.freed) != (pb in B.freed):
                    if eng.debug:
                        for X in (A, B):
                            print("   ", [(show_sym(eng, b), {show_lin(eng, k): show_lin(eng, eng.norm(X, v[1])) for k, v in o.cells.items()}, o.cov) for b, o in X.mem.items() if b in (pa, eng.syms[pa].key[0])])
                        print("freed mismatch", show_sym(eng, pa), pa in A.freed, show_sym(eng, pb), pb in B.freed)
                    return self.nojoin(8)
                if pa in A.freed:
                    R.freed[s] = A.freed[pa]
            if (pa in A.alloc) and (pb in B.alloc):
                R.alloc[s] = A.alloc[pa]
            elif (pa in A.alloc) != (pb in B.alloc):
                return self.nojoin(9)
            oa, ob = A.mem.get(pa), B.mem.get(pb)
            if oa is None and ob is None:
                continue
            if oa is None:
                oa = eng.obj(A, pa)
            if ob is None:
                ob = eng.obj(B, pb)
            if oa.dead != ob.dead:
                return self.nojoin(10)
            ro = oa.copy()
            ro.cells = {}
            if oa.default != ob.default:
                if force or oa.kind == "ext" or True:
                    ro.default = "ext"
                    ro.ver = ("j", eng.fresh("ver"))
                    changed[0] = True
            elif oa.default == "ext":
                if pa == pb == s:
                    if oa.ver != ob.ver:
                        if isinstance(oa.ver, tuple) and oa.ver[0] == "j":
                            ro.ver = oa.ver
                        else:
                            ro.ver = ("j", eng.fresh("ver"))
                            changed[0] = True
                else:
                    ro.ver = oa.ver if s == pa else 0
            keys = {}

            def addk(k, sz):
                if k not in keys:
                    keys[k] = sz
                elif keys[k] != sz:
                    keys[k] = min(keys[k], sz)
            bk = {}
            for k, (sz, v) in oa.cells.items():
                addk(k, sz)
                bk[k] = k
            for k, (sz, v) in ob.cells.items():
                if isinstance(k, Lin):
                    # same position expressed over B's symbols: find matching A key
                    match = None
                    for k2 in oa.cells:
                        if isinstance(k2, Lin) and jlookup(memo, self, A, B, k2, k, shift, newK):
                            match = k2
                            break
                    if match is not None:
                        bk[match] = k
                        continue
                    if not all(x in _common(A, B, self) for x, _ in k.t):
                        continue
                    addk(k, sz)
                    bk[k] = k
                else:
                    addk(k, sz)
                    bk[k] = k
            for k in sorted(keys, key=lambda k: (0, k, ()) if isinstance(k, int) else (1, k.c, k.t)):
                sz = keys[k]
                kb = bk[k]
                va = eng.read_cells(A, pa, k, sz, "i", quiet=True)
                vb = eng.read_cells(B, pb, kb, sz, "i", quiet=True)
                oa2, ob2 = A.mem[pa], B.mem[pb]
                if pa != pb and oa2.default == "ext" and ob2.default == "ext" and isinstance(va, Lin) and isinstance(vb, Lin):
                    if eng.is_default(pa, oa2, k, sz, va) and eng.is_default(pb, ob2, kb, sz, vb):
                        if (va, vb) not in memo:
                            # both unmodified: the generic element's own content
                            r = eng.default_load(R, s, ro, k, sz, "p" if (va.t and eng.syms[va.t[0][0]].ptr) else "i")
                            memo[(va, vb)] = r
                            rs = r.single()
                            if rs is not None and rs not in result_of:
                                result_of[rs] = (va, vb)
                                ya, yr = eng.syms[va.single()], eng.syms[rs]
                                for at in ("ptr", "nonneg", "boolean", "ptype", "nullable"):
                                    if not getattr(yr, at):
                                        setattr(yr, at, getattr(ya, at))
                            pa2, pb2 = va.single(), vb.single()
                            if pa2 is not None and pb2 is not None and (pa2 in A.mem or pb2 in B.mem):
                                queue.append((pa2, pb2, rs))
                        continue
                r = jv(va, vb)
                if fail[0]:
                    return self.nojoin(11)
                if isinstance(r, Lin):
                    rs = r.single()
                    if eng.is_default(s, ro, k, sz, r):
                        continue
                    if ro.default == "zero" and not r.t and r.c == 0:
                        continue
                ro.cells[k] = (sz, r)
            if oa.spans or ob.spans:
                if len(oa.spans) == len(ob.spans):
                    ro.spans = tuple(tuple(jv(x, y) for x, y in zip(p, q)) for p, q in zip(oa.spans, ob.spans))
                    if fail[0]:
                        return self.nojoin(12)
                else:
                    ro.spans = (("?",),)
                    if oa.spans != ro.spans:
                        changed[0] = True
            ro.cov = ()
            fs = sorted({c[0] for c in oa.cov} | {c[0] for c in ob.cov})
            cov = []
            for f in fs:
                ca = next((c for c in oa.cov if c[0] == f), None)
                cb = next((c for c in ob.cov if c[0] == f), None)
                if ca is None:
                    ca = (f, cb[1], cb[1], cb[3])
                if cb is None:
                    cb = (f, ca[1], ca[1], ca[3])
                if ca[3] != cb[3]:
                    if eng.norm(A, ca[1] - ca[2]) == ZERO:
                        ca = ca[:3] + (cb[3],)
                    elif eng.norm(B, cb[1] - cb[2]) == ZERO:
                        cb = cb[:3] + (ca[3],)
                    else:
                        ca = ca[:3] + ("x",)
                        changed[0] = changed[0] or oa.cov[[c[0] for c in oa.cov].index(f)][3] != "x"
                cov.append((f, jv(ca[1], cb[1]), jv(ca[2], cb[2]), ca[3]))
                if fail[0]:
                    return self.nojoin(14)
            ro.cov = tuple(cov)
            if isinstance(oa.size, Lin) and isinstance(ob.size, Lin):
                ro.size = jv(oa.size, ob.size)
            else:
                ro.size = None
            if s in R.mem:
                continue
            R.mem[s] = ro
            if s != pa:
                changed[0] = True
        # owed
        covered = set()
        for s in A.owed:
            if not eng.norm(A, S(s)).t:
                continue
            hit = None
            for p, (x, y) in result_of.items():
                if x == S(s) and isinstance(y, Lin) and y.single() in B.owed:
                    hit = (p, y.single())
                    break
            if hit is None and s in B.owed:
                hit = (s, s)
            if hit is None:
                return self.nojoin(15)
            R.owed[hit[0]] = A.owed[s]
            covered.add(hit[1])
        for s in B.owed:
            if s not in covered and eng.norm(B, S(s)).t:
                return self.nojoin(16)
        # facts
        mA = {s: ab[0] for s, ab in result_of.items()}
        mB = {s: ab[1] for s, ab in result_of.items()}
        if newK[0] is not None:
            mA.setdefault(newK[0], S(newK[0]) if not first else ZERO)
            mB.setdefault(newK[0], later if not first else ONE)
            if first:
                mA[newK[0]] = ZERO
                mB[newK[0]] = ONE
            else:
                mA[newK[0]] = S(newK[0])
                mB[newK[0]] = later
        cand = []
        # inverse substitution for symbols of A / B
        invA, invB = {}, {}
        for s, (a, b) in result_of.items():
            if isinstance(a, Lin) and len(a.t) == 1 and abs(a.t[0][1]) == 1:
                x, k = a.t[0]
                if x != s and x not in invA and x not in (newK[0],):
                    invA[x] = (S(s) - a.c).scale(k)
            if isinstance(b, Lin) and len(b.t) == 1 and abs(b.t[0][1]) == 1:
                x, k = b.t[0]
                if x not in invB and x != s:
                    invB[x] = (S(s) - b.c).scale(k)
        if newK[0] is not None and not first and later != ONE:
            invB[newK[0]] = S(newK[0]) - 1
        def tr(l, inv):
            return l.subst(inv)
        for l in A.ge:
            cand.append(("ge", l))
            if invA:
                cand.append(("ge", tr(l, invA)))
        for l in A.ne:
            cand.append(("ne", l))
            if invA:
                cand.append(("ne", tr(l, invA)))
        isnew = changed[0]
        if first or not loop or isnew:
            for l in B.ge:
                cand.append(("ge", tr(l, invB)))
                if first and newK[0] is not None:
                    for d in steps | {1}:
                        cand.append(("ge", l + d - S(newK[0]).scale(d)))
                        cand.append(("ge", l - d + S(newK[0]).scale(d)))
            for l in B.ne:
                cand.append(("ne", tr(l, invB)))
            for s, (a, b) in result_of.items():
                if eng.syms[s].ptr:
                    cand.append(("ne", S(s)))
                    continue
                d = b - a
                for base in (a, b):
                    if not all(x not in mA or mA[x] == S(x) for x, _ in base.t):
                        continue
                    cand.append(("ge", S(s) - base))
                    cand.append(("ge", base - S(s)))
        for s, v in A.sub.items():
            y = eng.syms[s]
            cand.append(("eq", S(s) - v))
        nA = len(A.ge) + len(A.ne)
        Rge, Rne = [], []
        eqs = []
        seen = set()
        for kind, l in cand:
            if (kind, l) in seen:
                continue
            seen.add((kind, l))
            la = l.subst(mA)
            lb = l.subst(mB)
            la = eng.norm(A, la)
            lb = eng.norm(B, lb)
            if kind == "ge":
                if not l.t:
                    continue
                if (l in A.ge or (la.t == () and la.c >= 0) or eng.entails_ge(A, la)) and ((lb.t == () and lb.c >= 0) or eng.entails_ge(B, lb)):
                    if not (len(l.t) == 1 and l.t[0][1] > 0 and l.c >= 0 and (eng.syms[l.t[0][0]].nonneg or eng.syms[l.t[0][0]].boolean)):
                        Rge.append(l)
                elif l in A.ge:
                    changed[0] = True
            elif kind == "ne":
                if not l.t:
                    continue
                if (l in A.ne or eng.known_ne0(A, la)) and eng.known_ne0(B, lb):
                    Rne.append(l)
                elif l in A.ne:
                    changed[0] = True
            else:
                if l.t and la.t == () and la.c == 0:
                    if lb.t == () and lb.c == 0:
                        eqs.append(l)
                    else:
                        pass
        R.ne = frozenset(Rne)
        # drop redundant inequalities
        R.ge = ()
        for l in Rge:
            if l not in R.ge:
                R.ge = R.ge + (l,)
        if len(R.ge) > 40:
            R.ge = R.ge[:40]
        # equalities recorded as substitutions that hold on both sides
        for s, v in A.sub.items():
            if s in B.sub and v == B.sub[s] and not any(x in result_of and result_of[x][0] != result_of[x][1] for x, _ in v.t):
                R.sub[s] = v
        for s in A.sub:
            if s not in R.sub and eng.syms[s].kind in ("term", "load") and not first:
                pass
        # iteration counter facts
        return R, changed[0], ex, newK[0]

    def is_default(self, base, o, k, sz, v):
        if o.default != "ext" or not isinstance(v, Lin):
            return False
        s = v.single()
        if s is None:
            return False
        y = self.syms[s]
        return y.kind == "load" and y.key[0] == base and y.key[1] == k and y.key[2] == sz and y.key[3] == o.ver

    def ptr_split(self, st, v):
        c = [s for s, k in v.t if k == 1 and self.syms[s].ptr]
        n = [s for s, k in v.t if k != 1 and self.syms[s].ptr]
        if len(c) == 1 and not n:
            return c[0], v - S(c[0])
        return None, None

    # ------------------------------------------------------------ description
    def desc(self, st, v, depth=0):
        """frozenset of alternative descriptors (tuples) of a value"""
        if v is None:
            return frozenset([("void",)])
        if isinstance(v, Chunk):
            return frozenset([("chunk",) + tuple((o, self.desc(st, x, depth + 1)) for o, s, x in v.pieces)])
        if not isinstance(v, Lin):
            return frozenset([("py", v)])
        v = self.norm(st, v)
        if not v.t:
            return frozenset([("int", v.c)])
        cs = self.const_str(st, v)
        if cs is not None:
            return frozenset([("str", cs)])
        if depth > 7:
            return frozenset([("deep",)])
        if self.client:
            r = self.client.describe(self, st, v, depth)
            if r is not None:
                return r
        s = v.single()
        if s is not None:
            return self.desc_sym(st, s, depth)
        parts = []
        for s, k in v.t:
            parts.append((k, self.desc_sym(st, s, depth + 1)))
        return frozenset([("lin", v.c, frozenset(parts))])

    def desc_sym(self, st, s, depth):
        y = self.syms[s]
        if y.alts is not None:
            a = y.alts
            if S(s) in st.ne:
                a = frozenset(x for x in a if x != ("int", 0))
            return a
        if y.kind == "param":
            return frozenset([("param", y.key[0])])
        if y.kind in ("global", "fn"):
            return frozenset([(y.kind, y.key[0])])
        if y.kind == "load":
            b, off, sz, ver = y.key
            fi = self.field_info(st, b, off)
            f = None
            if fi and len(fi) == 2:
                e = self.m.layout(fi[0]).get((fi[1], sz))
                f = (fi[0], e[0]) if e else None
            o = off if isinstance(off, int) else ("idx",) + tuple((k, self.desc_sym(st, x, depth + 2)) for x, k in off.t) + (off.c,)
            return frozenset([("load", self.desc(st, S(b), depth + 1), f or o)])
        if y.kind == "term":
            return frozenset([("term",) + tuple(self.desc(st, x, depth + 1) if isinstance(x, Lin) else x for x in y.key)])
        if y.kind == "cond":
            return frozenset([("cond", y.key[0], self.desc(st, y.key[1], depth + 1))])
        if y.kind == "call":
            return frozenset([("call", y.label[0] if isinstance(y.label, tuple) else y.label)])
        if y.kind == "alloca":
            return frozenset([("local", y.label)])
        if y.kind == "float":
            return frozenset([("float", y.key[0])])
        return frozenset([(y.kind, y.label)])

    # ------------------------------------------------------------ entry
    def entry_state(self):
        return State()

    def param(self, name, ptype=None, ptr=True, nonnull=True, nonneg=False, nullable=False, boolean=False):
        s = self.mk("param", name)
        y = self.syms[s]
        y.ptr = ptr
        y.ptype = ptype
        y.nonnull = nonnull and ptr
        y.nonneg = nonneg
        y.nullable = nullable
        y.boolean = boolean
        return S(s)

    def default_args(self, fn):
        args = []
        for p in fn.params:
            t = fn.ptypes.get(str(p["id"]), "")
            if p["ty"] == "p":
                pt = t[:-1] if t.endswith("*") and t not in ("void*", "char*") else (t if p.get("byval") else None)
                args.append(self.param(p["name"], pt))
            else:
                args.append(self.param(p["name"], None, ptr=False, boolean=p["ty"] == "i1"))
        return args

    def run(self, fn, args=None, st=None):
        if st is None:
            st = State()
        if args is None:
            args = self.default_args(fn)
        return self.invoke_root(st, fn, args)

    def invoke_root(self, st, fn, args):
        self.stats["functions"].add(fn.src)
        env = {}
        for k, p in enumerate(fn.params):
            a = args[k]
            if p["ty"] == "p" and isinstance(a, Lin):
                sy = a.single()
                if sy is not None and self.syms[sy].ptype is None:
                    t = fn.ptypes.get(str(p["id"]), "")
                    if t.endswith("*") and t not in ("char*", "void*"):
                        self.syms[sy].ptype = t[:-1]
            env[p["id"]] = a
        st.stack.append(Frame(fn, env, None))
        rets = self.region(fn, fn.rpo, {0: [(st, None)]}, None)[0]
        return rets


def show_sym(eng, s, d=0):
    y = eng.syms[s]
    if y.kind in ("load", "uninit", "freedelem") and d < 6:
        return "%s(%s,%s)#%d" % (y.kind, show_sym(eng, y.key[0], d + 1), show_lin(eng, y.key[1], d + 1), s)
    return "%s:%s:%s#%d" % (y.kind, y.key if y.kind in ("param", "global", "alloca") else "", y.label, s)


def show_lin(eng, l, d=0):
    if not isinstance(l, Lin):
        return str(l)
    return "+".join(["%s*%s" % (k, show_sym(eng, s, d + 1)) for s, k in l.t] + [str(l.c)])


def nmload(eng, y, nm, kv):
    return ("load", nm(y.key[0]), kv(y.key[1]), y.key[2], kv(y.key[3]))


def _common(A, B, eng):
    class C:
        def __contains__(self, s):
            return True
    return C()


def jlookup(memo, eng, A, B, ka, kb, shift, newK):
    """do the linear keys ka (in A) and kb (in B) denote the same generic position?"""
    ka = eng.norm(A, ka)
    kb = eng.norm(B, kb)
    if ka == kb and (newK[0] is None or not ka.coef(newK[0])):
        return True
    if ("i", ka, kb) in memo:
        return memo[("i", ka, kb)] == ka
    if newK[0] is not None and shift(ka) == kb:
        return True
    return False


class Client:
    """Default client: no checks."""
    downcast = {}

    def setup(self, eng):
        pass

    def nullable(self, tname, field):
        return False

    def retype(self, eng, st, base, t, off):
        return t

    def as_span(self, eng, st, base, off):
        """a copy of constant length from here is kept as a span"""
        return False

    def describe(self, eng, st, v, depth):
        return None

    def on_ambiguous(self, eng, st, base, off):
        """the value read depends on an offset which is not known"""
        pass

    def on_open(self, eng, st, v):
        """a branch on v is not decided by the abstract state"""

    def on_assume(self, eng, st, y, truth):
        pass

    def on_case(self, eng, st, c, k):
        pass

    def on_null(self, eng, st, v, what, inst, base):
        pass

    def on_range(self, eng, st, base, off, n, what, inst):
        pass

    def on_deref(self, eng, st, base, off, what, inst):
        pass

    def on_uaf(self, eng, st, base, what, inst):
        pass

    def on_double_free(self, eng, st, base, inst, what):
        pass

    def on_bad_free(self, eng, st, base, off, inst, what):
        pass

    def on_free(self, eng, st, base, inst, what):
        pass

    def on_load(self, eng, st, base, off, size, v, inst):
        return None

    def on_store(self, eng, st, base, off, size, v, inst):
        return None

    def on_memcpy(self, eng, st, db, do, sb, so, n, inst):
        pass

    def on_call(self, eng, st, inst, name, args):
        return None

    def on_indirect(self, eng, st, inst, field, fp, args):
        return None

    def on_recursion(self, eng, st, inst, name, args):
        return None

    def on_ret(self, eng, st, fn, rv, inst):
        pass

    def on_dangling(self, eng, st, what, inst):
        pass

    def on_gc(self, eng, st, keep):
        pass

    def on_leak(self, eng, st, s, kind, label, inst):
        pass

    def on_alloc_fail(self, eng, st, inst):
        pass

    def on_realloc(self, eng, st, old, new, inst):
        pass

    def on_nid_clear(self, eng, st, p, vals, inst):
        pass

    def on_nid_parse(self, eng, st, p, data, inst):
        pass
