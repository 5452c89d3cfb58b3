"""Nodeset documents for the checks, and the comparison of what the loader made
of them with what the document says."""
from .core import AnalysisError
from .lin import Lin
from .world import World, T, St, En, Ch, El, UNK

H, N_, TD, SUB = (0, "i=47"), (0, "i=37"), (0, "i=40"), (0, "i=45")
KINDS = {H: "H", SUB: "H", (0, "i=35"): "H", (0, "i=46"): "H", TD: "T", N_: "N", (0, "i=38"): "N"}
NULL = ("null",)

# element -> (class, {attribute: (member, how, default)}); how: text | id | alias
COMMON = {}
INSTANCE = {"ParentNodeId": ("parentNodeId", "id", None)}
ELEMENTS = {
    "UAObject": ("OBJECT", dict(INSTANCE, EventNotifier=("eventNotifier", "text", "0"))),
    "UAVariable": ("VARIABLE", dict(
        INSTANCE, DataType=("datatype", "id", (0, "i=24")), ValueRank=("valueRank", "text", "-1"),
        ArrayDimensions=("arrayDimensions", "text", ""), AccessLevel=("accessLevel", "text", "1"),
        UserAccessLevel=("userAccessLevel", "text", "1"), Historizing=("historizing", "text", "false"),
        MinimumSamplingInterval=("minimumSamplingInterval", "text", "-1"))),
    "UAMethod": ("METHOD", dict(INSTANCE, Executable=("executable", "text", "true"),
                                UserExecutable=("userExecutable", "text", "true"))),
    "UAView": ("VIEW", dict(INSTANCE, ContainsNoLoops=("containsNoLoops", "text", "false"),
                            EventNotifier=("eventNotifier", "text", "0"))),
    "UAObjectType": ("OBJECTTYPE", dict(IsAbstract=("isAbstract", "text", "false"))),
    "UAVariableType": ("VARIABLETYPE", dict(
        DataType=("datatype", "id", (0, "i=24")), ValueRank=("valueRank", "text", "-1"),
        ArrayDimensions=("arrayDimensions", "text", ""), IsAbstract=("isAbstract", "text", "false"))),
    "UADataType": ("DATATYPE", dict(IsAbstract=("isAbstract", "text", "false"))),
    "UAReferenceType": ("REFERENCETYPE", dict(Symmetric=("symmetric", "text", "false"))),
}
CLASS = {e: c for e, (c, _) in ELEMENTS.items()}


def node(elem, ident, *content, attrs=(), bn="1:B"):
    a = [("NodeId", T("id:" + ident, ident))]
    if bn is not None:
        a.append(("BrowseName", T("bn:" + ident, bn)))
    return El(elem, a + list(attrs), *content)


def nodeset(*content):
    return El("UANodeSet", (), *content)


def ref(rtype, target, fwd=None, label=None):
    label = label or "%s>%s%s" % (rtype, target, fwd or "")
    a = [("ReferenceType", T("rt:" + label, rtype))]
    if fwd is not None:
        a.append(("IsForward", T("fw:" + label, fwd)))
    return El("Reference", a, T("tg:" + label, target))


def refs(*l):
    return El("References", (), *l)


def nid(text):
    return World.split(text)


def undecided(v):
    if v is None:
        return False
    if v == UNK:
        return True
    if isinstance(v, (tuple, list)):
        return any(undecided(x) for x in v)
    if isinstance(v, dict):
        return any(undecided(x) for x in v.values())
    return False


def differs(exp, got):
    """some part which is known differs"""
    if got == UNK or exp == UNK or exp == got:
        return False
    if isinstance(exp, dict) and isinstance(got, dict):
        return set(exp) != set(got) or any(differs(exp[k], got[k]) for k in exp)
    if isinstance(exp, list) and isinstance(got, list) or isinstance(exp, tuple) and isinstance(got, tuple) and \
            not any(x and isinstance(x[0], str) for x in (exp, got)):
        return len(exp) != len(got) or any(differs(x, y) for x, y in zip(exp, got))
    return not undecided(got)


def verdict(exp, got):
    return True if exp == got else False if differs(exp, got) else None


def same(exp, got):
    if callable(exp):
        return exp(got)
    return exp == got


class Run:
    """one document, analysed"""

    def __init__(self, ctx, name, events, states=None, world=None, sort=True, always=False, **kw):
        self.ctx = ctx
        self.name = name
        self.skip = not always and (ctx.skip() if states is None else world is None)
        if self.skip:
            self.w, self.problems, self.imported, self.sorted, self.result = None, [], [], [], []
            return
        self.imported, self.sorted, self.result = [], [], []
        self.problems = []
        try:
            self.analyse(events, states, world, sort, kw)
        except AnalysisError as e:
            # nothing is decided about this document
            ctx.give_up(name, e)
            self.skip = True
            self.problems, self.imported, self.sorted, self.result = [], [], [], []

    def analyse(self, events, states, world, sort, kw):
        ctx = self.ctx
        kw.setdefault("kinds", KINDS)
        kw.setdefault("report", self.problem)
        self.w = world or World(ctx, **kw)
        if world is not None and kw["report"] == self.problem:
            self.w.report = self.problem
        self.w.eng.deadline = ctx.deadline()
        self.events = events
        r = self.w.load(events, states)
        self.imported = r
        if sort:
            self.sorted = self.w.sort([s for s, _ in r])
            self.result = self.w.nodes([s for s, _ in self.sorted])
        else:
            self.result = None

    def problem(self, rule, st, inst, msg):
        loc = self.w.eng.where(inst) if isinstance(inst, dict) else ""
        self.problems.append((rule, msg, loc, st.stack[-1].fn.src if st.stack else ""))

    def alive(self, rule):
        """the document is processed to its end on at least one path, none crashes"""
        if self.skip:
            return
        for r, msg, loc, fn in self.problems:
            self.ctx.ob(rule, False, "%s: %s" % (self.name, msg), loc, fn)
        if not self.result and not self.problems:
            self.ctx.ob(rule, False, "%s: the document is not processed to its end" % self.name, self.handler("S"))

    def ob(self, st, rule, ok, msg, loc=None, fn=None):
        if ok is False and "open" in st.ghost:
            ok = None
        return self.ctx.ob(rule, ok, msg, loc, fn)

    def loc(self, st, base, off):
        for k in (off, off - 8, off + 8):
            h = self.w.last_write.get((base, k))
            if h:
                return h
        f = self.handler("E")
        return (f, "")

    def handler(self, k):
        f = getattr(self.w, "handlers", {}).get(k)
        return "%s:%s" % (f.file, f.line) if f is not None and hasattr(f, "line") else "src/NodesetLoader.c"

    def find(self, st, l, ident):
        """nodes of the id: [(class, node, members)]"""
        out = []
        for c, n, cx in l:
            m = self.w.snap(st, n, self.w.STRUCT[c])
            if m and m.get("id") == ident:
                out.append((c, n, m))
        return out

    def expect_nodes(self, rule, ids):
        """exactly these nodes come out: [(class, (ns, ident))]"""
        self.alive(rule)
        for st, l in self.result:
            got = []
            unk = False
            for c, n, cx in l:
                m = self.w.snap(st, n, self.w.STRUCT[c])
                i = m.get("id") if m else UNK
                unk |= i == UNK
                got.append((c, i))
            ok = sorted(map(str, got)) == sorted(map(str, ids))
            self.ob(st, rule, True if ok else None if unk else False,
                        "%s: nodes handed out are %s" % (self.name, self.lst(ids)) if ok else
                        "%s: expected the nodes %s, handed out are %s" % (self.name, self.lst(ids), self.lst(got)),
                        self.handler("E"))

    @staticmethod
    def lst(l):
        return ", ".join("%s %s" % (c, show(i)) for c, i in l) or "none"

    def expect(self, rule, ident, cls, members, only=True):
        """the node has these members"""
        self.alive(rule)
        for st, l in self.result:
            ns = self.find(st, l, ident)
            if len(ns) != 1 or ns[0][0] != cls:
                unk = any((self.w.snap(st, n, self.w.STRUCT[c]) or {}).get("id", UNK) == UNK for c, n, cx in l)
                self.ob(st, rule, None if unk else False, "%s: %s node %s is handed out %s" % (
                    self.name, cls, show(ident), "as " + ns[0][0] if ns and ns[0][0] != cls else "%d times" % len(ns)),
                    self.handler("S"))
                continue
            c, n, m = ns[0]
            b, off = self.w.eng.resolve(st, n)
            for path, exp in members.items():
                got = m.get(path)
                if path not in m:
                    self.ob(st, rule, None, "%s: %s.%s" % (self.name, cls, path))
                    continue
                ok = same(exp, got)
                mo = self.member(cls, path)
                loc, fn = self.loc(st, b, (off or 0) + (mo["off"] if mo else 0))
                self.ob(st, rule, True if ok else None if undecided(got) and not (not callable(exp) and differs(exp, got)) else False,
                            "%s: %s %s %s is %s" % (self.name, cls, show(ident), path, show(got)) if ok else
                            "%s: %s of %s is %s, the document says %s" % (
                                self.name, path, cls + " " + show(ident), show(got),
                                show(exp) if not callable(exp) else exp.__doc__ or "otherwise"),
                            loc, fn)

    def member(self, cls, path):
        for m in self.w.m.structs[self.w.STRUCT[cls]]["members"]:
            if m["name"] == path.split(".")[0]:
                return m
        return None


def show(v):
    if v is None:
        return "nothing"
    if isinstance(v, tuple):
        if v == NULL:
            return "NULL"
        if v[:1] == ("text",):
            return "the text " + "+".join(v[1])
        if v[:1] == ("lit",):
            return '"%s"' % v[1]
        if v[:1] == ("suffix",):
            return "the text %s from character %d on" % v[1:3]
        if v[:1] == ("cut",):
            return "a part of the text %s" % v[1]
        if v[:1] == ("unterminated",):
            return "the text %s without terminator" % "+".join(v[1])
        if len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], str):
            return ("ns=%d;" % v[0] if v[0] else "") + v[1]
        if len(v) == 3 and v[0] in (0, 1) and isinstance(v[1], (tuple, type(None))):
            return "(%s %s to %s)" % ("forward" if v[0] else "inverse", show(v[1]), show(v[2]))
        return "(" + ", ".join(map(show, v)) + ")"
    if isinstance(v, list):
        return "[" + ", ".join(map(show, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (k, show(x)) for k, x in v.items()) + "}"
    return str(v)


def text(*labels):
    return ("text", tuple(labels))


def dump(run, loc=False):
    """everything the loader made of the document, one entry per analysed path"""
    w = run.w
    out = []
    for (st, l) in run.result or ():
        nodes = [(c, tuple(sorted((k, freeze(v)) for k, v in (w.snap(st, n, w.STRUCT[c]) or {}).items())))
                 for c, n, cx in l]
        ext = tuple(tuple(shown(w, st, v) for v in rec) for rec in w.g(st, "ext"))
        nss = tuple(tuple(shown(w, st, v) for v in rec) for rec in w.g(st, "namespaces"))
        new = tuple(shown(w, st, rec[0]) for rec in w.g(st, "newtypes"))
        bid = tuple(bidirectional(w, st))
        log = len(w.g(st, "log"))
        out.append({"nodes": nodes, "extension calls": ext, "namespaces": nss, "reference types": new,
                    "encodings": bid, "log messages": log, "open": "open" in st.ghost})
    return out


def freeze(v):
    if isinstance(v, list):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def shown(w, st, v):
    """a value given to a callback, as a text, a name, a node id or a number"""
    t = w.text_of(st, v)
    if t is not None:
        return t
    v = w.eng.norm(st, v)
    if not v.t:
        return v.c
    b, off = w.eng.resolve(st, v)
    if b is not None:
        y = w.eng.syms[b]
        if y.kind == "param":
            return y.key[0]
        o = st.mem.get(b)
        if o is not None and o.kind == "heap":
            m = w.snap(st, v, "NL_Node")
            return ("node", m.get("id")) if m else UNK
    s = v.single()
    return w.eng.syms[s].key[0] if s is not None and w.eng.syms[s].kind == "param" else UNK


def bidirectional(w, st):
    """the pairs reported by the loader"""
    e, m = w.eng, w.m
    st = st.copy()
    out = []
    T = "NL_BiDirectionalReference"
    for s, v in w.call([st], "NodesetLoader_getBidirectionalRefs", lambda s: [s.ghost["loader"]]):
        l = []
        for _ in range(1200):
            v = e.norm(s, v)
            if not isinstance(v, Lin):
                l.append(UNK)
                break
            if not v.t:
                break
            b, off = e.resolve(s, v)
            if b is None or b not in s.mem:
                l.append(UNK)
                break
            l.append(tuple(w.nid_at(s, b, off + m.off(T, f)) for f in ("source", "target", "refType")))
            v = e.read_cells(s, b, off + m.off(T, "next"), 8, "p")
        out.append(tuple(l))
    return out


def rich(k=0):
    """a document that uses every feature"""
    i = lambda n: "i=%d" % (100 * k + n)
    return nodeset(
        El("NamespaceUris", (), El("Uri", (), T("uri%d" % k, "urn:x%d" % k))),
        El("Aliases", (), El("Alias", [("Alias", T("an%d" % k, "Own"))], T("at%d" % k, i(20)))),
        node("UAReferenceType", i(20), refs(ref("i=45", "i=33", "false", label="s%d" % k)), El("InverseName", (), T("in%d" % k))),
        node("UADataType", i(21), refs(ref("i=45", "i=22", "false", label="t%d" % k)),
             El("Definition", [("Name", T("dn%d" % k, "D"))],
                El("Field", [("Name", T("fn%d" % k, "a")), ("DataType", T("fd%d" % k, "i=6"))]))),
        node("UAObject", i(22), refs(ref("i=38", i(21), "false", label="e%d" % k)), bn="Default Binary"),
        node("UAVariable", i(23), refs(ref("Own", i(22), "false", label="o%d" % k), ref("i=40", "i=63", label="h%d" % k)),
             El("Value", (), El("Int32", (), T("iv%d" % k, "7")))),
        node("UAVariableType", i(24)), node("UAObjectType", i(25)), node("UAMethod", i(26)), node("UAView", i(27)),
        node("UAObject", i(28), refs(ref(i(29), i(22), label="l%d" % k), ref("Own", i(22), "false", label="p%d" % k)),
             El("Extensions", (), El("Extension", (), El("X", (), T("xv%d" % k))))),
        node("UAReferenceType", i(29), refs(ref("i=45", "i=32", "false", label="u%d" % k))))
