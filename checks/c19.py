"""Value-flow analysis of the built-in reference service through the documents
it classifies: the loader is created without a reference service, and for every
reference type of the standard table, for types the documents declare (chains,
several references, many of them, in one or two files, of one or two loaders)
and for types that only resemble known ones the analysis determines the list
every reference ends up in."""
from engine.doc import *
from engine.graphs import graphs, ids
from engine import counters

SHARDS = 8

HIER = (33, 35, 36, 38, 44, 45, 46, 47, 48)
NON = (37, 39, 41, 51, 52, 53, 54, 117, 129, 3065, 335, 350, 351, 360, 361, 4, 3, 430, 471)
CLS = {"UAObject": "OBJECT", "UAVariable": "VARIABLE", "UAMethod": "METHOD", "UADataType": "DATATYPE"}


def typ(ident, *rs, **kw):
    return node("UAReferenceType", ident, *([refs(*rs)] if rs else []), **kw)


def sub(ident, parent):
    return typ(ident, ref("i=45", parent, "false", label="sub:" + ident))


def use(r, name, t, kind, ident="i=1", elem="UAObject"):
    """the node's reference of type t to i=500 ends up in the list of its kind"""
    exp = [(1, nid(t), (0, "i=500"))]
    r.expect("classified", nid(ident), CLS[elem], {
        "hierachicalRefs": exp if kind == "H" else [], "nonHierachicalRefs": exp if kind == "N" else []})


def user(t, ident="i=1", elem="UAObject"):
    return node(elem, ident, refs(ref(t, "i=500", label="use:%s:%s" % (ident, t))))


def mk(ctx, name, *content, **kw):
    return Run(ctx, name, nodeset(*content), internal_refs=True, **kw)


def run(ctx):
    counters.check(ctx, "src/InternalRefService.c")
    # the standard table
    for elem, c in CLS.items():
        for n in HIER + NON:
            t = "i=%d" % n
            for d, fwd in (("false", 0), (None, 1)):
                r = mk(ctx, "%s with a reference of type %s" % (elem, t), node(elem, "i=1", refs(ref(t, "i=500", d))))
                exp = [(fwd, (0, t), (0, "i=500"))]
                r.expect("classified", (0, "i=1"), c, {
                    "hierachicalRefs": exp if n in HIER else [], "nonHierachicalRefs": exp if n in NON else []})
        r = mk(ctx, elem + " with a type definition", node(elem, "i=1", refs(ref("i=40", "i=58"))))
        exp = [(1, TD, (0, "i=58"))]
        td = c in ("OBJECT", "VARIABLE")
        r.expect("classified", (0, "i=1"), c, dict(
            {"hierachicalRefs": [], "nonHierachicalRefs": [] if td else exp}, **({"refToTypeDef": exp} if td else {})))
        # ids of other namespaces or kinds which resemble standard ones
        for t in ["ns=1;i=%d" % n for n in HIER] + ["ns=1;i=40", "ns=1;s=47", "ns=1;s=i=45"]:
            r = mk(ctx, "%s with a reference of type %s which is no subtype" % (elem, t), typ(t), user(t, elem=elem))
            use(r, "", t, "N", elem=elem)
    # declared types
    A, B, C, D = "ns=1;i=9001", "ns=1;s=B", "ns=1;i=9003", "ns=1;i=9004"
    for n in HIER:
        p = "i=%d" % n
        r = mk(ctx, "a subtype of " + p, sub(A, p), user(A))
        use(r, "", A, "H")
        r = mk(ctx, "a subtype of %s declared behind its use" % p, user(A), sub(A, p))
        use(r, "", A, "H")
        r = mk(ctx, "a subtype of a subtype of " + p, sub(A, p), sub(B, A), user(B), user(A, "i=2"))
        use(r, "", B, "H")
        use(r, "", A, "H", "i=2")
        r = mk(ctx, "a chain of subtypes of " + p, sub(A, p), sub(B, A), sub(C, B), sub(D, C), user(D))
        use(r, "", D, "H")
        # only the inverse reference makes a subtype
        r = mk(ctx, "a type with a forward reference to " + p, typ(A, ref("i=45", p)), user(A))
        use(r, "", A, "N")
        # only HasSubtype does
        for t in HIER:
            if t == 45:
                continue
            for more in ((), (ref("i=45", "i=32", "false", label="s"),)):
                for rs in ((ref("i=%d" % t, p, "false", label="o"),) + more, more + (ref("i=%d" % t, p, "false", label="o"),))[:1 + len(more)]:
                    if p != "i=47" and (t + n) % 3:
                        continue
                    r = mk(ctx, "a type below %s by i=%d%s" % (p, t, " and below another by HasSubtype" if more else ""), typ(A, *rs), user(A))
                    use(r, "", A, "N")
        r = mk(ctx, "a type without references next to a subtype of " + p, sub(A, p), typ(B), user(B), user(A, "i=2"))
        use(r, "", B, "N")
        use(r, "", A, "H", "i=2")
        for rs in ((ref("i=46", "i=600", label="p1"), ref("i=45", p, "false", label="s1")),
                   (ref("i=45", p, "false", label="s1"), ref("i=46", "i=600", label="p1")),
                   (ref("i=46", "i=600", label="p1"), ref("i=45", p, "false", label="s1"), ref("i=47", "i=601", label="p2")),
                   (ref("i=37", "i=602", label="p1"), ref("i=45", p, "false", label="s1")),
                   (ref("i=45", "ns=2;i=9", "false", label="p1"), ref("i=45", p, "false", label="s1")),
                   (ref("i=45", p, "false", label="s1"), ref("i=45", "ns=2;i=9", "false", label="p1")),
                   (ref("i=45", "i=32", "false", label="p1"), ref("i=45", p, "false", label="s1"), ref("i=45", "i=31", "false", label="p2")),
                   (ref("i=45", "i=47"), ref("i=45", "i=31", "false", label="p1"), ref("i=45", p, "false", label="s1")))[:None if n == 47 else 6]:
            r = mk(ctx, "a subtype of %s with %d references" % (p, len(rs)), typ(A, *rs), user(A))
            use(r, "", A, "H")
    for p in ("i=32", "i=37", "i=40", "i=31"):
        r = mk(ctx, "a subtype of " + p, sub(A, p), user(A))
        use(r, "", A, "N")
        r = mk(ctx, "a subtype of a subtype of " + p, sub(A, p), sub(B, A), user(B))
        use(r, "", B, "N")
        r = mk(ctx, "subtypes of %s and of a hierarchical type" % p, sub(A, p), sub(B, "i=47"), sub(C, A), sub(D, B), *[
            user(t, "i=%d" % (k + 1)) for k, t in enumerate((A, B, C, D))])
        for k, (t, kd) in enumerate(((A, "N"), (B, "H"), (C, "N"), (D, "H"))):
            use(r, "", t, kd, "i=%d" % (k + 1))
    # random sets of types
    for k, rnd in graphs(ctx, 40, "c19"):
        names = [x for x in ids(rnd, rnd.randint(3, 8)) if nid(x)[0]]
        hier = {"i=%d" % n for n in HIER}
        known = sorted(hier) + ["i=31", "i=32", "i=37", "i=40", "ns=2;i=77"]
        body, uses, kd = [], [], {}
        for j, t in enumerate(names):
            rs, h = [], False
            for q in range(rnd.choice((0, 1, 1, 1, 2, 3))):
                p = rnd.choice(known + names[:j] * 3)
                inv = rnd.random() < .8
                rs.append(ref("i=45", p, "false", label="s%d.%d" % (j, q)) if inv else
                          ref(rnd.choice(("i=45", "i=47", "i=37")), p, label="f%d.%d" % (j, q)))
                h |= inv and p in hier
            if h:
                hier.add(t)
            kd[t] = "H" if h else "N"
            body.append(typ(t, *rs))
        el = {t: rnd.choice(list(CLS)) for t in names}
        for j, t in enumerate(names):
            body.insert(rnd.randint(0, len(body)), user(t, "ns=5;i=%d" % (j + 1), el[t]))
        r = mk(ctx, "types %s" % " ".join("%s:%s" % x for x in kd.items()), *body)
        for j, t in enumerate(names):
            use(r, "", t, kd[t], "ns=5;i=%d" % (j + 1), el[t])
    # many types: the service's lists grow
    for n in (5, 30, 45, 120) + ((260,) if ctx.thorough else ()):
        ts = ["ns=1;i=%d" % (20000 + k) for k in range(n)]
        body, last = [], "i=47"
        for k, t in enumerate(ts):
            body.append(sub(t, last if k % 3 else "i=32"))
            if k % 3:
                last = t
        ks = sorted({0, 1, n // 2, n - 3, n - 2, n - 1})
        r = mk(ctx, "%d declared types" % n, *(body + [user(ts[k], "i=%d" % (k + 1)) for k in ks]), unroll=1000)
        for k in ks:
            use(r, "", ts[k], "H" if k % 3 else "N", "i=%d" % (k + 1))
    n = 104
    ts = ["ns=1;i=%d" % (20000 + k) for k in range(n)]
    r = mk(ctx, "%d declared types which are not hierarchical" % n, *([sub(t, "i=32") for t in ts] + [
        user(ts[k], "i=%d" % (k + 1)) for k in (0, 98, 99, 100, n - 1)]), unroll=1000)
    for k in (0, 98, 99, 100, n - 1):
        use(r, "", ts[k], "N", "i=%d" % (k + 1))
    # however many types there are, others stay unknown
    for n, p in ((0, "i=32"), (5, "i=47"), (104, "i=32"), (60, "i=47")) + (((260, "i=32"), (260, "i=47")) if ctx.thorough else ()):
        ts = ["ns=1;i=%d" % (20000 + k) for k in range(n)]
        for x in ("ns=1;i=19999", "ns=1;i=%d" % (20000 + n), "ns=2;i=20000", "ns=1;s=20000"):
            r = mk(ctx, "%d subtypes of %s and a reference of type %s" % (n, p, x), *([sub(t, p) for t in ts] + [user(x)]), unroll=1000)
            for st, v in r.sorted:
                v = r.w.eng.norm(st, v)
                r.ob(st, "unknown", None if v.t else v.c == 0, "%s: sorting reports failure" % r.name, r.handler("E"))
            for st, l in r.result:
                got = r.find(st, l, (0, "i=1"))
                r.ob(st, "unknown", not got, "%s: the node with the unknown reference is not handed out" % r.name, r.handler("E"))
            r.alive("unknown")
    # types of a file imported before
    for p, k in (("i=47", "H"), ("i=32", "N")):
        r = mk(ctx, "first file", sub(A, p), user(A, "i=7"), sort=False)
        if r.skip:
            continue
        r2 = Run(ctx, "a type of the first file (subtype of %s)" % p, nodeset(user(A), sub(B, A), user(B, "i=2")),
                 states=[s for s, _ in r.imported], world=r.w)
        use(r2, "", A, k)
        use(r2, "", B, k, "i=2")
        use(r2, "", A, k, "i=7")
    # types of another loader are not known
    if not ctx.skip():
        w = World(ctx, internal_refs=True)
        states = [s for s, _ in w.load(nodeset(*[sub("ns=1;i=%d" % (9001 + k), "i=47") for k in range(3)]))]
        nxt = []
        for s, v in w.call(states, "NodesetLoader_new", lambda s: [w.iface(s, "logger", "NodesetLoader_Logger", {
                "context": w.eng.param("logger-context"), "log": w.eng.param("cb:log")}), w.eng.norm(s, const0())]):
            s.ghost["loader"] = v
            s.ghost.pop("sorted", None)
            nxt.append(s)
        r = Run(ctx, "another loader that declares the type itself", nodeset(sub(A, "i=32"), user(A)), states=nxt, world=w)
        use(r, "", A, "N")
    ctx.require("classified", 400)


def const0():
    from engine.lin import ZERO
    return ZERO
