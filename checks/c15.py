"""Value-flow analysis of the references: the reference service's answers are
abstract; for every node class, every kind of reference type, every spelling of
the direction and several combinations the analysis determines the list every
reference of the document ends up in, with its direction, type and target."""
import itertools
from engine.doc import *
from engine.family import family

SHARDS = 8

KIND = {"H": "i=47", "N": "i=37", "T": "i=40", "U": "i=9999"}
LISTS = ("hierachicalRefs", "nonHierachicalRefs", "refToTypeDef", "unknownRefs")


def where(c, k):
    if k == "T":
        return "refToTypeDef" if c in ("VARIABLE", "OBJECT") else "nonHierachicalRefs"
    return {"H": "hierachicalRefs", "N": "nonHierachicalRefs"}[k]


def bag(exp):
    def f(got):
        return isinstance(got, list) and sorted(map(str, got)) == sorted(map(str, exp))
    f.__doc__ = show(exp)
    return f


def run(ctx):
    kinds = {(0, KIND["H"]): "H", (0, KIND["N"]): "N", (0, KIND["T"]): "T", (0, "i=9999"): "U"}
    dirs = (None, "true", "false", "1", "0")
    for e, (c, _) in ELEMENTS.items():
        combos = [((k, d),) for k in "HNT" for d in dirs]
        combos += [(a, b) for a in itertools.product("HNT", (None, "false")) for b in itertools.product("HNT", (None, "false"))]
        combos += [tuple((k, d) for k, d in zip(ks, ("false", None, "true", "false"))) for ks in
                   ("HNTH", "TNHT", "NNHH", "TTHN")]
        for co in combos:
            rs = []
            exp = {l: [] for l in LISTS}
            for j, (k, d) in enumerate(co):
                rs.append(ref(KIND[k], "ns=0;s=target%d" % j, d, label="r%d" % j))
                exp[where(c, k)].append((0 if d in ("false", "0") else 1, (0, KIND[k]), (0, "s=target%d" % j)))
            split = [refs(*rs)] if len(rs) < 3 else [refs(*rs[:2]), refs(*rs[2:])]
            r = Run(ctx, "%s with %s" % (e, ", ".join("%s(%s)" % (k, d or "-") for k, d in co)),
                    nodeset(node(e, "i=1", *split)), kinds=kinds)
            m = {l: bag(x) for l, x in exp.items() if l != "refToTypeDef" or c in ("VARIABLE", "OBJECT")}
            r.expect("filed", (0, "i=1"), c, m)
        # attributes similar to the ones of a reference; the default direction is forward
        for at, d in (([("IsForwar", T("a", "false"))], 1), ([("IsForwardX", T("a", "false")), ("ReferenceTyp", T("b", "i=37"))], 1),
                      ([("isforward", T("a", "false")), ("ReferenceTypeX", T("b", "i=37"))], 1)):
            for front in (0, 1):
                a = [("ReferenceType", T("rt", "i=47"))]
                a = at + a if front else a + at
                r = Run(ctx, "%s, reference with %s" % (e, ", ".join(x for x, _ in at)),
                        nodeset(node(e, "i=1", refs(El("Reference", a, T("tg", "i=5"))))), kinds=kinds)
                r.expect("filed", (0, "i=1"), c, {"hierachicalRefs": [(d, H, (0, "i=5"))], "nonHierachicalRefs": []})
        for v, d in (("false", 0), ("true", 1), ("0", 0), ("1", 1)):
            a = [("IsForward", T("a", v)), ("ReferenceType", T("rt", "i=47"))]
            r = Run(ctx, "%s, direction %s before the type" % (e, v),
                    nodeset(node(e, "i=1", refs(El("Reference", a, T("tg", "i=5"))))), kinds=kinds)
            r.expect("filed", (0, "i=1"), c, {"hierachicalRefs": [(d, H, (0, "i=5"))], "nonHierachicalRefs": []})
        # references of one node do not reach another one
        r = Run(ctx, "two %s with references" % e, nodeset(
            node(e, "i=1", refs(ref("i=47", "i=11"), ref("i=37", "i=12", "false"))),
            node(e, "i=2", refs(ref("i=37", "i=13"), ref("i=47", "i=14", "false")))), kinds=kinds)
        r.expect("filed", (0, "i=1"), c, {"hierachicalRefs": [(1, H, (0, "i=11"))], "nonHierachicalRefs": [(0, N_, (0, "i=12"))]})
        r.expect("filed", (0, "i=2"), c, {"hierachicalRefs": [(0, H, (0, "i=14"))], "nonHierachicalRefs": [(1, N_, (0, "i=13"))]})
    # many references of one node
    for n in (9, 33, 66, 130) + ((258, 300) if ctx.thorough else ()):
        for e, c in (("UAObject", "OBJECT"), ("UADataType", "DATATYPE")):
            for ks in ("H", "N", "HN", "NNH", "HHHHN"):
                co = [(ks[j % len(ks)], "false" if j % 3 == 1 else None) for j in range(n)]
                exp = {l: [] for l in LISTS}
                for j, (k, d) in enumerate(co):
                    exp[where(c, k)].append((0 if d else 1, (0, KIND[k]), (0, "i=%d" % (20000 + j))))
                rs = [ref(KIND[k], "i=%d" % (20000 + j), d, label="r%d" % j) for j, (k, d) in enumerate(co)]
                r = Run(ctx, "%s with %d references of the kinds %s" % (e, n, ks), nodeset(node(e, "i=1", refs(*rs))), kinds=kinds, unroll=4 * n + 100)
                r.expect("filed", (0, "i=1"), c, {l: bag(exp[l]) for l in ("hierachicalRefs", "nonHierachicalRefs")})
    family(ctx, "references", ["refs"], 120, refs=9, late=.4)
    ctx.require("filed", 500)
