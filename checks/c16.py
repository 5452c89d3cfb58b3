"""Value-flow analysis of the encoding pairs: which pairs the loader reports for
references of every type, direction and browse name of their node."""
from engine.doc import *
from engine.family import family

SHARDS = 8


def pairs(r, exp):
    r.alive("pairs")
    for st, l in r.result:
        for got in bidirectional(r.w, st):
            ok = sorted(map(str, got)) == sorted(map(str, exp))
            r.ob(st, "pairs", True if ok else None if undecided(got) else False,
                 "%s: the pairs reported are %s, the document says %s" % (r.name, show(list(got)), show(exp)), r.handler("E"))


def case(ctx, name, ev, exp, kinds=None):
    pairs(Run(ctx, name, ev, kinds=kinds or KINDS), exp)


def enc(i, d, bn="Default Binary", t="i=38", tgt="i=300", e="UAObject"):
    return node(e, i, refs(ref(t, tgt, d, label=i)), bn=bn)


def run(ctx):
    E = (0, "i=38")
    for e in ELEMENTS:
        case(ctx, "%s, inverse encoding" % e, nodeset(enc("i=1", "false", e=e)), [((0, "i=300"), (0, "i=1"), E)])
        case(ctx, "%s, forward encoding" % e, nodeset(enc("i=1", "true", e=e)), [])
        case(ctx, "%s, encoding without direction" % e, nodeset(enc("i=1", None, e=e)), [])
        for t in ("i=37", "i=39", "i=40", "i=47", "i=380", "i=3", "i=8", "ns=0;s=38", "ns=1;i=38"):
            case(ctx, "%s, inverse reference of type %s" % (e, t), nodeset(enc("i=1", "false", t=t, e=e)), [])
        for bn in ("Default XML", "Default JSON", "Default Binar", "Default BinaryX", "default binary", "Binary", "", None):
            case(ctx, "%s %s, inverse encoding" % (e, bn), nodeset(enc("i=1", "false", bn=bn, e=e)), [])
        case(ctx, "%s with a namespace in the browse name" % e, nodeset(enc("i=1", "false", bn="0:Default Binary", e=e)),
             [((0, "i=300"), (0, "i=1"), E)])
    for n in (2, 3, 5, 33, 130) + ((260,) if ctx.thorough else ()):
        ev, exp = [], []
        for k in range(n):
            i, t = "ns=%d;s=enc%d" % (k % 2, k), "ns=0;s=type%d" % k
            ev += enc(i, "false", tgt=t) + enc("i=%d" % (800 + k), "false", bn="Default XML", tgt=t)
            exp.append(((0, "s=type%d" % k), ((k % 2) * 6, "s=enc%d" % k), E))
        case2(ctx, "%d encodings" % n, nodeset(El("NamespaceUris", (), El("Uri", (), T("u"))), ev), exp)
    # several references of one node
    case(ctx, "encoding between other references", nodeset(node("UAObject", "i=1", refs(
        ref("i=47", "i=5", "false"), ref("i=38", "i=6", "false"), ref("i=37", "i=7", "false"),
        ref("i=38", "i=8", "false"), ref("i=38", "i=9", "true")), bn="Default Binary")),
        [((0, "i=6"), (0, "i=1"), E), ((0, "i=8"), (0, "i=1"), E)])
    # by alias
    case(ctx, "encoding by alias", nodeset(El("Aliases", (), El("Alias", [("Alias", T("a", "HasEncoding"))], T("ai", "i=38"))),
                                           enc("i=1", "false", t="HasEncoding")), [((0, "i=300"), (0, "i=1"), E)])
    family(ctx, "pairs", [], 120, lambda r, g: pairs(r, g.enc), refs=9)
    ctx.require("pairs", 100)


def case2(ctx, name, ev, exp):
    pairs(Run(ctx, name, ev, ns_index={0: 6}, unroll=8 * len(exp) + 100), exp)
