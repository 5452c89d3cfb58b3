"""Value-flow analysis of the attribute extraction: for every element and every
attribute of the schema the analysis determines which characters of the document
end up in which member of the node handed out - for a value of any length and
any content, in any position among the attributes, next to attributes with
similar names - and which value the member has when the attribute is absent."""
from engine.doc import *
from engine.family import family
from engine.io import IO

SHARDS = 8


def value(how, a):
    return T("v:" + a, "s=%s-value" % a) if how == "id" else T("v:" + a)


def expected(how, a):
    return (0, "s=%s-value" % a) if how == "id" else text("v:" + a)


class Read(Run):
    """a document the way the parser delivers it"""

    def analyse(self, events, states, world, sort, kw):
        kw.setdefault("kinds", KINDS)
        w = IO(self.ctx, report=self.problem, **kw)
        w.when, w.pieces = 1, 1
        Run.analyse(self, events, states, w, sort, kw)


def run(ctx):
    for e, (c, at) in ELEMENTS.items():
        at = {a: x for a, x in at.items()}
        base = {m: (("lit", d) if how == "text" else d) for a, (m, how, d) in at.items()}

        def case(name, attrs, present):
            r = Run(ctx, "%s %s" % (e, name), nodeset(El(e, attrs)))
            exp = dict(base)
            for a in present:
                m, how, d = at[a]
                exp[m] = expected(how, a)
            exp["id"] = (0, "i=77")
            exp["browseName.name"] = text("bn")
            exp["browseName.nsIdx"] = 0
            r.expect("attributes", (0, "i=77"), c, exp)

        idattr = ("NodeId", T("id", "i=77"))
        bn = ("BrowseName", T("bn", "Bn"))
        for name, at2 in (("without attributes", ()), ("with foreign attributes only", [("x", T("x")), ("y", T("y"))])):
            r = Run(ctx, "%s %s" % (e, name), nodeset(El(e, at2)))
            r.expect("attributes", None, c, dict(base, **{"browseName.name": NULL, "browseName.nsIdx": 0}))
        case("without optional attributes", [idattr, bn], [])
        alls = [(a, value(at[a][1], a)) for a in at]
        case("with all attributes", [idattr, bn] + alls, list(at))
        case("with all attributes in reverse order", alls[::-1] + [bn, idattr], list(at))
        for a in at:
            v = value(at[a][1], a)
            case("with the attribute %s" % a, [idattr, bn, (a, v)], [a])
            case("with the attribute %s first" % a, [(a, v), bn, idattr], [a])
            foreign = [(n, T("x:" + n, "s=foreign")) for n in (a + "X", a[:-1], a.lower(), "X" + a, a[0])]
            case("with attributes similar to %s" % a, [idattr, bn] + foreign, [])
            case("with %s behind similar attributes" % a, [idattr, bn] + foreign + [(a, v)], [a])
        # attributes of other elements are of no effect here
        others = sorted({a for _, o in ELEMENTS.values() for a in o} - set(at))
        case("with the attributes of other classes", [idattr, bn] + [(a, T("o:" + a, "s=other")) for a in others], [])
        for a in ("NodeIdX", "nodeid", "BrowseNam", "ReleaseStatus", "SymbolicName"):
            case("with the attribute %s before the others" % a, [(a, T("y:" + a, "i=13")), idattr, bn], [])
        # any number of attributes in front of, between and behind them
        for n in (8, 17, 40, 70, 140) + ((300,) if ctx.thorough else ()):
            def many(k):
                return [("f%d.%d" % (k, j), T("f%d.%d" % (k, j))) for j in range(n)]
            case("with %d other attributes in front" % n, many(0) + [idattr, bn] + alls, list(at))
            case("with %d other attributes in the middle" % n, [bn, idattr] + many(0) + alls + many(1), list(at))
        # no value is taken over from the node before
        i2 = El(e, [("NodeId", T("id0", "i=70")), ("BrowseName", T("bn0", "B0"))] + [
            (a, T("p:" + a, "s=previous-" + a) if at[a][1] == "id" else T("p:" + a)) for a in at])
        r = Run(ctx, "%s after one with all attributes" % e, nodeset(i2, El(e, [idattr, bn])))
        r.expect("attributes", (0, "i=77"), c, base)
        exp = {at[a][0]: ((0, "s=previous-" + a) if at[a][1] == "id" else text("p:" + a)) for a in at}
        r.expect("attributes", (0, "i=70"), c, exp)
        # the browse name: "index:name", the name is everything behind the first colon
        for k, (s, ns, cut) in enumerate((("Plain", 0, 0), ("0:A", 0, 2), ("1:A b", 1, 2), ("1:a:b", 1, 2),
                                          ("12:Name", 12, 3), ("1:", 1, 2), ("", 0, 0), ("65535:a", 65535, 6), ("00003:a", 3, 6),
                                          ("300:" + "n" * 300, 300, 4), ("m" * 1500, 0, 0), ("7:" + "m" * 1500 + ":n", 7, 2))):
            r = Run(ctx, '%s with the browse name "%s"' % (e, s), nodeset(El(e, [idattr, ("BrowseName", T("b", s))])))
            r.expect("browse-name", (0, "i=77"), c, {
                "browseName.nsIdx": ns, "browseName.name": ends(s, cut)})
        # an ampersand is delivered by the parser as "&#38;" unless it is told to replace references
        alls = [(a, T("v:" + a, "s=a&b" if at[a][1] == "id" else "a&b <c>")) for a in at if at[a][1] in ("id", "text")]
        exp = dict(base, **{at[a][0]: ((0, "s=a&b") if at[a][1] == "id" else text("v:" + a)) for a, _ in alls})
        r = Read(ctx, "%s with ampersands" % e, nodeset(El(e, [("NodeId", T("id", "s=i&d")), ("BrowseName", T("b", "1:a&b"))] + alls)))
        r.expect("attributes", (0, "s=i&d"), c, dict(exp, **{"id": (0, "s=i&d"), "browseName.nsIdx": 1, "browseName.name": ends("1:a&b", 2)}))
    family(ctx, "attributes", ["ids", "attr"], 120, foreign=.6, nodes=6)
    ctx.require("attributes", 200)
    ctx.require("browse-name", 50)


def ends(s, cut):
    def f(got):
        if got == ("suffix", "b", cut) and cut:
            return True
        return got == text("b") and not cut or got == ("lit", s[cut:])
    f.__doc__ = '"%s"' % s[cut:]
    return f
