"""Value-flow analysis of the value builder: for value elements of every shape
(scalars, lists, structures, nesting, extension objects, lists of them, empty and
malformed forms) the analysis determines the tree handed out with the variable
and compares it, member by member, with the structure of the document."""
from engine.doc import *
from engine.family import family
from engine import counters

SHARDS = 8
WS = T("ws", "\n ")
_n = [0]


def leaf(name, empty=False):
    """(events, expected tree)"""
    _n[0] += 1
    l = "v%d" % _n[0]
    return El(name, (), *([] if empty else [T(l)])), ("prim", name, NULL if empty else text(l))


def tree(name, *members, ws=False):
    ev = []
    for e, x in members:
        ev += ([("C", WS)] if ws else []) + e
    if ws:
        ev.append(("C", WS))
    return El(name, (), ev), ("complex", name, [x for e, x in members])


def eo(tid, body, ws=False):
    w = [("C", WS)] if ws else []
    _n[0] += 1
    t = T("tid%d" % _n[0])
    parts = w + (El("TypeId", (), w, El("Identifier", (), t), w) if tid else []) + w + El("Body", (), w, body[0], w) + w
    return El("ExtensionObject", (), parts), body[1], text(t.label) if tid else NULL


def value(arr, ext, ty, data):
    return {"isArray": arr, "isExtensionObject": ext, "type": ty, "data": data}


def shapes(ctx):
    prims = ["Boolean", "Int32", "String", "Guid", "Double", "ByteString", "DateTime"]
    for p in prims:
        for ws in (False, True):
            e, x = leaf(p)
            yield "scalar %s" % p, e, value(0, 0, ("lit", p), x), ws
        e, x = leaf(p, True)
        yield "empty scalar %s" % p, e, value(0, 0, ("lit", p), x), False
        for n in (1, 2, 3, 7) + ((40,) if ctx.thorough else ()):
            for ws in (False, True):
                ms = [leaf(p) for _ in range(n)]
                e, x = tree("ListOf" + p, *ms, ws=ws)
                yield "list of %d %s" % (n, p), e, value(1, 0, ("lit", p), x), ws
        ms = [leaf(p), leaf(p, True), leaf(p)]
        e, x = tree("ListOf" + p, *ms)
        yield "list of %s with an empty member" % p, e, value(1, 0, ("lit", p), x), False
    for nm in ("ListOfString", "ListOfExtensionObject"):
        yield "empty " + nm, El(nm), value(1, 0, NULL, ("complex", nm, [])), False
    # structures
    for ws in (False, True):
        for name, sub in (("LocalizedText", ["Locale", "Text"]), ("QualifiedName", ["NamespaceIndex", "Name"]),
                          ("NodeId", ["Identifier"])):
            e, x = tree(name, *[leaf(s) for s in sub], ws=ws)
            yield "scalar " + name, e, value(0, 0, ("lit", name), x), ws
            ms = [tree(name, *[leaf(s) for s in sub], ws=ws) for _ in range(3)]
            e, x = tree("ListOf" + name, *ms, ws=ws)
            yield "list of " + name, e, value(1, 0, ("lit", name), x), ws
        a = tree("A", leaf("x"), tree("B", leaf("y"), leaf("x")), leaf("z"), ws=ws)
        yield "nested structure", a[0], value(0, 0, ("lit", "A"), a[1]), ws
        a = tree("A", tree("A", leaf("A"), leaf("A")), leaf("A"), ws=ws)
        yield "nested elements of one name", a[0], value(0, 0, ("lit", "A"), a[1]), ws
        d = leaf("x")
        for k in range(6):
            d = tree("L%d" % (k % 3), d, ws=ws)
        yield "deep structure", d[0], value(0, 0, ("lit", "L2"), d[1]), ws
        for n in (12, 24, 36, 72, 144) + ((300,) if ctx.thorough else ()):
            d = leaf("x")
            for k in range(n):
                d = tree("L%d" % (k % 3), *([d, leaf("y")] if k % 7 == 3 else [d]), ws=ws)
            yield "structure of depth %d" % n, d[0], value(0, 0, ("lit", "L2"), d[1]), ws
        for n in (20, 70, 140, 270):
            d = tree("L", *[leaf("m%d" % k) for k in range(n)], ws=ws)
            yield "structure of %d members" % n, d[0], value(0, 0, ("lit", "L"), d[1]), ws
            d = tree("ListOfInt32", *[leaf("Int32") for k in range(n)], ws=ws)
            yield "list of %d members" % n, d[0], value(1, 0, ("lit", "Int32"), d[1]), ws
        for n in (40, 300):
            d = tree("L" * n, leaf("m" * n), leaf("k" * (n + 1)), ws=ws)
            yield "names of %d characters" % n, d[0], value(0, 0, ("lit", "L" * n), d[1]), ws
        # extension objects
        for tid in (True, False):
            b = tree("Point", leaf("X"), leaf("Y"), ws=ws)
            e, x, t = eo(tid, b, ws)
            yield "extension object%s" % ("" if tid else " without type"), e, value(0, 1, t, x), ws
            b = tree("Line", tree("P", leaf("X"), leaf("Y"), ws=ws), tree("P", leaf("X"), leaf("Y"), ws=ws), leaf("Name"), ws=ws)
            e, x, t = eo(tid, b, ws)
            yield "extension object with nested structure%s" % ("" if tid else " without type"), e, value(0, 1, t, x), ws
            b = tree("S", tree("ListOfInt32", leaf("Int32"), leaf("Int32"), ws=ws), leaf("Q"), ws=ws)
            e, x, t = eo(tid, b, ws)
            yield "extension object with a list inside", e, value(0, 1, t, x), ws
            for n in (1, 2, 3):
                os_, xs, tt = [], [], NULL
                for k in range(n):
                    b = tree("Point", leaf("X"), tree("In", leaf("Y"), leaf("X"), ws=ws), ws=ws)
                    e, x, t = eo(tid, b, ws)
                    os_ += ([("C", WS)] if ws else []) + e
                    xs.append(x)
                    tt = t
                yield "list of %d extension objects" % n, El("ListOfExtensionObject", (), os_), \
                    value(1, 1, tt, ("complex", "ListOfExtensionObject", xs)), ws


def run(ctx):
    counters.check(ctx, "src/Value.c")
    _n[0] = 0
    for name, ev, exp, ws in shapes(ctx):
        c = [WS] if ws else []
        r = Run(ctx, "%s%s" % (name, " with white space" if ws else ""), nodeset(node("UAVariable", "i=1", El(
            "Value", (), *(c + [ev] + c)), El("DisplayName", (), T("after")))))
        r.expect("value", (0, "i=1"), "VARIABLE", {"value": exp, "displayName.text": text("after")})
    # white space within a text, of any length
    for n in (1, 2, 3, 7, 8, 15, 16, 31, 33, 64, 70, 130, 260, 300, 1025) + ((2000, 4100) if ctx.thorough else ()):
        for k, (t, keep) in enumerate(((" " * n + "x", True), ("x" + "\n" * n, True), ("\t" * n + "x" + " " * n, True), (" " * (n - 1) + "\r", False))):
            l = "w%d.%d" % (n, k)
            r = Run(ctx, "text with %d blanks, %d" % (n, k), nodeset(node("UAVariable", "i=1", El("Value", (), El("String", (), T(l, t))))))
            r.expect("value", (0, "i=1"), "VARIABLE", {"value": value(0, 0, ("lit", "String"), ("prim", "String", text(l) if keep else NULL))})
    # a value belongs to its variable alone
    a, b = leaf("Int32"), tree("ListOfString", leaf("String"), leaf("String"))
    r = Run(ctx, "two variables", nodeset(node("UAVariable", "i=1", El("Value", (), a[0])),
                                          node("UAVariable", "i=2"), node("UAVariable", "i=3", El("Value", (), b[0]))))
    r.expect("value", (0, "i=1"), "VARIABLE", {"value": value(0, 0, ("lit", "Int32"), a[1])})
    r.expect("value", (0, "i=2"), "VARIABLE", {"value": None})
    r.expect("value", (0, "i=3"), "VARIABLE", {"value": value(1, 0, ("lit", "String"), b[1])})
    # malformed values are tolerated, the rest of the node is read
    x, y = leaf("Int32"), leaf("Int32")
    l1 = tree("ListOfInt32", leaf("Int32"))
    bad = [("empty value", []), ("two scalars", x[0] + y[0]), ("scalar and list", x[0] + l1[0]), ("list and scalar", l1[0] + x[0]),
           ("extension object without body", El("ExtensionObject")), ("extension object with an empty body", El("ExtensionObject", (), El("Body"))),
           ("two extension objects", eo(True, tree("A", leaf("a")))[0] * 2),
           ("body with two elements", El("ExtensionObject", (), El("Body", (), x[0], y[0]))),
           ("list of extension objects and others", El("ListOfExtensionObject", (), eo(True, tree("A", leaf("a")))[0], x[0], y[0])),
           ("list mixing both", El("ListOfExtensionObject", (), x[0], eo(True, tree("A", leaf("a")))[0])),
           ("extension object, then a list", eo(True, tree("A", leaf("a")))[0] + l1[0]),
           ("extension object without body, then scalar", El("ExtensionObject") + x[0]),
           ("extension object without body, then list", El("ExtensionObject") + l1[0] + x[0]),
           ("unknown parts of an extension object", El("ExtensionObject", (), El("Foo", (), El("Body", (), x[0])), El("Body", (), El("A", (), y[0])))),
           ("type id only", El("ExtensionObject", (), El("TypeId", (), El("Identifier", (), T("t"))))),
           ("text only", [("C", T("junk"))]), ("value in value", El("Value", (), El("Value", (), x[0]))),
           ("two bodies", El("ExtensionObject", (), El("Body", (), x[0]), El("Body", (), y[0])))]
    for name, ev in bad:
        r = Run(ctx, name, nodeset(node("UAVariable", "i=1", El("Value", (), ev), El("DisplayName", (), T("after")),
                                        refs(ref("i=47", "i=4"))), node("UAObject", "i=2")))
        r.expect("tolerant", (0, "i=1"), "VARIABLE", {"displayName.text": text("after"), "hierachicalRefs": [(1, H, (0, "i=4"))]})
        r.expect_nodes("tolerant", [("VARIABLE", (0, "i=1")), ("OBJECT", (0, "i=2"))])
    # a Value element on other classes has no effect
    for e, (c, _) in ELEMENTS.items():
        if c == "VARIABLE":
            continue
        r = Run(ctx, "value of a %s" % e, nodeset(node(e, "i=1", El("Value", (), x[0]), El("DisplayName", (), T("after")))))
        r.expect("value", (0, "i=1"), c, {"displayName.text": text("after")})
    family(ctx, "value", ["value"], 160, value=1, nodes=6)
    ctx.require("value", 100)
    ctx.require("tolerant", 30)
