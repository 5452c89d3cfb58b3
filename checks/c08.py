"""Value-flow analysis of the element handlers: for every element of the nodeset
schema that describes a node (and for names that only resemble one) the abstract
interpreter follows the registered SAX callbacks and reads back which node, of
which class and structure, is handed out to a caller of the iteration API."""
from engine.doc import *
from engine.family import family
from engine import counters
from engine.fmt import text as text_in

SHARDS = 8


def run(ctx):
    counters.check(ctx, "src/NodesetLoader.c", "src/nodes/NodeContainer.c")
    allids = []
    events = []
    for k, (e, (c, _)) in enumerate(ELEMENTS.items()):
        i = "i=%d" % (1000 + k)
        r = Run(ctx, "document with one %s" % e, nodeset(node(e, i)))
        r.expect_nodes("class", [(c, (0, i))])
        r.expect("class", (0, i), c, {"nodeClass": ctx.mod.enums["NODECLASS_" + c]})
        allids.append((c, (0, i)))
        events += node(e, i)
    r = Run(ctx, "document with every node element", nodeset(events))
    r.expect_nodes("class", allids)
    for c, i in allids:
        r.expect("class", i, c, {"nodeClass": ctx.mod.enums["NODECLASS_" + c]})
    # twice the same class
    for e, (c, _) in ELEMENTS.items():
        r = Run(ctx, "two %s" % e, nodeset(node(e, "i=1"), node(e, "i=2")))
        r.expect_nodes("class", [(c, (0, "i=1")), (c, (0, "i=2"))])
        for name, at in (("without attributes", ()), ("without a NodeId", [("BrowseName", T("bn", "1:B"))]),
                         ("with foreign attributes only", [("x", T("x")), ("y", T("y"))])):
            r = Run(ctx, "%s %s" % (e, name), nodeset(El(e, at)))
            r.expect_nodes("class", [(c, None)])
            r.expect("class", None, c, {"nodeClass": ctx.mod.enums["NODECLASS_" + c]})
        r = Run(ctx, "%s inside others" % e, nodeset(node("UAObject", "i=1"), node(e, "i=2"), node("UAVariable", "i=3")))
        r.expect("class", (0, "i=2"), c, {"nodeClass": ctx.mod.enums["NODECLASS_" + c]})
    names(ctx)
    # names which are none of the elements
    near = set()
    for e in ELEMENTS:
        near |= {e + "s", e[:-1], e[2:], e.lower(), "X" + e, e + "Type", e.replace("Type", "Typ")}
    near -= set(ELEMENTS)
    for x in sorted(near):
        r = Run(ctx, "element %s" % x, nodeset(node(x, "i=1"), node("UAObject", "i=2")))
        r.expect_nodes("no-node", [("OBJECT", (0, "i=2"))])
    family(ctx, "class", [], 120, nodes=12)
    ctx.require("class", 30)
    ctx.require("no-node", 20)


def names(ctx):
    """the table of class names, and which classes are instances"""
    m = ctx.mod
    if not ctx.skip():
        g = m.globals.get("NL_NODECLASS_NAME")
        at = {o: v for o, n, v in (g or {}).get("init") or []}
        for c in ELEMENTS:
            v = at.get(8 * m.enums["NODECLASS_" + CLASS[c]])
            got = text_in(m, v[1], v[2] if len(v) > 2 else 0) if v and v[0] == "g" else None
            ctx.ob("class-name", None if got is None else "UA" + got == c, "the name of the class of %s is %s" % (c, got),
                   "%s:%s" % (g["file"], g["line"]) if g else None, "NL_NODECLASS_NAME")
    for e, (c, _) in ELEMENTS.items():
        r = Run(ctx, "is a %s an instance" % e, nodeset(node(e, "i=1")))
        if r.skip:
            continue
        for st, l in r.result:
            for c2, n, cx in l:
                for s, v in r.w.call([st], "NodesetLoader_isInstanceNode", lambda _: [n]):
                    v = r.w.eng.norm(s, v)
                    want = e in ("UAObject", "UAVariable", "UAMethod", "UAView")
                    r.ob(s, "instance", None if v.t else bool(v.c & 1) == want, "%s: %s" % (r.name, "no" if v.t or not v.c else "yes"),
                         ctx.at("NodesetLoader_isInstanceNode"), "NodesetLoader_isInstanceNode")
