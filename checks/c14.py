"""Value-flow analysis of the alias handling: which NodeId every use of an alias
resolves to, for alias tables of several sizes (beyond the table's initial
capacity), similar names and undefined names."""
from engine.doc import *
from engine.family import family
from engine import counters

SHARDS = 8

V = "UAVariable"


def al(name, ident):
    return El("Alias", [("Alias", T("an:" + name, name))], T("ai:" + name, ident))


def use(name, k=0):
    """one node which uses the name in every place an alias may stand"""
    return (node(V, "i=%d" % (900 + k), refs(ref(name, name, label="use%d" % k)), attrs=[("DataType", T("dt%d" % k, name))]),
            node("UAVariableType", "i=%d" % (1200 + k), attrs=[("DataType", T("vt%d" % k, name))]),
            node("UADataType", "i=%d" % (600 + k), El("Definition", [("Name", T("dn%d" % k))], El(
                "Field", [("Name", T("fn%d" % k)), ("DataType", T("fd%d" % k, name))]))))


def expect(r, k, ident):
    r.expect("alias", (0, "i=%d" % (900 + k)), "VARIABLE", {
        "datatype": ident, "hierachicalRefs": [], "nonHierachicalRefs": [(1, ident, ident)]})
    r.expect("alias", (0, "i=%d" % (1200 + k)), "VARIABLETYPE", {"datatype": ident})

    def field(d):
        return isinstance(d, dict) and isinstance(d["fields"], list) and len(d["fields"]) == 1 and \
            d["fields"][0].get("dataType") == ident
    field.__doc__ = "a field of the data type %s" % show(ident)
    r.expect("alias", (0, "i=%d" % (600 + k)), "DATATYPE", {"definition": field})


def run(ctx):
    counters.check(ctx, "src/AliasList.c")
    names = ["Int32", "Int", "Int3", "Int322", "int32", "HasA", "nt32", "HasAB", "I"]
    for n in range(1, len(names) + 1):
        tab = names[:n]
        ev = El("Aliases", (), *[x for k, a in enumerate(tab) for x in al(a, "ns=%d;s=of-%s" % (k % 2, a))])
        us = []
        for k, a in enumerate(names):
            us += [x for y in use(a, k) for x in y]
        r = Run(ctx, "%d aliases" % n, nodeset(El("NamespaceUris", (), El("Uri", (), T("u"))), ev, us), ns_index={0: 4},
                kinds={})
        for k, a in enumerate(tab):
            expect(r, k, ((k % 2) * 4, "s=of-" + a))
        # a name which is no alias is taken as a NodeId (here: not a valid one)
        for k in range(n, len(names)):
            expect(r, k, None)
    # NodeIds in text form are no aliases
    r = Run(ctx, "NodeIds next to aliases", nodeset(El("Aliases", (), al("A", "i=5"), al("i", "i=6")), *use("ns=0;s=direct")))
    expect(r, 0, (0, "s=direct"))
    # names of any shape
    odd = ("x=y", "ns=1;s=z", "i=77", "=", "s=", ";", "1", "47", "a b", " a", "a ", ":", "1:A", "", "ns=1;", "g=", "Int32;", "true", "\u00e4", "A" * 300)
    for n in (1, 4, len(odd)):
        for k in range(0, len(odd), n):
            tab = odd[k:k + n]
            us = [x for j, a in enumerate(tab) for y in use(a, j) for x in y]
            r = Run(ctx, "aliases named %s" % ", ".join('"%s"' % a[:20] for a in tab), nodeset(
                El("NamespaceUris", (), El("Uri", (), T("u"))),
                El("Aliases", (), *[x for j, a in enumerate(tab) for x in al(a, "ns=%d;s=of-%d" % (j % 2, j))]), us), ns_index={0: 4}, kinds={})
            for j, a in enumerate(tab):
                expect(r, j, ((j % 2) * 4, "s=of-%d" % j))
    # names which differ at one place only, whatever their length
    for n in (8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300) + ((511, 512, 1023, 1024) if ctx.thorough else ()):
        for diff in sorted({0, n // 2, n - 1}):
            tab = ["n" * diff + x + "n" * (n - diff - 1) for x in "abcd"]
            us = [x for j, a in enumerate(tab) for y in use(a, j) for x in y]
            r = Run(ctx, "names of %d characters which differ in character %d" % (n, diff), nodeset(
                El("Aliases", (), *[x for j, a in enumerate(tab[:3]) for x in al(a, "s=of-%d" % j)]), us), kinds={})
            for j in range(4):
                expect(r, j, (0, "s=of-%d" % j) if j < 3 else None)
        # one is the beginning of the other
        tab = ["m" * n, "m" * (n + 1), "m" * (n - 1)]
        us = [x for j, a in enumerate(tab) for y in use(a, j) for x in y]
        r = Run(ctx, "names of %d, %d and %d same characters" % (n, n + 1, n - 1), nodeset(
            El("Aliases", (), *[x for j, a in enumerate(tab) for x in al(a, "s=of-%d" % j)]), us), kinds={})
        for j in range(3):
            expect(r, j, (0, "s=of-%d" % j))
    # the definition of an alias may be empty or lack its name
    r = Run(ctx, "alias without a name", nodeset(El("Aliases", (), El("Alias", (), T("x", "i=3")), al("B", "i=8")), *use("B")))
    expect(r, 0, (0, "i=8"))
    # tables larger than their first allocation
    for n in (299, 300, 301, 302) + ((599, 600, 601, 950) if ctx.thorough else ()):
        ev = [x for k in range(n) for x in al("Alias%d" % k, "i=%d" % (20000 + k))]
        at = sorted({0, n // 2, n - 2, n - 1})
        us = []
        for j, k in enumerate(at):
            us += [x for y in use("Alias%d" % k, j) for x in y]
        r = Run(ctx, "%d aliases" % n, nodeset(El("Aliases", (), ev), us), unroll=1100)
        for j, k in enumerate(at):
            expect(r, j, (0, "i=%d" % (20000 + k)))
    # aliases are local to a file
    r = Run(ctx, "first file", nodeset(El("Aliases", (), al("A", "i=5"))), sort=False)
    r2 = Run(ctx, "second file, alias of the first", nodeset(El("Aliases", (), al("B", "i=6")), *use("A")),
             states=[s for s, v in r.imported], world=r.w)
    expect(r2, 0, None)
    r = Run(ctx, "first file", nodeset(El("Aliases", (), al("A", "i=5")), *use("A", 1)), sort=False)
    r2 = Run(ctx, "second file redefines an alias", nodeset(El("Aliases", (), al("A", "i=6")), *use("A")),
             states=[s for s, v in r.imported], world=r.w)
    expect(r2, 0, (0, "i=6"))
    expect(r2, 1, (0, "i=5"))
    family(ctx, "alias", ["ids", "refs", "definition"], 120, alias=.9)
    ctx.require("alias", 250)
