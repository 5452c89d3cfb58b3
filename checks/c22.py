"""Value-flow analysis of the parent attribute: for every class of node, with
and without hierarchical references, with a parent that is unknown, comes
before or after the node or refers to it, the analysis determines the
hierarchical references of the node handed out."""
from engine.graphs import *
from engine.doc import *

SHARDS = 8

HC = (0, "i=47")
INST = ("UAObject", "UAVariable", "UAMethod", "UAView")


def child(elem, *rs, parent="i=50", ident="i=1"):
    a = [("ParentNodeId", T("pn:" + ident, parent))] if parent else []
    return node(elem, ident, *([refs(*rs)] if rs else []), attrs=a)


def hier(r, elem, exp, ident="i=1"):
    r.expect("parent", nid(ident), CLASS[elem], {"hierachicalRefs": exp})


def run(ctx):
    n37 = lambda: ref("i=37", "i=60")
    for e in ELEMENTS:
        inst = e in INST
        for p in ("i=50", "ns=1;i=50", "s=parent", "ns=2;s=x"):
            gen = [(0, HC, nid(p))] if inst else []
            r = analyse(ctx, "%s with the absent parent %s" % (e, p), [child(e, parent=p)], KINDS)
            hier(r, e, gen)
            r = analyse(ctx, "%s with the absent parent %s and other references" % (e, p),
                        [child(e, n37(), parent=p)], KINDS)
            hier(r, e, gen)
            r = analyse(ctx, "%s in front of its parent %s" % (e, p), [child(e, parent=p), node("UAObject", p)], KINDS)
            hier(r, e, gen)
            r = analyse(ctx, "%s behind its parent %s" % (e, p), [node("UAObject", p), child(e, parent=p)], KINDS)
            hier(r, e, gen)
            r = analyse(ctx, "%s behind its parent %s with references to others" % (e, p), [
                node("UAObject", p, refs(ref("i=35", "i=2"), ref("i=47", "i=3", "false"), ref("i=37", "i=1"))), child(e, parent=p)], KINDS)
            hier(r, e, gen)
            # the parent's reference is mirrored
            for t in ("i=35", "i=46", "i=47"):
                for d, fwd in ((None, 1), ("false", 0)):
                    mir = [(1 - fwd, nid(t), nid(p))] if inst else []
                    r = analyse(ctx, "%s whose parent %s refers to it with %s (%s)" % (e, p, t, d), [
                        node("UAObject", p, refs(ref(t, "i=1", d))), child(e, parent=p)], KINDS)
                    hier(r, e, mir)
                    r = analyse(ctx, "%s whose parent %s refers to it and others with %s (%s)" % (e, p, t, d), [
                        node("UAObject", p, refs(ref("i=35", "i=7"), ref(t, "i=1", d), ref("i=47", "i=8"))),
                        node("UAObject", "i=7"), child(e, parent=p)], KINDS)
                    hier(r, e, mir)
                # with hierarchical references of its own nothing is added
                for d, fwd in ((None, 1), ("false", 0)):
                    r = analyse(ctx, "%s with a parent %s and a reference %s (%s)" % (e, p, t, d), [
                        node("UAObject", p, refs(ref("i=47", "i=1"))), child(e, ref(t, "i=70", d), parent=p)], KINDS)
                    hier(r, e, [(fwd, nid(t), (0, "i=70"))])
        # a parent with many references, among many nodes
        if inst:
            for n in (18, 70) if ctx.thorough else (18, 40):
                for at in (0, n // 2, n - 1):
                    many = [ref("i=35" if k % 2 else "i=37", "i=%d" % (1000 + k)) for k in range(n)]
                    many.insert(at, ref("i=46", "i=1"))
                    r = analyse(ctx, "%s whose parent refers to it with the reference %d of %d" % (e, at, n), [
                        node("UAObject", "i=50", refs(*many)), child(e)], KINDS, unroll=4 * n + 100)
                    hier(r, e, [(0, nid("i=46"), (0, "i=50"))])
                    ns = [node("UAObject", "i=%d" % (1000 + k)) for k in range(n)]
                    ns.insert(at, node("UAObject", "i=50", refs(ref("i=46", "i=1"))))
                    r = analyse(ctx, "%s whose parent is node %d of %d" % (e, at, n), ns + [child(e)], KINDS, unroll=8 * n + 100)
                    hier(r, e, [(0, nid("i=46"), (0, "i=50"))])
        # no parent, a parent which is null
        r = analyse(ctx, e + " without parent", [child(e, parent=None)], KINDS)
        hier(r, e, [])
        r = analyse(ctx, e + " with the null parent", [child(e, parent="i=0")], KINDS)
        hier(r, e, [])
        r = analyse(ctx, e + " without parent behind a node that refers to it", [
            node("UAObject", "i=50", refs(ref("i=47", "i=1"))), child(e, parent=None)], KINDS)
        hier(r, e, [])
        # the parent was sorted before
        for t in ("i=35", "i=46", None):
            for d, fwd in ((None, 1), ("false", 0)):
                r = analyse(ctx, "first file", [node("UAObject", "i=50", refs(ref("i=35", "i=7"), *([ref(t, "i=1", d)] if t else []), ref("i=47", "i=8")))], KINDS)
                r2 = then(ctx, r, "%s whose parent was sorted before and refers to it with %s (%s)" % (e, t, d), [child(e)])
                hier(r2, e, [(1 - fwd, nid(t), (0, "i=50"))] if inst and t else [(0, HC, (0, "i=50"))] if inst else [])
        r = analyse(ctx, "first file", [child(e)], KINDS)
        r2 = then(ctx, r, "%s sorted before its parent is imported" % e, [node("UAObject", "i=50", refs(ref("i=35", "i=1"))), child(e, ident="i=2")])
        hier(r2, e, [(0, HC, (0, "i=50"))] if inst else [])
        hier(r2, e, [(0, HC, (0, "i=50"))] if inst else [], "i=2")
        # deferred nodes
        kinds = dict(KINDS)
        kinds[(0, "i=9501")] = ("late", "H")
        kinds[(0, "i=9502")] = ("late", "N")
        r = analyse(ctx, e + " with a parent and a hierarchical type known later", [
            child(e, ref("i=9501", "i=70")), node("UAReferenceType", "i=9501")], kinds)
        hier(r, e, [(1, (0, "i=9501"), (0, "i=70"))])
        r = analyse(ctx, e + " with a parent and another type known later", [
            child(e, ref("i=9502", "i=70")), node("UAReferenceType", "i=9502")], kinds)
        hier(r, e, [(0, HC, (0, "i=50"))] if inst else [])
        # siblings
        r = analyse(ctx, "several %s with one parent" % e, [
            node("UAObject", "i=50", refs(ref("i=35", "i=2"), ref("i=46", "i=3")))] +
            [child(e, ident="i=%d" % k) for k in (1, 2, 3)], KINDS)
        hier(r, e, [(0, HC, (0, "i=50"))] if inst else [], "i=1")
        hier(r, e, [(0, (0, "i=35"), (0, "i=50"))] if inst else [], "i=2")
        hier(r, e, [(0, (0, "i=46"), (0, "i=50"))] if inst else [], "i=3")
    ctx.require("parent", 300)
