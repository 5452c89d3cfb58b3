"""Documents whose nodes form a graph of hierarchical references, for the
sorting: the graph's shape, the direction in which each edge is written down
(on the parent, on the child, on both), the identifiers and the order of the
document are drawn; everything else of the nodes is left symbolic.  The real
sorting is analysed, not its stand-in."""
import os
import random
from .doc import *

CLSS = list(ELEMENTS.items())


def ids(rnd, n):
    out = set()
    while len(out) < n:
        k = rnd.random()
        ns = rnd.choice((0, 0, 1, 1, 2))
        i = "s=" + rnd.choice("abcxyz") * rnd.randint(1, 3) if k < .3 else "i=%d" % rnd.randint(1, 12 if k < .7 else 5000)
        out.add(("ns=%d;" % ns if ns else "") + i)
    l = sorted(out)
    rnd.shuffle(l)
    return l


class Graph:
    """nodes: identifiers in document order; edges: (parent, child)"""

    def __init__(self, rnd, n, edges=None, elems=None, back=None, p=.3, late=0, foreign=.2, selfref=.1, parent=0):
        self.rnd = rnd
        names = ids(rnd, n)
        self.rank = names
        self.elem = {x: rnd.choice(elems or ["UAObject"]) for x in names}
        self.edges = []
        for j in range(n):
            for i in range(j):
                if edges is not None:
                    if (i, j) in edges:
                        self.edges.append((names[i], names[j]))
                elif rnd.random() < p:
                    self.edges.append((names[i], names[j]))
        if back:
            for i, j in back:
                self.edges.append((names[i], names[j]))
        self.order = list(names)
        rnd.shuffle(self.order)
        self.refs = {x: [] for x in names}
        self.kinds = dict(KINDS)
        self.late = []
        for a, b in self.edges:
            how = rnd.choice("pcpcb")
            t = rnd.choice(("i=47", "i=35", "i=46"))
            if late and rnd.random() < late:
                t = rnd.choice(("i=9501", "i=9502"))
            if how in "pb":
                self.add(a, t, b, None)
            if how in "cb":
                self.add(b, t, a, "false")
        self.extra = extras(rnd) if rnd.random() < .6 else []
        for x in names:
            if rnd.random() < foreign:
                # absent nodes are only parents or only children: they close no loop
                f = rnd.randint(1, 6)
                self.add(x, "i=47", "ns=3;i=%d" % f, (None, "false")[f % 2])
            if rnd.random() < foreign:
                # other references do not order anything
                self.add(x, "i=37", rnd.choice(names), rnd.choice((None, "false")))
            if rnd.random() < selfref:
                self.add(x, "i=47", x, rnd.choice((None, "false")))
            rnd.shuffle(self.refs[x])
        for k, t in enumerate(("i=9501", "i=9502")):
            if any(t == r[0] for rs in self.refs.values() for r in rs):
                self.kinds[nid(t)] = ("late", "H")
                self.late.append(t)

    def add(self, x, t, y, fwd):
        self.refs[x].append((t, y, fwd))

    def body(self, x, k=0):
        rs = [ref(t, y, f, label="%s:%d:%d" % (x, j, k)) for j, (t, y, f) in enumerate(self.refs[x])]
        return node(self.elem[x], x, *([refs(*rs)] if rs else []))

    def content(self):
        out = [self.body(x) for x in self.order]
        for t in self.late:
            out.insert(self.rnd.randint(0, len(out)), node("UAReferenceType", t))
        for c, n in self.extra:
            out.insert(self.rnd.randint(0, len(out)), c)
        return out

    def nodes(self):
        return [(CLASS[self.elem[x]], nid(x)) for x in self.order] + [("REFERENCETYPE", nid(t)) for t in self.late] + [
            n for c, n in self.extra]

    def shape(self):
        return "%d nodes %s" % (len(self.order), " ".join("%s>%s" % e for e in self.edges))


def extras(rnd):
    """nodes with other features, which have nothing to do with the graph: content, [(class, id)]"""
    pool = [
        ("UAObject", "ns=4;i=1", [refs(ref("i=38", "ns=4;i=9", "false", label="x1"))], dict(bn="Default Binary")),
        ("UAVariable", "ns=4;i=2", [El("Value", (), El("Int32", (), T("xv2", "7")))], {}),
        ("UADataType", "ns=4;i=3", [El("Definition", [("Name", T("xd3", "D"))], El("Field", [("Name", T("xf3", "a"))]))], {}),
        ("UAObject", "ns=4;i=4", [El("Extensions", (), El("Extension", (), El("X", (), T("xx4"))))], {}),
        ("UAReferenceType", "ns=4;i=5", [refs(ref("i=45", "i=31", "false", label="x5")), El("InverseName", (), T("xi5"))], {}),
        ("UAVariable", "ns=4;i=6", [refs(ref("i=40", "i=63", label="x6"), ref("i=37", "i=78", label="x6b"))], {}),
        ("UAMethod", "ns=4;s=7", [El("DisplayName", (), T("xn7"))], {}),
        ("UAObject", "ns=4;i=8", [], dict(attrs=[("ParentNodeId", T("xp8", "i=85"))])),
        ("UAView", "ns=4;i=10", [refs(ref("i=35", "i=87", "false", label="x10"))], {}),
        ("UADataType", "ns=4;i=11", [refs(ref("i=38", "ns=4;i=1", label="x11"), ref("i=45", "i=22", "false", label="x12"))], {}),
    ]
    return [(node(e, i, *c, **k), (CLASS[e], nid(i))) for e, i, c, k in rnd.sample(pool, rnd.randint(0, 6))]


def graphs(ctx, n, key, **kw):
    seed = int(os.environ.get("VERIF_SEED") or "1")
    for k in range(n * (5 if ctx.thorough else 1)):
        rnd = random.Random("%s/%d/%d" % (key, seed, k))
        yield k, rnd


def analyse(ctx, name, content, kinds, **kw):
    """analysis of the document with the real sorting"""
    return Run(ctx, name, nodeset(*content), kinds=kinds, real_sort=True, **kw)


def then(ctx, r, name, content):
    """another file is imported and sorted behind the sorting of the first"""
    return Run(ctx, name, nodeset(*content), states=[s for s, _ in r.result], world=r.w)
