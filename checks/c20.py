"""Value-flow analysis of the sorting, including its search tree: for graphs of
hierarchical references of many shapes - written on the parent, on the child or
on both, with identifiers of any order and the nodes in any order, with other
references, references to absent nodes and to the node itself - the analysis
determines the order in which the nodes of each class are handed out and
compares the position of every parent with that of its children."""
from engine.graphs import *
from engine.family import family
from engine import counters

SHARDS = 8


def ordered(r, edges):
    r.alive("order")
    for st, l in r.result:
        pos, unk = {}, False
        for k, (c, n, cx) in enumerate(l):
            m = r.w.snap(st, n, r.w.STRUCT[c])
            i = m.get("id") if m else UNK
            unk |= i == UNK
            pos[str(i)] = (c, k)
        for a, b in edges:
            x, y = pos.get(str(nid(a))), pos.get(str(nid(b)))
            if x is None or y is None:
                r.ob(st, "order", None if unk else False, "%s: node %s is not handed out" % (r.name, a if x is None else b),
                     r.ctx.at("Sort_start"), "Sort_start")
                continue
            if x[0] != y[0]:
                continue
            r.ob(st, "order", True if x[1] < y[1] else None if unk else False,
                 "%s: %s is handed out before its child %s" % (r.name, a, b), r.ctx.at("Sort_start"), "Sort_start")


def run(ctx):
    counters.check(ctx, "src/Sort.c")
    # every graph of three nodes, every way to write its edges down
    import itertools
    for elem, (c, _) in ELEMENTS.items():
        for order in itertools.permutations(range(3)):
            for how in ("ppp", "ccc", "pcb"):
                es = [(0, 1), (1, 2), (0, 2)] if how == "pcb" else [(0, 1), (1, 2)]
                names = ["ns=1;i=5", "i=9", "ns=1;s=a"]
                rs = {x: [] for x in names}
                for (i, j), h in zip(es, how):
                    a, b = names[i], names[j]
                    if h in "pb":
                        rs[a].append(ref("i=47", b))
                    if h in "cb":
                        rs[b].append(ref("i=47", a, "false"))
                body = [node(elem, names[i], refs(*rs[names[i]])) for i in order]
                r = analyse(ctx, "%s chain in the order %s written %s" % (elem, order, how), body, KINDS)
                ordered(r, [(names[i], names[j]) for i, j in es])
    for k, rnd in graphs(ctx, 160, "c20"):
        n = rnd.randint(2, 10)
        el = rnd.choice((["UAObject"], ["UAObjectType"], ["UAObject", "UAVariable"], ["UADataType"], list(ELEMENTS)))
        g = Graph(rnd, n, p=rnd.choice((.15, .3, .6)), elems=el, late=rnd.choice((0, 0, .3)))
        r = analyse(ctx, "graph %d: %s" % (k, g.shape()), g.content(), g.kinds)
        ordered(r, g.edges)
    # deep chains against the order of the identifiers
    for n in (12, 25) + ((60,) if ctx.thorough else ()):
        for up in (0, 1):
            names = ["i=%d" % (100 + (k if up else -k)) for k in range(n)]
            for how in "pc":
                body = [node("UAObject", x, refs(*([ref("i=47", names[k + 1])] if how == "p" and k + 1 < n else
                                                   [ref("i=47", names[k - 1], "false")] if how == "c" and k else [])))
                        for k, x in enumerate(names)]
                r = analyse(ctx, "chain of %d nodes, ascending %d, written on the %s" % (n, up, how), body[::-1], KINDS)
                ordered(r, list(zip(names, names[1:])))
    # in several files, sorted after each
    for k, rnd in graphs(ctx, 40, "c20-sorted"):
        g = Graph(rnd, rnd.randint(3, 9), p=rnd.choice((.2, .4)), elems=rnd.choice((["UAObject"], ["UADataType"], ["UAObject", "UAVariable"])))
        g.extra = []
        cuts = sorted(rnd.sample(range(1, len(g.order)), rnd.randint(1, 2)))
        parts = [g.order[a:b] for a, b in zip([0] + cuts, cuts + [len(g.order)])]
        at = {x: j for j, p in enumerate(parts) for x in p}
        r, seen = None, []
        for j, p in enumerate(parts):
            name = "graph %d: %s, file %d with %s" % (k, g.shape(), j + 1, " ".join(p))
            c = [g.body(x) for x in p]
            r = analyse(ctx, name, c, KINDS) if r is None else then(ctx, r, name, c)
            # a child which was handed out before its parent is imported stays where it is
            ordered(r, [(x, y) for x, y in g.edges if at[x] <= at[y] <= j])
    ctx.require("order", 500)
