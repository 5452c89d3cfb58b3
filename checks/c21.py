"""Value-flow analysis of the sorting and its search tree: for all orders in
which five identifiers can arrive, for longer sequences, and for graphs of
hierarchical references with and without loops, the analysis determines which
nodes are handed out, how often, and what the sorting reports."""
import itertools
from engine.graphs import *
from engine import counters

SHARDS = 8


TURNS = (
    (0, 9, 7, 6, 1, 4, 10, 3, 8, 2, 5), (10, 1, 9, 0, 4, 6, 8, 3, 2, 5, 7), (0, 9, 10, 8, 1, 5, 3, 6, 2, 7, 4),
    (1, 6, 8, 5, 0, 3, 10, 2, 7, 4, 9), (0, 2, 4, 9, 6, 3, 7, 10, 1, 8, 5), (10, 6, 9, 3, 4, 7, 1, 0, 2, 5, 8),
    (3, 9, 10, 4, 6, 7, 0, 1, 2, 5, 8), (4, 10, 9, 3, 6, 8, 1, 0, 7, 2, 5))


def verdict(r, good):
    if r.skip:
        return
    w = r.w
    err = w.m.enums["NODESETLOADER_LOGLEVEL_ERROR"]
    for st, v in r.sorted:
        v = w.eng.norm(st, v)
        val = None if v.t else bool(v.c)
        r.ob(st, "verdict", None if val is None else val == good, "%s: the sorting returns %s" % (r.name, str(good).lower()),
             r.ctx.at("Sort_start"), "Sort_start")
        levels = [w.eng.norm(st, rec[0]) for rec in w.g(st, "log")]
        got = any(not x.t and x.c == err for x in levels)
        r.ob(st, "logged", got != good, "%s: an error is logged exactly if there is a loop" % r.name,
             r.ctx.at("Sort_start"), "Sort_start")


def at_most_once(r, ids):
    """behind a loop: no node twice, none which is not in the document"""
    r.alive("once")
    for st, l in r.result:
        got = []
        for c, n, cx in l:
            m = r.w.snap(st, n, r.w.STRUCT[c])
            got.append((c, m.get("id") if m else UNK))
        ok = len(set(got)) == len(got) and set(got) <= set(ids)
        r.ob(st, "once", ok, "%s: no node is handed out twice: %s" % (r.name, r.lst(got)), r.ctx.at("Sort_start"), "Sort_start")


def run(ctx):
    counters.check(ctx, "src/Sort.c", "src/nodes/NodeContainer.c")
    # all orders of arrival
    for k, p in enumerate(itertools.permutations(range(5))):
        names = [("i=%d", "ns=1;i=%d", "s=n%d")[(k + x) % 3] % (x + 1) for x in p] if k % 2 else ["i=%d" % (x + 1) for x in p]
        el = list(ELEMENTS)[k % 8]
        r = analyse(ctx, "%s arriving as %s" % (el, " ".join(names)), [node(el, x) for x in names], KINDS)
        r.expect_nodes("once", [(CLASS[el], nid(x)) for x in names])
        verdict(r, True)
    for k, rnd in graphs(ctx, 60, "c21-tree"):
        names = ids(rnd, rnd.randint(6, 16))
        els = [rnd.choice(list(ELEMENTS)) for _ in names]
        more = extras(rnd) if k % 2 else []
        r = analyse(ctx, "%d nodes arriving as %s" % (len(names), " ".join(names)), [node(e, x) for e, x in zip(els, names)] + [
            c for c, n in more], KINDS)
        r.expect_nodes("once", [(CLASS[e], nid(x)) for e, x in zip(els, names)] + [n for c, n in more])
        verdict(r, True)
    # orders which make the search tree turn around nodes that are not balanced themselves, and turn there again later
    for seq in TURNS:
        n = len(seq)
        for flip in (0, 1):
            names = ["i=%d" % (100 + (n - 1 - x if flip else x)) for x in seq]
            r = analyse(ctx, "nodes arriving as %s" % " ".join(names), [node("UAObject", x) for x in names], KINDS)
            r.expect_nodes("once", [("OBJECT", nid(x)) for x in names])
            verdict(r, True)
    for k, rnd in graphs(ctx, 8, "c21-long"):
        names = ["i=%d" % (100 + x) for x in rnd.sample(range(60), rnd.randint(24, 40))]
        r = analyse(ctx, "%d nodes arriving as %s" % (len(names), " ".join(names)), [node("UAObject", x) for x in names], KINDS)
        r.expect_nodes("once", [("OBJECT", nid(x)) for x in names])
        verdict(r, True)
    # graphs
    for k, rnd in graphs(ctx, 80, "c21-graph"):
        g = Graph(rnd, rnd.randint(2, 9), p=rnd.choice((.1, .3)), elems=list(ELEMENTS), late=rnd.choice((0, .3)), foreign=.4)
        r = analyse(ctx, "graph %d: %s" % (k, g.shape()), g.content(), g.kinds)
        r.expect_nodes("once", g.nodes())
        verdict(r, True)
    # loops
    for k, rnd in graphs(ctx, 60, "c21-loop"):
        n = rnd.randint(2, 7)
        a = rnd.randint(0, n - 2)
        b = rnd.randint(a + 1, min(n - 1, a + 3))
        g = Graph(rnd, n, p=.2, elems=list(ELEMENTS), late=rnd.choice((0, .3)), back=[(j + 1, j) for j in range(a, b)] and
                  [(b, a)] + [(j, j + 1) for j in range(a, b)])
        r = analyse(ctx, "loop %d: %s" % (k, g.shape()), g.content(), g.kinds)
        at_most_once(r, g.nodes())
        verdict(r, False)
    # two files
    for k, rnd in graphs(ctx, 24, "c21-files"):
        names = ids(rnd, rnd.randint(3, 8))
        cut = rnd.randint(1, len(names) - 1)
        r = analyse(ctx, "first file", [node("UAObject", x) for x in names[:cut]], KINDS, sort=False)
        if r.skip:
            continue
        r2 = Run(ctx, "two files with %s and %s" % (" ".join(names[:cut]), " ".join(names[cut:])),
                 nodeset(*[node("UAObject", x) for x in names[cut:]]), states=[s for s, _ in r.imported], world=r.w)
        r2.expect_nodes("once", [("OBJECT", nid(x)) for x in names])
        verdict(r2, True)
    # a graph in several files, sorted after each
    for k, rnd in graphs(ctx, 60, "c21-sorted"):
        g = Graph(rnd, rnd.randint(3, 9), p=rnd.choice((.15, .35)), elems=list(ELEMENTS), foreign=.4)
        g.extra = []
        cuts = sorted(rnd.sample(range(1, len(g.order)), rnd.randint(1, 2)))
        parts = [g.order[a:b] for a, b in zip([0] + cuts, cuts + [len(g.order)])]
        r, seen = None, []
        for j, p in enumerate(parts):
            name = "graph %d: %s, file %d with %s" % (k, g.shape(), j + 1, " ".join(p))
            c = [g.body(x) for x in p]
            r = analyse(ctx, name, c, KINDS) if r is None else then(ctx, r, name, c)
            seen += [(CLASS[g.elem[x]], nid(x)) for x in p]
            r.expect_nodes("once", seen)
            verdict(r, True)
    # a loop in the second file
    for k, rnd in graphs(ctx, 12, "c21-later-loop"):
        a, b, c = ids(rnd, 3)
        r = analyse(ctx, "first file", [node("UAObject", a, refs(ref("i=47", b)))], KINDS)
        verdict(r, True)
        r2 = then(ctx, r, "a loop of %s and %s behind %s" % (b, c, a), [node("UAObject", b, refs(ref("i=47", c))), node("UAObject", c, refs(ref("i=47", b)))])
        at_most_once(r2, [("OBJECT", nid(x)) for x in (a, b, c)])
        verdict(r2, False)
    ctx.require("once", 200)
    ctx.require("verdict", 200)
