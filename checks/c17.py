"""Value-flow analysis of deferred nodes: the reference service learns a
reference type only when it is announced; for documents which use reference
types before their definition (or never define them) the analysis determines
what sorting returns, which nodes come out, in which lists their references are,
and which message is logged."""
import itertools
from engine.doc import *
from engine.family import family
from engine import counters

SHARDS = 8

A, B = (0, "i=9001"), (0, "i=9002")


def rt(i, *rs):
    return node("UAReferenceType", i, refs(ref("i=45", "i=31", "false", label="sub" + i), *rs))


def result(r, rule, want):
    r.alive(rule)
    for st, v in r.sorted:
        v = r.w.eng.norm(st, v)
        got = None if v.t else bool(v.c)
        r.ob(st, rule, None if got is None else got == want, "%s: sorting reports %s" % (
            r.name, "success" if got else "failure"), r.handler("E"))
        if want is False:
            lv = [rec[0] for rec in r.w.g(st, "log")]
            err = r.w.m.enums["NODESETLOADER_LOGLEVEL_ERROR"]
            r.ob(st, rule, any(not x.t and x.c == err for x in lv), "%s: an error is logged" % r.name)


def run(ctx):
    counters.check(ctx, "src/Nodeset.c")
    for ka, kb in itertools.product("HN", repeat=2):
        kinds = dict(KINDS)
        kinds[A] = ("late", ka)
        kinds[B] = ("late", kb)
        for e, (c, _) in ELEMENTS.items():
            if e == "UAReferenceType":
                continue
            n = node(e, "i=1", refs(ref("i=9001", "i=11"), ref("i=47", "i=12", "false"), ref("i=9002", "i=13", "false"),
                                    ref("i=37", "i=14"), ref("i=9001", "i=15", "false")))
            l = {"H": [(0, H, (0, "i=12"))], "N": [(1, N_, (0, "i=14"))]}
            l[ka] += [(1, A, (0, "i=11")), (0, A, (0, "i=15"))]
            l[kb] += [(0, B, (0, "i=13"))]
            exp = {"hierachicalRefs": bag(l["H"]), "nonHierachicalRefs": bag(l["N"]), "unknownRefs": []}
            ids = [(c, (0, "i=1")), ("REFERENCETYPE", A), ("REFERENCETYPE", B)]
            for order in ((n, rt("i=9001"), rt("i=9002")), (rt("i=9001"), n, rt("i=9002")), (rt("i=9002"), n, rt("i=9001")),
                          (rt("i=9002"), rt("i=9001"), n)):
                r = Run(ctx, "%s before its reference types (%s%s), order %s" % (
                    e, ka, kb, ", ".join(ev[0][2][0][1].content for ev in order)), nodeset(*order), kinds=kinds)
                result(r, "sort-result", True)
                r.expect_nodes("handed-out", ids)
                r.expect("resolved", (0, "i=1"), c, exp)
            # the types come with the second file
            r = Run(ctx, "first file", nodeset(n), kinds=kinds, sort=False)
            r2 = Run(ctx, "%s, reference types (%s%s) in the second file" % (e, ka, kb), nodeset(rt("i=9001"), rt("i=9002")),
                     states=[s for s, v in r.imported], world=r.w)
            result(r2, "sort-result", True)
            r2.expect_nodes("handed-out", ids)
            r2.expect("resolved", (0, "i=1"), c, exp)
            # one of the types is missing
            for order in ((n, rt("i=9001")), (n,), (n, rt("i=9002")), (rt("i=9001"), n, node(e, "i=2"))):
                r = Run(ctx, "%s, reference type missing, order %s" % (
                    e, ", ".join(ev[0][2][0][1].content for ev in order)), nodeset(*order), kinds=kinds)
                result(r, "sort-result", False)
        # reference types which use each other's references
        kk = dict(kinds)
        for order in itertools.permutations((
                rt("i=9001"), rt("i=9002", ref("i=9001", "i=21")), node("UAObject", "i=1", refs(ref("i=9002", "i=22"))))):
            r = Run(ctx, "reference types referring by each other (%s%s), order %s" % (
                ka, kb, ", ".join(ev[0][2][0][1].content for ev in order)), nodeset(*order), kinds=kk)
            result(r, "sort-result", True)
            r.expect_nodes("handed-out", [("OBJECT", (0, "i=1")), ("REFERENCETYPE", A), ("REFERENCETYPE", B)])
            r.expect("resolved", B, "REFERENCETYPE", {"unknownRefs": [], (
                "hierachicalRefs" if ka == "H" else "nonHierachicalRefs"): has((1, A, (0, "i=21")))})
    # many nodes, many types
    for n in (40, 140) + ((280,) if ctx.thorough else ()):
        for ka in "HN":
            kinds = dict(KINDS)
            kinds[A] = ("late", ka)
            lst = {"H": "hierachicalRefs", "N": "nonHierachicalRefs"}
            some = sorted({0, 1, n // 2, 99, 100, 101, n - 2, n - 1} & set(range(n)))
            r = Run(ctx, "%d nodes before their reference type (%s)" % (n, ka), nodeset(*[
                node("UAObject", "i=%d" % (100 + k), refs(ref("i=9001", "i=%d" % (20000 + k)))) for k in range(n)], rt("i=9001")),
                kinds=kinds, unroll=4 * n + 300)
            result(r, "sort-result", True)
            for k in some:
                r.expect("resolved", (0, "i=%d" % (100 + k)), "OBJECT", {
                    lst[ka]: [(1, A, (0, "i=%d" % (20000 + k)))], lst["N" if ka == "H" else "H"]: [], "unknownRefs": []})
            r.expect_nodes("handed-out", [("OBJECT", (0, "i=%d" % (100 + k))) for k in range(n)] + [("REFERENCETYPE", A)])
            m = n // 2
            for k in range(m):
                kinds[(0, "i=%d" % (9001 + k))] = ("late", ka)
            r = Run(ctx, "%d reference types after the nodes which use them (%s)" % (m, ka), nodeset(
                node("UAObject", "i=1", refs(*[ref("i=%d" % (9001 + k), "i=%d" % (20000 + k)) for k in range(m)])),
                *[rt("i=%d" % (9001 + k)) for k in range(m)]), kinds=kinds, unroll=4 * n + 300)
            result(r, "sort-result", True)
            r.expect("resolved", (0, "i=1"), "OBJECT", {
                lst[ka]: bag([(1, (0, "i=%d" % (9001 + k)), (0, "i=%d" % (20000 + k))) for k in range(m)]),
                lst["N" if ka == "H" else "H"]: [], "unknownRefs": []})
    family(ctx, "completed", ["refs"], 120, refs=6, late=.9)
    ctx.require("sort-result", 200)
    ctx.require("resolved", 300)


def bag(exp):
    def f(got):
        return isinstance(got, list) and sorted(map(str, got)) == sorted(map(str, exp))
    f.__doc__ = show(exp)
    return f


def has(x):
    def f(got):
        return isinstance(got, list) and got.count(x) == 1
    f.__doc__ = "a list with " + show(x)
    return f
