"""Value-flow analysis of the announcements to the reference service: for every
class of node, accepted at once, deferred or rejected, the analysis determines
which nodes the service is told about, how often, with which references already
in place, and with which context every one of its functions is called."""
from engine.doc import *
from engine.family import family

SHARDS = 8

A, B = (0, "i=9001"), (0, "i=9002")


def announced(r, exp, rule="announced"):
    r.alive(rule)
    for st, l in r.result or [(s, None) for s, _ in r.imported]:
        got = []
        for rec in r.w.g(st, "newtypes"):
            m = r.w.snap(st, rec[0], "NL_ReferenceTypeNode")
            got.append(m["id"] if m else UNK)
        ok = sorted(map(str, got)) == sorted(map(str, exp))
        r.ob(st, rule, True if ok else None if undecided(got) else False,
             "%s: announced reference types are %s, the document says %s" % (r.name, show(got), show(exp)), r.handler("E"))
        ctxs = {shown(r.w, st, rec[1]) for rec in r.w.g(st, "newtypes") + r.w.g(st, "refq")}
        r.ob(st, "service-context", True if ctxs <= {"refservice-context"} else None if UNK in ctxs else False,
             "%s: the reference service is called with its own context" % r.name, r.handler("E"))


def rt(i, *rs):
    return node("UAReferenceType", i, refs(ref("i=45", "i=31", "false", label="sub" + i), *rs))


def run(ctx):
    for e, (c, _) in ELEMENTS.items():
        exp = [(0, "i=1")] if e == "UAReferenceType" else []
        r = Run(ctx, e, nodeset(node(e, "i=1", refs(ref("i=45", "i=31", "false")))))
        announced(r, exp)
        r = Run(ctx, e + " without references", nodeset(node(e, "i=1")))
        announced(r, exp)
        r = Run(ctx, e + " before and after a reference type", nodeset(node(e, "i=1"), rt("i=9001"), node(e, "i=2")))
        announced(r, [A] + exp + ([(0, "i=2")] if exp else []))
        kinds = dict(KINDS)
        kinds[A] = ("late", "N")
        r = Run(ctx, e + " deferred", nodeset(node(e, "i=1", refs(ref("i=9001", "i=5"))), rt("i=9001")), kinds=kinds)
        announced(r, [A] + exp)
    # duplicates are rejected
    r = Run(ctx, "two reference types with the same id", nodeset(rt("i=9001"), rt("i=9001")))
    announced(r, [A])
    # a node is announced together with all its references
    kinds = dict(KINDS)
    w = World(ctx, kinds=kinds)
    seen = []

    def rec(eng, st, inst, args, w=w):
        m = w.snap(st, args[1], "NL_ReferenceTypeNode")
        seen.append((m, "open" in st.ghost, eng.where(inst)))
        w.gadd(st, "newtypes", eng.norm(st, args[1]), eng.norm(st, args[0]))
        return [(st, None)]
    w.i_addNewReferenceType = rec
    r = Run(ctx, "reference type with several references", nodeset(node(
        "UAReferenceType", "i=9001", refs(ref("i=37", "i=2"), ref("i=45", "i=31", "false")), refs(ref("i=47", "i=3")))), world=w)
    announced(r, [A])
    for m, op, loc in seen:
        got = m["hierachicalRefs"]
        exp = [(1, H, (0, "i=3")), (0, SUB, (0, "i=31"))]
        ok = isinstance(got, list) and sorted(map(str, got)) == sorted(map(str, exp))
        ctx.ob("complete", True if ok else None if op or undecided(got) else False,
               "a reference type is announced when its hierarchical references are %s, the document says %s" % (
                   show(got), show(exp)), loc)
    family(ctx, "announced", [], 120, lambda r, g: announced(r, g.new), late=.6, nodes=8)
    ctx.require("announced", 30)
    ctx.require("complete", 1)
