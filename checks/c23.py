"""Value-flow analysis of duplicate node ids: for every class of the first and
of the second node, in one file or in two, accepted at once or deferred, with
differently written identifiers and nodes in between, the analysis determines
which of the two is handed out and what is logged."""
from engine.graphs import *
from engine.doc import *

SHARDS = 8


def judge(r, exp, k):
    """exp: [(class, id, name)] handed out; k: rejected nodes"""
    r.alive("first-kept")
    if r.skip:
        return
    w = r.w
    err = w.m.enums["NODESETLOADER_LOGLEVEL_ERROR"]
    loc = r.ctx.at("Nodeset_newNodeFinish")
    for st, l in r.result:
        got = []
        for c, n, cx in l:
            m = w.snap(st, n, w.STRUCT[c]) or {}
            got.append((c, m.get("id", UNK), m.get("displayName.text", UNK)) + tuple(
                    sorted(map(str, m[f])) if isinstance(m.get(f), (list, tuple)) else m.get(f, UNK) for f in LISTS))
        ok = sorted(map(str, got)) == sorted(map(str, exp))
        r.ob(st, "first-kept", True if ok else None if undecided(got) else False,
             "%s: of nodes with the same id only the first one is handed out: %s" % (
                 r.name, ", ".join("%s %s %s" % (c, show(i), show(n)) for c, i, n, *x in got)), loc, "Nodeset_newNodeFinish")
        levels = [w.eng.norm(st, rec[0]) for rec in w.g(st, "log")]
        n = sum(1 for x in levels if not x.t and x.c == err)
        r.ob(st, "logged", True if n == k else None if any(x.t for x in levels) else False,
             "%s: %d error(s) logged for %d rejected node(s)" % (r.name, n, k), loc, "Nodeset_newNodeFinish")


def named(e, ident, name, *rs):
    return node(e, ident, El("DisplayName", (), T("dn:" + name)), *([refs(*rs)] if rs else []))


LISTS = ("hierachicalRefs", "nonHierachicalRefs")


def exp(e, ident, name, h=(), n=()):
    """h, n: (type, target, IsForward) of the references"""
    return (CLASS[e], nid(ident), text("dn:" + name)) + tuple(
        sorted(str((int(f is None), nid(t), nid(x))) for t, x, f in l) for l in (h, n))


def run(ctx):
    kinds = dict(KINDS)
    kinds[(0, "i=9501")] = ("late", "H")
    lt = lambda: node("UAReferenceType", "i=9501", El("DisplayName", (), T("dn:late")))
    for e in ELEMENTS:
        for f in ELEMENTS:
            for x in ("i=1", "ns=1;s=a"):
                r = analyse(ctx, "%s and %s with the id %s" % (e, f, x), [named(e, x, "1"), named(f, x, "2")], KINDS)
                judge(r, [exp(e, x, "1")], 1)
            r = analyse(ctx, "%s and %s with one id and nodes around" % (e, f), [
                named("UAObject", "i=7", "0"), named(e, "i=1", "1", ref("i=47", "i=7", "false")), named("UAObject", "i=3", "a"),
                named(f, "i=1", "2", ref("i=47", "i=3", "false")), named("UAObject", "i=5", "b")], KINDS)
            judge(r, [exp("UAObject", "i=7", "0"), exp(e, "i=1", "1", [("i=47", "i=7", "false")]), exp("UAObject", "i=3", "a"), exp("UAObject", "i=5", "b")], 1)
            # the references of the second one belong to nobody
            l = [("i=47", "i=7", "false"), ("i=35", "i=8", None)]
            q = [("i=37", "i=78", None)]
            for h, n in ((l, []), ([], q), (l, q)):
                r = analyse(ctx, "%s and %s with one id, only the second with references" % (e, f), [
                    named(e, "i=1", "1"), named(f, "i=1", "2", *[ref(*x) for x in h + n])], KINDS)
                judge(r, [exp(e, "i=1", "1")], 1)
                r = analyse(ctx, "%s and %s with one id, only the first with references" % (e, f), [
                    named(e, "i=1", "1", *[ref(*x) for x in h + n]), named(f, "i=1", "2")], KINDS)
                judge(r, [exp(e, "i=1", "1", h, n)], 1)
            # the second one is deferred
            r = analyse(ctx, "%s and a deferred %s with one id" % (e, f), [
                named(e, "i=1", "1"), named(f, "i=1", "2", ref("i=9501", "i=2")), lt()], kinds)
            judge(r, [exp(e, "i=1", "1"), exp("UAReferenceType", "i=9501", "late")], 1)
            if f == e:
                r = analyse(ctx, "two deferred %s with one id" % e, [
                    named(e, "i=1", "1", ref("i=9501", "i=2", label="a")), named(f, "i=1", "2", ref("i=9501", "i=3", label="b")), lt()], kinds)
                judge(r, [exp(e, "i=1", "1", [("i=9501", "i=2", None)]), exp("UAReferenceType", "i=9501", "late")], 1)
            # two files
            r = analyse(ctx, "first file", [named(e, "i=1", "1")], KINDS, sort=False)
            if not r.skip:
                r2 = Run(ctx, "%s and %s with one id in two files" % (e, f), nodeset(named(f, "i=1", "2"), named(f, "i=2", "3")),
                         states=[s for s, _ in r.imported], world=r.w)
                judge(r2, [exp(e, "i=1", "1"), exp(f, "i=2", "3")], 1)
            # the first one is sorted before
            r = analyse(ctx, "first file", [named(e, "i=1", "1"), named("UAObject", "i=3", "a", ref("i=47", "i=4"))], KINDS)
            r2 = then(ctx, r, "%s sorted before %s with the same id is imported" % (e, f), [
                named(f, "i=1", "2"), named(f, "i=2", "3"), named(f, "i=4", "4", ref("i=37", "i=78"))])
            judge(r2, [exp(e, "i=1", "1"), exp("UAObject", "i=3", "a", [("i=47", "i=4", None)]), exp(f, "i=2", "3"),
                       exp(f, "i=4", "4", (), [("i=37", "i=78", None)])], 1)
        # three times
        r = analyse(ctx, "three %s with one id" % e, [named(e, "i=1", "1"), named(e, "i=1", "2"), named(e, "i=1", "3")], KINDS)
        judge(r, [exp(e, "i=1", "1")], 2)
        # similar, but different
        l = ["i=1", "ns=1;i=1", "s=1", "ns=1;s=1", "s=i=1", "i=11", "s=11", "s=", "ns=2;i=1"]
        r = analyse(ctx, "%s with similar ids" % e, [named(e, x, str(k)) for k, x in enumerate(l)], KINDS)
        judge(r, [exp(e, x, str(k)) for k, x in enumerate(l)], 0)
        # an id that was only referred to before
        r = analyse(ctx, e + " behind references to it", [named("UAObject", "i=2", "0", ref("i=47", "i=1")), named(e, "i=1", "1")], KINDS)
        judge(r, [exp("UAObject", "i=2", "0", [("i=47", "i=1", None)]), exp(e, "i=1", "1")], 0)
    # many nodes
    for k, rnd in graphs(ctx, 48, "c23"):
        names = ids(rnd, rnd.randint(4, 12))
        seq = names + [rnd.choice(names) for _ in range(rnd.randint(1, 3))]
        rnd.shuffle(seq)
        seen, ex, body = set(), [], []
        for j, x in enumerate(seq):
            e = rnd.choice(list(ELEMENTS))
            h = [("i=47", "ns=6;i=%d" % j, rnd.choice((None, "false")))][:rnd.randint(0, 1)]
            n = [("i=37", "i=78", None)][:rnd.randint(0, 1)]
            body.append(named(e, x, str(j), *[ref(*q, label="%d%s" % (j, q[0])) for q in h + n]))
            if x not in seen:
                ex.append(exp(e, x, str(j), h, n))
            seen.add(x)
        r = analyse(ctx, "nodes %s" % " ".join(seq), body, KINDS)
        judge(r, ex, len(seq) - len(ex))
    ctx.require("first-kept", 300)
