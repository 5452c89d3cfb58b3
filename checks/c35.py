"""Value-flow analysis of NodesetLoader_loadFile up to the server's interface:
in drawn files - references of standard, own and inherited types in both
directions, to nodes of the file, of an earlier file and of the server - and for
every class and direction, the calls which add references are compared with the
references of the files; what is not in the file has to be the mirror image of a
reference which is."""
from engine.server import *
from collections import Counter

SHARDS = 6


def mirrored(r):
    return (r[3], r[1], 1 - r[2], r[0])


def check(ctx, r, want, extra=(), before=0):
    r.alive("references")
    if r.skip:
        return
    for st, v in r.result:
        log = r.w.log_of(st)
        got = Counter()
        for d in log:
            if d["op"] == "ref":
                got[(d["source"], d["type"], d["forward"], d["target"])] += 1
                if d["rest"] == UNK or undecided(d["rest"]):
                    r.ob(st, "target", None, "target of a reference", d["at"])
                else:
                    r.ob(st, "target", d["rest"]["serverIndex"] == 0 and d["rest"]["namespaceUri"] == EMPTY,
                         "the target of the reference %s of %s is on another server" % (show(d["type"]), show(d["source"])), d["at"])
        at = {(d["source"], d["type"], d["forward"], d["target"]): d["at"] for d in log if d["op"] == "ref"}
        unk = any(undecided(k) for k in got)
        here = [d["at"] for d in log if d["op"] == "ref"] or [None]
        for x in dict.fromkeys(want):
            n, ok = got.get(x, 0), got.get(x, 0) == want.count(x)
            if x[1] == (0, "i=38") and n == want.count(x) + 1:
                ok = True           # the encoding of a data type
            r.ob(st, "references", True if ok else None if unk else False, "reference %s is added %d time(s)%s" % (
                show_ref(x), n, "" if ok else ", the files have it %d time(s)" % want.count(x)), at.get(x) or here[0])
        for x, n in got.items():
            if x not in want:
                ok = mirrored(x) in want or x in extra
                r.ob(st, "no-other", None if undecided(x) else ok, "reference %s %s" % (
                    show_ref(x), "is a mirror image" if ok else "is added, the files do not have it"), at[x])
        last = max([k for k, d in enumerate(log) if d["op"] == "add"] or [0])
        first = min([k for k, d in enumerate(log) if d["op"] == "ref"] or [len(log)])
        if not before:
            r.ob(st, "nodes-first", first > last or first == len(log), "references are added before all nodes are", here[0])


def show_ref(x):
    return "%s %s %s %s" % (show(x[0]), "has" if x[2] == 1 else "is target of" if x[2] == 0 else "?", show(x[1]), show(x[3]))


def run(ctx):
    # every class, kind of reference and direction
    for cls in ADDORDER:
        for t in (ORG, COMP, PROP, SUBT, "i=32", "i=37", "i=38", "i=41", "i=39", "i=3065"):
            for f in (None, "true", "false"):
                d = nodeset(URIS, node(ELEM[cls], "ns=2;i=1", refs(ref(t, "ns=1;s=x", f))))
                r = Load(ctx, "%s with %s, forward %s" % (cls, t, f), d)
                check(ctx, r, [(sid("ns=2;i=1"), nid(t), int(f != "false"), sid("ns=1;s=x"))])
        # the same target with several types and directions, also the node itself
        for tgt in ("ns=2;i=1", "ns=1;s=x"):
            l = [(t, f) for t in ("i=32", "i=37", "i=3065", "i=41") for f in ("true", "false")]
            if tgt == "ns=2;i=1":
                l += [(COMP, "true"), (ORG, "false")]
            r = Load(ctx, "%s with many references to %s" % (cls, tgt),
                     nodeset(URIS, node(ELEM[cls], "ns=2;i=1", refs(*[ref(t, tgt, f, label="s%d" % k) for k, (t, f) in enumerate(l)]))))
            check(ctx, r, [(sid("ns=2;i=1"), nid(t), int(f != "false"), sid(tgt)) for t, f in l])
        # many references
        l = [(t, f, "ns=1;i=%d" % k) for k, (t, f) in enumerate([(t, f) for t in (ORG, "i=39", COMP, "i=37") for f in (None, "false")] * 2)]
        r = Load(ctx, "%s with many references" % cls, nodeset(URIS, node(ELEM[cls], "ns=2;i=1", refs(*[ref(t, g, f) for t, f, g in l]))))
        check(ctx, r, [(sid("ns=2;i=1"), nid(t), int(f != "false"), sid(g)) for t, f, g in l])
    # data types with an encoding and other references
    for k, (own, sub) in enumerate([(o, n) for o in ([("i=37", "i=78", "true")], [("i=39", "ns=1;i=12", "false"), ("i=37", "i=78", "true")], [("i=35", "ns=1;i=12", "true")])
                                    for n in ("s=abc", "i=10")]):
        me = "ns=1;" + sub
        a = [(SUBT, "i=22", "false")] + own
        d = nodeset(URIS, node("UADataType", me, refs(*[ref(t, g, f, label="a%d" % j) for j, (t, g, f) in enumerate(a)])),
                    node("UADataType", "ns=1;" + ("s=abd" if sub == "s=abc" else "i=14"), refs(ref(SUBT, "i=22", "false", label="b"), ref("i=37", "i=80", label="b2"))),
                    node("UAObject", "ns=1;i=11", refs(ref(ENC, me, "false", label="c")), bn="Default Binary"))
        r = Load(ctx, "data type with an encoding and other references %d" % k, d)
        check(ctx, r, [(sid(me), sid(t), int(f != "false"), sid(g)) for t, g, f in a] + [(sid("ns=1;i=11"), sid(ENC), 0, sid(me))] +
              [(sid("ns=1;" + ("s=abd" if sub == "s=abc" else "i=14")), sid(t), f, sid(g)) for t, f, g in ((SUBT, 0, "i=22"), ("i=37", 1, "i=80"))])
    # data types and their encodings
    for decl in ("type", "object", "both"):
        a = [(SUBT, "false", "i=22")] + ([(ENC, "true", "ns=1;i=11")] if decl != "object" else [])
        b = [(ENC, "false", "ns=1;i=10")] if decl != "type" else []
        d = nodeset(URIS, node("UADataType", "ns=1;i=10", refs(*[ref(t, g, f, label="a" + g) for t, f, g in a])),
                    node("UAObject", "ns=1;i=11", refs(*[ref(t, g, f, label="b" + g) for t, f, g in b]), bn="Default Binary"))
        r = Load(ctx, "data type and encoding, declared by %s" % decl, d)
        check(ctx, r, [(sid("ns=1;i=10"), sid(t), int(f != "false"), sid(g)) for t, f, g in a] +
              [(sid("ns=1;i=11"), sid(t), int(f != "false"), sid(g)) for t, f, g in b])
    # a node which only its parent knows
    for cls in ("OBJECT", "VARIABLE", "METHOD", "VIEW"):
        d = nodeset(URIS, node("UAObject", "ns=1;i=7", refs(ref(ORG, "i=85", "false"), ref(COMP, "ns=1;i=8"))),
                    node(ELEM[cls], "ns=1;i=8", attrs=[("ParentNodeId", T("pid", "ns=1;i=7"))]))
        r = Load(ctx, "%s referenced by its parent" % cls, d)
        check(ctx, r, [((5, "i=7"), (0, "i=35"), 0, (0, "i=85")), ((5, "i=7"), (0, "i=47"), 1, (5, "i=8"))])
    n = 60 if ctx.tier == "quick" else 600
    for k in range(n):
        x = Net(k, nodes=3 + k % 4, density=(.3, .5, .9)[k % 3])
        check(ctx, Load(ctx, "drawn file %d" % k, x.events), x.references(), x.assumed())
    for k in range(n // 5):
        x = Net(1000 + k, nodes=3)
        y = Net(2000 + k, nodes=3, second=True, base=x)
        check(ctx, Load(ctx, "drawn files %d" % k, x.events, y.events), x.references() + y.references(), x.assumed() + y.assumed(), before=1)
    ctx.require("references", 100)
    ctx.require("target", 100)
