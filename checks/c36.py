"""Abstract interpretation of NodesetLoader_loadFile against a stand-in server
which refuses nodes: those whose parent it does not know yet, or chosen ones a
number of times.  The sequence of its calls is compared with what has to happen:
types before instances, parents before children, further attempts for refused
nodes with the same data and none for the others; nothing at all, and a failure,
for files which cannot be read or sorted."""
from engine.server import *
from engine import counters

SHARDS = 6
IDN = lambda k: "ns=1;i=%d" % (100 + k)


def attempts(r, st, i):
    return [d for d in r.adds(st, ok=False) if d["id"] == sid(i)]


def check(r, nodes, fails=None, result=True, added=None):
    """nodes: [(id, class)]; fails: id -> number of refusals"""
    ctx, fails = r.ctx, fails or {}
    r.alive("attempts")
    if r.skip:
        return
    r.returns("result", result)
    for st, v in r.result:
        unk = any(undecided(d["id"]) for d in r.adds(st, ok=False))
        for i, c in nodes:
            l = attempts(r, st, i)
            good = [k for k, d in enumerate(l) if d["ok"]]
            at = l[0]["at"] if l else None
            if i in fails:
                n = fails[i]
                ok = len(l) == min(n + 1, 10) and len(good) == (1 if n < 10 else 0)
                r.ob(st, "attempts", True if ok else None if unk else False,
                     "%s, refused %d time(s), is tried %d time(s) and added %d time(s)" % (i, n, len(l), len(good)), at)
            else:
                want = 1 if added is None or i in added else 0
                ok = len(good) == want
                r.ob(st, "added", True if ok else None if unk else False, "%s is added %d time(s), expected was %d" % (i, len(good), want), at)
                r.ob(st, "no-more", True if not good or good[0] == len(l) - 1 else None if unk else False,
                     "%s is tried again after it was added" % i, at)
            for d in l[1:]:
                same = all(d[k] == l[0][k] for k in ("class", "parent", "reference", "browseName", "typedef", "attributes", "context"))
                r.ob(st, "same", same, "%s is tried again with other data than at first" % i, d["at"])


def order(r, deps):
    """types before instances; deps: (parent, child) of one class"""
    r.alive("order")
    if r.skip:
        return
    for st, v in r.result:
        first = {}
        for k, d in enumerate(r.adds(st, ok=False)):
            first.setdefault(d["id"], (k, d["class"], d["at"]))
        rank = {"REFERENCETYPE": 0, "DATATYPE": 1, "OBJECTTYPE": 2, "VARIABLETYPE": 2, "OBJECT": 3, "METHOD": 3, "VARIABLE": 3, "VIEW": 3}
        l = sorted(first.values())
        bad = [(a, b) for a, b in zip(l, l[1:]) if rank[a[1]] > rank[b[1]]]
        r.ob(st, "types-first", not bad, "a %s is added before a %s" % (bad[0][0][1], bad[0][1][1]) if bad else "types are added first",
             bad[0][0][2] if bad else None)
        for p, c in deps:
            a, b = first.get(sid(p)), first.get(sid(c))
            ok = a is not None and b is not None and a[0] < b[0]
            r.ob(st, "parents-first", True if ok else False if a and b else None, "%s is added before its parent %s" % (c, p) if not ok else
                 "%s is added before %s" % (p, c), b[2] if b else None)


def run(ctx):
    counters.check(ctx, "backends/open62541/src/import.c")
    import itertools
    import random
    up = lambda cls, p, k: node(ELEM[cls], IDN(k), refs(ref(SUBT if cls.endswith("TYPE") else COMP, p, "false", label=str(k))))
    # all classes in every rotation and some other orders
    rnd = random.Random(5)
    for k in range(16):
        l = ADDORDER[k:] + ADDORDER[:k] if k < 8 else rnd.sample(ADDORDER, 8)
        r = Load(ctx, "classes in the order %s" % ", ".join(l), nodeset(URIS, *[up(c, "i=85", j) for j, c in enumerate(l)]))
        check(r, [(IDN(j), c) for j, c in enumerate(l)])
        order(r, [])
    # chains of one class in every document order
    for cls in ADDORDER:
        for perm in itertools.permutations(range(3)) if cls in ("OBJECT", "DATATYPE", "REFERENCETYPE") else [(2, 1, 0), (1, 2, 0)]:
            root = {"REFERENCETYPE": "i=33", "DATATYPE": "i=22"}.get(cls, "i=85")
            d = nodeset(URIS, *[up(cls, IDN(j - 1) if j else root, j) for j in perm])
            r = Load(ctx, "chain of %s, document order %s" % (cls, perm), d, strict=[(0, "i=85"), (0, "i=33"), (0, "i=22")])
            check(r, [(IDN(j), cls) for j in range(3)])
            order(r, [(IDN(0), IDN(1)), (IDN(1), IDN(2))])
    # a server which knows its parents only
    for n in (2, 4, 7, 8):
        # alternating, so that in every attempt only one node can be added
        for a, b in (("VARIABLE", "OBJECT"), ("METHOD", "OBJECT"), ("VIEW", "VARIABLE")):
            for rev in (0, 1):
                ks = list(range(n))
                d = nodeset(URIS, *[up((a, b)[k % 2], IDN(k - 1) if k else "i=85", k) for k in (ks[::-1] if rev else ks)])
                r = Load(ctx, "chain of %d alternating %s and %s%s" % (n, a, b, ", backwards" if rev else ""), d, strict=[(0, "i=85")])
                check(r, [(IDN(k), (a, b)[k % 2]) for k in ks])
    # objects below a variable are added in the attempt after it, however many they are
    for n in (3, 9, 10, 11, 14, 20):
        d = nodeset(URIS, up("VARIABLE", "i=85", 0), *[up("OBJECT", IDN(k - 1), k) for k in range(1, n + 1)])
        r = Load(ctx, "chain of %d objects below a variable" % n, d, strict=[(0, "i=85")])
        check(r, [(IDN(0), "VARIABLE")] + [(IDN(k), "OBJECT") for k in range(1, n + 1)])
    for n in (10, 12, 17):
        d = nodeset(URIS, *[up("OBJECT", "i=85", k) for k in range(n)])
        r = Load(ctx, "%d objects, refused once" % n, d, fails={sid(IDN(k)): 1 for k in range(n)})
        check(r, [(IDN(k), "OBJECT") for k in range(n)], {IDN(k): 1 for k in range(n)})
    d = nodeset(URIS, up("OBJECT", "ns=2;s=nowhere", 0), up("VARIABLE", IDN(0), 1), up("OBJECT", "i=85", 2))
    r = Load(ctx, "nodes below a node which does not exist", d, strict=[(0, "i=85")])
    check(r, [(IDN(0), "OBJECT"), (IDN(1), "VARIABLE"), (IDN(2), "OBJECT")], {IDN(0): 10, IDN(1): 10})
    n = 24 if ctx.tier == "quick" else 240
    ext = [(0, "i=85"), (0, "i=86"), sid("ns=1;s=ext"), sid("ns=2;s=ext"), (0, "i=33"), (0, "i=35"), (0, "i=47"), (0, "i=32"), (0, "i=37"), (0, "i=3065")]
    for k in range(n):
        x = Net(5000 + k, nodes=3 + k % 4, density=(.3, .6)[k % 2])
        check(Load(ctx, "drawn file %d, parents first" % k, x.events, strict=ext), [(i, c) for i, c, *_ in x.want])
    # refusals
    for cls in ADDORDER:
        for n in ((1, 9) if cls != "OBJECT" else (1, 2, 3, 8, 9, 10, 11, 25)):
            d = nodeset(URIS, up(cls, "i=85", 0), up("OBJECT", "i=85", 1), up("VARIABLE", "i=85", 2))
            r = Load(ctx, "%s refused %d time(s)" % (cls, n), d, fails={sid(IDN(0)): n})
            check(r, [(IDN(0), cls), (IDN(1), "OBJECT"), (IDN(2), "VARIABLE")], {IDN(0): n})
    for f in ((1, 1, 1), (1, 2, 3), (3, 2, 1), (9, 1, 9), (10, 1, 10), (0, 10, 1), (12, 12, 12), (5, 0, 9), (10, 9, 0)):
        for l in (("OBJECT", "OBJECT", "OBJECT"), ("REFERENCETYPE", "VARIABLE", "DATATYPE")):
            d = nodeset(URIS, *[up(c, "i=85", k) for k, c in enumerate(l)])
            r = Load(ctx, "%s refused %s times" % (", ".join(l), f), d, fails={sid(IDN(k)): x for k, x in enumerate(f)})
            check(r, [(IDN(k), c) for k, c in enumerate(l)], {IDN(k): x for k, x in enumerate(f)})
    failures(ctx, up)
    ctx.require("attempts", 20)
    ctx.require("result", 20)


def failures(ctx, up):
    ok = nodeset(URIS, up("OBJECT", "i=85", 0), up("VARIABLE", IDN(0), 1))
    loop = nodeset(URIS, up("OBJECT", IDN(1), 0), up("OBJECT", IDN(0), 1), up("OBJECT", "i=85", 2))
    unres = nodeset(URIS, node("UAObject", IDN(0), refs(ref("ns=2;i=77", "i=85", "false", label="u"))), up("OBJECT", "i=85", 1))
    for what, d, fault in [("a file which cannot be opened", ok, "open"), ("an empty file", [], "empty"), ("a file which is no XML", [], "broken"),
                           ("a file which breaks off", ok, "truncated"), ("a file which breaks off early", ok[:9], "truncated"),
                           ("two nodes which are each other's parent", loop, None),
                           ("an unknown reference type", unres, None)]:
        r = Load(ctx, what, d, faults=[fault])
        r.returns("result", False)
        nothing(r)
        if not r.skip:
            for st, v in r.result:
                lv = [x[0] for x in r.w.g(st, "log")]
                r.ob(st, "logged", any(not x.t and x.c == r.w.m.enums["UA_LOGLEVEL_ERROR"] for x in lv), "the failure is %slogged" % (
                    "" if any(not x.t and x.c == r.w.m.enums["UA_LOGLEVEL_ERROR"] for x in lv) else "not "))
        # and the next file is loaded
        if not r.skip and r.result:
            r2 = Load(ctx, what + ", then another one", d, ok, faults=[fault, None])
            check(r2, [(IDN(0), "OBJECT"), (IDN(1), "VARIABLE")])
    r = Load(ctx, "a nodeset without nodes", nodeset(URIS))
    r.returns("result", True)
    nothing(r)
    if not ctx.skip():
        for what, kw in (("a server", dict(server=ZERO)), ("a path", dict(path=ZERO))):
            w = Backend(ctx, report=lambda rule, st, inst, msg: ctx.ob("result", None if "open" in st.ghost else False, "without %s: %s" % (what, msg)))
            for st, v in w.load_file(ok, **kw):
                v = w.eng.norm(st, v)
                ctx.ob("result", None if v.t else v.c == 0, "loading without %s fails" % what, ctx.at("NodesetLoader_loadFile"), "NodesetLoader_loadFile")


def nothing(r):
    if r.skip:
        return
    for st, v in r.result:
        l = [d for d in r.w.log_of(st)]
        r.ob(st, "nothing", not l, "nothing is asked of the server" if not l else "the server is given %s" % show(l[0].get("id", l[0].get("source"))),
             l[0].get("at") if l else None)
