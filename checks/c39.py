"""Abstract interpretation of NodesetLoader_loadFile with drawn hierarchies of
reference types - chains of any depth and any number at the server, types of the
file and of files before it - and nodes which use them: what the server gets as
parent, reference to the parent and type definition shows how each type was
classified."""
import random
from engine.server import *
from engine import counters

SHARDS = 8
ROOT = {"i=33": "H", "i=32": "N", "i=40": "T", "i=35": "H", "i=47": "H", "i=37": "N", "i=46": "H", "i=34": "H", "i=44": "H", "i=56": "H", "i=49": "H",
        "i=36": "H", "i=38": "N", "i=39": "N", "i=41": "N", "i=3065": "N", "i=14476": "H", "i=45": "H"}


def edge(up, i, i45="i=45"):
    f = lambda x: sid(x) if x.startswith("ns") else (0, x)
    return (f(up), (0, i45), f(i), "REFERENCETYPE")


def typ(i, *ups, extra=()):
    return node("UAReferenceType", i, refs(*[ref(SUBT, u, "false", label="sub:%s:%s" % (i, u)) for u in ups], *extra))


def use(k, t, kind):
    """a node with one reference of the type"""
    i = "ns=1;i=%d" % (500 + k)
    if kind == "T":
        return node("UAObject", i, refs(ref(t, "ns=1;i=8", label="use:" + i)))
    return node("UAObject", i, refs(ref(t, "ns=1;i=8", "false", label="use:" + i)))


def check(ctx, name, files, uses, **kw):
    """uses: [(type, kind)], all in the last file"""
    fs = [dict(ns=NS, file=nodeset(URIS, *f)) for f in files]
    fs[-1] = dict(ns=NS, file=nodeset(URIS, *files[-1], *[use(k, t, c) for k, (t, c) in enumerate(uses)]))
    r = Load(ctx, name, *fs, **kw)
    for k, (t, c) in enumerate(uses):
        i = sid("ns=1;i=%d" % (500 + k))
        r.node("classified", i, "OBJECT", {
            "H": dict(parent=(5, "i=8"), reference=sid(t), typedef=None),
            "N": dict(parent=None, reference=None, typedef=None),
            "T": dict(parent=None, reference=None, typedef=(5, "i=8"))}[c])
        for st, v in r.result:
            l = [(d["type"], d["forward"], d["target"]) for d in r.refs(st) if d["source"] == i]
            want = [] if c == "T" else [(sid(t), 0, (5, "i=8"))]
            ok = l == want
            r.ob(st, "references", True if ok or c == "T" and all(x == (sid(t), 1, (5, "i=8")) for x in l) else None if undecided(l) else False,
                 "references of %s are %s, expected were %s" % (show(i), show(l), show(want)))


def run(ctx):
    counters.check(ctx, "backends/open62541/src/RefServiceImpl.c")
    std = sorted(ROOT)
    for k in range(0, len(std), 6):
        check(ctx, "standard types %d" % k, [[]], [(t, ROOT[t]) for t in std[k:k + 6] if t != "i=45"])
    # chains and numbers of types at the server
    for root, c in (("i=33", "H"), ("i=35", "H"), ("i=49", "H"), ("i=32", "N"), ("i=3065", "N"), ("i=40", "T")):
        ch = [edge(a, b) for a, b in zip([root] + ["ns=1;i=%d" % k for k in range(60, 64)], ["ns=1;i=%d" % k for k in range(60, 65)])]
        check(ctx, "chain of the server below " + root, [[]], [("ns=1;i=%d" % k, c) for k in range(60, 65)], nodes=ch)
        deep = [root] + ["ns=1;i=%d" % k for k in range(60, 74)]
        check(ctx, "deep chain of the server below " + root, [[]], [(t, c) for t in deep[1::2] + deep[-1:]],
              nodes=[edge(a, b) for a, b in zip(deep, deep[1:])])
        mid = 7
        check(ctx, "deep chain of the server and the file below " + root, [[typ(b, a) for a, b in zip(deep[mid:], deep[mid + 1:])]],
              [(t, c) for t in deep[mid - 1:]], nodes=[edge(a, b) for a, b in zip(deep[:mid], deep[1:mid + 1])])
        n = 120 if ctx.thorough else 104
        last = ["ns=1;i=%d" % (1000 + n - 1), "ns=1;i=2000", "ns=1;i=2001", "ns=1;i=2002"]
        check(ctx, "many types of the server below " + root, [[]], [("ns=1;i=%d" % (1000 + k), c) for k in (0, 1, 50, 99, 100, n - 1)] + [
              (t, c) for t in last[1:]], nodes=[edge(root, "ns=1;i=%d" % (1000 + k)) for k in range(n)] + [edge(a, b) for a, b in zip(last, last[1:])],
              unroll=150)
        long = [root] + ["ns=1;i=%d" % k for k in range(60, 95)]
        check(ctx, "chain of 35 types of the server below " + root, [[]], [(t, c) for t in long[15::5] + long[-1:]],
              nodes=[edge(a, b) for a, b in zip(long, long[1:])])
        n = 140 if ctx.thorough else 70
        check(ctx, "many types of the file below " + root, [[typ("ns=1;i=%d" % (1000 + k), root) for k in range(n)] + [
            typ(b, a) for a, b in zip(["ns=1;i=%d" % (1000 + n - 1)] + last[1:], last[1:])]],
              [("ns=1;i=%d" % (1000 + k), c) for k in (0, 1, 31, 32, 49, 50, 63, 64, n - 1)] + [(t, c) for t in last[1:]], unroll=300)
        check(ctx, "type with text id below " + root, [[]], [("ns=2;s=my", c), ("ns=1;s=my", c)],
              nodes=[edge(root, "ns=2;s=my"), edge("ns=2;s=my", "ns=1;s=my")])
        check(ctx, "type of the file below " + root, [[typ("ns=1;i=60", root)]], [("ns=1;i=60", c)])
        check(ctx, "chain of the file below " + root, [[typ("ns=1;i=60", root), typ("ns=1;i=61", "ns=1;i=60"), typ("ns=2;s=x", "ns=1;i=61")]],
              [("ns=1;i=60", c), ("ns=1;i=61", c), ("ns=2;s=x", c)])
        check(ctx, "type of the file below one of the server's below " + root, [[typ("ns=1;i=61", "ns=1;i=60")]],
              [("ns=1;i=60", c), ("ns=1;i=61", c)], nodes=[edge(root, "ns=1;i=60")])
        check(ctx, "types of two files below " + root, [[typ("ns=1;i=60", root)], [typ("ns=1;i=61", "ns=1;i=60")]],
              [("ns=1;i=60", c), ("ns=1;i=61", c)])
        check(ctx, "types of three files below " + root, [[typ("ns=1;i=60", root)], [typ("ns=1;i=61", "ns=1;i=60")], []],
              [("ns=1;i=60", c), ("ns=1;i=61", c)])
        check(ctx, "other references of a type below " + root,
              [[typ("ns=1;i=60", root, extra=[ref("i=39", "ns=1;i=99"), ref(PROP, "ns=1;i=98")]), typ("ns=1;i=61", "ns=1;i=60")]],
              [("ns=1;i=60", c), ("ns=1;i=61", c)])
    # subtypes are found by HasSubtype references only
    check(ctx, "types below others by other references", [[]], [("ns=1;i=61", "H"), ("ns=1;i=62", "N")],
          nodes=[edge("i=35", "ns=1;i=61"), edge("i=37", "ns=1;i=62"), edge("i=37", "ns=1;i=61", "i=39"), edge("i=35", "ns=1;i=62", "i=41")])
    for up in ("i=33", "i=35", "i=47"):
        for k, t in enumerate(("i=35", COMP, PROP, "i=33", "i=36")):
            for root, c in (("i=32", "N"), ("i=35", "H"), ("i=40", "T")):
                o, s = ref(t, up, "false", label="o"), ref(SUBT, root, "false", label="s")
                for rs in ((o, s), (s, o)):
                    if up != "i=33" and (k + len(root)) % 2:
                        continue
                    check(ctx, "a type below %s by %s and a subtype of %s" % (up, t, root), [[node("UAReferenceType", "ns=1;i=60", refs(*rs)),
                          typ("ns=1;i=61", "ns=1;i=60")]], [("ns=1;i=60", c), ("ns=1;i=61", c)])
        check(ctx, "a type of the file below the type definition by %s" % up, [[node("UAReferenceType", "ns=1;i=60", refs(
            ref("i=35", "i=40", "false", label="o"), ref(SUBT, "i=32", "false", label="s")))]], [("ns=1;i=60", "N")])
    # a type in front of the one it is a subtype of
    for root in ("i=33", "i=47"):
        r = Load(ctx, "a type in front of its supertype below " + root, nodeset(
            URIS, typ("ns=1;i=61", "ns=1;i=60"), typ("ns=1;i=60", root), use(0, "ns=1;i=61", "H"), use(1, "ns=1;i=60", "H")))
        for st, v in r.result if not r.skip else ():
            for x in r.adds(st):
                ok = (x["parent"], x["reference"]) == ((5, "i=8"), sid("ns=1;i=61"))
                if x["id"] == sid("ns=1;i=500"):
                    ctx.ob("supertype-order", True if ok else None if undecided(x["parent"]) else False,
                           "a reference type of a file which stands in front of the hierarchical type it is a subtype of is taken for a "
                           "type which is not hierarchical", ctx.at("addnewRefType"), "addnewRefType")
                if x["id"] == sid("ns=1;i=501"):
                    ok = (x["parent"], x["reference"]) == ((5, "i=8"), sid("ns=1;i=60"))
                    r.ob(st, "classified", True if ok else None if undecided(x["parent"]) else False,
                         "ns=1;i=501 has the parent %s" % show(x["parent"]), x["at"])
    for k, ups in enumerate((("i=33", "ns=1;i=60"), ("ns=1;i=60", "i=33"), ("ns=1;i=60",), ("i=40", "ns=1;i=60", "i=40"), ("i=35", "i=35"))):
        Load(ctx, "a type below itself or twice below another %d" % k, nodeset(URIS, typ("ns=1;i=60", *ups))).alive("ends")
    # a type which is below no other is no hierarchical one, and disturbs no other type
    for n, f in (("without references", None), ("with an empty list", refs()), ("with other references", refs(ref("i=39", "ns=1;i=99", label="o")))):
        d = [node("UAReferenceType", "ns=1;i=60", *([f] if f else [])), typ("ns=1;i=61", "i=35"), typ("ns=1;i=62", "ns=1;i=61"), typ("ns=1;i=63", "i=32")]
        check(ctx, "a type %s" % n, [d], [("ns=1;i=61", "H"), ("ns=1;i=62", "H"), ("ns=1;i=63", "N")])
        r = Load(ctx, "a type %s used" % n, nodeset(URIS, *d, use(0, "ns=1;i=60", "N")))
        for st, v in r.result if not r.skip else ():
            for x in r.adds(st):
                if x["id"] == sid("ns=1;i=500"):
                    r.ob(st, "classified", x["parent"] is None, "ns=1;i=500 has the parent %s" % show(x["parent"]), x["at"])
    # drawn
    for s in range(120 if ctx.thorough else 24):
        r = random.Random(s)
        kind = dict(ROOT)
        server, files = [], [[] for _ in range(r.choice((1, 1, 2, 3)))]
        own = []
        for k in range(r.randint(3, 7)):
            i = r.choice(("ns=1;i=%d", "ns=2;i=%d", "ns=1;s=t%d")) % (60 + k)
            up = r.choice([x for x in kind if x != "i=45"] if not own or r.random() < .4 else own)
            kind[i] = kind[up]
            where = r.randrange(-1, len(files))
            wu = [f for f, l in enumerate(files) if any(x[0] == up for x in l)]
            where = max([where] + wu)
            if where < 0:
                server.append(edge(up, i))
            else:
                files[where].append((i, up))
            own.append(i)
        check(ctx, "drawn %d" % s, [[typ(i, up) for i, up in l] for l in files], [(t, kind[t]) for t in own + [r.choice(std[:-1])]][:7] , nodes=server)
