"""Value-flow analysis of NodesetLoader_loadFile up to the server's interface:
for every class of nodes, with every attribute and text arbitrary, absent or at
selected numbers, what the server is given for the node - id, parent, reference
to the parent, browse name, type definition, attributes and context - is read
from the abstract memory at the call and compared with the document."""
import random
from engine.server import *

SHARDS = 4
INSTANCES = ("OBJECT", "VARIABLE", "METHOD", "VIEW")


def lt(e, text=None, locale=None):
    return El(e, [("Locale", T(locale))] if locale else (), *([T(text)] if text else []))


def rank(l):
    def f(got):
        return got in (1, "int:" + l)
    f.__doc__ = "int:" + l
    return f


def flag(v):
    return int(v in ("true", "1"))


# attribute of the document -> (attribute given to the server, value for an arbitrary text, default)
B8 = lambda l: "int:" + l
ATTR = {
    "OBJECT": {"EventNotifier": ("eventNotifier", B8, 0)},
    "VIEW": {"EventNotifier": ("eventNotifier", B8, 0), "ContainsNoLoops": ("containsNoLoops", flag, 0)},
    "METHOD": {"Executable": ("executable", flag, 1), "UserExecutable": ("userExecutable", flag, 1)},
    "VARIABLE": {"ValueRank": ("valueRank", lambda l: "int:" + l, -1), "AccessLevel": ("accessLevel", B8, 1),
                 "UserAccessLevel": ("userAccessLevel", B8, 1), "Historizing": ("historizing", flag, 0),
                 "MinimumSamplingInterval": ("minimumSamplingInterval", lambda l: "real:" + l, -1.0)},
    "OBJECTTYPE": {"IsAbstract": ("isAbstract", flag, 0)},
    "DATATYPE": {"IsAbstract": ("isAbstract", flag, 0)},
    "VARIABLETYPE": {"ValueRank": ("valueRank", lambda l: "int:" + l, -1), "IsAbstract": ("isAbstract", flag, 0)},
    "REFERENCETYPE": {"Symmetric": ("symmetric", flag, 0)},
}
UP = {"OBJECT": ORG, "VARIABLE": COMP, "METHOD": COMP, "VIEW": ORG}
TEXTS = ("displayName.locale", "displayName.text", "description.locale", "description.text")
NOTEXT = {t: EMPTY for t in TEXTS}


def given(cls, picks):
    """attributes of the document, and what the server is to be given"""
    at, want = [], {}
    for a, (s, f, dflt) in ATTR[cls].items():
        p = picks.get(a, "any")
        if p is None:
            want[s] = dflt
        elif f is flag:
            v = "true" if p == "any" else p
            at.append((a, T("at" + a, v)))
            want[s] = flag(v)
        elif p == "any":
            at.append((a, T("at" + a)))
            want[s] = f("at" + a)
        else:
            at.append((a, T("at" + a, p)))
            want[s] = float(p) if s == "minimumSamplingInterval" else int(p)
    return at, want


def doc(cls, *content, attrs=(), typed=True, i="ns=2;s=n", bn="2:Name", up=None):
    r = [ref(up or UP.get(cls, SUBT), "ns=1;i=7", "false")]
    if typed and cls in ("OBJECT", "VARIABLE"):
        r.append(ref(TYPEDEF, "ns=1;i=9"))
    return nodeset(URIS, node(ELEM[cls], i, refs(*r), *content, attrs=attrs, bn=bn))


def node_of(cls, typed=True, up=None, i="ns=2;s=n"):
    return dict(id=sid(i), parent=(5, "i=7"), reference=nid(up or UP.get(cls, SUBT)), browseName=(3, ("lit", "Name")),
                typedef=(5, "i=9") if typed and cls in ("OBJECT", "VARIABLE") else None, context=None,
                **({"complete": plain} if cls in ("OBJECT", "VARIABLE") else {}))


def plain(got):
    """without the children of its type"""
    return got is False


def run(ctx):
    for cls in ADDORDER:
        # everything given, with arbitrary texts
        at, want = given(cls, {})
        x = []
        if cls == "REFERENCETYPE":
            x = [lt("InverseName", "iv", "ivl")]
            want.update({"inverseName.text": ("text", ("iv",)), "inverseName.locale": ("text", ("ivl",))})
        if cls in ("VARIABLE", "VARIABLETYPE"):
            at += [("DataType", T("dt", "ns=1;i=4")), ("ArrayDimensions", T("ad", "3,0,70000"))]
            want.update({"dataType": (5, "i=4"), "arrayDimensions": [3, 0, 70000], "arrayDimensionsSize": 3})
        want.update({"displayName.locale": ("text", ("dnl",)), "displayName.text": ("text", ("dn",)),
                     "description.locale": ("text", ("del",)), "description.text": ("text", ("de",))})
        r = Load(ctx, "%s with arbitrary texts" % cls, doc(cls, lt("DisplayName", "dn", "dnl"), lt("Description", "de", "del"), *x, attrs=at))
        r.node("node", sid("ns=2;s=n"), cls, node_of(cls), want)
        r.exactly("no-other", [(cls, sid("ns=2;s=n"))])
        # nothing given
        at, want = given(cls, {a: None for a in ATTR[cls]})
        want.update(NOTEXT)
        if cls in ("VARIABLE", "VARIABLETYPE"):
            want.update({"dataType": (0, "i=24"), "arrayDimensions": [], "arrayDimensionsSize": 0})
        if cls == "REFERENCETYPE":
            want.update({"inverseName.text": EMPTY, "inverseName.locale": EMPTY})
        r = Load(ctx, "%s without attributes" % cls, doc(cls, typed=False))
        r.node("defaults", sid("ns=2;s=n"), cls, node_of(cls, False), want)
        # each text without the others
        for e, p in (("DisplayName", "displayName"), ("Description", "description")):
            for t, l in (("t", None), ("t", "l"), (None, "l")):
                w = dict(NOTEXT)
                w[p + ".text"] = ("text", ("t",)) if t else EMPTY
                w[p + ".locale"] = ("text", ("l",)) if l else EMPTY
                if t == "t" or cls in ("OBJECT", "DATATYPE"):
                    r = Load(ctx, "%s with %s %s" % (cls, e, " and ".join(k for k, y in (("text", t), ("locale", l)) if y)),
                             doc(cls, lt(e, t, l)))
                    r.node("texts", sid("ns=2;s=n"), cls, node_of(cls), w)
        # one attribute at a time, at particular values
        for a, (s, f, dflt) in ATTR[cls].items():
            vals = ("true", "false", "1", "0") if f is flag else ("0", "1", "2", "3", "255") if f is B8 else (
                "-3", "-2", "-1", "0", "1", "2", "7") if s == "valueRank" else ("0", "-1", "12.5", "1e3")
            for v in vals:
                at, want = given(cls, dict({b: None for b in ATTR[cls]}, **{a: v}))
                if cls == "VARIABLE" and s == "valueRank" and v == "1":
                    want.update({"arrayDimensions": [0], "arrayDimensionsSize": 1})
                if cls == "VARIABLETYPE" and s == "valueRank" and int(v) >= 0:
                    want.update({"arrayDimensions": [0], "arrayDimensionsSize": 1})
                r = Load(ctx, "%s with %s %s" % (cls, a, v), doc(cls, attrs=at))
                r.node("attribute", sid("ns=2;s=n"), cls, node_of(cls), want)
        # an extension's data is the node's context
        r = Load(ctx, "%s with an extension" % cls, doc(cls, El("Extensions", (), El("Extension", (), El("X", (), T("x"))))))
        r.node("context", sid("ns=2;s=n"), cls, dict(node_of(cls), context="extension-data:0"))
        # kinds of ids and names
        for i, bn, b in (("i=1", "N", (0, ("lit", "N"))), ("ns=1;i=4294967295", "1:", (5, EMPTY)), ("ns=1;s=a b;c=d", "2:1:x", (3, ("lit", "1:x"))),
                         ("s=x", "0:Name", (0, ("lit", "Name")))):
            r = Load(ctx, "%s %s named %s" % (cls, i, bn), doc(cls, i=i, bn=bn))
            r.node("identity", sid(i), cls, dict(node_of(cls, i=i), browseName=b))
    # dimensions
    for cls in ("VARIABLE", "VARIABLETYPE"):
        for t, d in (("", []), ("0", [0]), ("5", [5]), ("1,2", [1, 2]), ("10, 20", [10, 20]), ("2147483647", [2147483647]),
                     ("1,2,3,4,5,6,7", [1, 2, 3, 4, 5, 6, 7])):
            r = Load(ctx, "%s with the dimensions '%s'" % (cls, t), doc(cls, attrs=[("ArrayDimensions", T("ad", t)), ("ValueRank", T("vr", "-1"))]))
            r.node("dimensions", sid("ns=2;s=n"), cls, node_of(cls), {"arrayDimensions": d, "arrayDimensionsSize": len(d)})
    arr = lambda n: El("Value", (), El("ListOfInt32", (), *[El("Int32", (), T("e%d" % k, str(k))) for k in range(n)]))
    for n in (1, 2, 5):
        for rank, dims in (("-1", [n]), ("-2", [n]), ("1", [0]), ("0", [n])):
            r = Load(ctx, "variable of rank %s with an array of %d without dimensions" % (rank, n),
                     doc("VARIABLE", arr(n), attrs=[("DataType", T("dt", "i=6")), ("ValueRank", T("vr", rank))]))
            r.node("dimensions", sid("ns=2;s=n"), "VARIABLE", node_of("VARIABLE"), {"arrayDimensions": dims, "arrayDimensionsSize": 1})
        r = Load(ctx, "variable with dimensions and an array of %d" % n,
                 doc("VARIABLE", arr(n), attrs=[("DataType", T("dt", "i=6")), ("ValueRank", T("vr", "1")), ("ArrayDimensions", T("ad", "9"))]))
        r.node("dimensions", sid("ns=2;s=n"), "VARIABLE", node_of("VARIABLE"), {"arrayDimensions": [9], "arrayDimensionsSize": 1})
    parents(ctx)
    several(ctx)
    for k in range(120 if ctx.thorough else 24):
        drawn(ctx, k)
    ctx.require("node", 8)
    ctx.require("parent", 8)


def parents(ctx):
    """which node is the parent, by which reference"""
    A, B_, C = "ns=1;i=7", "ns=1;i=8", "ns=1;i=9"
    for cls in ("OBJECT", "VARIABLE", "METHOD", "VIEW", "OBJECTTYPE", "DATATYPE", "VARIABLETYPE", "REFERENCETYPE"):
        inst = cls in INSTANCES
        cases = [("no reference", [], None, None, None), ("a forward reference only", [(ORG, A, None)], None, None, None),
                 ("a non-hierarchical inverse reference only", [("i=37", A, "false")], None, None, None),
                 ("a forward and an inverse reference", [(ORG, A, None), (COMP, B_, "false")], None, B_, COMP),
                 ("an inverse and a forward reference", [(COMP, B_, "false"), (ORG, A, "true")], None, B_, COMP),
                 ("a non-hierarchical and an inverse reference", [("i=37", A, "false"), (COMP, B_, "false"), ("i=39", C, "false")], None, B_, COMP)]
        if inst:
            cases += [("its parent's id and the reference", [(COMP, A, "false")], A, A, COMP),
                      ("its parent's id and references to two nodes", [(COMP, A, "false"), (ORG, B_, "false")], A, A, COMP),
                      ("its parent's id and references to two nodes, second", [(COMP, A, "false"), (ORG, B_, "false")], B_, B_, ORG),
                      ("its parent's id and references to three nodes", [(COMP, A, "false"), (ORG, B_, "false"), (PROP, C, "false")], B_, B_, ORG),
                      ("its parent's id, a forward reference to it and an inverse one to another node",
                       [(ORG, A, None), (COMP, B_, "false")], B_, B_, COMP)]
        else:
            other = [(ORG, A, "false"), (COMP, C, "false"), (ORG, "ns=1;i=6", None)]
            for k in range(4):
                cases.append(("its supertype as reference %d of 4" % k, other[:k] + [(SUBT, B_, "false")] + other[k:], None, B_, SUBT))
        for what, rl, pid, parent, rt in cases:
            d = nodeset(URIS, node(ELEM[cls], "ns=2;i=1", refs(*[ref(t, x, f, label=str(k)) for k, (t, x, f) in enumerate(rl)]),
                                   attrs=[("ParentNodeId", T("pid", pid))] if pid else []))
            r = Load(ctx, "%s with %s" % (cls, what), d)
            r.node("parent", sid("ns=2;i=1"), cls, dict(parent=sid(parent) if parent else None, reference=nid(rt) if rt else None))
    # the parent of a node known from the same file, by its forward reference only
    for cls in INSTANCES:
        for t in (ORG, COMP, PROP):
            d = nodeset(URIS, node("UAObject", "ns=1;i=7", refs(ref(ORG, "ns=1;i=6", "false"), ref(t, "ns=1;i=8"))),
                        node(ELEM[cls], "ns=1;i=8", attrs=[("ParentNodeId", T("pid", "ns=1;i=7"))]))
            r = Load(ctx, "%s which is referenced by its parent only (%s)" % (cls, t), d)
            r.node("parent", sid("ns=1;i=8"), cls, dict(parent=(5, "i=7"), reference=nid(t)))


def drawn(ctx, seed):
    """documents of a few nodes with everything drawn: which attributes, texts and references there are, and their values"""
    r = random.Random(seed)
    classes = r.sample(ADDORDER, 3) if seed % 2 else [ADDORDER[seed // 2 % 8]] * 2 + r.sample(ADDORDER, 1)
    els, want = [], []
    for k, cls in enumerate(classes):
        i = r.choice(["ns=1;i=%d", "ns=2;i=%d", "ns=1;s=a%d", "ns=2;s=n%d", "i=%d"]) % (500 + k)
        at, w = [], dict(NOTEXT)
        for a, (s, f, dflt) in ATTR[cls].items():
            p = r.choice([None, "true", "true", "false"] if f is flag else [None, "any", "0", "1", "3", "7"] if f is B8 else
                         [None, "-3", "-1", "0", "1", "2"] if s == "valueRank" else [None, "any", "0", "100", "2.5"])
            if p is not None:
                at.append((a, T("%s%d" % (a, k), None if p == "any" else p)))
            w[s] = dflt if p is None else flag(p) if f is flag else f("%s%d" % (a, k)) if p == "any" else \
                float(p) if s == "minimumSamplingInterval" else int(p)
        c = []
        for e, p in (("DisplayName", "displayName"), ("Description", "description")) + ((("InverseName", "inverseName"),) if cls == "REFERENCETYPE" else ()):
            t, l = r.random() < .7, r.random() < .5
            if t or l:
                c.append(lt(e, "%st%d" % (p, k) if t else None, "%sl%d" % (p, k) if l else None))
            w[p + ".text"] = ("text", ("%st%d" % (p, k),)) if t else EMPTY
            w[p + ".locale"] = ("text", ("%sl%d" % (p, k),)) if l else EMPTY
        if cls in ("VARIABLE", "VARIABLETYPE"):
            d = r.choice([None, None, [2], [3, 4], [1, 0, 5, 6]])
            x = r.choice([None, "i=6", "ns=2;s=dt", "ns=1;i=4"])
            if d:
                at.append(("ArrayDimensions", T("dims%d" % k, ",".join(map(str, d)))))
            if x:
                at.append(("DataType", T("dtype%d" % k, x)))
            w["dataType"] = sid(x or "i=24")
            n = 0
            if cls == "VARIABLE" and r.random() < .4 and x == "i=6":
                n = r.randint(1, 3)
                c.append(El("Value", (), El("ListOfInt32", (), *[El("Int32", (), T("e%d_%d" % (k, j), str(j))) for j in range(n)])))
            if not d:
                d = [0] if w["valueRank"] == 1 or cls == "VARIABLETYPE" and w["valueRank"] >= 0 else [n] if n else []
            w.update(arrayDimensions=d, arrayDimensionsSize=len(d))
        ext = r.random() < .3
        if ext:
            c.append(El("Extensions", (), El("Extension", (), El("X", (), T("x%d" % k)))))
        td = "ns=2;i=%d" % (90 + k) if cls in ("OBJECT", "VARIABLE") and r.random() < .7 else None
        rl = [ref("i=37", "i=78", label="mr%d" % k)] if r.random() < .3 else []
        rl.insert(r.randint(0, len(rl)), ref(UP.get(cls, SUBT), "ns=1;i=%d" % (70 + k), "false", label="up%d" % k))
        if td:
            rl.insert(r.randint(0, len(rl)), ref(TYPEDEF, td, label="td%d" % k))
        r.shuffle(at)
        c.insert(r.randint(0, len(c)), refs(*rl))
        els.append(node(ELEM[cls], i, *c, attrs=at, bn="%d:N%d" % (k, k)))
        want.append((i, cls, dict(id=sid(i), parent=(5, "i=%d" % (70 + k)), reference=nid(UP.get(cls, SUBT)), browseName=((0, 5, 3)[k], ("lit", "N%d" % k)),
                                  context="extension-data:0" if ext else None, typedef=sid(td) if td else None,
                                  **({"complete": plain} if cls in ("OBJECT", "VARIABLE") else {})), w))
    r = Load(ctx, "drawn %d" % seed, nodeset(URIS, *els))
    j = 0
    for i, cls, h, w in want:
        if h["context"]:
            h["context"] = "extension-data:%d" % j
            j += 4
        r.node("drawn", sid(i), cls, h, w)
    r.exactly("no-other", [(cls, sid(i)) for i, cls, h, w in want])


def several(ctx):
    """many nodes in one file, none is given another's data"""
    for first in range(8):
        l, order = [], ADDORDER[first:] + ADDORDER[:first]
        for k, cls in enumerate(order):
            at = [(a, T("%s%d" % (a, k), "true") if f is flag else T("%s%d" % (a, k))) for a, (s, f, _) in ATTR[cls].items()]
            r = [ref(UP.get(cls, SUBT), "ns=1;i=%d" % (70 + k), "false")] + ([ref(TYPEDEF, "ns=1;i=%d" % (90 + k))] if cls in ("OBJECT", "VARIABLE") else [])
            l.append(node(ELEM[cls], "ns=2;i=%d" % k, lt("DisplayName", "dn%d" % k, "dnl%d" % k), lt("Description", "de%d" % k, "del%d" % k), refs(*r),
                          attrs=at, bn="1:N%d" % k))
        r = Load(ctx, "all classes, beginning with %s" % order[0], nodeset(URIS, *l))
        for k, cls in enumerate(order):
            want = {s: 1 if f is flag else f("%s%d" % (a, k)) for a, (s, f, _) in ATTR[cls].items()}
            if "valueRank" in want:
                want["valueRank"] = rank("ValueRank%d" % k)
            want.update({"displayName.locale": ("text", ("dnl%d" % k,)), "displayName.text": ("text", ("dn%d" % k,)),
                         "description.locale": ("text", ("del%d" % k,)), "description.text": ("text", ("de%d" % k,))})
            r.node("several", (3, "i=%d" % k), cls, dict(
                parent=(5, "i=%d" % (70 + k)), reference=nid(UP.get(cls, SUBT)), browseName=(5, ("lit", "N%d" % k)), context=None,
                typedef=(5, "i=%d" % (90 + k)) if cls in ("OBJECT", "VARIABLE") else None), want)
        r.exactly("no-other", [(cls, (3, "i=%d" % k)) for k, cls in enumerate(order)])
