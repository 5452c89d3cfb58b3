"""Ownership and bounds analysis of whole imports into a server: for documents
which use everything - well-formed or not, with attributes, texts or elements
left out, empty or arbitrary, values which do not fit their type - with refused
nodes and failing files, one file after the other, every access of the import
lies inside a live object, nothing is released twice, and after the data types
were cleaned up nothing is left."""
from engine.values import *
from engine.history import everything, variants

SHARDS = 8


def life(ctx, name, *files, **kw):
    r = Load(ctx, name, *files, **kw)
    if r.skip:
        return
    w = r.w
    if "world" in kw:
        # what is found is reported to the first user of the world
        r.problems = w.found
    n = w.accesses
    states = [s for s, _ in r.result]
    try:
        states = w.cleanup(states) if states else []
    except AnalysisError as e:
        ctx.give_up(name, e)
        return
    r.alive("misuse")
    for st in states:
        if not r.problems:
            r.ob(st, "misuse", True, "%d accesses" % n)
        for lab in w.left(st):
            r.ob(st, "left", None if "unreleased" in st.ghost else False, "after the import and the clean-up the object allocated at %s is left" % lab)
        if not w.left(st):
            r.ob(st, "left", True, "nothing is left")


VAR = lambda k, *v, dt="i=6", **kw: node("UAVariable", "ns=1;i=%d" % (600 + k), refs(ref(ORG, "i=85", "false", label="vr%d" % k)),
                                         *v, attrs=[("DataType", T("vdt%d" % k, dt))] + [(a, T("%s%d" % (a, k), x)) for a, x in kw.items()])
SV = lambda *c: El("Value", (), *c)


def bodies(k):
    """contents of a Value element, fitting a data type or not"""
    t = lambda s, c=None: T("%s.%d" % (s, k), c)
    i32 = lambda s="i", c="7": El("Int32", (), t(s, c))
    eo = lambda *b: El("ExtensionObject", (), El("TypeId", (), El("Identifier", (), t("ti", "i=297"))), El("Body", (), *b))
    return [
        [], [i32()], [El("Int32")], [i32(c="")], [El("String", (), t("s"))], [El("String")],
        [El("ListOfInt32", (), i32("a"), El("Int32"), i32("b", ""))], [El("ListOfInt32")],
        [El("ListOfString", (), El("String", (), t("s1")), El("String"))],
        [El("QualifiedName", (), El("Name", (), t("n")), El("NamespaceIndex", (), t("x", "1")))], [El("QualifiedName", (), El("Name"))],
        [El("QualifiedName", (), El("NamespaceIndex"))], [El("QualifiedName", (), t("qt", "x"))],
        [El("LocalizedText", (), El("Text"))], [El("LocalizedText", (), El("Locale", (), t("l")), El("Text", (), t("x2")))], [El("LocalizedText", (), t("lt"))],
        [El("NodeId", (), El("Identifier", (), t("id", "ns=1;s=q")))], [El("NodeId", (), El("Identifier"))], [El("NodeId", (), t("id2", "i=4"))], [El("NodeId")],
        [El("Guid", (), El("String", (), t("g", "00112233-4455-6677-8899-aabbccddeeff")))], [El("Guid", (), El("String"))], [El("Guid", (), t("g2", "x"))], [El("Guid")],
        [El("ByteString", (), t("b", "YWJj"))], [El("ByteString", (), t("b2", "YQ"))], [El("ByteString", (), t("b3", "%%%%"))], [El("ByteString", (), t("b4", "Y=="))],
        [El("DateTime", (), t("d", "2023-08-09T10:09:08Z"))], [El("DateTime", (), t("d2", "soon"))], [El("DateTime")], [El("DateTime", (), El("X", (), t("d3")))],
        [El("StatusCode", (), El("Code", (), t("c", "5")))], [El("StatusCode", (), El("Code"))], [El("StatusCode")], [El("StatusCode", (), t("c2", "9"))],
        [eo(El("Range", (), El("Low", (), t("lo", "1.5")), El("High", (), t("hi", "2.5"))))], [eo(El("Range", (), t("rt", "x")))], [eo(El("Range"))], [eo()],
        [eo(El("Argument", (), El("Name", (), t("nm")), El("DataType", (), El("Identifier", (), t("id3", "ns=1;s=a"))),
                El("ArrayDimensions", (), El("UInt32", (), t("u1", "3")), El("UInt32", (), t("u2", "4"))),
                El("Description", (), El("Text", (), t("ds")))))],
        [eo(El("Argument", (), El("ArrayDimensions", (), t("ad", "x")), El("Name", (), El("Y", (), t("y"))), El("DataType", (), t("dd"))))],
        [El("ListOfExtensionObject", (), eo(El("Range", (), El("Low", (), t("l1", "1")))), eo(El("Range", (), t("l2"))), eo())],
        [El("A", (), El("B", (), El("C", (), t("deep"))))], [El("A", (), El("SwitchField", (), t("sw", "1")), El("B", (), t("sb")))],
        [El("A", (), El("SwitchField", (), t("sw2", "99")))], [El("A", (), El("SwitchField"))], [i32(), i32("j")]]


TYPES = ["i=%d" % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 19, 20, 21, 22, 24, 26, 29, 296, 884, 887, 7594, 852)]


def wrong(ctx):
    """every shape of value with every data type"""
    n = len(bodies(0))
    own = [DT("S1", "ns=1;i=301", "struct", [("A", std()["Int32"], 0), ("B", std()["String"], 0), ("C", std()["QualifiedName"], 1)]),
           DT("U1", "ns=1;i=302", "union", [("A", std()["Int32"], 0), ("B", std()["String"], 0), ("C", std()["Double"], 1)]),
           DT("E1", "ns=1;i=303", "enum", [("x", 0), ("y", 1)])]
    for x in own:
        x.super = {"struct": "i=22", "union": "i=12756", "enum": "i=29"}[x.kind]
    own[0].fields.append(("D", own[1], 0))
    v = Values(0)
    elems = [v.element(own[1]), v.element(own[0]), v.element(own[2])]
    for ti, t in enumerate(TYPES + [o.id for o in own] + ["ns=1;i=999"]):
        step = 12
        for a in range(0, n, step):
            vs = [VAR(k, SV(*bodies(k)[k]), dt=t) for k in range(a, min(a + step, n))]
            life(ctx, "values %d.. as %s" % (a, t), nodeset(URIS, *(elems if t.startswith("ns") else ()), *vs))


def full(ctx):
    """more data types than there is room for"""
    v = Values(3)
    ts = [DT("T%d" % k, "ns=1;i=%d" % (300 + k), "struct", [("A", std()["Int32"], 0)]) for k in range(3)]
    for t in ts:
        t.super = "i=22"
    r = Load(ctx, "a full array of data types", nodeset(URIS, v.element(ts[0])), unroll=1100)
    if r.skip:
        return
    w, m = r.w, r.w.m
    w.found = r.problems
    for st, _ in r.result:
        b, off = w.eng.resolve(st, st.ghost["config"])
        b, off = w.eng.resolve(st, w.member(st, b, off, "UA_ServerConfig", "customDataTypes", "p"))
        t, o = w.eng.resolve(st, w.member(st, b, off, "UA_DataTypeArray", "types", "p"))
        n = w.eng.obj(st, t).size
        n = n.c // m.sizeof("UA_DataType") if isinstance(n, Lin) and not n.t and o in (0, ZERO) else 0
        if not 3 < n <= 1000:
            return
        # all but the last element are in use
        w.eng.write_cells(st, b, off + m.off("UA_DataTypeArray", "typesSize"), 8, const(n - 1))
    life(ctx, r.name, nodeset(URIS, *[v.element(t) for t in ts[1:]]), world=w, states=[s for s, _ in r.result])


def sizes(ctx):
    """long names, many members, many data types, deep values"""
    v = Values(5)
    for n in (63, 64, 127, 200, 255, 256, 300, 600):
        t = DT("T" + "x" * (n - 1), "ns=1;i=300", "struct", [("m" + "y" * (n - 1), std()["Int32"], 0), ("z", std()["String"], 0)])
        t.super = "i=22"
        life(ctx, "names of %d characters" % n, nodeset(URIS, v.element(t), VAR(0, SV(*v.top(t, None)[0]), dt=t.id)))
    for n in (1, 4, 8, 9, 12, 17, 33):
        base = DT("B", "ns=1;i=300", "struct", [("m%d" % k, std()[("Int32", "String", "Double")[k % 3]], 0) for k in range(n)])
        base.super = "i=22"
        l = [base]
        for k in (1, 2):
            d = DT("D%d" % k, "ns=1;i=%d" % (300 + k), "struct", [("d%d" % k, std()["Byte"], 0)])
            d.super = l[-1].id
            l.append(d)
        life(ctx, "%d members and two derived types" % n, nodeset(URIS, *[v.element(t) for t in l]), unroll=300)
    for n in (7, 8, 9, 15, 16, 17, 24):
        l = []
        for k in range(n):
            t = DT("T%d" % k, "ns=1;i=%d" % (300 + k), "struct", [("a", std()["Int32"] if not k else l[-1], 0)])
            t.super = "i=22"
            l.append(t)
        life(ctx, "%d data types" % n, nodeset(URIS, *[v.element(t) for t in l]), unroll=300)


def unlisted(ctx):
    """values in namespaces the file does not list"""
    for n in (0, 1, 2, 3):
        u = [El("NamespaceUris", (), *[El("Uri", (), T("uri%d" % k, "urn:%d" % k)) for k in range(1, n + 1)])] if n else []
        over = [n + 1, n + 2, 255, 256, 4711, 32768, 65535, 65536, 65537, -1]
        q = lambda l, i: El("QualifiedName", (), El("NamespaceIndex", (), T("x" + l, str(i))), El("Name", (), T("n" + l)))
        d = lambda l, i: El("NodeId", (), El("Identifier", (), T("i" + l, "ns=%d;s=q" % i)))
        vs = []
        for k, i in enumerate(over):
            vs.append(SV(q("q%d" % k, i)))
            vs.append(SV(El("ListOfQualifiedName", (), q("a%d" % k, 0), q("b%d" % k, i))))
            if 0 <= i < 65536:
                vs.append(SV(d("d%d" % k, i)))
                vs.append(SV(El("ListOfNodeId", (), d("e%d" % k, i), d("f%d" % k, 0))))
        for a in range(0, len(vs), 10):
            l = [node("UAVariable", "i=%d" % (60000 + a + j), refs(ref(ORG, "i=85", "false", label="vr%d" % j)), v, attrs=[
                ("DataType", T("vdt%d" % j, "i=17" if "NodeId" in str(v) else "i=20"))]) for j, v in enumerate(vs[a:a + 10])]
            life(ctx, "values %d.. in namespaces the file with %d does not list" % (a, n), nodeset(*u, *l))


def run(ctx):
    full(ctx)
    unlisted(ctx)
    sizes(ctx)
    docs = everything()
    for k, d in enumerate(docs):
        for f in ({}, {"fails": {sid("ns=1;s=v"): 1}}, {"ext": False}):
            life(ctx, "document %d %s" % (k, f), d, **f)
        life(ctx, "documents %d twice" % k, d, d)
        life(ctx, "documents %d and %d" % (k, (k + 1) % len(docs)), d, docs[(k + 1) % len(docs)])
        for fault in ("open", "empty", "broken", "truncated"):
            life(ctx, "document %d, %s" % (k, fault), d, d, faults=[fault, None])
        for j, (what, v) in enumerate(variants(d)):
            if ctx.thorough or j % 19 == k % 19:
                life(ctx, "document %d %s" % (k, what), v)
    wrong(ctx)
    n = 40 if ctx.thorough else 10
    for s in range(n):
        v = Values(2000 + s)
        ts = v.types(3)
        l = [VAR(k, SV(*v.top(t, c)[0]), dt=t.id, ArrayDimensions=("", "3", "2,3", ",")[k % 4]) for k, (t, c) in enumerate((t, c) for t in ts for c in (None, 2))]
        files = [nodeset(URIS, *[v.element(t) for t in ts], *l)]
        life(ctx, "types and values %d" % s, *files, fails={sid("ns=1;i=600"): s % 12})
        life(ctx, "types and values %d in two files" % s, nodeset(URIS, *[v.element(t) for t in ts]), nodeset(URIS, *l))
        for j, (what, x) in enumerate(variants(files[0])):
            if j % (7 if ctx.thorough else 29) == s % 7:
                life(ctx, "types and values %d %s" % (s, what), x)
    ctx.require("misuse", 150)
    ctx.require("left", 150)


