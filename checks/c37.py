"""Value-flow analysis of the conversion of values: for every type of value -
numbers at their limits, texts, times, identifiers, structures, unions,
enumerations, drawn types of the document's own, nested and inherited, arrays of
all of these - the variant given to the server is decoded from the abstract
memory with the type's own description, and compared with the document."""
from engine.values import *
from engine import counters

SHARDS = 8


def variable(k, t, c, ident=None):
    return node("UAVariable", "ns=1;i=%d" % (900 + k), refs(ref(ORG, "ns=1;i=7", "false", label="up%d" % k)), El("Value", (), *c),
                attrs=[("DataType", T("dt%d" % k, ident or t.id))])


def compare(r, vars, rule="value"):
    """vars: [(type | None, expected value)]"""
    r.alive(rule)
    for st, v in r.result:
        by = {d["id"]: d for d in r.adds(st) if d["class"] == "VARIABLE"}
        for k, (t, want) in enumerate(vars):
            i = sid("ns=1;i=%d" % (900 + k))
            d = by.get(i)
            if d is None:
                r.ob(st, rule, False if len(by) == len(r.adds(st)) and not undecided(list(by)) else None, "variable %s is not added" % show(i))
                continue
            g = d["attributes"]["value"] if d["attributes"] != UNK else UNK
            if t is None:
                r.ob(st, rule, None if g == UNK else g is None, "variable %s of an unknown type is given the value %s" % (show(i), show(g)), d["at"])
                continue
            if g is None and want == []:
                r.ob(st, rule, True, "empty list")
                continue
            if g is None or g == UNK or not isinstance(g, tuple):
                r.ob(st, rule, None if g == UNK else False, "%s: no value is given, expected was %s" % (t.name, show(want)), d["at"])
                continue
            r.ob(st, "type", same_type(g[0], t) if isinstance(g[0], Type) else None,
                 "a value of the type %s is given with the type %s" % (t.name, g[0]), d["at"])
            ok = g[1] == want
            r.ob(st, rule, verdict(want, g[1]),
                 "value of %s (%s) is %s%s" % (t.name, t.basic() or t.kind, show(g[1]), "" if ok else ", expected was %s" % show(want)), d["at"])


def case(ctx, name, l, types=(), split=False, ident=None, rule="value", **kw):
    """l: [(type, content, expected)]"""
    vs = [variable(k, t, c, ident) for k, (t, c, w) in enumerate(l)]
    ts = [V0.element(t) for t in types]
    files = [nodeset(URIS, *ts), nodeset(URIS, *vs)] if split else [nodeset(URIS, *ts, *vs)]
    if split:
        files = [dict(ns=NS, file=f) for f in files]
    compare(Load(ctx, name, *files, **kw), [(t, w) for t, c, w in l], rule)


V0 = Values(0)


def chunks(l, n):
    return [l[k:k + n] for k in range(0, len(l), n)]


def tops(v, ts, counts):
    return [(t, *v.top(t, n)) for t in ts for n in counts]


def run(ctx):
    counters.check(ctx, "backends/open62541/src/Value.c", "backends/open62541/src/nodeset_base64.h")
    seeds = 6 if ctx.thorough else 1
    S = std()
    basics = [t for t in S.values() if t.kind == "basic"]
    for s in range(seeds):
        v = Values(1000 + s)
        for k, l in enumerate(chunks(tops(v, basics, (None, None, 3, 1)), 8)):
            case(ctx, "values of basic types %d.%d" % (s, k), l)
        for k, l in enumerate(chunks(tops(v, [t for t in S.values() if t.kind != "basic"], (None, None, 2, 1)), 8)):
            case(ctx, "values of standard types %d.%d" % (s, k), l)
    # numbers at their limits, with white space around them
    lim = []
    for t, (bits, sg) in INTS.items():
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        for x in (lo, hi, hi - 1, lo + 1, hi // 2 + 1):
            lim.append((S[t], [El(t, (), T("l:%s:%d" % (t, x), "%d" % x))], x))
        lim.append((S[t], [El("ListOf" + t, (), *[El(t, (), T("a:%s:%d" % (t, x), f % x)) for x, f in ((lo, " %d"), (hi, "%d\n"), (5, "+%d"), (7, "007"[:2] + "%d"))])],
                    [lo, hi, 5, 7]))
    for k, x in enumerate((0, 1, 255, 256, 0x80000000, 0x80340000, 0xffffffff)):
        lim.append((S["StatusCode"], [El("StatusCode", (), El("Code", (), T("sc%d" % k, str(x))))], x))
    for k, l in enumerate(chunks(lim, 10)):
        case(ctx, "limits of numbers %d" % k, l, rule="limits")
    # empty elements
    l = []
    for t in basics:
        if t.name not in ("StatusCode", "DateTime"):
            l.append((t, [El(t.name)], zero(t)))
    for k, c in enumerate(chunks(l, 9)):
        case(ctx, "empty values %d" % k, c)
    case(ctx, "empty lists", [(S[n], [El("ListOf" + (n if S[n].kind == "basic" else "ExtensionObject"))], []) for n in ("Int32", "String", "NodeId", "Range")])
    # enumerations
    en = []
    for k, (x, w) in enumerate((("0", 0), ("5", 5), ("Running_0", 0), ("A_B_C_12", 12), ("x1_3", 3), ("_4", 4), ("2147483647", 2147483647))):
        en.append((S["ServerState"], [El("Int32", (), T("en%d" % k, x))], w))
    case(ctx, "enumerations", en)
    # texts of times and bytes
    by = []
    for n in range(0, 10):
        for s in range(2):
            b = bytes((37 * j + 11 * n + 101 * s + 1) % 127 + 1 for j in range(n))
            by.append((S["ByteString"], [El("ByteString", (), *([T("by%d.%d" % (n, s), base64.b64encode(b).decode())] if b else []))],
                       ("lit", b.decode("latin-1"))))
    for k, c in enumerate(chunks(by, 10)):
        case(ctx, "byte strings %d" % k, c, rule="bytes")
    tm = []
    for k, (x, w) in enumerate((("2023-08-09T10:09:08Z", "2023,8,9,10,9,8"), ("1999-12-31T23:59:59Z", "1999,12,31,23,59,59"),
                                ("0001-01-01T00:00:00Z", "1,1,1,0,0,0"), ("2020-02-29T08:00:00", "2020,2,29,8,0,0"), ("2021-09-08", "2021,9,8,0,0,0"),
                                ("2023-08-09T10:09:08.5Z", "2023,8,9,10,9,8,500"), ("2023-08-09T10:09:08.123456789Z", "2023,8,9,10,9,8,123,456,789"),
                                ("2023-08-09T10:09:08.0001", "2023,8,9,10,9,8,0,100"), ("2023-08-09T10:09:08.1234567891234Z", "2023,8,9,10,9,8,123,456,789"))):
        tm.append((S["DateTime"], [El("DateTime", (), T("tm%d" % k, x))], "date:" + ",".join((w.split(",") + ["0"] * 3)[:9])))
    case(ctx, "times", tm, rule="times")
    # types of the document
    n = 90 if ctx.thorough else 14
    for s in range(n):
        v = Values(s)
        ts = v.types(2 + s % 3)
        l = tops(v, ts, (None, 2) if s % 2 else (None, None))
        case(ctx, "drawn types %d" % s, l[:8], ts, split=s % 3 == 2)
    for s in range(n // 3):
        v = Values(500 + s)
        ts = v.types(3, kinds=("sub", "struct"))
        case(ctx, "inherited members %d" % s, tops(v, ts[1:], (None, 2)), ts)
        ts = v.types(2, kinds=("union",)) if s % 2 else v.types(3, kinds=("union", "struct"))
        case(ctx, "unions %d" % s, tops(v, ts, (None, None, 2)), ts)
    # every member missing or not, of every size, in front of and behind others
    u = DT("Un", "ns=1;i=350", "union", [("ua", S["Byte"], 0), ("ub", S["String"], 0)])
    sub = DT("Su", "ns=1;i=351", "struct", [("sa", S["Double"], 0), ("sb", S["Byte"], 0)])
    u.super = sub.super = "i=22"
    xs = [(S[n], a) for n in ("Byte", "UInt16", "Int32", "Double", "String", "Guid", "NodeId", "LocalizedText", "QualifiedName", "StatusCode", "ServerState", "Range")
          for a in (0, 1)] + [(u, 0), (u, 1), (sub, 0), (sub, 1)]
    for k, (x, a) in enumerate(xs):
        if not ctx.thorough and a and k % 4 != 1 and x not in (u, sub):
            continue
        v = Values(900 + k)
        t = DT("Ms", "ns=1;i=352", "struct", [("a", S[("Byte", "Int32", "String")[k % 3]], 0), ("x", x, a), ("c", S["Byte"], 0), ("d", S["String"], 0), ("e", x, a)])
        t.super = "i=22"
        l = [(t, *v.top(t, None, drop)) for drop in (("x",), ("a", "c"), ("d",), ("c", "e"), ("x", "e"), ("a", "x", "d"), ())]
        case(ctx, "missing members %d" % k, l, [u, sub, t])
    # types the server knows without a description
    for k, (up, base) in enumerate(((6, "Int32"), (12, "String"), (11, "Double"), (17, "NodeId"), (290, "Double"), (13, "DateTime"))):
        v = Values(700 + k)
        ch = [((0, "i=%d" % up), (0, "i=45"), (5, "i=50"), "DATATYPE"), ((5, "i=50"), (0, "i=45"), (3, "s=deep"), "DATATYPE")]
        for i in ("ns=1;i=50", "ns=2;s=deep"):
            l = tops(v, [S[base]], (None, 2))
            case(ctx, "%s derived from i=%d at the server" % (i, up), l, ident=i, nodes=ch)
    # types nobody knows
    l = [(None, c, w) for t, c, w in tops(V0, [S["Int32"], S["Range"]], (None, 2))]
    r = Load(ctx, "unknown types", nodeset(URIS, *[variable(k, None, c, "ns=1;i=4711") for k, (t, c, w) in enumerate(l)]))
    compare(r, [(None, None)] * len(l), "unknown")
