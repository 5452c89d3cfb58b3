"""Value-flow analysis of the data type definitions: for definitions of every kind
(structures, unions, enumerations, option sets, none) with several numbers of
fields and all combinations of field attributes the analysis determines the
definition handed out with the data type, field by field."""
import itertools
from engine.doc import *
from engine.family import family
from engine import counters

SHARDS = 8
FIELD = {"name": NULL, "dataType": None, "valueRank": 0, "value": 0, "isOptional": 0}


def field(k, **a):
    """(events, expected members)"""
    at, x = [], dict(FIELD)
    if a.get("name", True):
        at.append(("Name", T("name%d" % k)))
        x["name"] = text("name%d" % k)
    if "Value" in a:
        at.append(("Value", T("val%d" % k, str(a["Value"]))))
        x["value"] = a["Value"]
    else:
        x["dataType"], x["valueRank"] = (0, "i=24"), -1
    if "DataType" in a:
        at.append(("DataType", T("dt%d" % k, a["DataType"])))
        if "Value" not in a:
            x["dataType"] = World.split(a["DataType"])
    if "ValueRank" in a:
        at.append(("ValueRank", T("vr%d" % k, str(a["ValueRank"]))))
        if "Value" not in a:
            x["valueRank"] = a["ValueRank"]
    if "IsOptional" in a:
        at.append(("IsOptional", T("io%d" % k, a["IsOptional"])))
        if "Value" not in a:
            x["isOptional"] = int(a["IsOptional"] in TRUE)
    if a.get("reverse"):
        at.reverse()
    sub = [El("Description", (), T("d%d" % k))] if a.get("sub") else []
    return El("Field", at, *sub), x


TRUE = ("true", "1")


def definition(attrs, fields, **x):
    d = {"isEnum": 0, "isUnion": 0, "isOptionSet": 0}
    d.update(x)
    d["fields"] = [f[1] for f in fields]
    ev = []
    for f in fields:
        ev += f[0]
    return El("Definition", [("Name", T("dn"))] + attrs, ev), d


def run(ctx):
    counters.check(ctx, "src/nodes/DataTypeNode.c")
    def case(name, d):
        r = Run(ctx, name, nodeset(node("UADataType", "i=1", d[0], El("DisplayName", (), T("after")))), unroll=max(100, 2 * len(d[0])))
        r.expect("definition", (0, "i=1"), "DATATYPE", {"definition": d[1], "displayName.text": text("after")})

    case("no definition", ([], None))
    for n in (0, 1, 2, 3, 5, 12):
        case("structure of %d fields" % n, definition([], [field(k, DataType="i=%d" % (k + 1), sub=k % 2) for k in range(n)]))
        if n:
            case("enumeration of %d values" % n, definition([], [field(k, Value=3 * k, sub=k % 2) for k in range(n)], isEnum=1))
            case("enumeration of %d values, descending" % n, definition([], [field(k, Value=100 - k) for k in range(n)], isEnum=1))
        case("union of %d fields" % n, definition([("IsUnion", T("iu", "true"))], [
            field(k, DataType="i=%d" % (k + 1)) for k in range(n)], isUnion=1))
    for n in (17, 33, 65, 129, 257, 300):
        case("structure of %d fields" % n, definition([], [field(k, DataType="i=%d" % (k + 1)) for k in range(n)]))
        case("enumeration of %d values" % n, definition([], [field(k, Value=3 * k) for k in range(n)], isEnum=1))
    for u, o in itertools.product((None, "true", "false", "1", "0"), repeat=2):
        at = ([("IsUnion", T("iu", u))] if u else []) + ([("IsOptionSet", T("io", o))] if o else [])
        fs = [] if o in TRUE else [field(0, DataType="i=6"), field(1)]
        d = definition(at, fs, isUnion=int(u in TRUE), isOptionSet=int(o in TRUE))
        if o in TRUE:
            d = (El("Definition", [("Name", T("dn"))] + at, field(0, Value=1)[0], field(1, Value=2)[0]), d[1])
        case("definition with IsUnion=%s IsOptionSet=%s" % (u, o), d)
        case("definition with IsUnion=%s IsOptionSet=%s, reversed" % (u, o), (
            [("S", "Definition", tuple(at[::-1]))] + d[0][1:], d[1]))
    opts = {"DataType": ("i=7",), "ValueRank": (-1, 1, 0, 3), "IsOptional": ("true", "false", "1", "0"), "name": (False,), "Value": (0, 5, -1),
            "reverse": (True,)}
    for k in range(len(opts) + 1):
        for sel in itertools.combinations(sorted(opts), k):
            for vals in itertools.product(*[opts[s] for s in sel]):
                a = dict(zip(sel, vals))
                x = field(1, **a)
                d = definition([], [x, field(2, DataType="i=12")] if "Value" not in a else [x], isEnum=int("Value" in a))
                case("field with %s" % (", ".join("%s=%s" % i for i in a.items()) or "its name only"), d)
    # fields of both kinds in one definition, in every order
    kinds = ({"DataType": "i=6", "ValueRank": 1, "IsOptional": "true"}, {"Value": 3}, {"DataType": "i=12"}, {"name": False}, {"Value": 0, "name": False})
    for k, sel in enumerate(itertools.product(range(len(kinds)), repeat=3)):
        if ctx.thorough or len(set(sel)) == 3 or k % 7 == 0:
            fs = [field(10 * j + x, **kinds[x]) for j, x in enumerate(sel)]
            case("fields of kinds %s" % (sel,), definition([], fs, isEnum=int(any("Value" in kinds[x] for x in sel))))
    # attributes which only resemble
    f = El("Field", [("Name", T("nm")), ("DataTyp", T("a", "i=3")), ("ValueRan", T("b", "3")), ("isOptional", T("c", "true")),
                     ("Valu", T("d", "4")), ("Names", T("e"))])
    case("field with similar attributes", (El("Definition", [("IsUnio", T("x", "true")), ("isOptionSet", T("y", "true"))], f), {
        "isEnum": 0, "isUnion": 0, "isOptionSet": 0,
        "fields": [dict(FIELD, name=text("nm"), dataType=(0, "i=24"), valueRank=-1)]}))
    # definitions belong to their data type alone
    d1, d2 = definition([], [field(1, DataType="i=5")]), definition([], [field(2, Value=1), field(3, Value=2)], isEnum=1)
    r = Run(ctx, "two data types", nodeset(node("UADataType", "i=1", d1[0]), node("UADataType", "i=3"), node("UADataType", "i=2", d2[0])))
    r.expect("definition", (0, "i=1"), "DATATYPE", {"definition": d1[1]})
    r.expect("definition", (0, "i=2"), "DATATYPE", {"definition": d2[1]})
    r.expect("definition", (0, "i=3"), "DATATYPE", {"definition": None})
    # a Definition of another class of node is of no effect
    for e, (c, _) in ELEMENTS.items():
        if c == "DATATYPE":
            continue
        r = Run(ctx, "definition of a %s" % e, nodeset(node(e, "i=1", d1[0], El("DisplayName", (), T("after")))))
        r.expect("definition", (0, "i=1"), c, {"displayName.text": text("after"), "hierachicalRefs": []})
    family(ctx, "definition", ["definition"], 160, definition=1, nodes=6)
    ctx.require("definition", 150)
