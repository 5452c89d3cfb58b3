"""Typestate analysis of the element automaton: in every context of the schema the
analysis inserts subtrees the loader does not know (of many shapes, with
attributes, texts, nested known names and increasing depth) and requires that the
abstract state handed out - all nodes with all members, all calls of the caller's
interfaces, all reported pairs - equals the one of the document without the
subtree."""
from engine.doc import *
from engine.family import family

SHARDS = 8

X = "Unknown"


def shapes(name, deep):
    """(label, events) of an unknown subtree whose root is `name`"""
    known = node("UAVariable", "i=666", El("DisplayName", (), T("kn")), refs(ref("i=47", "i=667")))
    yield "empty", El(name)
    yield "with text", El(name, [("NodeId", T("ua", "i=99"))], T("ut1"), T("ut2"))
    yield "twice", El(name, (), T("ut1")) + El(name)
    yield "nested", El(name, (), El("A", (), El("B", (), T("ub"))), El("A"), T("ut"))
    yield "same name nested", El(name, (), El(name, (), El(name)), T("ut"), El(name))
    yield "with a node inside", El(name, (), known)
    yield "with known elements inside", El(
        name, (), refs(ref("i=47", "i=668")), El("DisplayName", (), T("dn")), El("Description", (), T("dd")),
        El("InverseName", (), T("iv")), El("Value", (), El("Int32", (), T("v"))), El("Text", (), T("x")),
        El("Definition", [("Name", T("n"))], El("Field", [("Name", T("f"))])),
        El("Extensions", (), El("Extension", (), El("E", (), T("e")))),
        El("Aliases", (), El("Alias", [("Alias", T("al", "i=47"))], T("ai", "i=1"))), El("NamespaceUris", (), El("Uri", (), T("uu"))),
        El("UAObject", [("NodeId", T("o", "i=669"))]), El("Extension"), El("Reference"), El("Field"), El("Uri"), El("Alias"))
    for d in deep:
        yield "nested %d levels" % d, [St(name)] * d + [En(name)] * d
        yield "nested %d levels, names differ" % d, sum(([St("L%d" % k)] for k in range(d)), [St(name)]) + \
            sum(([En("L%d" % k)] for k in reversed(range(d))), []) + [En(name)]


def base(slot, sub):
    """a document with a subtree in the given slot"""
    def s(n):
        return sub if n == slot else []
    var = El("UAVariable", [("NodeId", T("id1", "ns=1;i=1")), ("BrowseName", T("bn1", "1:V"))], s("node, first"),
             El("DisplayName", [("Locale", T("lo"))], s("DisplayName"), T("dn1")), s("node, between"),
             El("Description", (), s("Description"), T("ds1")),
             El("References", (), s("References, first"), El("Reference", [("ReferenceType", T("rt1", "Ali"))], s("Reference"), T("tg1", "ns=1;i=2")),
                s("References, between"),
                ref("i=37", "i=3", "false", label="rx"), s("References, last")),
             El("Value", (), El("Int32", (), T("v1"))), s("node, last"))
    dt = node("UADataType", "ns=1;i=4", El("Definition", [("Name", T("dfn"))], s("Definition, first"), El(
        "Field", [("Name", T("f1")), ("DataType", T("fd1", "Ali"))], s("Field")), s("Definition, between"), El(
        "Field", [("Name", T("f2")), ("Value", T("fv2", "4"))]), s("Definition, last")),
        El("Extensions", (), s("Extensions, first"), El("Extension", (), El("E", (), T("e1"))), s("Extensions, last")))
    rt = node("UAReferenceType", "ns=1;i=5", El("InverseName", (), s("InverseName"), T("iv1")), s("node, only"))
    return El("UANodeSet", (), s("nodeset, first"),
              El("NamespaceUris", (), s("NamespaceUris, first"), El("Uri", (), s("Uri"), T("uri1")), s("NamespaceUris, last")),
              s("nodeset, between"),
              El("Aliases", (), s("Aliases, first"), El("Alias", [("Alias", T("al1", "Ali"))], s("Alias"), T("ai1", "ns=1;i=9")), s("Aliases, last")),
              El("Extensions", (), s("nodeset extensions")), var, s("between nodes"), dt, rt, s("nodeset, last"))


SLOTS = ["nodeset, first", "nodeset, between", "nodeset, last", "between nodes", "NamespaceUris, first", "NamespaceUris, last",
         "Uri", "Aliases, first", "Aliases, last", "Alias", "nodeset extensions", "node, first", "node, between", "node, last",
         "node, only", "DisplayName", "Description", "InverseName", "References, first", "References, between",
         "References, last", "Reference", "Definition, first", "Definition, between", "Definition, last", "Field",
         "Extensions, first", "Extensions, last"]


def names(slot):
    """names which are of no meaning in the slot, though they are elsewhere"""
    n = slot.split(",")[0]
    out = [X, "Text"]
    if n in ("nodeset", "between nodes", "Aliases", "nodeset extensions"):
        return out + ["Models", "DisplayName", "References", "Value", "Uri", "Field", "Extension", "NamespaceUri", "Aliase"]
    if n == "NamespaceUris":
        return out + ["UAObject", "Alias", "NamespaceUris", "Ur", "DisplayName"]
    if n == "node":
        return out + ["UAObject", "Reference", "Alias", "Field", "Uri", "NamespaceUris", "RolePermissions", "Displayname", "Extension"]
    if n == "References":
        return out + ["References", "DisplayName", "UAObject", "Referenc", "Value", "ReferenceX"]
    if n == "Definition":
        return out + ["Definition", "Fields", "DisplayName", "UADataType", "Value"]
    if n == "Extensions":
        return out + ["Extensions", "Value", "UAObject", "Extensio"]
    return out + ["DisplayName", "Description", "Field", "Uri", "Alias", "Reference", "UAObject", "InverseName", "Value"]


KNOWN = {"nodeset": ["NamespaceUris", "Aliases", "Alias", "Extensions"] + list(ELEMENTS), "NamespaceUris": ["Uri"],
         "node": ["DisplayName", "Description", "References", "Value", "Definition", "InverseName", "Extensions"],
         "References": ["Reference"], "Definition": ["Field"], "Extensions": ["Extension"]}
ALL = sorted({k for l in KNOWN.values() for k in l} | {
    "Reference", "Value", "Body", "TypeId", "Identifier", "ExtensionObject", "ListOfExtensionObject", "Int32", "String", "Text", "Locale",
    "UANodeSet", "Models", "Model", "LastModified", "ServerUris", "RolePermissions", "Category", "Documentation", "Url"})


def similar(slot):
    """all names which nearly are one of those the loader knows"""
    n = slot.split(",")[0]
    known = KNOWN.get(n if n not in ("between nodes", "Aliases") else "nodeset", [])
    if n in ("Aliases", "nodeset extensions"):
        known = list(ALL)
    out = []
    for k in known:
        out += [k[:j] for j in range(1, len(k))] + [k + x for x in ("s", "X", " ", "2")] + [k.lower(), k.upper(), "X" + k, k[1:], k + k]
    out += [a for a in ALL]
    return [x for x in dict.fromkeys(out) if x and x not in known and x not in KNOWN["nodeset"]]


def many(slot, prefix):
    ev = []
    for k, nm in enumerate(similar(slot)):
        ev += [("S", nm, (("NodeId", T("ua%d" % k, "i=99")), ("ReferenceType", T("ub%d" % k, "i=47"))), prefix), ("C", T("ut%d" % k, "i=44")),
               ("E", nm)]
    return ev


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if k == "nodes":
                x, y = [(c, dict(m).get("id")) for c, m in a[k]], [(c, dict(m).get("id")) for c, m in b[k]]
                if x != y:
                    return "the nodes are %s instead of %s" % (Run.lst(y), Run.lst(x))
                for (c, m), (_, n) in zip(a[k], b[k]):
                    m, n = dict(m), dict(n)
                    for p in m:
                        if m[p] != n.get(p):
                            return "%s of %s %s is %s instead of %s" % (p, c, show(m["id"]), show(n.get(p)), show(m[p]))
            return "%s: %s instead of %s" % (k, show(b[k]), show(a[k]))
    return ""


def run(ctx):
    ref0 = dump(Run(ctx, "document", base(None, []), ns_index={0: 1}, always=True))
    if not ref0:
        ctx.ob("skipped", False, "the document without unknown elements is not processed to its end", "src/NodesetLoader.c")
        return
    def compare(r):
        got = dump(r)
        r.alive("skipped")
        for st_l, g in zip(r.result, got):
            ok = any(g == x for x in ref0)
            unk = "open" in st_l[0].ghost or undecided(list(g.values()))
            d = "" if ok else diff(ref0[0], g)
            r.ob(st_l[0], "skipped", True if ok else None if unk else False,
                 "%s: %s" % (r.name, "of no effect" if ok else d), r.handler("S"))
    for slot in SLOTS:
        ns = names(slot)
        for pre in (None, "v"):
            compare(Run(ctx, "%s, %d similar names%s" % (slot, len(similar(slot)), " with a prefix" if pre else ""),
                        base(slot, many(slot, pre)), ns_index={0: 1}))
        for nm in ns:
            deep = () if nm != X else (300,) if not ctx.thorough else (2, 3, 5, 17, 300, 70000 if slot == "node, first" else 600)
            for label, sub in shapes(nm, deep):
                if nm != X and not ctx.thorough and label in ("twice", "with text", "nested"):
                    continue
                r = Run(ctx, "%s <%s> %s" % (slot, nm, label), base(slot, sub), ns_index={0: 1})
                compare(r)
    family(ctx, "skipped", ["ids", "attr", "text", "refs", "value", "definition", "ext"], 120, unknown=.5)
    ctx.require("skipped", 300)
