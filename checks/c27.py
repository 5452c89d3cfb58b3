"""Protocol analysis of the extension interface: the caller's functions are
abstract; for every shape of extension content the analysis determines the exact
sequence of calls, their arguments and what is attached to the node."""
from engine.doc import *
from engine.family import family

SHARDS = 8
NEW, START, END, FINISH = 0, 1, 2, 3


def calls(w, st):
    out = []
    for rec in w.g(st, "ext"):
        k = rec[0].c
        v = [shown(w, st, x) for x in rec[1:]]
        if k == START:
            # the attributes are handed through: number and array
            a = w.eng.norm(st, rec[4]) if len(rec) > 4 else None
            nm = None
            if isinstance(a, Lin) and a.t:
                s = a.single()
                nm = w.eng.syms[s].key[0] if s is not None and w.eng.syms[s].kind == "param" else UNK
            v = [v[0], v[1], w.num(st, rec[3]), nm]
        out.append((k,) + tuple(v))
    return out


def content(k, spec, out):
    """events of the nested spec [(name, [attribute names], text or None, children)]; records the expected calls"""
    ev = []
    data = "extension-data:%d" % k
    for name, attrs, t, ch in spec:
        at = [(a, T("at:" + a)) for a in attrs]
        nm = "attributes:" + ",".join("%s=at:%s" % (a, a) for a in attrs) if attrs else None
        out.append((START, data, ("lit", name), len(attrs), nm))
        sub = content(k, ch, out)
        pre = [("C", T("pre"))] if ch else []
        ev += [("S", name, tuple(at))] + pre + sub
        if t:
            ev += [("C", T(t + ".0")), ("C", T(t + ".1"))]
            out.append((END, data, ("lit", name), text(t + ".0", t + ".1")))
        else:
            out.append((END, data, ("lit", name), NULL))
        ev.append(("E", name))
    return ev


SPECS = [
    [],
    [("A", [], None, [])],
    [("A", ["x"], "t", [])],
    [("A", ["x", "y"], "t", [("B", [], "u", []), ("C", ["z"], None, [])])],
    [("A", [], None, [("A", [], "t", [("A", [], "u", [])])]), ("A", [], "w", [])],
    [("Extension", [], "t", [])],
    [("A", [], None, [("Extension", ["x"], "t", [("Extension", [], None, [])]), ("B", [], "u", [])])],
    [("Extensions", [], None, [("Extension", [], "t", [])]), ("UAObject", ["NodeId"], "u", [("DisplayName", [], "w", [])])],
    [("Value", [], None, [("Int32", [], "t", [])]), ("References", [], None, [("Reference", ["ReferenceType"], "u", [])])],
]


def deep(n):
    s = ("L%d" % n, ["x"], "t%d" % n, [])
    for k in range(n):
        s = ("A" if k % 3 else "Extension", ["x"] if k % 5 == 0 else [], "u%d" % k if k % 2 else None, [s])
    return s


MANY = [[deep(k)] for k in (12, 20, 40, 70, 140)] + [[("A%d" % k, ["x"], "t%d" % k, []) for k in range(n)] for n in (20, 70, 140)] + [
    [("A", ["a%d" % k for k in range(n)], "t", [("B", [], None, [])])] for n in (12, 40)]


def run(ctx):
    for e, (c, _) in ELEMENTS.items():
        for j, spec in enumerate(SPECS + (MANY if e in ("UAObject", "UAVariable") else MANY[2:3])):
            exp = [(NEW, "extension-data:0")]
            ev = content(0, spec, exp)
            exp.append((FINISH, "extension-data:0"))
            doc = nodeset(node(e, "i=1", El("Extensions", (), El("Extension", [("q", T("qq"))], ev)), El("DisplayName", (), T("after"))))
            r = Run(ctx, "%s, extension content %d" % (e, j), doc)
            r.expect("attached", (0, "i=1"), c, {"extension": "extension-data:0", "displayName.text": text("after")})
            protocol(r, exp)
            r = Run(ctx, "%s, extension content %d, no interface" % (e, j), doc, ext=False)
            r.expect("attached", (0, "i=1"), c, {"extension": None, "displayName.text": text("after")})
            protocol(r, [])
        # two nodes, extensions on each; empty list of extensions
        exp = [(NEW, "extension-data:0")]
        ev1 = content(0, SPECS[2], exp)
        exp.append((FINISH, "extension-data:0"))
        n = len(exp)
        exp.append((NEW, "extension-data:%d" % n))
        ev2 = content(n, SPECS[3], exp)
        exp.append((FINISH, "extension-data:%d" % n))
        r = Run(ctx, "%s twice" % e, nodeset(
            node(e, "i=1", El("Extensions", (), El("Extension", (), ev1))), node(e, "i=3", El("Extensions", (), El("Foo", (), El("Extension")))),
            node(e, "i=2", El("Extensions", (), El("Extension", (), ev2)))))
        r.expect("attached", (0, "i=1"), c, {"extension": "extension-data:0"})
        r.expect("attached", (0, "i=2"), c, {"extension": "extension-data:%d" % n})
        r.expect("attached", (0, "i=3"), c, {"extension": None})
        protocol(r, exp)
    family(ctx, "attached", ["ext"], 120, lambda r, g: protocol(r, g.ext), ext=.9)
    ctx.require("protocol", 100)
    ctx.require("attached", 100)


NAMES = {NEW: "newExtension", START: "start", END: "end", FINISH: "finish"}


def protocol(r, exp):
    for st, l in r.result:
        got = calls(r.w, st)
        bad = next((k for k in range(max(len(got), len(exp))) if got[k:k + 1] != exp[k:k + 1]), None)
        msg = "%s: %d calls as the document says" % (r.name, len(got))
        if bad is not None:
            msg = "%s: call %d is %s, the document says %s" % (
                r.name, bad, call(got[bad]) if bad < len(got) else "missing", call(exp[bad]) if bad < len(exp) else "none")
        r.ob(st, "protocol", True if bad is None else None if undecided(got[bad:bad + 1]) else False, msg, r.handler("S"))


def call(c):
    return "%s(%s)" % (NAMES.get(c[0]), ", ".join(show(x) for x in c[1:]))
