"""Whole histories of a loader, and documents which use everything."""
from .graphs import *
from .world import World
from .lin import Lin, ZERO, const, S
from .arena import decide


class Bounds(World):
    """every access lies inside of the object, if its size is known"""
    accesses = 0

    def on_range(self, eng, st, base, off, n, what, inst):
        self.accesses += 1
        o = st.mem.get(base)
        y = eng.syms[base]
        if y.kind == "global" and o is None:
            o = eng.obj(st, base)
        off = off if isinstance(off, Lin) else const(off)
        if y.kind == "param" and y.key[0].startswith("text:") and y.key[0][5:] in self.texts:
            size = self.text_len(self.texts[y.key[0][5:]])
            if not n.t and n.c <= 1:
                return              # the character behind a text belongs to the parser
        elif o is None or o.size is None:
            return
        else:
            size = eng.norm(st, o.size)
        end = eng.norm(st, size - off - n)
        ok = end.c >= 0 if not end.t else decide(eng, st, end)
        if ok is not False and (off.c < 0 if not off.t else False):
            ok = False
        if ok is False:
            self.report("bounds", st, inst, "%s of %s byte(s) at offset %s of an object of %s byte(s)" % (
                what, shown_lin(eng, n), shown_lin(eng, eng.norm(st, off)), shown_lin(eng, size)))


def shown_lin(e, l):
    return str(l.c) if not l.t else "+".join(["%s%s" % ("" if k == 1 else "%d*" % k, e.syms[s].key[0] if e.syms[s].kind == "param" else "?")
                                              for s, k in l.t] + ([str(l.c)] if l.c else []))


class History:
    """a loader's life; steps: ("load", events) | "sort" | ("each", class) | "refs" """
    world = World
    rules = None

    def __init__(self, ctx, name, kinds, steps, **kw):
        self.ctx, self.name = ctx, name
        self.bad = 0

        with ctx.scenario(name):
            w = self.w = self.world(ctx, report=self.report, own=self.rules is None, real_sort=True, kinds=kinds, **kw)
            states = w.new_loader()
            for s in steps:
                if s == "sort":
                    states = [x for x, _ in w.sort(states)]
                elif s[0] == "load":
                    states = [x for x, _ in w.load(s[1], states)]
                elif s == "refs":
                    states = [x for x, _ in w.call(states, "NodesetLoader_getBidirectionalRefs", lambda q: [q.ghost["loader"]])]
                elif s[0] == "each":
                    states = [x for x, _ in w.call(states, "NodesetLoader_forEachNode", lambda q: [
                        q.ghost["loader"], const(s[1]), ZERO, w.eng.param("cb:foreach")])]
            ctx.ob("decided", True if states else None, "%s: the history is analysed to its end" % name)
            states = w.delete(states)
            if self.rules:
                if not self.bad:
                    for r in self.rules:
                        ctx.ob(r, True if states else None, "%s: %d accesses" % (name, w.eng.stats["derefs"]))
                return
            for st in states:
                left = [lab for b, lab in st.alloc.items() if b not in st.freed]
                for lab in sorted(set(left)):
                    ctx.ob("no-leak", None if "open" in st.ghost else False,
                           "%s: after the deletion of the loader the object allocated at %s is left" % (name, lab),
                           ctx.at("NodesetLoader_delete"), "NodesetLoader_delete")
                if not left:
                    ctx.ob("no-leak", True, "%s: nothing is left after the deletion" % name)
            if not self.bad:
                ctx.ob("no-misuse", True, "%s: every object is released once and not used afterwards" % name)

    def report(self, rule, st, inst, msg):
        if self.rules is not None and rule not in self.rules:
            return
        self.bad += 1
        self.ctx.ob("no-misuse" if self.rules is None else rule, None if "open" in st.ghost else False, "%s: %s" % (self.name, msg),
                    self.w.eng.where(inst) if isinstance(inst, dict) else "", st.stack[-1].fn.src if st.stack else "")


def everything():
    """documents which use every feature, also those which are no valid nodeset"""
    sv = lambda *c: El("Value", (), *c)
    d = [rich(0), nodeset(*[node(e, "s=n%d" % k) for k, e in enumerate(ELEMENTS)])]
    d.append(nodeset(
        El("Aliases", (), El("Alias", [("Alias", T("a1", "A"))], T("at1", "ns=1;s=t")), El("Alias", [("Alias", T("a2", "B"))], T("at2", "i=47"))),
        node("UAVariable", "s=v", refs(ref("A", "s=w", label="1"), ref("B", "ns=1;s=w", "false", label="2"), ref("i=40", "ns=1;s=vt", label="3")),
             El("DisplayName", [("Locale", T("l"))], T("n")), El("Description", (), T("d")),
             sv(El("ListOfExtensionObject", (), El("ExtensionObject", (), El("TypeId", (), El("Identifier", (), T("ti", "i=297"))),
                   El("Body", (), El("Argument", (), El("Name", (), T("nm")), El("DataType", (), El("Identifier", (), T("id", "i=6")))))))),
             attrs=[("DataType", T("dt", "A")), ("ParentNodeId", T("p", "ns=1;s=parent"))]),
        node("UADataType", "ns=1;s=t", refs(ref("i=45", "i=22", "false", label="4")),
             El("Definition", [("Name", T("dn"))], El("Field", [("Name", T("f1")), ("DataType", T("ft1", "ns=1;s=x"))]),
                El("Field", [("Name", T("f2")), ("DataType", T("ft2", "A"))])),
             El("Definition", [("Name", T("dn2"))], El("Field", [("Name", T("f3")), ("DataType", T("ft3", "ns=1;s=y"))]))),
        node("UAReferenceType", "ns=1;s=rt", refs(ref("i=45", "ns=1;s=rt2", "false", label="5")), El("InverseName", (), T("in"))),
        node("UAObject", "ns=1;s=enc", refs(ref("i=38", "ns=1;s=t", "false", label="6"), ref("ns=1;s=rt", "ns=1;s=q", label="7")), bn="Default Binary"),
        node("UAVariableType", "ns=1;s=vt", sv(El("Int32", (), T("i", "3"))), attrs=[("DataType", T("dt2", "ns=1;s=t"))])))
    # where things do not belong
    d.append(nodeset(
        node("UAObject", "s=o", El("Definition", [("Name", T("dn"))], El("Field", [("Name", T("f1")), ("DataType", T("ft1", "ns=1;s=x"))])),
             sv(El("Int32", (), T("i1", "3"))), El("InverseName", (), T("in")), attrs=[("ParentNodeId", T("p", "ns=1;s=o"))]),
        node("UADataType", "s=d", sv(El("A", (), El("B", (), T("b")))), refs(ref("i=40", "s=x", label="1")),
             El("Extensions", (), El("Extension", (), El("X", (), El("Extension", (), T("x")))))),
        node("UAVariable", "s=v", sv(El("Int32", (), T("i2", "3"))), sv(El("ListOfInt32", (), El("Int32", (), T("i3", "3")), El("Int32", (), T("i4", "3"))))),
        El("UAObject", ()), El("UAVariable", [("NodeId", T("bad", "nonsense"))], sv(El("S", (), El("T", (), El("U", (), T("u"))), T("t")))),
        node("UAMethod", "s=m", node("UAObject", "s=inner", refs(ref("i=47", "s=m", label="2"))), refs(ref("i=47", "s=k", label="3"))),
        El("Aliases", (), El("Alias", (), T("at0", "ns=1;s=z")), El("Alias", [("Alias", T("a1", "A"))], T("at1", "ns=1;s=t")),
           El("Alias", [("Alias", T("a3", "A"))], T("at3", "ns=1;s=u"))),
        node("UAView", "s=w", refs(El("Reference", (), T("tg", "s=q")), El("Reference", [("ReferenceType", T("rt", "A"))]))),
        El("NamespaceUris", (), El("Uri", ()), El("Uri", (), T("u1", "urn:1"))),
        El("References", (), ref("i=47", "s=k", label="4")), El("Value", (), El("Int32", (), T("i5"))), El("Field", [("DataType", T("ft9", "s=k"))])))
    return d


def variants(d):
    """documents with an attribute or text left out or empty: (what, events)"""
    for k, ev in enumerate(d):
        if ev[0] == "S":
            for j, (a, t) in enumerate(ev[2]):
                for what, at in (("without", ()), ("with an empty", ((a, T(t.label + ":e", "")),)), ("with any", ((a, T(t.label + ":a")),))):
                    if what == "with any" and t.content is None:
                        continue
                    e = ("S", ev[1], tuple(ev[2][:j]) + at + tuple(ev[2][j + 1:])) + tuple(ev[3:])
                    yield "%s %s attribute of %s %d" % (what, a, ev[1], k), d[:k] + [e] + d[k + 1:]
            if ev[2]:
                yield "without any attribute of %s %d" % (ev[1], k), d[:k] + [("S", ev[1], ()) + tuple(ev[3:])] + d[k + 1:]
        elif ev[0] == "C":
            yield "without the text %d" % k, d[:k] + d[k + 1:]
            yield "with an empty text %d" % k, d[:k] + [("C", T(ev[1].label + ":e", ""))] + d[k + 1:]
            if ev[1].content is not None:
                yield "with any text %d" % k, d[:k] + [("C", T(ev[1].label + ":a"))] + d[k + 1:]
