"""Families of whole documents with what they mean.

A generator draws documents of the nodeset schema (all features, any order,
foreign attributes and unknown elements in between, texts in pieces) and writes
down, independently of the loader, what a user has to get for each of them.
The analysis then determines what the loader hands out for the document - for
every content of its free texts - and the two are compared."""
import os
import random
from .doc import *
from .doc import NULL

# reference types: identifier -> what the reference service answers
RT = [("i=47", "H"), ("i=35", "H"), ("i=46", "H"), ("i=45", "H"), ("i=37", "N"), ("i=39", "N"), ("i=40", "T"), ("i=38", "N")]
RNODE = ("UAReferenceType",)


class Gen:
    def __init__(self, seed, **w):
        self.r = random.Random(seed)
        self.w = {"unknown": 0.15, "alias": 0.4, "foreign": 0.3, "refs": 3, "nodes": 4, "ext": 0.25, "value": 0.6,
                  "definition": 0.7, "late": 0.2, "ns": 3, "pieces": 0.3, "ws": 0.3, "text": 0.7}
        self.w.update(w)
        self.n = 0
        self.late = {}
        self.kinds = {}
        self.nodes = []         # (class, id, {group: {member: expected}})
        self.ext = []           # expected calls of the extension interface
        self.enc = []           # expected pairs
        self.new = []           # announced reference types
        self.uris = []

    def p(self, k):
        return self.r.random() < self.w.get(k, 0)

    # texts
    def t(self, kind="t", content=None):
        self.n += 1
        return T("%s%d" % (kind, self.n), content)

    def chars(self, kind="t", content=None):
        """events and expected text of character data"""
        r = self.r
        if content is not None:
            k = r.choice([1, 1, 2, 3]) if self.p("pieces") and len(content) > 2 else 1
            cuts = sorted(r.sample(range(1, len(content)), k - 1)) if k > 1 else []
            ts = [self.t(kind, content[a:b]) for a, b in zip([0] + cuts, cuts + [len(content)])]
        else:
            ts = [self.t(kind) for _ in range(r.choice([2, 3, 4]) if self.p("pieces") else 1)]
        return [("C", x) for x in ts], text(*[x.label for x in ts])

    def ws(self):
        return [("C", self.t("ws", "\n  "))] if self.p("ws") else []

    # unknown content
    def junk(self, avoid, depth=0):
        r = self.r
        names = [n for n in ("Unknown", "Text", "DisplayName", "References", "Reference", "Value", "Uri", "Alias", "Field",
                             "Extension", "UAObject", "UAVariable", "Documentation", "RolePermissions", "InverseName",
                             "Definition", "NamespaceUris", "Vendor") if n not in avoid or depth]
        nm = r.choice(names)
        at = [("NodeId", self.t("uj", "i=66%d" % r.randrange(100))), ("x", self.t("uj"))][:r.randrange(3)]
        ev = []
        for _ in range(r.choice([0, 0, 1, 2, 3]) if depth < 4 else 0):
            ev += self.chars("uj")[0] if r.random() < .4 else self.junk((), depth + 1)
        return [("S", nm, tuple(at), r.choice([None, "v"]))] + ev + [("E", nm)]

    def maybe(self, *avoid):
        return self.junk(avoid) if self.p("unknown") else []

    def foreign(self, at, names):
        """attributes of no meaning in between"""
        r = self.r
        out = list(at)
        r.shuffle(out)
        while self.p("foreign") and len(out) < 24:
            b = r.choice(list(names))
            n = r.choice([b + "X", b[:-1], b.lower(), "X" + b, b[0], b + "s", "ReleaseStatus", "SymbolicName"])
            if n in names or any(n == x for x, _ in out):
                continue
            out.insert(r.randrange(len(out) + 1), (n, self.t("fa", r.choice([None, "i=5", "true", "7"]))))
        return out

    # node ids
    def ident(self):
        self.n += 1
        r = self.r
        ns = r.randrange(0, len(self.idx) + 1) if self.idx and r.random() < .7 else 0
        i = r.choice(["i=%d" % (10000 + self.n), "s=id%d" % self.n, "s=x=%d;y" % self.n])
        return ("ns=%d;%s" % (ns, i) if ns or r.random() < .2 else i), (self.idx[ns - 1] if ns else 0, i)

    def use(self, txt, nid):
        """a text for the node id: itself or an alias of it"""
        if self.p("alias"):
            for a, (x, y) in self.aliases.items():
                if y == nid and self.r.random() < .9:
                    return a
        return txt

    def rtype(self):
        """(text, id, kind) of a reference type"""
        if self.late and self.p("late"):
            k = self.r.choice(sorted(self.late))
            txt, nid, kind = self.late[k]
            return self.use(txt, nid), nid, kind
        i, k = self.r.choice(RT)
        return self.use(i, (0, i)), (0, i), k

    def target(self):
        if self.aliases and self.p("alias"):
            a = self.r.choice(sorted(self.aliases))
            return a, self.aliases[a][1]
        if self.ids and self.r.random() < .5:
            return self.r.choice(self.ids)
        return self.ident()

    # parts of a node
    def reference(self, c, bn, nid, m):
        r = self.r
        tt, tid, kind = self.rtype()
        tg, gid = self.target()
        fwd = r.choice([None, "true", "1", "false", "false", "0"])
        at = [("ReferenceType", self.t("rt", tt))]
        if fwd:
            at.append(("IsForward", self.t("fw", fwd)))
        at = self.foreign(at, ("ReferenceType", "IsForward"))
        l = "hierachicalRefs" if kind == "H" else "nonHierachicalRefs" if kind == "N" or c not in ("OBJECT", "VARIABLE") else "refToTypeDef"
        f = int(fwd not in ("false", "0"))
        m.setdefault(l, []).append((f, tid, gid))
        if tid == (0, "i=38") and not f and bn == "Default Binary":
            self.enc.append((gid, nid, (0, "i=38")))
        return El("Reference", at, self.maybe("-"), *[[e] for e in self.chars("tg", tg)[0]])

    def refs(self, c, bn, nid, m):
        ev = []
        for _ in range(self.r.randrange(0, self.w["refs"] + 1)):
            ev += self.ws() + self.reference(c, bn, nid, m) + self.maybe("Reference")
        return El("References", (), self.ws(), ev, self.ws())

    def localized(self, elem, m, member):
        lo = self.t("lo") if self.r.random() < .5 else None
        at = self.foreign([("Locale", lo)] if lo else [], ("Locale",))
        m[member + ".locale"] = text(lo.label) if lo else NULL
        ev = []
        if self.p("unknown"):
            ev = self.chars("gone")[0] + self.junk(())
        if self.p("text"):
            e, x = self.chars("lt")
            m[member + ".text"] = x
            ev += e
        else:
            m[member + ".text"] = NULL
        return El(elem, at, ev)

    def field(self, enum):
        r = self.r
        x = {"name": NULL, "dataType": None, "valueRank": 0, "value": 0, "isOptional": 0}
        at = []
        if r.random() < .9:
            n = self.t("fn")
            at.append(("Name", n))
            x["name"] = text(n.label)
        if enum:
            v = r.choice([0, 1, 2, 7, -3, 1000, 65536])
            at.append(("Value", self.t("fv", str(v))))
            x["value"] = v
        else:
            x["dataType"], x["valueRank"] = (0, "i=24"), -1
            if r.random() < .8:
                tx, nid = self.target() if r.random() < .7 else ("i=7", (0, "i=7"))
                at.append(("DataType", self.t("fd", tx)))
                x["dataType"] = nid
            if r.random() < .4:
                v = r.choice([-3, -2, -1, 0, 1, 2, 3])
                at.append(("ValueRank", self.t("fr", str(v))))
                x["valueRank"] = v
            if r.random() < .4:
                o = r.choice(["true", "false", "1", "0"])
                at.append(("IsOptional", self.t("fo", o)))
                x["isOptional"] = int(o in ("true", "1"))
        at = self.foreign(at, ("Name", "Value", "DataType", "ValueRank", "IsOptional"))
        return El("Field", at, [e for e in (self.chars("gone")[0] if self.p("unknown") else [])], self.maybe()), x

    def definition(self):
        r = self.r
        k = r.choice(["struct", "struct", "union", "enum", "optionset"])
        at = [("Name", self.t("dn"))]
        for n, on in (("IsUnion", k == "union"), ("IsOptionSet", k == "optionset")):
            if on or r.random() < .3:
                at.append((n, self.t("df", r.choice(("true", "1") if on else ("false", "0")))))
        at = self.foreign(at, ("Name", "IsUnion", "IsOptionSet"))
        ev, xs = [], []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            e, x = self.field(k in ("enum", "optionset"))
            ev += self.ws() + e + self.maybe("Field")
            xs.append(x)
        if k == "optionset":
            xs = []
        return El("Definition", at, ev, self.ws()), {
            "isEnum": int(k == "enum" and bool(xs)), "isUnion": int(k == "union"), "isOptionSet": int(k == "optionset"), "fields": xs}

    # values
    def leaf(self, name):
        r = self.r.random()
        if r < .15:
            return El(name, (), [("C", self.t("blank", self.r.choice([" ", "\n\t ", "  \n"])))] if r < .1 else []), ("prim", name, NULL)
        c = self.r.choice([None, None, "0", "-17", " 5 ", "a b"]) if self.r.random() < .4 else None
        e, x = self.chars("v", c)
        at = [("a", self.t("va"))] if self.r.random() < .1 else []
        return El(name, at, e), ("prim", name, x)

    def struct(self, name, depth):
        r = self.r
        ev, ms = [], []
        for k in range(r.choice([1, 2, 3, 4, 6])):
            n = r.choice(["A", "B", "X", "Name", name, "Int32", "ListOfInt32", "Value", "Body", "TypeId", "Identifier", "ExtensionObjec"])
            e, x = self.struct(n, depth - 1) if depth > 0 and r.random() < .35 else self.leaf(n)
            ev += self.ws() + e
            ms.append(x)
        return El(name, (), ev, self.ws()), ("complex", name, ms)

    def extobj(self):
        w = self.ws
        b, x = self.struct(self.r.choice(["Point", "Line", "Argument"]), 2)
        t = NULL
        parts = w()
        if self.r.random() < .85:
            e, t = self.chars("tid", None)
            parts += El("TypeId", (), w(), El("Identifier", (), e), w())
        parts += w() + El("Body", (), w(), b, w()) + w()
        return El("ExtensionObject", (), parts), x, t

    def value(self):
        r = self.r
        k = r.choice(["scalar", "list", "struct", "structs", "eo", "eos", "none"])
        n = r.choice(["Int32", "String", "Boolean", "Double", "Guid"])
        V = lambda arr, ext, ty, data: {"isArray": arr, "isExtensionObject": ext, "type": ty, "data": data}
        if k == "none":
            return [], V(0, 0, NULL, None)
        if k == "scalar":
            e, x = self.leaf(n)
            return e, V(0, 0, ("lit", n), x)
        if k in ("list", "structs"):
            ev, ms = [], []
            n = n if k == "list" else r.choice(["LocalizedText", "NodeId", "QualifiedName"])
            for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
                e, x = self.leaf(n) if k == "list" else self.struct(n, 0)
                ev += self.ws() + e
                ms.append(x)
            return El("ListOf" + n, (), ev, self.ws()), V(1, 0, ("lit", n) if ms else NULL, ("complex", "ListOf" + n, ms))
        if k == "struct":
            n = r.choice(["LocalizedText", "S"])
            e, x = self.struct(n, 2)
            return e, V(0, 0, ("lit", n), x)
        if k == "eo":
            e, x, t = self.extobj()
            return e, V(0, 1, t, x)
        ev, ms, ty = [], [], NULL
        for _ in range(r.choice([1, 2, 3, 5])):
            e, x, t = self.extobj()
            ev += self.ws() + e
            ms.append(x)
            ty = t if t != NULL else ty
        return El("ListOfExtensionObject", (), ev, self.ws()), V(1, 1, ty, ("complex", "ListOfExtensionObject", ms))

    # extensions
    def xcontent(self, data, depth=3):
        r = self.r
        ev = []
        for _ in range(r.choice([0, 1, 2, 3]) if depth else 0):
            nm = r.choice(["A", "B", "Extension", "Extensions", "Value", "UAObject", "DisplayName"])
            at = [(a, self.t("xa")) for a in ("x", "y", "z")[:r.randrange(4)]]
            self.ext.append((1, data, ("lit", nm), len(at), "attributes:" + ",".join("%s=%s" % (a, t.label) for a, t in at) if at else None))
            pre = self.chars("gone")[0] if r.random() < .3 else []
            sub = self.xcontent(data, depth - 1)
            tx = NULL
            te = []
            if r.random() < .6:
                te, tx = self.chars("xt")
            elif not sub:
                pre = []
            self.ext.append((2, data, ("lit", nm), tx))
            ev += self.ws() + [("S", nm, tuple(at))] + (pre if sub else []) + sub + te + [("E", nm)]
        return ev

    def extensions(self, m):
        ev = []
        for _ in range(self.r.choice([0, 1, 1, 2])):
            d = "extension-data:%d" % len(self.ext)
            self.ext.append((0, d))
            c = self.xcontent(d)
            self.ext.append((3, d))
            m["extension"] = d
            ev += self.ws() + El("Extension", [("q", self.t("xq"))][:self.r.randrange(2)], c) + self.maybe("Extension")
        return El("Extensions", (), ev, self.ws())

    # nodes
    def node(self, elem=None, own=None):
        r = self.r
        elem = elem or r.choice(sorted(ELEMENTS))
        c, table = ELEMENTS[elem]
        txt, nid = own or self.ident()
        at = [("NodeId", self.t("id", txt))]
        g = {"ids": {"id": nid}, "attr": {}, "text": {}, "refs": {}, "ext": {"extension": None}}
        bn = None
        if r.random() < .9:
            b = r.choice(["Name", "Default Binary", "Default Binary", "a:b", "Some Name", "", "Default XML", "x" * 80])
            ns = r.choice([None, 0] + list(range(1, len(self.idx) + 2)))
            if ns is None and ":" in b:
                ns = 0
            bn = self.t("bn", ("%d:" % ns if ns is not None else "") + b)
            at.append(("BrowseName", bn))
            g["ids"]["browseName.nsIdx"] = 0 if not ns else self.idx[ns - 1] if ns <= len(self.idx) else ns
            g["attr"]["browseName.name"] = named(bn, b)
            bname = b
        else:
            g["attr"]["browseName.name"] = NULL
            bname = None
        for a, (member, how, default) in table.items():
            if how == "id":
                g["ids"][member] = default
            else:
                g["attr"][member] = ("lit", default)
            if r.random() < .5:
                if how == "id":
                    tx, x = self.target() if member == "datatype" else self.ident()
                    at.append((a, self.t("aid", tx)))
                    g["ids"][member] = x
                else:
                    v = self.t("av", r.choice([None, None, "", "0", "true"]))
                    at.append((a, v))
                    g["attr"][member] = text(v.label) if v.content is None else named(v, v.content)
        at = self.foreign(at, ["NodeId", "BrowseName", "Locale", "Name", "Value"] + list(table))
        if r.random() < .3:
            # attributes other classes have
            for a in sorted({a for _, o in ELEMENTS.values() for a in o} - set(table)):
                if r.random() < .3 and all(a != x for x, _ in at):
                    at.insert(r.randrange(len(at) + 1), (a, self.t("oa", r.choice([None, "i=5"]))))
        parts = []
        for k, (e, mem) in enumerate((("DisplayName", "displayName"), ("Description", "description"), ("InverseName", "inverseName"))):
            if mem != "inverseName" or c == "REFERENCETYPE":
                g["text"][mem + ".text"] = g["text"][mem + ".locale"] = NULL
            if r.random() < .6:
                parts.append((lambda e=e, mem=mem: self.localized(e, g["text"] if mem != "inverseName" or c == "REFERENCETYPE" else {}, mem)))
        for _ in range(r.choice([0, 1, 1, 2])):
            parts.append(lambda: self.refs(c, bname, nid, g["refs"]))
        if c == "VARIABLE":
            g["value"] = {"value": None}
        if self.p("value") and c in ("VARIABLE", "VARIABLETYPE", "OBJECT"):
            def val():
                e, x = self.value()
                if c == "VARIABLE":
                    g["value"]["value"] = x
                return El("Value", (), self.ws(), e, self.ws())
            parts.append(val)
        if c == "DATATYPE":
            g["definition"] = {"definition": None}
            if self.p("definition"):
                def dfn():
                    e, x = self.definition()
                    g["definition"]["definition"] = x
                    return e
                parts.append(dfn)
        elif self.p("unknown"):
            parts.append(lambda: El("Definition", [("Name", self.t("dj"))], El("Field", [("Name", self.t("dj"))])))
        if self.p("ext"):
            parts.append(lambda: self.extensions(g["ext"]))
        r.shuffle(parts)
        ev = self.ws() + self.maybe("DisplayName", "References", "Value", "InverseName", "Definition")
        for f in parts:
            ev += f() + self.ws() + self.maybe("DisplayName", "References", "Value", "InverseName", "Definition")
        x = g["refs"]
        for l in ("hierachicalRefs", "nonHierachicalRefs", "unknownRefs") + (("refToTypeDef",) if c in ("OBJECT", "VARIABLE") else ()):
            x[l] = bag(x.get(l, []))
        self.nodes.append((c, nid, g))
        self.ids.append((txt, nid))
        if c == "REFERENCETYPE":
            self.new.append(nid)
        return El(elem, at, ev)

    def document(self):
        r = self.r
        n = r.randrange(0, self.w["ns"] + 1)
        self.idx = r.sample(range(1, 12), n)
        self.ids, self.aliases = [], {}
        ev = self.ws()
        us = []
        for k in range(n):
            e, x = self.chars("uri")
            g = (self.chars("gone")[0] + self.junk(())) if self.p("unknown") else []
            us += self.ws() + El("Uri", (), g, e) + self.maybe("Uri")
            self.uris.append(x)
        if n or r.random() < .5:
            ev += El("NamespaceUris", (), us, self.ws()) + self.ws()
        avoid = ("UAObject", "UAVariable", "Alias", "NamespaceUris", "Extensions", "Aliases")
        ev += self.maybe(*avoid)
        # reference types which become known only with their definition
        todo = []
        for k in range(r.choice([0, 1, 2]) if self.p("late") or r.random() < .3 else 0):
            txt, nid = self.ident()
            kind = r.choice("HN")
            self.late[nid] = (txt, nid, kind)
            self.kinds[nid] = ("late", kind)
            todo.append((txt, nid))
        al = []
        pool = [("i=47", (0, "i=47")), ("i=40", (0, "i=40")), ("i=37", (0, "i=37")), ("i=38", (0, "i=38"))] + todo + [self.ident() for _ in range(3)]
        for name in r.sample(["HasComponent", "HasComponentX", "Has", "Int32", "Int", "Ali", "ns", "T", "HasSubtype", "Boolean"], r.randrange(0, 9)):
            txt, nid = r.choice(pool)
            self.aliases[name] = (txt, nid)
            g = (self.chars("gone")[0] + self.junk(())) if self.p("unknown") else []
            at = self.foreign([("Alias", self.t("al", name))], ("Alias",))
            al += self.ws() + El("Alias", at, g, self.chars("ai", txt)[0]) + self.maybe(*avoid)
        if al or r.random() < .5:
            ev += El("Aliases", (), al, self.ws())
        k = r.randrange(1, self.w["nodes"] + 1)
        todo = [(t, "UAReferenceType") for t in todo] + [(None, None)] * k
        r.shuffle(todo)
        for own, elem in todo:
            ev += self.ws() + self.maybe(*avoid) + self.node(elem, own)
        for i, kd in RT:
            self.kinds[(0, i)] = kd
        return nodeset(ev, self.maybe(*avoid))


def named(t, rest):
    def f(got):
        if got == text(t.label):
            return t.content == rest
        if isinstance(got, tuple) and got[:2] == ("suffix", t.label):
            return t.content[got[2]:] == rest
        return got == ("lit", rest)
    f.__doc__ = '"%s"' % rest
    return f


def bag(exp):
    def f(got):
        return isinstance(got, list) and sorted(map(str, got)) == sorted(map(str, exp))
    f.__doc__ = show(exp)
    return f


def family(ctx, rule, groups, n, extra=None, **w):
    """n documents; the members of the given groups are compared"""
    seed = int(os.environ.get("VERIF_SEED") or "1")
    n = n * (8 if ctx.thorough else 1)
    for k in range(n):
        g = Gen("%s/%d/%d" % (ctx.prop, seed, k), **w)
        ev = g.document()
        r = Run(ctx, "document %d of the family" % k, ev, kinds=g.kinds, ns_index={j: x for j, x in enumerate(g.idx)})
        if r.skip:
            continue
        r.gen = g
        r.expect_nodes(rule, [(c, i) for c, i, _ in g.nodes])
        for c, i, gr in g.nodes:
            m = {}
            for x in groups:
                m.update(gr.get(x, {}))
            if m:
                r.expect(rule, i, c, m)
        if extra:
            extra(r, g)
