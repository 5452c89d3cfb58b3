"""Value-flow analysis of the data type importer: for enumerations, structures,
unions, option sets and derived types - with inherited, optional, array, abstract
and recursive members, in any order and over several files - the descriptions in
the server's configuration are read from the abstract memory and compared with
the document; sizes and paddings with the layout of the C struct with the same
members."""
import random
from engine.server import *
from engine.backend import standard, KIND
from engine import counters

SHARDS = 8
BASE = {"i=24": "Variant", "i=26": "Variant", "i=27": "Variant", "i=28": "Variant"}


class D:
    """a data type of the document; fields: [(name, id, rank, optional)]"""

    def __init__(self, ident, super, fields=None, abstract=False, union=False, optset=False, enum=None, enc=None, name=None, more=()):
        self.more = more        # further references: (before the one to the supertype, type, target, forward)
        self.id, self.super, self.fields, self.abstract, self.union = ident, super, fields, abstract, union
        self.optset, self.enum, self.enc, self.name = optset, enum, enc, name or "T" + ident.split("=")[-1]

    def node(self):
        at = [("Name", T(self.id + ":dn", self.name))]
        fl = []
        if self.enum is not None:
            for k, v in enumerate(self.enum):
                fl.append(El("Field", [("Name", T("%s:n%d" % (self.id, k), "E%d" % k)), ("Value", T("%s:v%d" % (self.id, k), str(v)))]))
        for k, (n, t, r, o) in enumerate(self.fields or ()):
            a = [("Name", T("%s:n%d" % (self.id, k), n))] if n is not None else []
            a.append(("DataType", T("%s:d%d" % (self.id, k), t)))
            if r is not None:
                a.append(("ValueRank", T("%s:r%d" % (self.id, k), str(r))))
            if o is not None:
                a.append(("IsOptional", T("%s:o%d" % (self.id, k), o)))
            fl.append(El("Field", a))
        if self.union:
            at.append(("IsUnion", T(self.id + ":u", "true")))
        if self.optset:
            at.append(("IsOptionSet", T(self.id + ":os", "true")))
        d = [El("Definition", at, *fl)] if self.enum is not None or self.fields is not None else []
        rl = [ref(SUBT, self.super, "false", label=self.id + ":up")]
        for k, (before, t, target, fwd) in enumerate(self.more):
            rl.insert(0 if before else len(rl), ref(t, target, fwd, label="%s:more%d" % (self.id, k)))
        if self.enc and self.enc[0] == "forward":
            rl.append(ref(ENC, self.enc[1], "true", label=self.id + ":enc"))
        return node("UADataType", self.id, refs(*rl), *d, bn="1:" + self.name,
                    attrs=[("IsAbstract", T(self.id + ":ab", ("true", "1")[int(self.id[-1], 36) % 2]))] if self.abstract else [])

    def encoding(self):
        """the object describing the binary encoding"""
        return [node("UAObject", self.enc[1], refs(ref(ENC, self.id, "false", label=self.id + ":en")), bn="0:Default Binary")] \
            if self.enc and self.enc[0] == "inverse" else []


class Want:
    """the descriptions a sequence of data types is to get"""

    def __init__(self, ds, server=None):
        self.std = {"i=%d" % t.id: t for t in standard_types()}
        self.ds = {d.id: d for d in ds}
        self.server = server or {}
        self.done = {}

    def root(self, i):
        """the standard type an id is derived from"""
        seen = 0
        while i in self.ds or i in self.server:
            i = self.ds[i].super if i in self.ds else self.server[i]
            seen += 1
        if i in self.std and self.std[i].kind == "Enum":
            return "i=29"
        if i in self.std and self.std[i].kind == "Structure" and i != "i=12755":
            return "i=22"
        up = {"i=12756": "i=22", "i=290": "i=11", "i=294": "i=13", "i=295": "i=12"}
        return up.get(i, i)

    def type(self, i):
        """Type of an id"""
        if i in self.done:
            return self.done[i]
        if i in self.std:
            return self.std[i]
        if i not in self.ds:
            return None
        d, r = self.ds[i], self.root(i)
        t = self.done[i] = Type(("lit", d.name), sid(i), None, None)
        t.enc = None
        t.pf = None
        if r == "i=29":
            t.kind, t.size, t.pointer_free = "Enum", 4, True
        elif r in ("i=22", "i=12755"):
            t.kind = "Union" if d.union else "Structure"
            t.enc = sid(d.enc[1]) if d.enc else None
            up = self.type(d.super) if d.super not in ("i=22", "i=12756") else None
            if up is not None and up.kind in ("Structure", "OptStruct"):
                t.members = [Member(m.name if isinstance(m.name, tuple) else ("lit", m.name), m.type, 0, m.array, m.optional) for m in up.members]
            else:
                t.members = []
            if r != "i=12755":
                for n, x, rank, o in d.fields or ():
                    t.members.append(Member(("lit", n or ""), x, 0, int(rank is not None and int(rank) >= 0), int(o == "true")))
            if any(m.optional for m in t.members):
                t.kind = "OptStruct"
            for m in t.members:
                if isinstance(m.type, str):
                    m.type = self.member(m.type)
        else:
            b = self.std.get(r) or self.std["i=24"]
            t.kind, t.size, t.pointer_free = b.kind, b.size, b.pointer_free
            t.enc = (0, "i=%d" % b.enc) if b.enc else None
        return t

    def member(self, i):
        if i in self.ds and self.ds[i].abstract:
            return self.std["i=24"]
        return self.type(i) or (self.std["i=24"] if nid(i)[0] == 0 else None)

    def layout(self, t, busy=()):
        """(size, alignment), of the C struct"""
        if t.kind not in ("Structure", "OptStruct", "Union") or t.index is not None:
            return t.size, t.align()
        if not t.members:
            return 8, 8         # a pointer
        sizes = []
        for m in t.members:
            if m.array:
                sizes.append((16, 8))
            elif m.optional:
                sizes.append((8, 8))
            else:
                sizes.append(self.layout(m.type))
        al = max([a for s, a in sizes] + ([4] if t.kind == "Union" else []))
        off, pads = 0, []
        for s, a in sizes:
            if s is None:
                return None, al
            if t.kind == "Union":
                pads.append(4 + -4 % al)
            else:
                pads.append(-off % a)
                off += pads[-1] + s
        if t.kind == "Union":
            off = 4 + -4 % al + max(s for s, a in sizes)
        t.pads = pads
        return off + -off % al, al

    def pointer_free(self, t, busy=()):
        if t.kind not in ("Structure", "OptStruct", "Union") or t.index is not None:
            return t.pointer_free
        return all(not m.array and not m.optional and self.pointer_free(m.type) for m in t.members)


def standard_types():
    return standard(None)


def check(ctx, name, *files, server=(), strict=False, split_ok=True, **kw):
    """files: lists of data types"""
    docs = []
    for ds in files:
        els = [d.node() for d in ds] + [e for d in ds for e in d.encoding()]
        random.Random(name).shuffle(els)
        docs.append(dict(ns=NS, file=nodeset(URIS, *els)))
    W = Want([d for ds in files for d in ds], {c: p for p, c in server})
    nodes = [((0, p) if not p.startswith("ns") else sid(p), (0, "i=45"), sid(c), "DATATYPE") for p, c in server]
    r = Load(ctx, name, *docs, nodes=nodes, **kw)
    r.alive("types")
    if r.skip:
        return
    for st, v in r.result:
        got = r.w.custom_types(st)
        if got == UNK or isinstance(got, str) or any(not isinstance(t, Type) for t in got):
            r.ob(st, "types", False if got == "released" or isinstance(got, list) and "released" in got else None, "descriptions of the data types are %s" % (got,))
            continue
        ids = [t.id for t in got]
        want = [sid(d.id) for ds in files for d in ds]
        ok = sorted(map(repr, ids)) == sorted(map(repr, want))
        r.ob(st, "types", True if ok else None if undecided(ids) else False,
             "there are descriptions of %s%s" % (show(ids), "" if ok else ", expected were %s" % show(want)))
        for d in [d for ds in files for d in ds]:
            l = [t for t in got if t.id == sid(d.id)]
            if len(l) == 1:
                one(r, st, W, d, l[0])


def one(r, st, W, d, g):
    t = W.type(d.id)
    who = "description of %s" % d.name
    at = (r.ctx.at("DataTypeImporter_addCustomDataType"), "DataTypeImporter_addCustomDataType")
    r.compare(st, "name", "name of the " + who, ("lit", d.name), g.name, at)
    r.compare(st, "kind", "kind of the " + who, t.kind, g.kind, at)
    r.compare(st, "encoding", "encoding id of the " + who, t.enc, g.enc, at)
    if not isinstance(g.members, list):
        r.ob(st, "members", None if g.members == UNK else False, "members of the %s are %s" % (who, g.members), at)
        return
    want = [(m.name, m.type.id, m.array, m.optional) for m in t.members]
    have = [(m.name, m.type.id if isinstance(m.type, Type) else m.type, m.array, m.optional) for m in g.members]
    ok = want == have
    r.ob(st, "members", verdict(want, have),
         "members of the %s are %s%s" % (who, have, "" if ok else ", expected were %s" % want), at)
    if not ok:
        return
    for m in g.members:     # a member's type is the one description there is
        if isinstance(m.type, Type) and m.type.index is None:
            r.ob(st, "members", m.type.own[1] is not None and any(m.type.own == x.own for x in r.w.custom_types(st)),
                 "the type of a member of the %s is not among the descriptions" % who, at)
    at = (r.ctx.at("DataTypeImporter_initMembers"), "DataTypeImporter_initMembers")
    size, al = W.layout(t)
    if size is not None:
        r.compare(st, "layout", "size of the " + who, size, g.size, at)
        if t.members:
            r.compare(st, "layout", "paddings of the " + who, t.pads, [m.padding for m in g.members], at)
        r.compare(st, "pointer-free", "pointerFree of the " + who, int(W.pointer_free(t)), g.flags["pointerFree"], at)
    else:
        r.ob(st, "layout", isinstance(g.size, int) and g.size > 0, "the size of the %s is %s" % (who, g.size), at)


def drawn(seed, n=4, pre="ns=1;i=3", known=()):
    r = random.Random(seed)
    own, out = list(known), []
    for k in range(n):
        i = "%s%02d" % (pre, k)
        structs = [d.id for d in own if d.fields is not None and not d.union and not d.optset]
        kind = r.choice(["struct"] * 5 + ["sub"] * 3 + ["union", "union", "enum", "basic", "optset", "none"])
        enc = r.choice([None, ("inverse", "%s9%02d" % (pre, k)), ("forward", "%s8%02d" % (pre, k))])
        ids = [d.id for d in own]

        def fields(m, p, opt=True):
            l = []
            for j in range(m):
                t = r.choice(ids) if ids and r.random() < .45 else r.choice(
                    ["i=%d" % x for x in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 24, 26, 884, 887, 296, 7594, 852, 290)])
                rk = r.choice([None, None, None, -1, -2, 0, 1, 2])
                if r.random() < .1:
                    t, rk = i, 1
                l.append((p + str(j), t, rk, r.choice([None] * 6 + ["true", "false"]) if opt else None))
            return l
        if kind == "struct" or kind == "sub" and not structs and r.random() < .5:
            d = D(i, "i=22", fields(r.randint(0, 4), "f%d_" % k), enc=enc)
        elif kind == "sub":
            d = D(i, r.choice(structs + ["i=884", "i=296", "i=22"]), fields(r.randint(0, 3), "s%d_" % k), enc=enc)
        elif kind == "union":
            d = D(i, r.choice(["i=22", "i=12756"]), fields(r.randint(1, 3), "u%d_" % k, False), union=True, enc=enc)
        elif kind == "enum":
            d = D(i, r.choice(["i=29", "i=852"] + [x.id for x in own if x.enum is not None]), enum=list(range(r.randrange(3))))
        elif kind == "basic":
            d = D(i, r.choice(["i=12", "i=6", "i=11", "i=290", "i=17", "i=21", "i=26", "i=28", "i=24", "i=13"]))
        elif kind == "optset":
            d = D(i, "i=12755", [("o%d" % j, "i=1", None, None) for j in range(r.randrange(3))], optset=True, enc=enc)
        else:
            d = D(i, "i=22", abstract=r.random() < .5, enc=enc)
        if d.fields is not None and not d.union and not d.optset and r.random() < .15:
            d.abstract = True
        own.append(d)
        out.append(d)
    return out


def run(ctx):
    counters.check(ctx, "backends/open62541/src/DataTypeImporter.c")
    B = lambda *l: [("m%d" % k, "i=%d" % x if isinstance(x, int) else x, None, None) for k, x in enumerate(l)]
    # layouts
    small = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 24]
    l = []
    for k, a in enumerate(small):
        l.append([D("ns=1;i=10", "i=22", B(a, 3)), D("ns=1;i=11", "i=22", B(3, a)), D("ns=1;i=12", "i=22", B(a), union=True),
                  D("ns=1;i=13", "i=22", B(3, "ns=1;i=12", 3)), D("ns=1;i=14", "i=22", B(4, "ns=1;i=10", a))])
    for k, x in enumerate(l):
        check(ctx, "layout %d" % k, x)
    check(ctx, "unions", [D("ns=1;i=10", "i=12756", B(3, 5, 6), union=True), D("ns=1;i=11", "i=22", B(3, 9), union=True),
                          D("ns=1;i=12", "i=22", [("a", "i=3", 1, None), ("b", "i=11", None, None)], union=True),
                          D("ns=1;i=13", "i=22", B("ns=1;i=10", "ns=1;i=11"), union=True), D("ns=1;i=14", "i=22", B(1, "ns=1;i=13", 2, "ns=1;i=10"))])
    check(ctx, "optional members", [D("ns=1;i=10", "i=22", [("a", "i=3", None, "true"), ("b", "i=3", None, None), ("c", "i=9", 1, "true")]),
                                    D("ns=1;i=11", "ns=1;i=10", B(3)), D("ns=1;i=12", "ns=1;i=11", []), D("ns=1;i=13", "i=22", B("ns=1;i=10", 3))])
    check(ctx, "arrays of itself", [D("ns=1;i=10", "i=22", [("a", "ns=1;i=10", 1, None), ("b", "i=3", None, None)]),
                                    D("ns=1;i=11", "i=22", B(3, "ns=1;i=10"))])
    check(ctx, "types of later ones", [D("ns=1;i=10", "i=22", B("ns=1;i=12", 3)), D("ns=1;i=11", "i=22", B("ns=1;i=10")),
                                       D("ns=1;i=12", "i=22", B("ns=1;i=13", 3)), D("ns=1;i=13", "i=22", B(3, 9))])
    for before in (True, False):
        for k, (t, target, fwd) in enumerate([(ORG, "i=90", "false"), (COMP, "ns=1;i=14", "false"), (ORG, "ns=1;i=12", "false"),
                                              (SUBT, "ns=1;i=12", "true"), (PROP, "ns=1;i=12", "true"), ("i=39", "ns=1;i=12", "false")]):
            check(ctx, "other references of types %d %s" % (k, before),
                  [D("ns=1;i=10", "i=22", B(3, 9)), D("ns=1;i=12", "i=22", B(12)), D("ns=1;i=14", "i=22", B(1)),
                   D("ns=1;i=11", "ns=1;i=10", B(6), more=[(before, t, target, fwd)] if fwd == "false" or target != "ns=1;i=12" or t != SUBT
                     else [(before, SUBT, "ns=1;i=15", "true")]), D("ns=1;i=15", "ns=1;i=11", B(2))])
    check(ctx, "unknown member types", [D("ns=1;i=10", "i=22", B(3, "i=26")), D("ns=1;i=11", "i=22", [("x", "i=9999", 1, None)])])
    check(ctx, "field without name", [D("ns=1;i=10", "i=22", [(None, "i=6", None, None), ("b", "i=6", None, None)])])
    check(ctx, "abstract", [D("ns=1;i=10", "i=22", B(6), abstract=True), D("ns=1;i=11", "ns=1;i=10", B(7)),
                            D("ns=1;i=12", "i=22", B("ns=1;i=10", "ns=1;i=11"))])
    for i in ("i=12", "i=6", "i=11", "i=24", "i=26", "i=27", "i=28", "i=290", "i=852", "i=884", "i=29", "i=22", "i=12755", "i=22", "i=15"):
        check(ctx, "derived from " + i, [D("ns=1;i=10", i), D("ns=1;i=11", "ns=1;i=10"), D("ns=2;s=x", "i=22", B("ns=1;i=11", "ns=1;i=10"))])
    # names of any length, many types and members
    for n in (1, 15, 16, 31, 32, 63, 64, 70, 127, 128, 255, 256, 300):
        m = lambda c: (c + "xyz" * n)[:n]
        check(ctx, "names of %d characters" % n, [D("ns=1;i=10", "i=22", [(m("a"), "i=3", None, None), (m("b"), "i=9", 1, None)], name=m("T")),
                                                  D("ns=1;i=11", "ns=1;i=10", [(m("c"), "i=12", None, None)], name=m("U")), D("ns=1;i=12", "i=29", enum=[1], name=m("V"))])
    for n in (7, 8, 9, 12, 16, 17) + ((33, 64, 65, 100) if ctx.thorough else ()):
        check(ctx, "%d types" % n, [D("ns=1;i=%d" % (100 + k), "i=22", B(3)) if k % 3 == 0 else D("ns=1;i=%d" % (100 + k), "i=6") for k in range(n)])
        check(ctx, "%d members" % n, [D("ns=1;i=10", "i=22", B(*[(3, 9, 12)[k % 3] for k in range(n)])), D("ns=1;i=11", "ns=1;i=10", B(6)),
                                      D("ns=1;i=12", "ns=1;i=11", [("z%d" % k, "i=4", None, None) for k in range(n)])])
    check(ctx, "names which begin alike", [D("ns=1;i=10", "i=22", [("a", "i=3", None, None), ("ab", "i=9", None, None), ("abc", "i=3", 1, None)], name="T"),
                                           D("ns=1;i=11", "ns=1;i=10", [("abcd", "i=3", None, None)], name="Ta"), D("ns=1;i=12", "ns=1;i=11", [("b", "i=6", None, None)], name="Tab")])
    # over files and the server's own types
    check(ctx, "two files", [D("ns=1;i=10", "i=22", B(3, 9), enc=("inverse", "ns=1;i=77"))],
          [D("ns=2;i=10", "ns=1;i=10", B("ns=1;i=10", 3), enc=("forward", "ns=2;i=77")), D("ns=2;i=11", "i=22", B("ns=2;i=10", 3))])
    check(ctx, "below types of the server", [D("ns=1;i=10", "ns=2;i=50", B(3)), D("ns=1;i=11", "ns=2;i=51"), D("ns=1;i=12", "ns=2;i=52", enum=[1])],
          server=[("i=22", "ns=2;i=50"), ("i=12", "ns=2;i=51"), ("i=29", "ns=2;i=52")])
    n = 150 if ctx.thorough else 30
    for s in range(n):
        check(ctx, "drawn %d" % s, drawn(s, 3 + s % 3, ("ns=1;i=3", "ns=1;s=t", "ns=2;s=a b")[s % 3]))
    for s in range(n // 3):
        a = drawn(7000 + s, 3, ("ns=1;i=3", "ns=2;s=t")[s % 2])
        for d in a:
            d.abstract = False
        check(ctx, "drawn, two files %d" % s, a, drawn(8000 + s, 3, ("ns=2;i=3", "ns=1;s=t")[s % 2], a))
    # asking for descriptions
    ask(ctx)


def ask(ctx):
    ds = [D("ns=1;i=10", "i=22", B2(3)), D("ns=1;s=x", "i=29", enum=[0]), D("ns=2;i=10", "i=12")]
    r = Load(ctx, "asking for a description", nodeset(URIS, *[d.node() for d in ds]))
    r.alive("ask")
    if r.skip:
        return
    w, e = r.w, r.w.eng
    for st, v in r.result:
        for i, have in (("ns=1;i=10", 1), ("ns=1;s=x", 1), ("ns=2;i=10", 1), ("ns=1;i=11", 0), ("ns=2;s=x", 0), ("i=10", 0), ("i=6", 0)):
            def args(s):
                b = e.new_heap(s, const(w.m.sizeof("UA_NodeId")), True, None, label="asked")
                x = sid(i)
                from engine.models import nid_write
                nid_write(e, s, b, w.nid_vals(e, s, x[1], const(x[0]), None), None)
                return [e.param("server", "UA_Server"), b]
            for s2, p in w.call([st.copy()], "NodesetLoader_getCustomDataType", args):
                t = w.type_at(s2, p)
                ok = (t is not None and isinstance(t, Type) and t.id == sid(i)) if have else t is None
                r.ob(s2, "ask", None if t == UNK else ok, "the description found for %s is %s" % (i, t),
                     (ctx.at("NodesetLoader_getCustomDataType"), "NodesetLoader_getCustomDataType"))


def B2(*l):
    return [("m%d" % k, "i=%d" % x, None, None) for k, x in enumerate(l)]
