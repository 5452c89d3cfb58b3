"""Value-flow analysis of the namespaces of an import into a server: files which
list up to six namespaces, in any order and with any answer of the server, one
file after the other with other lists; every id, browse name, reference, data
type and value the server is given has to carry the server's index for the
namespace its file means."""
import random
from engine.values import *

SHARDS = 8


class Sheet:
    """one file: items in drawn namespaces, and what they are at the server"""

    def __init__(self, r, no, idx, items=3):
        self.r, self.no, self.idx = r, no, idx
        self.ns = dict(enumerate(idx))
        self.nodes, self.refs, self.types, self.values, self.docs = [], [], [], [], []
        self.S = std()
        kinds = ["object", "variable", "type", "instance", "value", "method", "reftype"]
        r.shuffle(kinds)
        for k in range(items):
            getattr(self, "add_" + kinds[k % len(kinds)])(k)
        uris = list(range(len(idx)))
        self.events = nodeset(*([El("NamespaceUris", (), *[El("Uri", (), T("uri%d.%d" % (no, k), "urn:%d:%d" % (no, k))) for k in uris])] if idx else []),
                              *self.docs)

    def n(self, zero=False):
        k = self.r.randrange(0 if zero or not self.idx else 1, len(self.idx) + 1)
        return k

    def id(self, tag, zero=False, num=None, own=False):
        k = self.n(zero)
        if own and not self.ns[k - 1]:
            # the data types of the standard namespace are the server's own
            k = next(j for j in range(1, len(self.idx) + 1) if self.ns[j - 1])
        i = "i=%d" % num if num else "s=%s_%d" % (tag, self.no)
        return ("ns=%d;" % k if k else "") + i

    def s(self, i):
        return sid(i, self.ns)

    def bn(self, name):
        k = self.n(True)
        return ("%d:" % k if k else "") + name, (self.ns[k - 1] if k else 0, ("lit", name))

    def l(self, x):
        self.c = getattr(self, "c", 0) + 1
        return "%s%d.%d" % (x, self.no, self.c)

    def plain(self, cls, k, *content, attrs=(), reftype=None, refs_=(), **want):
        i, up = self.id("%s%s" % (cls[:2], k)), self.id("up%s" % k, zero=True)
        t = reftype or ORG
        b, wb = self.bn("b%s" % k)
        self.docs.append(node(ELEM[cls], i, refs(ref(t, up, "false", label=self.l("r")), *refs_), *content, attrs=list(attrs), bn=b))
        self.nodes.append((cls, i, dict(parent=self.s(up), reference=self.s(t), browseName=wb, **want)))
        self.refs.append((self.s(i), self.s(t), 0, self.s(up)))
        return i

    def add_object(self, k):
        self.plain("OBJECT", k)

    def add_method(self, k):
        self.plain("METHOD", k)

    def add_variable(self, k):
        dt = self.id("dt%d" % k)
        self.plain("VARIABLE", k, attrs=[("DataType", T(self.l("dt"), dt))], data=self.s(dt))

    def add_instance(self, k):
        td, tg = self.id("td%d" % k), self.id("tg%d" % k, zero=True)
        i = self.plain("OBJECT", k, refs_=[ref(TYPEDEF, td, label=self.l("td")), ref("i=3065", tg, label=self.l("tg"))], typedef=self.s(td))
        self.refs.append((self.s(i), (0, "i=3065"), 1, self.s(tg)))

    def add_reftype(self, k):
        t, tg = self.id("rt%d" % k), self.id("rx%d" % k, zero=True)
        self.docs.append(node("UAReferenceType", t, refs(ref(SUBT, "i=47", "false", label=self.l("st")))))
        self.nodes.append(("REFERENCETYPE", t, dict(parent=(0, "i=47"))))
        self.refs.append((self.s(t), (0, "i=45"), 0, (0, "i=47")))
        self.plain("OBJECT", k, reftype=t)

    def add_type(self, k):
        a, b, v = self.id("ta%d" % k, own=True), self.id("tb%d" % k, own=True), None
        en = self.id("en%d" % k, num=7000 + 10 * self.no + k)
        f = lambda n, t: El("Field", [("Name", T(self.l("fn"), n)), ("DataType", T(self.l("ft"), t))])
        for i, fl, n, enc in ((a, [f("x", "i=6")], "TA%d_%d" % (self.no, k), None), (b, [f("y", a), f("z", "i=12")], "TB%d_%d" % (self.no, k), en)):
            self.docs.append(node("UADataType", i, refs(ref(SUBT, "i=22", "false", label=self.l("ds")),
                                                        *([ref(ENC, enc, label=self.l("de"))] if enc else [])),
                                  El("Definition", [("Name", T(self.l("dn"), n))], *fl)))
            self.nodes.append(("DATATYPE", i, dict(parent=(0, "i=22"))))
            self.refs.append((self.s(i), (0, "i=45"), 0, (0, "i=22")))
            if enc:
                self.refs.append((self.s(i), (0, "i=38"), 1, self.s(enc)))
        self.types.append((b, a, en))
        x = lambda n: El("ExtensionObject", (), El("TypeId", (), El("Identifier", (), T(self.l("ti"), a))),
                         El("Body", (), El(n, (), El("x", (), T(self.l("vx"), "4")))))
        i = self.plain("VARIABLE", k, El("Value", (), x("TA")), attrs=[("DataType", T(self.l("dt"), a))], data=self.s(a))
        self.values.append((i, self.s(a), {"x": 4}))

    def add_value(self, k):
        q, i = self.n(True), self.id("vi%d" % k, zero=True)
        q2, i2 = self.n(True), self.id("vj%d" % k, zero=True)
        one = {"NodeId": lambda i, l: El("NodeId", (), El("Identifier", (), T(l, i))),
               "QualifiedName": lambda q, l: El("QualifiedName", (), El("NamespaceIndex", (), T(l, str(q))), El("Name", (), T(l + "n", "qn")))}
        w = {"NodeId": self.s, "QualifiedName": lambda q: (self.ns[q - 1] if q else 0, ("lit", "qn"))}
        for j, (t, l) in enumerate((("NodeId", [i]), ("QualifiedName", [q]), ("NodeId", [i, i2]), ("QualifiedName", [q2, q]))):
            if self.r.random() < .5:
                continue
            es = [one[t](x, self.l("v")) for x in l]
            dt = self.S[t].id
            v = self.plain("VARIABLE", "%dx%d" % (k, j), El("Value", (), es[0] if len(l) == 1 else El("ListOf" + t, (), *es)),
                           attrs=[("DataType", T(self.l("dt"), dt))], data=sid(dt))
            ws = [w[t](x) for x in l]
            self.values.append((v, None, ws if len(l) > 1 else ws[0]))


def check(ctx, name, sheets):
    r = Load(ctx, name, *[dict(ns=s.ns, file=s.events) for s in sheets])
    if r.skip:
        return
    r.returns("accepted", True)
    r.exactly("nodes", [(c, s.s(i)) for s in sheets for c, i, w in s.nodes])
    for s in sheets:
        for c, i, w in s.nodes:
            w = dict(w)
            data = w.pop("data", None)
            r.node("ids", s.s(i), c, w, {"dataType": data} if data else None)
    want = [x for s in sheets for x in s.refs]
    for st, v in r.result:
        got = [(d["source"], d["type"], d["forward"], d["target"]) for d in r.refs(st)]
        at = {(d["source"], d["type"], d["forward"], d["target"]): d["at"] for d in r.refs(st)}
        unk = undecided(got)
        for x in want:
            r.ob(st, "references", True if x in got else None if unk else False, "reference %s" % show(x))
        for x in got:
            ok = x in want or (x[3], x[1], 1 - x[2], x[0]) in want
            r.ob(st, "references", True if ok else None if undecided(x) else False, "reference %s is none of the files" % show(x), at[x])
        by = {d["id"]: d for d in r.adds(st)}
        for s in sheets:
            for i, t, w in s.values:
                d = by.get(s.s(i))
                g = d["attributes"]["value"] if d and d["attributes"] != UNK else UNK
                ok = isinstance(g, tuple) and g[1] == w and (t is None or (isinstance(g[0], Type) and g[0].id == t))
                r.ob(st, "values", True if ok else None if undecided(g) else False, "value of %s is %s, expected was %s" % (
                    show(s.s(i)), show(g[1] if isinstance(g, tuple) else g), show(w)), d and d["at"])
        ts = r.w.custom_types(st)
        if not isinstance(ts, list):
            r.ob(st, "types", None, "data types")
            continue
        for s in sheets:
            for b, a, en in s.types:
                l = [t for t in ts if t.id == s.s(b)]
                ok = len(l) == 1 and l[0].enc == s.s(en) and l[0].members and l[0].members[0].type.id == s.s(a)
                r.ob(st, "types", True if ok else None if undecided([t.id for t in ts]) else False, "the data type %s is described as %s" % (
                    show(s.s(b)), [(t.id, t.enc, [getattr(m.type, "id", None) for m in t.members or ()]) for t in l]))


def run(ctx):
    n = 60 if ctx.tier == "quick" else 500
    for k in range(n):
        r = random.Random(k)
        files = 1 + k % 3
        sheets = []
        for f in range(files):
            c = r.randrange(1, 7)
            pool = list(range(1, 9)) + [255, 256, 300, 65534]
            idx = r.sample(pool, c)
            if k % 4 == 1 and c > 1:  # the standard namespace is listed as well
                idx[r.randrange(c)] = 0
            elif k % 4 == 2 and c > 1:  # two entries are the same namespace of the server
                idx[r.randrange(1, c)] = idx[0]
            sheets.append(Sheet(r, f, idx, items=(4, 3, 2)[files - 1]))
        check(ctx, "namespaces %d" % k, sheets)
    ctx.require("ids", 100)
    ctx.require("values", 20)
    ctx.require("types", 10)
    ctx.require("references", 100)
