"""Drawn data types and values: their elements in a document and what a server is
to be given for them."""
import base64
import random
from .server import *

EM = ("lit", "")
INTS = {"SByte": (8, 1), "Byte": (8, 0), "Int16": (16, 1), "UInt16": (16, 0), "Int32": (32, 1), "UInt32": (32, 0), "Int64": (64, 1),
        "UInt64": (64, 0)}
IDS = dict(Boolean=1, SByte=2, Byte=3, Int16=4, UInt16=5, Int32=6, UInt32=7, Int64=8, UInt64=9, Float=10, Double=11, String=12,
           DateTime=13, Guid=14, ByteString=15, NodeId=17, StatusCode=19, QualifiedName=20, LocalizedText=21)
# structures of the standard: id, [(name, type, array)]
STD = {"Range": (884, [("Low", "Double", 0), ("High", "Double", 0)]),
       "EUInformation": (887, [("NamespaceUri", "String", 0), ("UnitId", "Int32", 0), ("DisplayName", "LocalizedText", 0),
                               ("Description", "LocalizedText", 0)]),
       "Argument": (296, [("Name", "String", 0), ("DataType", "NodeId", 0), ("ValueRank", "Int32", 0), ("ArrayDimensions", "UInt32", 1),
                          ("Description", "LocalizedText", 0)]),
       "EnumValueType": (7594, [("Value", "Int64", 0), ("DisplayName", "LocalizedText", 0), ("Description", "LocalizedText", 0)])}


class DT:
    """a data type: kind basic | struct | union | enum"""

    def __init__(self, name, ident, kind, fields=(), base=None, parent=None):
        self.name, self.id, self.kind, self.fields, self.base, self.parent = name, ident, kind, list(fields), base, parent

    def all(self):
        """the members, inherited ones first"""
        return (self.parent.all() if self.parent else []) + self.fields

    def basic(self):
        return self.base if self.kind == "basic" else None


def std():
    d = {n: DT(n, "i=%d" % i, "basic", base=n) for n, i in IDS.items()}
    for n, (i, fl) in STD.items():
        d[n] = DT(n, "i=%d" % i, "struct", [(f, d[t], a) for f, t, a in fl])
    d["ServerState"] = DT("ServerState", "i=852", "enum")
    return d


def zero(t):
    b = t.basic()
    if t.kind == "struct":
        return {f: ([] if a else zero(x)) for f, x, a in t.all()}
    if t.kind == "union":
        return (0, None)
    if b in ("String", "ByteString"):
        return EM
    if b == "NodeId":
        return None
    if b == "QualifiedName":
        return (0, EM)
    if b == "LocalizedText":
        return (EM, EM)
    return 0


class Values:
    def __init__(self, seed=0):
        self.r, self.n = random.Random(seed), 0
        self.std = std()

    def label(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def value(self, t, depth=0, drop=None):
        """(content of the element, what the server is to be given); drop: names of the members of the structure which are missing"""
        r, b, l = self.r, t.basic(), self.label()
        p = r.random()
        if t.kind == "struct":
            out, want = [], zero(t)
            order = list(t.all())
            if p < .4:
                r.shuffle(order)
            for f, x, a in order:
                if r.random() < .2 if drop is None else f in drop:
                    continue
                c, want[f] = self.array(x, r.choice((0, 1, 2)), depth + 1) if a else self.value(x, depth + 1)
                out.append(El(f, (), *c))
            return out, want
        if t.kind == "union":
            if not t.fields or p < .15:
                return [El("SwitchField", (), T(l, "0"))], (0, None)
            k = r.randrange(len(t.fields))
            f, x, a = t.fields[k]
            c, w = self.array(x, r.choice((0, 1, 2)), depth + 1) if a else self.value(x, depth + 1)
            return [El("SwitchField", (), T(l, str(k + 1))), El(f, (), *c)], (k + 1, w)
        if t.kind == "enum":
            k = r.choice((0, 1, 7, 2147483647))
            return [T(l, r.choice(("%d", "Name_%d", "A_b_%d", "X1_2_%d")) % k)], k
        if b == "Boolean":
            k = r.choice((0, 1))
            return [T(l, r.choice((("false", "0"), ("true", "1"))[k]))], k
        if b in INTS:
            bits, sg = INTS[b]
            if p < .4:
                return [T(l)], "int:" + l
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
            k = r.choice((lo, hi, 0, 1, r.randint(lo, hi)))
            return [T(l, r.choice(("%d", " %d", "%d ", "\n%d\n")) % k)], k
        if b in ("Float", "Double"):
            if p < .6:
                return [T(l)], "real:" + l
            s, k = r.choice((("1.5", 1.5), ("-0.25", -.25), ("1e3", 1000.), ("2", 2.), ("-3.5E-1", -.35) if b == "Double" else ("8", 8.)))
            return [T(l, s)], k
        if b == "String":
            if p < .7:
                return [T(l)], ("text", (l,))
            return r.choice([([], EM), ([T(l, "a b c")], ("lit", "a b c"))])
        if b == "DateTime":
            s, k = r.choice((("2023-08-09T10:09:08Z", "2023,8,9,10,9,8,0,0,0"), ("1999-12-31T23:59:59.25Z", "1999,12,31,23,59,59,250,0,0"),
                             ("2020-02-29T08:00:00.0123456Z", "2020,2,29,8,0,0,12,345,600")))
            return [T(l, s)], "date:" + k
        if b == "Guid":
            g = "%08x-1122-3344-5566-778899aabbcc" % r.getrandbits(32)
            return [El("String", (), T(l, g))], "guid:%s" % (("lit", g),)
        if b == "ByteString":
            s = bytes(r.randrange(1, 128) for _ in range(r.choice((0, 1, 2, 3, 4, 7))))
            return ([T(l, base64.b64encode(s).decode())] if s else []), ("lit", s.decode("latin-1"))
        if b == "NodeId":
            i = r.choice(("i=77", "ns=1;i=78", "ns=2;s=abc", "ns=1;s=x y"))
            return [El("Identifier", (), T(l, i))], sid(i)
        if b == "StatusCode":
            k = r.choice((0, 0x80000000, 0xffffffff, 2148073472))
            return [El("Code", (), T(l, str(k)))], k
        if b == "QualifiedName":
            k = r.choice((0, 1, 2))
            x = [(El("NamespaceIndex", (), T(l, str(k))), (NS[k - 1] if k else 0, EM)), (El("Name", (), T(l + "n")), (0, ("text", (l + "n",))))]
            return self.parts(x, lambda ws: (max(w[0] for w in ws), [w[1] for w in ws if w[1] != EM][0] if any(w[1] != EM for w in ws) else EM), zero(t))
        if b == "LocalizedText":
            x = [(El("Locale", (), T(l + "l")), (("text", (l + "l",)), EM)), (El("Text", (), T(l + "t")), (EM, ("text", (l + "t",))))]
            return self.parts(x, lambda ws: tuple(([w[k] for w in ws if w[k] != EM] or [EM])[0] for k in (0, 1)), zero(t))
        raise ValueError(b)

    def parts(self, x, join, none):
        k = self.r.choice((3, 3, 3, 1, 2))
        x = [y for j, y in enumerate(x) if k >> j & 1]
        if self.r.random() < .4:
            x.reverse()
        return [e for e, w in x], join([w for e, w in x]) if x else none

    def array(self, t, n, depth=0):
        out, want = [], []
        for _ in range(n):
            c, w = self.value(t, depth)
            out.append(El(t.name, (), *c))
            want.append(w)
        return out, want

    def top(self, t, n=None, drop=None):
        """(content of Value, expected variant value) for a value of the type, n: number of elements"""
        ext = t.kind in ("struct", "union")

        def one():
            c, w = self.value(t, drop=drop)
            if not ext:
                return El(t.name if t.kind != "enum" else "Int32", (), *c), w
            return El("ExtensionObject", (), El("TypeId", (), El("Identifier", (), T(self.label("ti"), t.id))),
                      El("Body", (), El(t.name, (), *c))), w
        if n is None:
            e, w = one()
            return [e], w
        l = [one() for _ in range(n)]
        name = "ListOf" + ("ExtensionObject" if ext else t.name if t.kind != "enum" else "Int32")
        return [El(name, (), *[e for e, w in l])], [w for e, w in l]

    # ------------------------------------------------------------ types
    def types(self, n, depth=2, pre="ns=1;i=3", kinds=("struct", "struct", "union", "enum", "basic", "sub"), known=()):
        """n drawn types, in an order in which each one only needs earlier ones"""
        r, out = self.r, list(known)
        first = len(out)
        for k in range(n):
            kind = r.choice(kinds)
            t = DT("T%d" % (len(out) + int(pre[-1]) * 100), "%s%02d" % (pre, k), kind)
            if kind == "basic":
                src = r.choice([x for x in list(self.std.values()) + out if x.kind == "basic"])
                t.base, t.parent = src.base, None
                t.super = src.id
            elif kind == "enum":
                t.super = "i=29"
                t.fields = [("E%d" % j, j) for j in range(r.randrange(4))]
            elif kind == "union":
                t.super = r.choice(["i=22", "i=12756"])
                t.fields = self.fields(out, r.randint(1, 3), "u%d_" % k)
            else:
                up = [x for x in out if x.kind == "struct"]
                t.kind, t.super = "struct", "i=22"
                if kind == "sub" and up:
                    t.parent = r.choice(up)
                    t.super = t.parent.id
                t.fields = self.fields(out, r.randint(1, 4), "f%d_" % k)
            out.append(t)
        return out[first:]

    def fields(self, own, n, pre):
        r, l = self.r, []
        for k in range(n):
            t = r.choice(own) if own and r.random() < .4 else r.choice(list(self.std.values()))
            l.append(("%s%d" % (pre, k), t, int(r.random() < .25)))
        return l

    def element(self, t):
        """the data type's node"""
        fl = []
        for k, f in enumerate(t.fields):
            l = "%s:%d" % (t.id, k)
            if t.kind == "enum":
                fl.append(El("Field", [("Name", T(l + "n", f[0])), ("Value", T(l + "v", str(f[1])))]))
            else:
                fl.append(El("Field", [("Name", T(l + "n", f[0])), ("DataType", T(l + "d", f[1].id))] +
                             ([("ValueRank", T(l + "r", "1"))] if f[2] else [])))
        d = []
        if t.kind != "basic":
            at = [("Name", T(t.id + ":dn", t.name))]
            if t.kind == "union":
                at.append(("IsUnion", T(t.id + ":iu", "true")))
            d = [El("Definition", at, *fl)]
        return node("UADataType", t.id, refs(ref(SUBT, t.super, "false")), *d, bn="1:" + t.name)


def same_type(t, want):
    return isinstance(t, Type) and sid(want.id) in (t.id, (0, "i=%s" % (t.id,)))
