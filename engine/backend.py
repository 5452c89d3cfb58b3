"""The open62541 backend as seen from a server.

The abstract interpreter enters NodesetLoader_loadFile and stops at the server's
interface: the functions of the server are stand-ins which record what they are
given (read from the abstract memory at the moment of the call) and answer from
a small model of the server's address space.  The standard data types are given
as type descriptions, those the importer makes are read back from the abstract
memory, and values are decoded with them, the way the server would do it."""
import re
from .lin import Lin, ZERO, ONE, const, S
from .core import AnalysisError, Chunk, Obj
from .models import nid_write, fresh_token, m_nid_copy, nid_cells
from .history import Bounds
from .doc import El, T, UNK, KINDS, node, nodeset, ref, refs, nid, undecided, show, NULL
from .world import World

KIND = ["Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String",
        "DateTime", "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode", "QualifiedName",
        "LocalizedText", "ExtensionObject", "DataValue", "Variant", "DiagnosticInfo", "Decimal", "Enum", "Structure",
        "OptStruct", "Union", "BitfieldCluster"]
SIZE = dict(Boolean=1, SByte=1, Byte=1, Int16=2, UInt16=2, Int32=4, UInt32=4, Int64=8, UInt64=8, Float=4, Double=8, DateTime=8,
            StatusCode=4, Enum=4)
ALIGN = dict(SIZE, String=8, Guid=4, ByteString=8, XmlElement=8, NodeId=8, ExpandedNodeId=8, QualifiedName=8, LocalizedText=8,
             ExtensionObject=8, DataValue=8, Variant=8, DiagnosticInfo=8, DateTime=8)
POINTERS = ("String", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "QualifiedName", "LocalizedText", "ExtensionObject",
            "DataValue", "Variant", "DiagnosticInfo")
BIG = dict(String=16, Guid=16, ByteString=16, XmlElement=16, NodeId=24, ExpandedNodeId=48, QualifiedName=24, LocalizedText=32,
           ExtensionObject=48, DataValue=80, Variant=48, DiagnosticInfo=72)
SIGNED = ("SByte", "Int16", "Int32", "Int64", "DateTime", "Enum")


class Type:
    """a description of a data type"""

    def __init__(self, name, ident, kind, size, members=(), index=None, enc=None):
        self.name, self.id, self.kind, self.size, self.members, self.index, self.enc = name, ident, kind, size, members, index, enc
        self.pointer_free = kind not in POINTERS and all(m.type.pointer_free and not m.array for m in members)

    def align(self):
        if self.kind in ALIGN:
            return ALIGN[self.kind]
        return max([8 if m.array or m.optional else m.type.align() for m in self.members] or [1])

    def __repr__(self):
        return self.name if isinstance(self.name, str) and self.index is not None else "type %s %s" % (self.name, self.id)


class Member:
    def __init__(self, name, type, padding=0, array=0, optional=0):
        self.name, self.type, self.padding, self.array, self.optional = name, type, padding, array, optional


def standard(m):
    """the standard types: [Type]"""
    l = []
    for k, n in enumerate(KIND[:25]):
        l.append(Type(n, k + 1, n, SIZE.get(n) or BIG[n], index=k))
    by = {t.name: t for t in l}

    def struct(name, ident, enc, *fields):
        ms, off = [], 0
        for f, t, *arr in fields:
            a = 8 if arr else by[t].align()
            pad = -off % a
            ms.append(Member(f, by[t], pad, int(bool(arr))))
            off += pad + (16 if arr else by[t].size)
        t = Type(name, ident, "Structure", 0, ms, len(l), enc)
        t.size = off + -off % t.align()
        l.append(t)
        by[name] = t
    for n, i, b in (("Duration", 290, "Double"), ("UtcTime", 294, "DateTime"), ("LocaleId", 295, "String")):
        l.append(Type(n, i, b, by[b].size, index=len(l)))
    struct("Range", 884, 886, ("Low", "Double"), ("High", "Double"))
    struct("EUInformation", 887, 889, ("NamespaceUri", "String"), ("UnitId", "Int32"), ("DisplayName", "LocalizedText"),
           ("Description", "LocalizedText"))
    struct("Argument", 296, 298, ("Name", "String"), ("DataType", "NodeId"), ("ValueRank", "Int32"), ("ArrayDimensions", "UInt32", 1),
           ("Description", "LocalizedText"))
    struct("EnumValueType", 7594, 8251, ("Value", "Int64"), ("DisplayName", "LocalizedText"), ("Description", "LocalizedText"))
    struct("OptionSet", 12755, 12765, ("Value", "ByteString"), ("ValidBits", "ByteString"))
    l.append(Type("ServerState", 852, "Enum", 4, index=len(l)))
    return l


ATTRS = {100: "UA_ObjectAttributes", 101: "UA_VariableAttributes", 102: "UA_MethodAttributes", 103: "UA_ObjectTypeAttributes",
         104: "UA_VariableTypeAttributes", 105: "UA_ReferenceTypeAttributes", 106: "UA_DataTypeAttributes", 107: "UA_ViewAttributes"}
NODECLASS = {1: "OBJECT", 2: "VARIABLE", 4: "METHOD", 8: "OBJECTTYPE", 16: "VARIABLETYPE", 32: "REFERENCETYPE", 64: "DATATYPE", 128: "VIEW"}
CLSBIT = {v: k for k, v in NODECLASS.items()}

# the part of namespace 0 the server knows from the start: (parent, child, class) below HasSubtype
REFTYPES = [(31, 32), (31, 33), (33, 34), (33, 35), (33, 36), (34, 44), (34, 45), (44, 46), (44, 47), (44, 56), (47, 49),
            (32, 37), (32, 38), (32, 39), (32, 40), (32, 41), (41, 3065), (35, 14476)]
DATATYPES = [(24, k) for k in (1, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 26, 29)] + [
    (26, 10), (26, 11), (26, 27), (26, 28), (27, 2), (27, 4), (27, 6), (27, 8), (28, 3), (28, 5), (28, 7), (28, 9), (22, 12755),
    (22, 12756), (22, 884), (22, 887), (22, 296), (22, 7594), (29, 852), (11, 290), (13, 294), (12, 295), (15, 30)]


class Backend(Bounds):
    """server: {nid: {"fails": n, "parent": ...}}"""
    strict = None               # ids the server knows, if it refuses nodes with unknown parents

    def __init__(self, ctx, report=None, ns_index=None, fails=None, nodes=(), custom=None, ext=True, strict=None, **kw):
        Bounds.__init__(self, ctx, report=report, ns_index=ns_index if ns_index is not None else {k: k + 1 for k in range(9)},
                        real_sort=True, ext=ext, **kw)
        self.fails = fails or {}
        self.strict = strict
        self.server_nodes = [((0, "i=%d" % a), (0, "i=45"), (0, "i=%d" % b), "REFERENCETYPE") for a, b in REFTYPES]
        self.server_nodes += [((0, "i=%d" % a), (0, "i=45"), (0, "i=%d" % b), "DATATYPE") for a, b in DATATYPES]
        self.server_nodes += list(nodes)
        self.custom = custom
        self.types = standard(self.m)
        self.records = []
        self.index = {}
        e = self.eng
        e.MAX_STEPS = max(e.MAX_STEPS, 4000000)
        self.global_obj0 = e.global_obj
        e.global_obj = self.global_obj
        self.builtin = {}
        M = e.models
        M["atof"] = self.m_real
        M["strtod"] = M["strtof"] = self.m_real
        M["sscanf"] = M["__isoc99_sscanf"] = self.m_sscanf
        M["UA_DateTime_fromStruct"] = self.m_date
        M["UA_GUID"] = self.m_guid
        M["UA_findDataType"] = self.m_find_type
        M["UA_Variant_setScalar"] = self.m_set_scalar
        M["UA_Variant_setArray"] = self.m_set_array
        M["UA_Variant_clear"] = self.m_variant_clear
        M["UA_Variant_init"] = lambda eng, st, i, a: [(self.zero(st, a[0], "UA_Variant", i), None)]
        M["UA_UInt32_new"] = lambda eng, st, i, a: [(st, eng.new_heap(st, const(4), True, i))]
        M["UA_BrowseDescription_init"] = lambda eng, st, i, a: [(self.zero(st, a[0], "UA_BrowseDescription", i), None)]
        M["UA_BrowseResult_init"] = lambda eng, st, i, a: [(self.zero(st, a[0], "UA_BrowseResult", i), None)]
        M["UA_BrowseResult_clear"] = self.m_browse_clear
        M["UA_StatusCode_isBad"] = lambda eng, st, i, a: self.m_bad(eng, st, i, a, True)
        M["UA_StatusCode_isGood"] = lambda eng, st, i, a: self.m_bad(eng, st, i, a, False)

    # ------------------------------------------------------------ the library
    def zero(self, st, p, struct, inst):
        self.eng.memset(st, p, ZERO, const(self.m.sizeof(struct)), inst)
        return st

    def m_bad(self, eng, st, i, a, want):
        v = eng.norm(st, a[0])
        if v.t:
            return None
        return [(st, const(int(bool(v.c & 0x80000000) == want)))]

    def global_obj(self, name):
        e, m = self.eng, self.m
        if name == "UA_TYPES":
            o = Obj("global", "zero")
            T_ = "UA_DataType"
            sz = m.sizeof(T_)
            o.size = const((m.globals.get(name) or {}).get("size", 400 * sz))

            def put(k, f, v):
                o.cells[k * sz + m.off(T_, f)] = (m.fsize(T_, f), v)
            for t in self.types:
                k = t.index
                put(k, "typeName", e.str_addr(t.name))
                put(k, "memSize", const(t.size))
                put(k, "typeKind", const(KIND.index(t.kind)))
                put(k, "pointerFree", const(int(t.pointer_free)))
                put(k, "overlayable", const(int(t.kind in SIZE)))
                put(k, "membersSize", const(len(t.members)))
                o.cells[k * sz + m.off(T_, "typeId") + 8] = (4, const(t.id))
                if t.enc:
                    o.cells[k * sz + m.off(T_, "binaryEncodingId") + 8] = (4, const(t.enc))
                if t.members:
                    put(k, "members", e.gaddr("UA_members_" + t.name))
            return o
        if name.startswith("UA_members_"):
            t = [t for t in self.types if t.name == name[11:]][0]
            o = Obj("global", "zero")
            M = "UA_DataTypeMember"
            sz = m.sizeof(M)
            o.size = const(sz * len(t.members))
            for k, x in enumerate(t.members):
                for f, v in (("memberName", e.str_addr(x.name)), ("padding", const(x.padding)), ("isArray", const(x.array)),
                             ("isOptional", const(x.optional)), ("memberType", self.type_addr(x.type))):
                    o.cells[k * sz + m.off(M, f)] = (m.fsize(M, f), v)
            return o
        if name.startswith("UA_") and name.endswith("_default"):
            o = self.global_obj0(name)
            o.default = "zero"
            return o
        return self.global_obj0(name)

    def type_addr(self, t):
        return self.eng.gaddr("UA_TYPES") + t.index * self.m.sizeof("UA_DataType")

    def m_real(self, eng, st, i, a):
        eng.check_ptr(st, a[0], "read", i)
        c = self.content(st, a[0])
        if c is not None:
            r = re.match(r"\s*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)", c)
            return [(st, S(eng.mk("float", float(r.group(1)) if r else 0.0)))]
        k = self.key(st, a[0])
        return [(st, eng.param("real:" + "+".join(k[1]) if k and k[0] == "text" else "real:?", ptr=False))]

    def m_sscanf(self, eng, st, i, a):
        for p in a[:2]:
            eng.check_ptr(st, p, "read", i)
        c, f = self.content(st, a[0]), eng.const_str(st, a[1])
        if f is None:
            raise AnalysisError("sscanf with a computed format")
        toks = re.findall(r"%(?:hh|h|ll|l|z)?[diun]|\s+|[^%\s]", f)
        if "".join(toks) != f:
            raise AnalysisError("sscanf with the format %s" % f)
        n, pos, skipped = 0, 0, 0
        size = {"hh": 1, "h": 2, "": 4, "l": 8, "ll": 8, "z": 8}
        k = self.key(st, a[0])
        for t in toks:
            if not t.startswith("%"):
                if c is None:
                    continue
                if t.isspace():
                    while pos < len(c) and c[pos].isspace():
                        pos += 1
                elif pos < len(c) and c[pos] == t:
                    pos += 1
                else:
                    break
                continue
            bits = 8 * size[t[1:-1]]
            if t[-1] == "n":
                v = const(pos)
                if c is None:
                    l = self.m_strlen(eng, st, i, a[:1])[0][1]
                    v = S(eng.fresh("call", label=("sscanf", eng.where(i)), nonneg=True))
                    eng.assume_ge0(st, l - v)
                b, off = eng.check_ptr(st, a[2 + n + skipped], "write", i)
                self.on_range(eng, st, b, off, const(bits // 8), "write", i)
                eng.write_cells(st, b, off, bits // 8, v)
                skipped += 1
                continue
            if c is None:
                v = eng.param("scan%d:%s" % (n, "+".join(k[1]) if k and k[0] == "text" else "?"), ptr=False)
            else:
                r = re.compile(r"[ \t\n\v\f\r]*([+-]?\d+)").match(c, pos)
                if not r:
                    break
                pos = r.end()
                d = r.group(1)
                x = int(d, 8) if t[-1] == "i" and re.match(r"[+-]?0[0-7]+$", d) else int(d)
                x &= (1 << bits) - 1
                v = const(x - (1 << bits) if x >= 1 << (bits - 1) else x)
            b, off = eng.check_ptr(st, a[2 + n + skipped], "write", i)
            self.on_range(eng, st, b, off, const(bits // 8), "write", i)
            eng.write_cells(st, b, off, bits // 8, v)
            n += 1
        return [(st, const(n))]

    def m_date(self, eng, st, i, a):
        b, off = eng.check_ptr(st, a[0], "read", i)
        v = []
        for f in ("year", "month", "day", "hour", "min", "sec", "milliSec", "microSec", "nanoSec"):
            v.append(self.num(st, eng.read_cells(st, b, off + self.m.off("UA_DateTimeStruct", f), 2, "i")))
        return [(st, eng.param("date:" + ",".join(map(str, v)), ptr=False))]

    def m_guid(self, eng, st, i, a):
        p = a[-1]
        eng.check_ptr(st, p, "read", i)
        k = self.canon_text(self.text_of(st, p))
        n = "guid:%s" % (k,)
        v = Chunk(16, [(0, 8, eng.param(n, ptr=False)), (8, 8, eng.param(n + ":high", ptr=False))])
        if len(a) == 2:
            b, off = eng.check_ptr(st, a[0], "write", i)
            eng.write_cells(st, b, off, 16, v)
            return [(st, None)]
        return [(st, v)]

    def m_find_type(self, eng, st, i, a):
        x = self.nid_ptr(st, a[0], i)
        if not self.known_nid(x):
            raise AnalysisError("data type with the id %s" % (x,))
        for t in self.types:
            if x == (0, "i=%d" % t.id):
                return [(st, self.type_addr(t))]
        return [(st, ZERO)]

    def put(self, st, p, struct, inst, **fields):
        eng = self.eng
        b, off = eng.check_ptr(st, p, "write", inst)
        for f, v in fields.items():
            eng.write_cells(st, b, off + self.m.off(struct, f), self.m.fsize(struct, f), v)

    def m_set_scalar(self, eng, st, i, a):
        self.zero(st, a[0], "UA_Variant", i)
        self.put(st, a[0], "UA_Variant", i, type=eng.norm(st, a[2]), data=eng.norm(st, a[1]))
        return [(st, None)]

    def m_set_array(self, eng, st, i, a):
        self.zero(st, a[0], "UA_Variant", i)
        self.put(st, a[0], "UA_Variant", i, type=eng.norm(st, a[3]), data=eng.norm(st, a[1]), arrayLength=eng.norm(st, a[2]))
        return [(st, None)]

    def member(self, st, b, off, struct, f, ty="i"):
        return self.eng.norm(st, self.eng.read_cells(st, b, off + self.m.off(struct, f), self.m.fsize(struct, f), ty))

    # ------------------------------------------------------------ types and values
    def type_at(self, st, v, depth=0):
        """the description v points to: Type | None | UNK"""
        e, m = self.eng, self.m
        v = e.norm(st, v)
        if not isinstance(v, Lin):
            return UNK
        if not v.t:
            return None if v.c == 0 else UNK
        b, off = e.resolve(st, v)
        if b is None or not isinstance(off, int):
            return UNK
        y = e.syms[b]
        if y.kind == "global" and y.key[0] == "UA_TYPES":
            sz = m.sizeof("UA_DataType")
            for t in self.types:
                if t.index * sz == off:
                    return t
            return "UA_TYPES[%d]" % (off // sz)
        if b in st.freed:
            return "released"
        if depth > 8:
            return UNK
        D = "UA_DataType"
        kind = self.num(st, self.member(st, b, off, D, "typeKind"))
        size = self.num(st, self.member(st, b, off, D, "memSize"))
        if not isinstance(kind, int) or not isinstance(size, int) or not 0 <= (kind & 255) < len(KIND):
            return UNK
        t = Type(None, self.nid_at(st, b, off + m.off(D, "typeId")), KIND[kind & 255], size & 0xffff)
        t.name = self.key(st, self.member(st, b, off, D, "typeName", "p")) or UNK
        t.enc = self.nid_at(st, b, off + m.off(D, "binaryEncodingId"))
        t.flags = {f: self.num(st, self.member(st, b, off, D, f)) for f in ("pointerFree", "overlayable")}
        n = self.num(st, self.member(st, b, off, D, "membersSize"))
        p = self.member(st, b, off, D, "members", "p")
        t.members = self.members_at(st, p, n & 255 if isinstance(n, int) else n, depth)
        t.own = (b, off)
        return t

    def members_at(self, st, p, n, depth):
        e, m = self.eng, self.m
        if not isinstance(n, int):
            return UNK
        if not n:
            return []
        b, off = e.resolve(st, p)
        if b is None or not isinstance(off, int) or not p.t:
            return UNK
        if b in st.freed:
            return "released"
        M, l = "UA_DataTypeMember", []
        for k in range(n):
            o = off + k * m.sizeof(M)
            x = Member(self.key(st, self.member(st, b, o, M, "memberName", "p")) or UNK,
                       self.type_at(st, self.member(st, b, o, M, "memberType", "p"), depth + 1))
            for f, a in (("padding", "padding"), ("isArray", "array"), ("isOptional", "optional")):
                v = self.num(st, self.member(st, b, o, M, f))
                setattr(x, a, v & 255 if isinstance(v, int) else v)
            l.append(x)
        return l

    def canon_text(self, t):
        """("lit", s) where the content is known, otherwise as it is"""
        if t is None:
            return UNK
        if t[0] in ("text", "unterminated"):
            c = self.content_of(("text", t[1]))
            if c is not None:
                return ("lit", c) if t[0] == "text" else ("unterminated", c)
        return t

    def string_at(self, st, b, off):
        """a UA_String: ("lit", s) | ("text", labels) | ("part", ...)"""
        e = self.eng
        n = e.norm(st, e.read_cells(st, b, off, 8, "i"))
        p = e.norm(st, e.read_cells(st, b, off + 8, 8, "p"))
        if not isinstance(n, Lin) or not isinstance(p, Lin):
            return UNK
        if not n.t and n.c == 0:
            return ("lit", "")
        if not p.t:
            return ("length without data",)
        pb, po = e.resolve(st, p)
        if pb in st.freed:
            return ("released",)
        t = self.text_of(st, p)
        y = e.syms[pb] if pb is not None else None
        if t is None and pb is not None and isinstance(po, int) and not n.t and 0 < n.c < 4096:
            s = [self.byte(st, pb, po + k) for k in range(n.c)]
            return ("lit", "".join(s)) if None not in s else UNK
        if t is None:
            return UNK
        if t[0] in ("text", "unterminated", "raw"):
            labels = t[1] if t[0] != "raw" else (t[1],)
            want = ZERO
            for l in labels:
                want = want + self.text_len(self.texts[l])
            if e.norm(st, want) != n:
                return ("part", labels, self.num(st, n))
            c = self.content_of(("text", labels))
            return ("lit", c) if c is not None else ("text", tuple(labels))
        c = self.content_of(t)
        if c is not None and not n.t:
            return ("lit", c) if len(c) == n.c else ("part", c, n.c)
        return UNK

    def num(self, st, v):
        r = World.num(self, st, v)
        if r != UNK:
            return r
        e = self.eng
        v = e.norm(st, v)
        s = v.single() if isinstance(v, Lin) else None
        if s is None:
            return UNK
        y = e.syms[s]
        if y.kind == "float":
            return y.key[0]
        if y.kind == "term" and y.key[0] in ("trunc", "fptrunc", "fpext", "zext", "sext", "sitofp", "uitofp", "fptosi", "fptoui"):
            x = self.num(st, y.key[1])
            return UNK if x == UNK else ("%s%s" % (y.key[0], y.key[2]), x)
        return UNK

    @staticmethod
    def canon(v, bits):
        """v as the low bits of something wider"""
        while isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
            r = re.match(r"(?:trunc|zext|sext)(\d+)$", v[0])
            if not r or int(r.group(1)) < bits:
                break
            v = v[1]
        return v

    def scalar_at(self, st, b, off, size, signed):
        v = self.canon(self.num(st, self.eng.read_cells(st, b, off, size, "i")), 8 * size)
        if isinstance(v, int):
            v &= (1 << 8 * size) - 1
            if signed and v >> (8 * size - 1):
                v -= 1 << 8 * size
        return v

    def value_at(self, st, b, off, t, depth=0):
        e, m = self.eng, self.m
        if not isinstance(t, Type) or depth > 8:
            return UNK
        k = t.kind
        if k in ("Float", "Double"):
            v = self.num(st, e.read_cells(st, b, off, SIZE[k], "i"))
            if k == "Float" and isinstance(v, tuple) and v[0].startswith("fptrunc"):
                v = v[1]
            return v
        if k in ("DateTime",):
            return self.num(st, e.read_cells(st, b, off, 8, "i"))
        if k in SIZE:
            return self.scalar_at(st, b, off, SIZE[k], k in SIGNED)
        if k in ("String", "ByteString", "XmlElement"):
            return self.string_at(st, b, off)
        if k == "NodeId":
            return self.nid_at(st, b, off)
        if k == "Guid":
            v = self.num(st, e.read_cells(st, b, off, 8, "i"))
            w = self.num(st, e.read_cells(st, b, off + 8, 8, "i"))
            if v == 0 and w == 0:
                return 0
            return v if isinstance(v, str) and w == v + ":high" else UNK
        if k == "QualifiedName":
            n = self.scalar_at(st, b, off, 2, False)
            return (n, self.string_at(st, b, off + m.off("UA_QualifiedName", "name")))
        if k == "LocalizedText":
            return tuple(self.string_at(st, b, off + m.off("UA_LocalizedText", f)) for f in ("locale", "text"))
        if k == "Structure" and isinstance(t.members, (list, tuple)):
            out = []
            for x in t.members:
                off += x.padding
                if x.array:
                    out.append((x.name if isinstance(x.name, str) else x.name[1], self.array_at(st, b, off, x.type, depth)))
                    off += 16
                else:
                    out.append((x.name if isinstance(x.name, str) else x.name[1], self.value_at(st, b, off, x.type, depth + 1)))
                    off += x.type.size if isinstance(x.type, Type) else 0
            return dict(out)
        if k == "Union":
            s = self.scalar_at(st, b, off, 4, False)
            if s == 0:
                return (0, None)
            if not isinstance(s, int) or not isinstance(t.members, (list, tuple)) or s > len(t.members):
                return UNK
            x = t.members[s - 1]
            return (s, self.array_at(st, b, off + x.padding, x.type, depth) if x.array else
                    self.value_at(st, b, off + x.padding, x.type, depth + 1))
        raw = [self.num(st, e.read_cells(st, b, off + j, 8, "i")) for j in range(0, t.size, 8)] if t.size % 8 == 0 else [UNK]
        return "empty" if all(x == 0 for x in raw) else UNK

    def array_at(self, st, b, off, t, depth=0):
        e = self.eng
        n = self.num(st, e.read_cells(st, b, off, 8, "i"))
        p = e.norm(st, e.read_cells(st, b, off + 8, 8, "p"))
        if not isinstance(n, int) or not isinstance(p, Lin):
            return UNK
        if not n:
            return []
        pb, po = e.resolve(st, p)
        if pb is None or not p.t:
            return "no elements"
        if pb in st.freed:
            return "released"
        if not isinstance(t, Type):
            return UNK
        return [self.value_at(st, pb, po + j * t.size, t, depth + 1) for j in range(n)]

    def variant_at(self, st, b, off):
        """None | (type, value) | (type, [values])"""
        V = "UA_Variant"
        tp = self.member(st, b, off, V, "type", "p")
        t = self.type_at(st, tp)
        if t is None:
            return None
        if not isinstance(t, Type):
            return UNK
        p = self.member(st, b, off, V, "data", "p")
        n = self.num(st, self.member(st, b, off, V, "arrayLength"))
        if not isinstance(n, int) or not isinstance(p, Lin):
            return UNK
        if not p.t:
            return (t, [] if not n else "no elements")
        pb, po = self.eng.resolve(st, p)
        if pb is None:
            return UNK
        if pb in st.freed:
            return (t, "released")
        if n:
            return (t, [self.value_at(st, pb, po + j * t.size, t) for j in range(n)])
        return (t, self.value_at(st, pb, po, t))

    def clear(self, st, b, off, t, inst, depth=0):
        """releases what a value of the type owns"""
        e, m = self.eng, self.m
        if not isinstance(t, Type):
            raise AnalysisError("value of an undetermined type is released")
        k = t.kind

        def release(o):
            p = e.norm(st, e.read_cells(st, b, o, 8, "p"))
            if isinstance(p, Lin) and p.t:
                e.do_free(st, p, inst)
            e.write_cells(st, b, o - 8, 8, ZERO)
            e.write_cells(st, b, o, 8, ZERO)
        if k in ("String", "ByteString", "XmlElement"):
            release(off + 8)
        elif k == "NodeId":
            v = e.norm(st, e.read_cells(st, b, off + 16, 8, "p"))
            if isinstance(v, Lin) and v.t:
                e.do_free(st, v, inst)
        elif k == "QualifiedName":
            release(off + m.off("UA_QualifiedName", "name") + 8)
        elif k == "LocalizedText":
            release(off + 8)
            release(off + 24)
        elif k == "Structure":
            for x in t.members:
                off += x.padding
                if x.array:
                    self.clear_array(st, b, off, x.type, inst, depth)
                    off += 16
                else:
                    self.clear(st, b, off, x.type, inst, depth + 1)
                    off += x.type.size
        elif k == "Union":
            s = self.scalar_at(st, b, off, 4, False)
            if isinstance(s, int) and 0 < s <= len(t.members):
                x = t.members[s - 1]
                if x.array:
                    self.clear_array(st, b, off + x.padding, x.type, inst, depth)
                else:
                    self.clear(st, b, off + x.padding, x.type, inst, depth + 1)

    def clear_array(self, st, b, off, t, inst, depth):
        e = self.eng
        n = self.num(st, e.read_cells(st, b, off, 8, "i"))
        p = e.norm(st, e.read_cells(st, b, off + 8, 8, "p"))
        if not isinstance(n, int) or not isinstance(p, Lin) or not 0 <= n <= 300:
            st.ghost["unreleased"] = ONE       # what it holds is not followed any further
            return
        if p.t:
            pb, po = e.resolve(st, p)
            for j in range(n):
                self.clear(st, pb, po + j * t.size, t, inst, depth + 1)
            e.do_free(st, p, inst)

    def m_variant_clear(self, eng, st, i, a):
        b, off = eng.check_ptr(st, a[0], "write", i)
        V = "UA_Variant"
        tp = self.member(st, b, off, V, "type", "p")
        if tp.t:
            t = self.type_at(st, tp)
            p = self.member(st, b, off, V, "data", "p")
            n = self.num(st, self.member(st, b, off, V, "arrayLength"))
            sto = self.num(st, self.member(st, b, off, V, "storageType"))
            if not isinstance(p, Lin) or not isinstance(n, int):
                st.ghost["unreleased"] = ONE
            elif p.t and sto == 0:
                pb, po = eng.check_ptr(st, p, "read", i)
                for j in range(n or 1):
                    self.clear(st, pb, po + j * t.size, t, i)
                eng.do_free(st, p, i)
            d = self.member(st, b, off, V, "arrayDimensions", "p")
            if isinstance(d, Lin) and d.t and sto == 0:
                eng.do_free(st, d, i)
        self.zero(st, a[0], V, i)
        return [(st, None)]

    # ------------------------------------------------------------ reading structs
    def _snap(self, st, b, off, struct, path, out):
        e, m = self.eng, self.m
        if struct in ("UA_String", "UA_ByteString"):
            out[path[:-1]] = self.string_at(st, b, off)
            return
        if struct == "UA_Variant":
            out[path[:-1]] = self.variant_at(st, b, off)
            return
        if struct == "UA_NodeId":
            out[path[:-1]] = self.nid_at(st, b, off)
            return
        if not struct.startswith("UA_"):
            return Bounds._snap(self, st, b, off, struct, path, out)
        for x in m.structs[struct]["members"]:
            o, p, t = off + x["off"], path + x["name"], x["type"]
            if x["name"] == "arrayDimensions":
                n = self.num(st, self.member(st, b, off, struct, "arrayDimensionsSize"))
                q = self.member(st, b, off, struct, "arrayDimensions", "p")
                out[p] = self.dims(st, q, n)
            elif x["kind"] == "struct" or t in ("UA_String", "UA_ByteString", "UA_NodeId", "UA_Variant", "UA_LocalizedText"):
                self._snap(st, b, o, t, p + ".", out)
            elif x["kind"] == "ptr":
                out[p] = self.ptr_name(st, e.read_cells(st, b, o, 8, "p"))
            else:
                v = self.canon(self.num(st, e.read_cells(st, b, o, x["size"], "i")), 8 * x["size"])
                if isinstance(v, int) and t in ("UA_Byte", "UA_UInt16", "UA_UInt32", "UA_Boolean"):
                    v &= (1 << 8 * x["size"]) - 1
                out[p] = v

    def dims(self, st, p, n):
        e = self.eng
        if not isinstance(n, int) or not isinstance(p, Lin):
            return UNK
        if not n:
            return []
        b, off = e.resolve(st, p)
        if b is None or not p.t:
            return "no elements"
        if b in st.freed:
            return "released"
        y = e.syms[b]
        if y.kind == "alloca" and b not in st.mem:
            return "dead"
        o = st.mem.get(b)
        if o is not None and getattr(o, "dead", False):
            return "dead"
        for k in range(n):
            self.on_range(e, st, b, off + 4 * k, const(4), "read", None)
        return [self.scalar_at(st, b, off + 4 * k, 4, False) for k in range(n)]

    def read(self, st, p, struct, inst):
        b, off = self.eng.check_ptr(st, p, "read", inst)
        out = {}
        self._snap(st, b, off or 0, struct, "", out)
        return out[""] if "" in out else out

    def qname(self, st, p, inst):
        b, off = self.eng.check_ptr(st, p, "read", inst)
        n = self.num(st, self.eng.read_cells(st, b, off, 2, "i"))
        return (n & 0xffff if isinstance(n, int) else n, self.string_at(st, b, off + self.m.off("UA_QualifiedName", "name")))

    # ------------------------------------------------------------ the server
    def record(self, st, d):
        k = repr(sorted((a, repr(b)) for a, b in d.items()))
        if k not in self.index:
            self.index[k] = len(self.records)
            self.records.append(d)
        self.gadd(st, "srv", const(self.index[k]))

    def log_of(self, st):
        """what the server was asked to do, in order"""
        return [self.records[r[0].c] for r in self.g(st, "srv")]

    def server(self, st, v, inst):
        v = self.eng.norm(st, v)
        s = v.single() if isinstance(v, Lin) else None
        if s is None or self.eng.syms[s].key[:1] != ("server",):
            self.report("server", st, inst, "a function of the server is called for something else")

    def c_UA_Server_getConfig(self, eng, st, inst, args):
        self.server(st, args[0], inst)
        return [(st, st.ghost["config"])]

    def c_UA_Server_addNamespace(self, eng, st, inst, args):
        self.server(st, args[0], inst)
        return self.i_addNamespace(eng, st, inst, args)

    def c_UA_Server_getNamespaceByName(self, eng, st, inst, args):
        raise AnalysisError("UA_Server_getNamespaceByName is called")

    def added(self, st):
        """[(parent, reference, node, class)] of the nodes added so far"""
        return [(d["parent"], d["reference"], d["id"], d["class"]) for d in self.log_of(st) if d["op"] == "add" and d["ok"]]

    def c_UA_Server_browse(self, eng, st, inst, args):
        if len(args) != 4:
            raise AnalysisError("signature of UA_Server_browse")
        out, srv, mx, bd = args
        self.server(st, srv, inst)
        B, R, D = "UA_BrowseDescription", "UA_BrowseResult", "UA_ReferenceDescription"
        q = self.read(st, bd, B, inst)
        start, rt, mask = q["nodeId"], q["referenceTypeId"], q["nodeClassMask"]
        direction, sub = q["browseDirection"], q["includeSubtypes"]
        if not self.known_nid(start) or not self.known_nid(rt) or not isinstance(mask, int) or not isinstance(direction, int):
            raise AnalysisError("browse of an undetermined node")
        if rt not in (None, (0, "i=45")):
            raise AnalysisError("browse of references of the type %s" % show(rt))
        hits = []
        edges = self.server_nodes + self.added(st)
        cls = {n: c for _, _, n, c in edges}
        cls.update({(0, "i=24"): "DATATYPE", (0, "i=31"): "REFERENCETYPE"})
        for a, t, b, c in edges:
            if rt is not None and t != rt:
                continue
            if direction in (0, 2) and a == start:
                hits.append((t, 1, b))
            if direction in (1, 2) and b == start:
                hits.append((t, 0, a))
        hits = [h for h in hits if not mask or CLSBIT.get(cls.get(h[2]), 0) & mask]
        self.zero(st, out, R, inst)
        known = start in cls
        if not known:
            self.put(st, out, R, inst, statusCode=const(-0x7fcc0000))
            return [(st, None)]
        mx = eng.norm(st, mx)
        if mx.t:
            raise AnalysisError("browse with an undetermined number of references")
        more = mx.c and len(hits) > mx.c
        if more:
            hits = hits[:mx.c]
        if hits:
            p = eng.new_heap(st, const(len(hits) * self.m.sizeof(D)), True, inst)
            b = p.single()
            for k, (t, fwd, n) in enumerate(hits):
                o = k * self.m.sizeof(D)
                eng.write_cells(st, b, o + self.m.off(D, "isForward"), 1, const(fwd))
                if n is not None and self.known_nid(n):
                    nid_write(eng, st, p + o + self.m.off(D, "nodeId"), self.nid_vals(eng, st, n[1], const(n[0]), inst), inst)
                nid_write(eng, st, p + o + self.m.off(D, "referenceTypeId"), self.nid_vals(eng, st, t[1], const(t[0]), inst) if t else (
                    ZERO, ZERO, ZERO, ZERO), inst)
            self.put(st, out, R, inst, references=p, referencesSize=const(len(hits)))
        if more:
            t = fresh_token(eng, st, inst, ("continuation point", eng.where(inst)))
            b, off = eng.resolve(st, out)
            o = off + self.m.off(R, "continuationPoint")
            eng.write_cells(st, b, o, 8, const(4))
            eng.write_cells(st, b, o + 8, 8, t)
        return [(st, None)]

    def m_browse_clear(self, eng, st, i, a):
        R, D = "UA_BrowseResult", "UA_ReferenceDescription"
        b, off = eng.check_ptr(st, a[0], "write", i)
        p = self.member(st, b, off, R, "references", "p")
        n = self.num(st, self.member(st, b, off, R, "referencesSize"))
        if not isinstance(n, int):
            raise AnalysisError("undetermined browse result is released")
        if p.t:
            pb, po = eng.check_ptr(st, p, "read", i)
            for k in range(n):
                for f in ("nodeId", "referenceTypeId"):
                    v = eng.norm(st, eng.read_cells(st, pb, po + k * self.m.sizeof(D) + self.m.off(D, f) + 16, 8, "p"))
                    if isinstance(v, Lin) and v.t:
                        eng.do_free(st, v, i)
            eng.do_free(st, p, i)
        v = eng.norm(st, eng.read_cells(st, b, off + self.m.off(R, "continuationPoint") + 8, 8, "p"))
        if isinstance(v, Lin) and v.t:
            eng.do_free(st, v, i)
        self.zero(st, a[0], R, i)
        return [(st, None)]

    def add(self, eng, st, inst, cls, args, attr, typedef=None, out=ZERO, complete=True):
        """args: id, parent, reference type, browse name; attr: (pointer, struct)"""
        d = {"op": "add", "class": cls}
        d["id"], d["parent"], d["reference"] = (self.nid_ptr(st, p, inst) for p in args[:3])
        d["browseName"] = self.qname(st, args[3], inst)
        d["typedef"] = self.nid_ptr(st, typedef, inst) if typedef is not None else None
        d["attributes"] = self.read(st, attr[0], attr[1], inst) if attr[1] else UNK
        d["struct"] = attr[1]
        d["context"] = self.ptr_name(st, attr[2])
        n = sum(x["op"] == "add" and x["id"] == d["id"] for x in self.log_of(st))
        bad = n < self.fails.get(d["id"], 0)
        if self.strict and d["parent"] is not None:
            if undecided(d["parent"]):
                raise AnalysisError("undetermined parent")
            bad = bad or d["parent"] not in self.strict and d["parent"] not in [x[2] for x in self.server_nodes + self.added(st)]
        d["complete"] = complete
        d["ok"] = not bad
        d["at"] = (eng.where(inst), st.stack[-1].fn.src)
        self.record(st, d)
        out = eng.norm(st, out)
        if out.t and not bad:
            m_nid_copy(eng, st, inst, [args[0], out])
        return [(st, const(-0x80000000 if bad else 0))]

    def c_UA_Server_addNode_begin(self, eng, st, inst, args):
        self.server(st, args[0], inst)
        c = eng.norm(st, args[1])
        if c.t:
            raise AnalysisError("undetermined node class")
        b, off = eng.resolve(st, args[8])
        k = off // self.m.sizeof("UA_DataType") if isinstance(off, int) and b is not None and eng.syms[b].key[0] == "UA_TYPES" else None
        return self.add(eng, st, inst, NODECLASS.get(c.c, "class %d" % c.c), args[2:6], (args[7], ATTRS.get(k), args[9]), args[6], args[10],
                        complete=False)

    def plain_add(cls, struct):
        def f(self, eng, st, inst, args):
            self.server(st, args[0], inst)
            return self.add(eng, st, inst, cls, args[1:5], (args[5], struct, args[6]), None, args[7])
        return f

    def typed_add(cls, struct):
        def f(self, eng, st, inst, args):
            self.server(st, args[0], inst)
            return self.add(eng, st, inst, cls, args[1:5], (args[6], struct, args[7]), args[5], args[8])
        return f
    c_UA_Server_addViewNode = plain_add("VIEW", "UA_ViewAttributes")
    c_UA_Server_addObjectTypeNode = plain_add("OBJECTTYPE", "UA_ObjectTypeAttributes")
    c_UA_Server_addReferenceTypeNode = plain_add("REFERENCETYPE", "UA_ReferenceTypeAttributes")
    c_UA_Server_addDataTypeNode = plain_add("DATATYPE", "UA_DataTypeAttributes")
    c_UA_Server_addObjectNode = typed_add("OBJECT", "UA_ObjectAttributes")
    c_UA_Server_addVariableNode = typed_add("VARIABLE", "UA_VariableAttributes")
    c_UA_Server_addVariableTypeNode = typed_add("VARIABLETYPE", "UA_VariableTypeAttributes")

    def c_UA_Server_addMethodNode(self, eng, st, inst, args):
        self.server(st, args[0], inst)
        return self.add(eng, st, inst, "METHOD", args[1:5], (args[5], "UA_MethodAttributes", args[11]), None, args[12])

    def c_UA_Server_addNode_finish(self, eng, st, inst, args):
        self.server(st, args[0], inst)
        self.record(st, {"op": "finish", "id": self.nid_ptr(st, args[1], inst)})
        return [(st, ZERO)]

    def c_UA_Server_addReference(self, eng, st, inst, args):
        self.server(st, args[0], inst)
        f = eng.norm(st, args[4])
        self.record(st, {"op": "ref", "source": self.nid_ptr(st, args[1], inst), "type": self.nid_ptr(st, args[2], inst),
                         "target": self.nid_ptr(st, args[3], inst), "forward": f.c & 1 if not f.t else UNK,
                         "rest": self.read(st, args[3], "UA_ExpandedNodeId", inst), "at": (eng.where(inst), st.stack[-1].fn.src)})
        return [(st, ZERO)]

    def i_ualog(self, eng, st, inst, args):
        if self.ptr_name(st, args[0]) != "ua-log-context":
            self.report("logger", st, inst, "the server's logger is called with another context")
        self.gadd(st, "log", *[eng.norm(st, x) if isinstance(x, Lin) else ZERO for x in (args[1], args[0], args[2], args[3])])
        return [(st, None)]

    # ------------------------------------------------------------ driving
    def start_state(self, custom=ZERO):
        st = self.base_state()
        e = self.eng
        lg = self.iface(st, "ua-logger", "UA_Logger", {"log": e.param("cb:ualog"), "context": e.param("ua-log-context")})
        st.ghost["config"] = self.iface(st, "config", "UA_ServerConfig", {
            "logging": lg, "context": e.param("config-context"), "customDataTypes": custom})
        return st

    def load_file(self, events, states=None, fault=None, path=None, server=None):
        """[(state, result)]"""
        e = self.eng
        self.events, self.fault = events, fault
        if states is None:
            states = [self.start_state()]
        for s in states:
            s.ghost.pop("reads", None)
        ext = lambda s: self.iface(s, "extension-interface", "NodesetLoader_ExtensionInterface", {
            "newExtension": e.param("cb:newExtension"), "start": e.param("cb:start"),
            "end": e.param("cb:end"), "finish": e.param("cb:finish")}) if self.ext else ZERO
        sv = e.param("server", "UA_Server") if server is None else server
        return self.call(states, "NodesetLoader_loadFile", lambda s: [sv, e.param("file-name") if path is None else path, ext(s)])

    def custom_types(self, st):
        """the data types in the configuration: [Type]"""
        e, m = self.eng, self.m
        b, off = e.resolve(st, st.ghost["config"])
        p = self.member(st, b, off, "UA_ServerConfig", "customDataTypes", "p")
        out = []
        A = "UA_DataTypeArray"
        for _ in range(8):
            if not isinstance(p, Lin):
                return UNK
            if not p.t:
                return out
            b, off = e.resolve(st, p)
            if b in st.freed:
                return "released"
            n = self.num(st, self.member(st, b, off, A, "typesSize"))
            t = self.member(st, b, off, A, "types", "p")
            if not isinstance(n, int):
                return UNK
            for k in range(n):
                out.append(self.type_at(st, t + k * m.sizeof("UA_DataType")))
            p = self.member(st, b, off, A, "next", "p")
        return UNK

    def cleanup(self, states):
        def arg(s):
            b, off = self.eng.resolve(s, s.ghost["config"])
            return [self.member(s, b, off, "UA_ServerConfig", "customDataTypes", "p")]
        out = [s for s, _ in self.call(states, "NodesetLoader_cleanupCustomDataTypes", arg)]
        for s in out:
            b, off = self.eng.resolve(s, s.ghost["config"])
            self.eng.write_cells(s, b, off + self.m.off("UA_ServerConfig", "customDataTypes"), 8, ZERO)
        return out

    def left(self, st):
        return sorted({str(lab) for b, lab in st.alloc.items() if b not in st.freed})
