"""The loader as seen from outside.

The abstract interpreter enters the public API (NodesetLoader_new,
NodesetLoader_importFile, ...) and stops at the external boundary: where the
sources register their SAX callbacks with libxml2, the transfer functions of
the registered callbacks are applied to the abstract state for a given shape of
document (element names are fixed, all texts and their lengths are symbolic
unless the shape gives them a meaning).  Reference service, extension
interface, logger and namespace callback are abstract as well; their answers
belong to the shape, the calls made to them are recorded.  What the program
hands out afterwards (the nodes given to the caller's callback) is read back
from the abstract memory as values over the document's texts, so a check can
state which text has to end up in which member, for every text."""
from .ir import FrontendError
from .lin import Lin, ZERO, ONE, const, S
from .core import Infeasible, Chunk, Obj, Frame, State, AnalysisError
from .own import Own
from . import spec
from .models import nid_write, fresh_token, mul, m_nid_print

UNK = "?"


class T:
    """a text of the document: label, and optionally its content"""

    def __init__(self, label, content=None, pieces=1):
        self.label = label
        self.content = content
        self.pieces = pieces

    def __repr__(self):
        return "T(%s)" % self.label


def St(name, *attrs):
    """start of an element; attrs: (name, T)"""
    return ("S", name, attrs)


def En(name):
    return ("E", name)


def Ch(t):
    return ("C", t)


def El(name, attrs=(), *content):
    """a whole element; content: T or nested event lists"""
    out = [("S", name, tuple(attrs))]
    for c in content:
        if isinstance(c, T):
            out.append(("C", c))
        elif isinstance(c, list):
            out += c
        else:
            out.append(c)
    out.append(("E", name))
    return out


class World(Own):
    """client of the engine; see the module text"""
    own_checks = False
    ptypes = {("NL_ReferenceService", "context"): "InternalRefService"}

    def __init__(self, ctx, report=None, kinds=None, ext=True, ns_index=None, own=False, internal_refs=False,
                 logger=True, unroll=None, real_sort=False):
        Own.__init__(self, ctx.mod, spec.ownership(ctx.mod) if own else {}, report or (lambda *a: None))
        self.own_checks = own
        self.check_leaks = own
        self.ctx = ctx
        self.downcast = spec.downcast(ctx.mod)
        self.kinds = kinds or {}
        self.ext = ext
        self.logger = logger
        self.internal_refs = internal_refs
        self.ns_index = ns_index or {}
        self.texts = {}
        self.events = []
        self.last_write = {}
        self.cur_event = None
        self.real_sort = real_sort
        self.eng = ctx.engine(self, return_limit=400, MAX_STATES=800)
        if unroll:
            self.eng.UNROLL = unroll
        self.eng.deadline = ctx.deadline()
        e = self.eng
        e.parse_fail = False
        e.RECURSION = 80
        for n, bits, signed in (("atoi", 32, 1), ("atol", 64, 1), ("atoll", 64, 1), ("strtol", 64, 1), ("strtoll", 64, 1),
                                ("strtoul", 64, 0), ("strtoull", 64, 0)):
            e.models[n] = lambda eng, st, i, a, bits=bits, signed=signed: self.m_atoi(eng, st, i, a, bits, signed)
        e.models["strchr"] = self.m_strchr
        e.models["UA_NodeId_parse"] = self.m_parse
        e.models["UA_NODEID"] = self.m_nodeid
        e.models["UA_NodeId_equal"] = self.m_nid_equal
        e.models["UA_NodeId_print"] = self.m_print
        e.models["UA_NodeId_order"] = self.m_nid_order
        e.models["UA_NodeId_isNull"] = self.m_nid_isnull
        self.strcmp0 = e.models["strcmp"]
        self.strncmp0 = e.models["strncmp"]
        e.models["strcmp"] = self.m_strcmp
        e.models["strncmp"] = self.m_strncmp
        e.models["strlen"] = self.m_strlen
        e.models["isspace"] = self.m_isspace
        e.models["memchr"] = self.m_memchr
        e.models["strrchr"] = self.m_strrchr
        e.models["strstr"] = self.m_strstr
        for n, inv in (("strspn", False), ("strcspn", True), ("strpbrk", True)):
            e.models[n] = lambda eng, st, i, a, n=n, inv=inv: self.m_span(eng, st, i, a, n, inv)
        e.models["strcasecmp"] = e.models["strncasecmp"] = self.m_nocase
        e.models["memcmp"] = e.models["bcmp"] = self.m_memcmp
        e.models["tolower"] = lambda eng, st, i, a: self.m_case(eng, st, i, a, str.lower)
        e.models["toupper"] = lambda eng, st, i, a: self.m_case(eng, st, i, a, str.upper)
        e.models["__ctype_b_loc"] = self.m_ctype

    # ------------------------------------------------------------ reporting
    def at(self, st, base, off):
        return self.last_write.get((base, off))

    # ------------------------------------------------------------ texts
    def text_sym(self, t):
        self.texts[t.label] = t
        s = self.eng.param("text:" + t.label)
        return s

    def text_len(self, t):
        if t.content is not None:
            return const(len(t.content))
        return self.eng.param("len:" + t.label, ptr=False, nonneg=True)

    def text_of(self, st, v):
        """None | ("null",) | ("lit", s) | ("text", labels) | ("suffix", label, n) | ("raw", ...)"""
        e = self.eng
        v = e.norm(st, v)
        if not isinstance(v, Lin):
            return None
        if not v.t:
            return ("null",) if v.c == 0 else None
        cs = e.const_str(st, v)
        if cs is not None:
            return ("lit", cs)
        base, off = e.resolve(st, v)
        if base is None:
            return None
        y = e.syms[base]
        if y.kind == "param" and y.key[0].startswith("text:"):
            return ("raw", y.key[0][5:])
        o = st.mem.get(base)
        if o is None or o.kind not in ("heap", "arena", "alloca"):
            return None
        if base in st.freed:
            return ("freed",)
        pos = off if isinstance(off, Lin) else const(off)
        start = pos
        labels = []
        guard = 0
        sufx = None
        if isinstance(off, int) and off > 0:
            # inside a single text with known content
            for d, n, src in reversed(o.spans):
                if not d.t and d.c == 0:
                    sufx = off
                    pos = ZERO
                    break
        while guard < 2000:
            guard += 1
            hit = None
            for d, n, src in reversed(o.spans):
                if e.norm(st, d - pos) == ZERO:
                    hit = (d, n, src)
                    break
            if hit is None:
                break
            n = e.norm(st, hit[1])
            sb, so = e.resolve(st, hit[2])
            if sb is None:
                return None
            ys = e.syms[sb]
            if so != 0:
                # a copy of the end of a text
                src = self.text_of(st, hit[2])
                if src and src[0] == "suffix" and not labels and pos == start and \
                        n == e.norm(st, self.text_len(self.texts[src[1]]) - src[2]) and \
                        self.ends(st, o, e.norm(st, pos + n)):
                    return src
                return None
            if ys.kind == "param" and ys.key[0].startswith("text:"):
                lab = ys.key[0][5:]
                if n != e.norm(st, self.text_len(self.texts[lab])):
                    return ("cut", lab)
                labels.append(lab)
            else:
                sub = self.text_of(st, hit[2])
                if not sub or sub[0] not in ("text",):
                    return None
                total = ZERO
                for l in sub[1]:
                    total = total + self.text_len(self.texts[l])
                total = e.norm(st, total)
                if n != total:
                    if e.entails_ge(st, n - total - 1):
                        # with its terminator
                        return ("text", tuple(labels + list(sub[1])))
                    return ("cut", sub[1][0]) if e.entails_ge(st, total - n - 1) else None
                labels += list(sub[1])
            pos = e.norm(st, pos + n)
        if not labels:
            # explicit bytes
            s = self.bytes_of(st, base, off)
            return ("lit", s) if s is not None else None
        # terminator
        k = pos.c if not pos.t else pos
        lo = start.c if not start.t else None
        if any(isinstance(j, int) and lo is not None and j >= lo and j != k and (not isinstance(k, int) or j < k)
               for j in o.cells):
            # stored into afterwards
            c = self.chars(st, base, off)
            return ("lit", c) if c is not None else None
        if k in o.cells:
            tz = e.norm(st, o.cells[k][1]) == ZERO
        else:
            tz = o.default == "zero" and (o.size is None or e.entails_ge(st, o.size - pos - 1))
            if o.default == "zero" and not tz:
                return ("unterminated", tuple(labels))
        if not tz:
            return ("unterminated", tuple(labels)) if o.default == "uninit" else None
        if sufx:
            return ("suffix", labels[0], sufx) if len(labels) == 1 else None
        return ("text", tuple(labels))

    def ends(self, st, o, pos):
        """is the text of the object terminated at the position"""
        e = self.eng
        k = pos.c if not pos.t else pos
        if k in o.cells:
            return e.norm(st, o.cells[k][1]) == ZERO
        return o.default == "zero" and (o.size is None or e.entails_ge(st, o.size - pos - 1))

    def bytes_of(self, st, base, off):
        e = self.eng
        c = self.chars(st, base, off)
        if c is not None:
            return c
        o = st.mem.get(base)
        if o is None or not isinstance(off, int) or o.spans:
            return None
        out = []
        for k in range(off, off + 256):
            c = o.cells.get(k)
            if c is None:
                if o.default == "zero":
                    if any(isinstance(j, int) and j < k < j + s for j, (s, _) in o.cells.items()):
                        return None
                    return "".join(out)
                return None
            v = e.norm(st, c[1])
            if c[0] != 1 or not isinstance(v, Lin) or v.t:
                return None
            if v.c == 0:
                return "".join(out)
            out.append(chr(v.c & 255))
        return None

    def content(self, st, v):
        """the known content of a text, or None"""
        c = self.content_of(self.text_of(st, v))
        if c is None:
            v = self.eng.norm(st, v)
            if isinstance(v, Lin) and v.t:
                b, off = self.eng.resolve(st, v)
                if b is not None and b not in st.freed:
                    c = self.chars(st, b, off)
        return c

    def byte(self, st, base, k, depth=0):
        """the character at a constant offset, or None"""
        e = self.eng
        y = e.syms[base]
        if y.kind == "param" and y.key[0].startswith("text:"):
            t = self.texts[y.key[0][5:]]
            return t.content[k] if t.content is not None and 0 <= k < len(t.content) else None
        if y.kind == "global":
            c = e.const_str(st, S(base))
            return (c + "\0")[k] if c is not None and 0 <= k <= len(c) else None
        o = st.mem.get(base)
        if o is None or o.kind not in ("heap", "arena", "alloca"):
            return None
        if isinstance(o.size, Lin) and not o.size.t and not 0 <= k < o.size.c:
            return None
        c = o.cells.get(k)
        if c is not None:
            v = e.norm(st, c[1])
            return chr(v.c & 255) if c[0] == 1 and isinstance(v, Lin) and not v.t else None
        for j, (s, v) in o.cells.items():
            if not isinstance(j, int):
                return None
            if j < k < j + s:
                v = e.norm(st, v)
                return chr((v.c >> 8 * (k - j)) & 255) if isinstance(v, Lin) and not v.t else None
        for d, n, src in reversed(o.spans):
            d, n = e.norm(st, d), e.norm(st, n)
            if d.t or n.t:
                return None
            if d.c <= k < d.c + n.c:
                b, so = e.resolve(st, src)
                if b is None or not isinstance(so, int) or depth > 8:
                    return None
                return self.byte(st, b, so + k - d.c, depth + 1)
        return "\0" if o.default == "zero" else None

    def chars(self, st, base, off):
        """the terminated text at a constant offset, if all of it is known"""
        if not isinstance(off, int):
            return None
        out = ""
        for k in range(off, off + 4096):
            c = self.byte(st, base, k)
            if c is None:
                return None
            if c == "\0":
                return out
            out += c
        return None

    def content_of(self, t):
        if not t:
            return None
        if t[0] == "lit":
            return t[1]
        if t[0] == "text":
            out = ""
            for l in t[1]:
                c = self.texts[l].content
                if c is None:
                    return None
                out += c
            return out
        if t[0] == "suffix":
            c = self.texts[t[1]].content
            return c[t[2]:] if c is not None else None
        return None

    def key(self, st, v):
        """identity of a text: its content when known, its provenance otherwise"""
        t = self.text_of(st, v)
        c = self.content(st, v)
        if c is not None:
            return ("lit", c)
        return t

    # models --------------------------------------------------------------
    def m_atoi(self, eng, st, i, a, bits, signed):
        """the number a text starts with; beyond the range of the function's type
        glibc's atoi keeps the low bits, the others saturate"""
        eng.check_ptr(st, a[0], "read", i)
        c = self.content(st, a[0])
        if c is not None and len(a) > 1 and eng.known_0(st, a[1]) and (eng.norm(st, a[2]) == const(16)):
            raise AnalysisError("number to the base 16")
        if c is not None:
            import re
            m = re.match(r"[ \t\n\v\f\r]*([+-]?\d+)", c)
            n = int(m.group(1)) if m else 0
            if bits == 64 or abs(n) >= 1 << 63:
                n = min(max(n, -(1 << 63)), (1 << 63) - 1) if signed else n if abs(n) < 1 << 64 else (1 << 64) - 1
            n &= (1 << bits) - 1
            return [(st, const(n - (1 << bits) if n >= 1 << (bits - 1) else n))]
        k = self.key(st, a[0])
        if k and k[0] == "text":
            return [(st, eng.term("atoi", eng.param("int:" + "+".join(k[1]), ptr=False)))]
        return [(st, eng.term("atoi", eng.norm(st, a[0])))]

    def m_strchr(self, eng, st, i, a):
        return self.m_find(eng, st, i, a, lambda c, ch: c.find(ch) if ch != "\0" else len(c), "strchr")

    def m_strrchr(self, eng, st, i, a):
        return self.m_find(eng, st, i, a, lambda c, ch: c.rfind(ch) if ch != "\0" else len(c), "strrchr")

    def m_memchr(self, eng, st, i, a):
        ch, n = eng.norm(st, a[1]), eng.norm(st, a[2])
        b, off = eng.resolve(st, eng.norm(st, a[0]))
        if b is not None and isinstance(off, int) and not n.t and not ch.t:
            for k in range(n.c):
                c = self.byte(st, b, off + k)
                if c is None:
                    break
                if c == chr(ch.c & 255):
                    return [(st, eng.norm(st, a[0]) + k)]
            else:
                return [(st, ZERO)]
        s2 = st.copy()
        r = eng.term("memchr", eng.norm(st, a[0]), ch, n, ptr=True, nonnull=True)
        return [(st, r), (s2, ZERO)]

    def m_find(self, eng, st, i, a, how, name):
        eng.check_ptr(st, a[0], "read", i)
        self.whole(eng, st, a[0], i)
        c = self.content(st, a[0])
        ch = eng.norm(st, a[1])
        if c is not None and not ch.t:
            k = how(c, chr(ch.c & 255))
            return [(st, eng.norm(st, a[0]) + k if k >= 0 else ZERO)]
        s2 = st.copy()
        r = eng.term(name, eng.norm(st, a[0]), ch, ptr=True, nonnull=True)
        return [(st, r), (s2, ZERO)]

    def m_strstr(self, eng, st, i, a):
        for p in a[:2]:
            eng.check_ptr(st, p, "read", i)
        x, y = self.content(st, a[0]), self.content(st, a[1])
        if x is not None and y is not None:
            k = x.find(y)
            return [(st, eng.norm(st, a[0]) + k if k >= 0 else ZERO)]
        s2 = st.copy()
        r = eng.term("strstr", eng.norm(st, a[0]), eng.norm(st, a[1]), ptr=True, nonnull=True)
        return [(st, r), (s2, ZERO)]

    def m_span(self, eng, st, i, a, name, inv):
        for p in a[:2]:
            eng.check_ptr(st, p, "read", i)
        x, y = self.content(st, a[0]), self.content(st, a[1])
        if x is not None and y is not None:
            k = 0
            while k < len(x) and ((x[k] in y) != inv):
                k += 1
            if name == "strpbrk":
                return [(st, eng.norm(st, a[0]) + k if k < len(x) else ZERO)]
            return [(st, const(k))]
        r = eng.term(name, eng.norm(st, a[0]), eng.norm(st, a[1]), **({"ptr": True, "nullable": True}
                                                                       if name == "strpbrk" else {"nonneg": True}))
        return [(st, r)]

    def m_nocase(self, eng, st, i, a):
        for p in a[:2]:
            eng.check_ptr(st, p, "read", i)
        x, y = self.content(st, a[0]), self.content(st, a[1])
        n = eng.norm(st, a[2]) if len(a) > 2 else None
        if x is not None and y is not None and (n is None or not n.t):
            x, y = x.lower(), y.lower()
            if n is not None:
                x, y = x[:n.c], y[:n.c]
            return [(st, const((x > y) - (x < y)))]
        if (x is None) != (y is None) and self.text_of(st, a[0]) and self.text_of(st, a[1]):
            return [(st, ONE)]
        return [(st, S(eng.fresh("call", label=("strcasecmp", eng.where(i)))))]

    def m_memcmp(self, eng, st, i, a):
        for p in a[:2]:
            eng.check_ptr(st, p, "read", i)
        n = eng.norm(st, a[2])
        if not n.t:
            out = []
            for p in a[:2]:
                b, off = eng.resolve(st, eng.norm(st, p))
                s = None
                if b is not None and isinstance(off, int):
                    s = ""
                    for k in range(off, off + n.c):
                        ch = self.byte(st, b, k)
                        if ch is None:
                            s = None
                            break
                        s += ch
                out.append(s)
            x, y = out
            if x is not None and y is not None:
                return [(st, const((x > y) - (x < y)))]
        x, y = self.text_of(st, a[0]), self.text_of(st, a[1])
        if x and y and (self.content_of(x) is None) != (self.content_of(y) is None):
            return [(st, ONE)]
        return [(st, S(eng.fresh("call", label=("memcmp", eng.where(i)))))]

    def m_case(self, eng, st, i, a, f):
        c = eng.norm(st, a[0])
        if not c.t:
            return [(st, const(ord(f(chr(c.c & 255)))))]
        return [(st, eng.term(f.__name__, c))]

    def whole(self, eng, st, p, i):
        """a text whose end is looked for has to be terminated inside its object"""
        t = self.text_of(st, p)
        if t and t[0] == "unterminated":
            n = ZERO
            for l in t[1]:
                n = n + self.text_len(self.texts[l])
            b, off = eng.resolve(st, eng.norm(st, p))
            self.on_range(eng, st, b, off, eng.norm(st, n + 1), "read", i)

    def m_strlen(self, eng, st, i, a):
        eng.check_ptr(st, a[0], "read", i)
        self.whole(eng, st, a[0], i)
        c = self.content(st, a[0])
        if c is not None:
            return [(st, const(len(c)))]
        c = self.text_of(st, a[0])
        if c and c[0] == "lit":
            return [(st, const(len(c[1])))]
        if c and c[0] == "text":
            r = ZERO
            for l in c[1]:
                r = r + self.text_len(self.texts[l])
            return [(st, eng.norm(st, r))]
        return [(st, eng.term("strlen", eng.norm(st, a[0]), nonneg=True))]

    def m_strcmp(self, eng, st, i, a):
        for p in a[:2]:
            eng.check_ptr(st, p, "read", i)
        x, y = self.key(st, a[0]), self.key(st, a[1])
        if x and y and x[0] == "lit" and y[0] == "lit":
            return [(st, const((x[1] > y[1]) - (x[1] < y[1])))]
        if x and y and x == y:
            return [(st, ZERO)]
        if x and y and x[0] in ("text", "suffix") and y[0] in ("text", "suffix"):
            return [(st, ONE)]      # distinct texts of the shape are distinct
        if x and y and {x[0], y[0]} == {"text", "lit"}:
            return [(st, ONE)]      # a free text is none of the literals
        return self.strcmp0(eng, st, i, a)

    def m_strncmp(self, eng, st, i, a):
        for p in a[:2]:
            eng.check_ptr(st, p, "read", i)
        x, y = self.content(st, a[0]), self.content(st, a[1])
        n = eng.norm(st, a[2])
        if x is not None and y is not None and not n.t:
            x, y = x[:n.c], y[:n.c]
            return [(st, const((x > y) - (x < y)))]
        if self.text_of(st, a[0]) and self.text_of(st, a[1]) and (x is None) != (y is None):
            return [(st, ONE)]
        return self.strncmp0(eng, st, i, a)

    def m_isspace(self, eng, st, i, a):
        c = eng.norm(st, a[0])
        if not c.t:
            return [(st, const(int(chr(c.c & 255) in " \t\n\v\f\r")))]
        return [(st, S(eng.fresh("call", label=("isspace", eng.where(i)), boolean=True)))]

    def m_ctype(self, eng, st, i, a):
        p = eng.param("ctype")
        o = Obj("ext", "ext")
        o.cells[0] = (8, eng.param("ctype-table"))
        st.mem[p.single()] = o
        return [(st, p)]

    @staticmethod
    def ctype_flags(c):
        """the entry of the glibc character class table"""
        if not 0 <= c < 128:
            return 0
        ch = chr(c)
        al, dg, sp = ch.isalpha(), ch.isdigit(), ch in " \t\n\v\f\r"
        gr = 33 <= c < 127
        bits = [ch.isupper(), ch.islower(), al, dg, ch in "0123456789abcdefABCDEF", sp, 32 <= c < 127, gr,
                ch in " \t", c < 32 or c == 127, gr and not (al or dg), al or dg]
        r = 0
        for k, b in enumerate(bits):
            if b:
                r |= ((1 << k) << 8) if k < 8 else ((1 << k) >> 8)
        return r if r < 32768 else r - 65536

    def on_load(self, eng, st, base, off, size, v, inst):
        """single characters of a text: known where the content is; a free text
        starts with a letter"""
        Own.on_load(self, eng, st, base, off, size, v, inst)
        if size > 2:
            return None
        y = eng.syms[base]
        if y.kind == "param" and y.key[0] == "ctype-table" and size == 2:
            o = off if isinstance(off, Lin) else const(off)
            if not o.t:
                return const(self.ctype_flags(o.c // 2))
            return None
        if size != 1:
            return None
        if not isinstance(off, int):
            o = st.mem.get(base)
            return self.some_byte(eng, st, base, o, off) if o is not None and o.spans and off not in o.cells else None
        if y.kind == "param" and y.key[0].startswith("text:"):
            t = self.texts[y.key[0][5:]]
            if t.content is not None and 0 <= off < len(t.content):
                return const(ord(t.content[off]))
            return const(ord("T")) if t.content is None and off == 0 else None
        o = st.mem.get(base)
        if o is None or not o.spans or off in o.cells:
            return None
        k = self.text_of(st, S(base))
        c = self.content_of(k)
        if c is not None:
            if 0 <= off < len(c):
                return const(ord(c[off]))
            return ZERO if off == len(c) and k[0] in ("text", "lit") else None
        if k and k[0] in ("text", "unterminated", "cut") and off == 0:
            return const(ord("T"))
        return self.some_byte(eng, st, base, o, off)

    def some_byte(self, eng, st, base, o, off):
        """of a text (or behind it) whose characters or length are not known"""
        at = off if isinstance(off, Lin) else const(off)
        for sp in o.spans:
            if len(sp) < 3:
                break
            if not (eng.entails_ge(st, at - sp[0] - sp[1]) or eng.entails_ge(st, sp[0] - at - 1)):
                break
        else:
            return None
        return S(eng.mk("load", base, eng.offkey(off), 1, ("span", len(o.spans))))

    # NodeIds -------------------------------------------------------------
    @staticmethod
    def split(c):
        """namespace index and identifier of a NodeId in text form"""
        ns = 0
        if c.startswith("ns="):
            h, _, c = c.partition(";")
            ns = int(h[3:])
        return ns, c

    def nid_vals(self, eng, st, ident, ns, inst):
        if ident.startswith("i=") and ident[2:].isdigit():
            return (ns, ZERO, const(int(ident[2:])), ZERO)
        tok = fresh_token(eng, st, inst, ("nodeid", ident, eng.where(inst)))
        v = eng.param("nid:" + ident, ptr=False)
        if ident.startswith("s="):
            # the numeric identifier of the union overlaps the length of the text
            eng.low4[v.single()] = len(ident[2:].encode())
        return (ns, const(3), v, tok)

    def m_parse(self, eng, st, i, a):
        if len(a) == 3:
            data = a[2]
        else:
            data = eng.subvalue(st, a[1], 8, 8, "p")
        k = self.key(st, data)
        if k is None:
            k = ("?", repr(eng.norm(st, data)))
        if k[0] == "lit":
            ns, ident = self.split(k[1])
            if "=" not in ident:
                nid_write(eng, st, a[0], (ZERO, ZERO, ZERO, ZERO), i)
                return [(st, const(-2147483648))]
        else:
            ns, ident = 0, "text:" + "+".join(k[1] if k[0] == "text" else map(str, k))
        nid_write(eng, st, a[0], self.nid_vals(eng, st, ident, const(ns), i), i)
        return [(st, ZERO)]

    def m_nodeid(self, eng, st, i, a):
        cs = eng.const_str(st, a[-1])
        if cs is None:
            raise AnalysisError("UA_NODEID of a computed string")
        ns, ident = self.split(cs)
        v = self.nid_vals(eng, st, ident, const(ns), i)
        if len(a) == 2:
            nid_write(eng, st, a[0], v, i)
            return [(st, None)]
        return [(st, Chunk(24, [(0, 2, v[0]), (4, 4, v[1]), (8, 8, v[2]), (16, 8, v[3])]))]

    def nid_at(self, st, base, off):
        """(ns, ident) | None for the null id | "?" """
        e = self.eng
        r = []
        for o, s in ((0, 2), (4, 4), (8, 8)):
            v = e.read_cells(st, base, off + o, s, "i")
            if isinstance(v, Chunk):
                v = e.subvalue(st, v, 0, 4, "i")
            r.append(e.norm(st, v) if isinstance(v, Lin) else None)
        ns, ty, idn = r
        if ns is None or ty is None or idn is None:
            return UNK
        if not ty.t and ty.c == 0 and not idn.t:
            if idn.c == 0 and not ns.t and ns.c == 0:
                return None
            ident = "i=%d" % (idn.c & 0xffffffff)
        elif idn.single() is not None and e.syms[idn.single()].kind == "param":
            n = e.syms[idn.single()].key[0]
            if not n.startswith("nid:"):
                return UNK
            ident = n[4:]
            tok = e.norm(st, e.read_cells(st, base, off + 16, 8, "p"))
            if isinstance(tok, Lin) and tok.single() in st.freed:
                return ("freed", ident)
        else:
            return UNK
        if not ns.t:
            n = ns.c & 0xffff       # an UInt16, whatever sign it was given
        else:
            y = e.syms[ns.single()] if ns.single() is not None else None
            n = y.key[0] if y and y.kind == "param" else UNK
        return (n, ident)

    def nid_ptr(self, st, p, inst):
        b, off = self.eng.check_ptr(st, p, "read", inst)
        return self.nid_at(st, b, off)

    def m_print(self, eng, st, i, a):
        x = self.nid_ptr(st, a[0], i)
        out = []
        for s, v in m_nid_print(eng, st, i, a):
            b, off = eng.resolve(s, a[1])
            if b is not None:
                d = eng.norm(s, eng.read_cells(s, b, (off or 0) + 8, 8, "p"))
                n = eng.norm(s, eng.read_cells(s, b, off or 0, 8, "i"))
                self.gadd(s, "printed", d, n, x)
            out.append((s, v))
        return out

    def m_nid_equal(self, eng, st, i, a):
        x, y = self.nid_ptr(st, a[0], i), self.nid_ptr(st, a[1], i)
        if self.known_nid(x) and self.known_nid(y):
            return [(st, const(int(x == y)))]
        t = eng.fresh("call", label=("nodeid-equal", eng.where(i)), boolean=True)
        return [(st, S(t))]

    @staticmethod
    def known_nid(x):
        return x is None or (isinstance(x, tuple) and isinstance(x[0], int))

    def m_nid_isnull(self, eng, st, i, a):
        x = self.nid_ptr(st, a[0], i)
        if x != UNK:
            return [(st, const(int(x is None)))]
        return [(st, S(eng.fresh("call", label=("nodeid-null", eng.where(i)), boolean=True)))]

    def m_nid_order(self, eng, st, i, a):
        x, y = self.nid_ptr(st, a[0], i), self.nid_ptr(st, a[1], i)
        if self.known_nid(x) and self.known_nid(y):
            x, y = x or (0, ""), y or (0, "")
            return [(st, const((x > y) - (x < y)))]
        raise AnalysisError("order of unidentified NodeIds")

    # ------------------------------------------------------------ hooks
    def as_span(self, eng, st, base, off):
        """copies of (parts of) a text stay texts"""
        y = eng.syms[base]
        if y.kind == "param":
            return y.key[0].startswith("text:")
        o = st.mem.get(base)
        return o is not None and bool(o.spans)

    def on_open(self, eng, st, v):
        """A branch which the document decides in reality but the analysis does
        not: whatever is found behind it is not reported as a definite
        deviation.  Branches on what the document leaves open (the length of a
        text, the result of a read) are real alternatives."""
        if "open" not in st.ghost and not all(self.input_sym(eng, s) for s in self.leaves(eng, v)):
            st.ghost["open"] = ONE

    def on_ambiguous(self, eng, st, base, off):
        st.ghost["open"] = ONE

    def leaves(self, eng, v, depth=0):
        out = set()
        for s, _ in v.t:
            y = eng.syms[s]
            if y.kind in ("cond", "term") and depth < 12:
                ks = [k for k in y.key if isinstance(k, Lin)]
                if ks:
                    for k in ks:
                        out |= self.leaves(eng, k, depth + 1)
                    continue
            out.add(s)
        return out

    def input_sym(self, eng, s):
        y = eng.syms[s]
        if y.kind == "param":
            return not y.key[0].startswith("nid:")
        return y.kind == "call" and bool(y.label) and y.label[0] in ("fread", "input")

    def on_store(self, eng, st, base, off, size, v, inst):
        if isinstance(off, int):
            self.last_write[(base, off)] = (eng.where(inst), st.stack[-1].fn.src)
        return None

    def on_null(self, eng, st, v, what, inst, base):
        if "open" not in st.ghost:
            self.report("null-dereference", st, inst, "NULL is dereferenced (%s)" % what)

    def on_memcpy(self, eng, st, db, do, sb, so, n, inst):
        if not n.t and isinstance(do, int):
            for k in range(do, do + min(n.c, 64), 8):
                self.last_write[(db, k)] = (eng.where(inst), st.stack[-1].fn.src)

    def g(self, st, k):
        return st.ghost.get(k, ())

    def gadd(self, st, k, *v):
        st.ghost[k] = self.g(st, k) + (tuple(v),)

    def on_call(self, eng, st, inst, name, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h(eng, st, inst, args)
        return Own.on_call(self, eng, st, inst, name, args)

    def c_CharArenaAllocator_malloc(self, eng, st, inst, args):
        p = eng.new_heap(st, eng.norm(st, args[1]), True, inst, kind="arena")
        st.ghost["lastblock"] = p
        return [(st, p)]

    def c_CharArenaAllocator_realloc(self, eng, st, inst, args):
        """extends the block handed out last; the content is kept, the block may move"""
        last = st.ghost.get("lastblock")
        if last is None:
            return [(st, eng.new_heap(st, eng.norm(st, args[1]), True, inst, kind="arena"))]
        b = last.single()
        old = eng.obj(st, b)
        p = eng.new_heap(st, eng.norm(st, old.size + args[1]), True, inst, kind="arena")
        o = st.mem[p.single()]
        o.cells = dict(old.cells)
        o.spans = old.spans
        st.ghost["lastblock"] = p
        return [(st, p)]

    def c_CharArenaAllocator_new(self, eng, st, inst, args):
        p = eng.new_heap(st, const(16), True, inst)
        return [(st, p)]

    def c_CharArenaAllocator_delete(self, eng, st, inst, args):
        eng.check_ptr(st, args[0], "read", inst)
        eng.do_free(st, args[0], inst)
        return [(st, None)]

    def c_Sort_addNode(self, eng, st, inst, args):
        if self.real_sort:
            return None
        node = eng.norm(st, args[1])
        b, off = eng.check_ptr(st, node, "read", inst)
        nid = self.nid_at(st, b, self.m.off("NL_Node", "id"))
        for (n,) in self.g(st, "sorted"):
            b2, _ = eng.resolve(st, n)
            if self.nid_at(st, b2, self.m.off("NL_Node", "id")) == nid:
                return [(st, ZERO)]
        self.gadd(st, "sorted", node)
        return [(st, ONE)]

    def take(self, eng, st, inst, args, cb):
        states = [st]
        nodes = self.g(st, "sorted")
        st.ghost.pop("sorted", None)
        fp = eng.norm(st, args[cb])
        f = eng.syms[fp.single()].key[0] if fp.single() is not None else None
        fn = self.m.fns.get(f)
        if fn is None:
            raise AnalysisError("callback given to the sorting is not a known function")
        for (n,) in nodes:
            nxt = []
            for s in states:
                nxt += [x for x, _ in eng.invoke(s, fn, [args[1], n], inst)]
            states = nxt
        return states

    def c_Sort_start(self, eng, st, inst, args):
        if self.real_sort:
            return None
        return [(s, ONE) for s in self.take(eng, st, inst, args, 2)]

    def c_Sort_handOutRemaining(self, eng, st, inst, args):
        if self.real_sort:
            return None
        return [(s, None) for s in self.take(eng, st, inst, args, 2)]

    fault = None        # "open": the file cannot be opened, "empty", "broken": no XML, "truncated": the document ends early

    def c_fopen(self, eng, st, inst, args):
        if self.fault == "open":
            return [(st, ZERO)]
        r = eng.new_heap(st, None, False, inst)
        st.mem[r.single()].default = "ext"
        return [(st, r)]

    def c_fread(self, eng, st, inst, args):
        k = len(self.g(st, "reads"))
        self.gadd(st, "reads", ONE)
        if k < 2 and self.fault != "empty":
            n = eng.fresh("call", label=("fread", str(k)), nonneg=True)
            eng.assume_ge0(st, S(n) - 1)
            try:
                eng.assume_ge0(st, eng.norm(st, args[2]) - S(n))
            except Infeasible:
                return []
            return [(st, S(n))]
        return [(st, ZERO)]

    def c_xmlParseChunk(self, eng, st, inst, args):
        if self.fault == "broken" or self.fault == "truncated" and not eng.known_0(st, args[3]):
            return [(st, const(4))]
        return [(st, ZERO)]

    def c_xmlFreeParserCtxt(self, eng, st, inst, args):
        eng.do_free(st, args[0], inst)
        return [(st, None)]

    def field(self, st, x, f, size, v):
        """writes a member of the parser context"""
        try:
            self.eng.write_cells(st, x.single(), self.m.off("_xmlParserCtxt", f), size, v)
        except FrontendError:   # the sources do not use its members
            pass

    def c_xmlFreeDoc(self, eng, st, inst, args):
        v = eng.norm(st, args[0])
        if not eng.known_0(st, v):
            eng.do_free(st, v, inst)
        return [(st, None)]

    def c_xmlCtxtUseOptions(self, eng, st, inst, args):
        o = eng.norm(st, args[1])
        if not isinstance(o, Lin) or not o.is_const():
            raise AnalysisError("computed options of the XML parser")
        # XML_PARSE_NOENT
        st.ghost["noent"] = const(o.c >> 1 & 1)
        self.field(st, eng.norm(st, args[0]), "replaceEntities", 4, const(o.c >> 1 & 1))
        return [(st, ZERO)]

    def decoded(self, st):
        """does the parser replace references in attributes?"""
        return True

    def c_xmlCreatePushParserCtxt(self, eng, st, inst, args):
        m = self.m
        hb, ho = eng.resolve(st, args[0])
        fns = {}
        for ev, fld in (("S", "startElementNs"), ("E", "endElementNs"), ("C", "characters")):
            v = eng.norm(st, eng.read_cells(st, hb, ho + m.off("_xmlSAXHandler", fld), 8, "p"))
            y = eng.syms[v.single()] if isinstance(v, Lin) and v.single() is not None else None
            if y is None or y.kind != "fn":
                raise AnalysisError("no %s callback is registered with the XML parser" % fld)
            fns[ev] = m.fns[y.key[0]]
        r = eng.new_heap(st, None, False, inst)
        st.mem[r.single()].default = "ext"
        self.field(st, r, "myDoc", 8, ZERO)
        st.ghost["xctx"] = r
        self.handlers = fns
        states = [st]
        for ev in self.events:
            states = self.apply(eng, states, fns, ev, args[1], inst)
        return [(s, r) for s in states]

    def apply(self, eng, states, fns, ev, user, inst):
        self.cur_event = ev
        out = []
        for s in states:
            try:
                if ev[0] == "S":
                    out += self.start(eng, s, fns["S"], ev, user, inst)
                elif ev[0] == "E":
                    out += [x for x, _ in eng.invoke(s, fns["E"], [user, eng.str_addr(ev[1]), ZERO, ZERO], inst)]
                elif ev[0] == "C":
                    ss = [s]
                    t = ev[1]
                    self.text_sym(t)
                    ss = [x for y in ss for x, _ in eng.invoke(
                        y, fns["C"], [user, self.text_sym(t), self.text_len(t)], inst)]
                    out += ss
            except Infeasible:
                pass
        return out

    def start(self, eng, st, fn, ev, user, inst):
        attrs = ev[2]
        p = ZERO
        if attrs:
            nm = "attributes:" + ",".join("%s=%s" % (a, t.label) for a, t in attrs)
            p = eng.param(nm)
            o = Obj("ext", "ext")
            for k, (a, t) in enumerate(attrs):
                if t.content and "&" in t.content and not self.decoded(st):
                    # what libxml2 leaves of "&amp;" unless it is told to replace references
                    t = T(t.label + "'", t.content.replace("&", "&#38;"))
                tv = self.text_sym(t)
                o.cells[k * 40] = (8, eng.str_addr(a))
                o.cells[k * 40 + 8] = (8, ZERO)
                o.cells[k * 40 + 16] = (8, ZERO)
                o.cells[k * 40 + 24] = (8, tv)
                o.cells[k * 40 + 32] = (8, tv + self.text_len(t))
            o.size = const(40 * len(attrs))
            st.mem[p.single()] = o
        pre = eng.str_addr(ev[3]) if len(ev) > 3 and ev[3] else ZERO
        return [x for x, _ in eng.invoke(st, fn, [user, eng.str_addr(ev[1]), pre, eng.param("xml-namespace"), ZERO, ZERO,
                                                  const(len(attrs)), ZERO, p], inst)]

    def kind(self, st, nid):
        """what the reference service knows; ("late", kind): only after the type
        was announced"""
        k = self.kinds.get(nid, "N")
        if isinstance(k, tuple):
            for rec in self.g(st, "newtypes"):
                b, off = self.eng.resolve(st, rec[0])
                if b is not None and self.nid_at(st, b, self.m.off("NL_Node", "id")) == nid:
                    return k[1]
            return "U"
        return k

    def on_indirect(self, eng, st, inst, field, fp, args):
        s = fp.single()
        y = eng.syms[s] if s is not None else None
        if y is not None and y.kind == "param":
            n = y.key[0]
            h = getattr(self, "i_" + n.split(":")[-1], None)
            if h:
                return h(eng, st, inst, args)
            raise AnalysisError("call through an unexpected pointer %s" % n)
        if field is not None:
            self.unexpected = field
        return None

    # reference service
    def refq(self, eng, st, inst, args, what):
        b, off = eng.check_ptr(st, args[1], "read", inst)
        nid = self.nid_at(st, b, off + self.m.off("NL_Reference", "refType"))
        self.gadd(st, "refq", const({"H": 0, "N": 1, "T": 2}[what]), eng.norm(st, args[0]))
        return nid

    def i_isHierachicalRef(self, eng, st, inst, args):
        k = self.kind(st, self.refq(eng, st, inst, args, "H"))
        return self.answer(eng, st, inst, k, "H")

    def i_isNonHierachicalRef(self, eng, st, inst, args):
        k = self.kind(st, self.refq(eng, st, inst, args, "N"))
        return self.answer(eng, st, inst, k, "NT")

    def i_isHasTypeDefRef(self, eng, st, inst, args):
        k = self.kind(st, self.refq(eng, st, inst, args, "T"))
        return self.answer(eng, st, inst, k, "T")

    def answer(self, eng, st, inst, k, yes):
        return [(st, const(int(k in yes)))]

    def i_addNewReferenceType(self, eng, st, inst, args):
        self.gadd(st, "newtypes", eng.norm(st, args[1]), eng.norm(st, args[0]))
        return [(st, None)]

    def i_log(self, eng, st, inst, args):
        self.gadd(st, "log", eng.norm(st, args[1]), eng.norm(st, args[0]), *[eng.norm(st, x) for x in args[2:]
                                                                              if isinstance(x, Lin)])
        return [(st, None)]

    def i_addNamespace(self, eng, st, inst, args):
        k = len(self.g(st, "namespaces"))
        self.gadd(st, "namespaces", eng.norm(st, args[0]), eng.norm(st, args[1]))
        r = self.ns_index.get(k)
        if r is not None:
            return [(st, const(r))]
        v = eng.param("nsidx:%d" % k, ptr=False, nonneg=True)
        eng.syms[v.single()].sized = 16
        return [(st, v)]

    # extensions
    def i_newExtension(self, eng, st, inst, args):
        k = len(self.g(st, "ext"))
        p = eng.param("extension-data:%d" % k)
        self.gadd(st, "ext", ZERO, p)
        return [(st, p)]

    def i_start(self, eng, st, inst, args):
        self.gadd(st, "ext", ONE, *[eng.norm(st, x) for x in args])
        return [(st, None)]

    def i_end(self, eng, st, inst, args):
        self.gadd(st, "ext", const(2), *[eng.norm(st, x) for x in args])
        return [(st, None)]

    def i_finish(self, eng, st, inst, args):
        self.gadd(st, "ext", const(3), *[eng.norm(st, x) for x in args])
        return [(st, None)]

    def i_foreach(self, eng, st, inst, args):
        self.gadd(st, "seen", *[eng.norm(st, x) for x in args])
        return [(st, None)]

    # ------------------------------------------------------------ driving
    def base_state(self):
        st = State()
        f = self.ctx.fn("NodesetLoader_new")
        st.stack.append(Frame(f, {}, None))
        return st

    def call(self, states, name, argf):
        fn = self.ctx.fn(name)
        out = []
        for st in states:
            a = argf(st)
            try:
                out += self.eng.invoke(st, fn, a, None)
            except Infeasible:
                pass
        return out

    def iface(self, st, name, struct, members):
        """a parameter struct with the given members"""
        e = self.eng
        p = e.param(name, struct)
        o = Obj("ext", "ext")
        for f, v in members.items():
            o.cells[self.m.off(struct, f)] = (self.m.fsize(struct, f), v)
        st.mem[p.single()] = o
        return p

    def new_loader(self):
        e = self.eng
        st = self.base_state()
        lg = ZERO
        if self.logger:
            lg = self.iface(st, "logger", "NodesetLoader_Logger", {
                "context": e.param("logger-context"), "log": e.param("cb:log")})
        rs = ZERO
        if not self.internal_refs:
            rs = self.iface(st, "refservice", "NL_ReferenceService", {
                "context": e.param("refservice-context"),
                "isHierachicalRef": e.param("cb:isHierachicalRef"),
                "isNonHierachicalRef": e.param("cb:isNonHierachicalRef"),
                "isHasTypeDefRef": e.param("cb:isHasTypeDefRef"),
                "addNewReferenceType": e.param("cb:addNewReferenceType")})
        r = self.call([st], "NodesetLoader_new", lambda s: [lg, rs])
        out = []
        for s, v in r:
            s.ghost["loader"] = v
            out.append(s)
        return out

    def file_context(self, st, k=0):
        e = self.eng
        ext = ZERO
        if self.ext:
            ext = self.iface(st, "extension-interface", "NodesetLoader_ExtensionInterface", {
                "newExtension": e.param("cb:newExtension"), "start": e.param("cb:start"),
                "end": e.param("cb:end"), "finish": e.param("cb:finish")})
        return self.iface(st, "file-context:%d" % k, "NL_FileContext", {
            "userContext": e.param("user-context:%d" % k), "file": e.param("file-name"),
            "addNamespace": e.param("cb:addNamespace"), "extensionHandling": ext})

    def load(self, events, states=None, k=0, fault=None):
        """imports one document; returns [(state, result)]"""
        self.events = events
        self.fault = fault
        if states is None:
            states = self.new_loader()
        for s in states:
            s.ghost.pop("reads", None)
        r = self.call(states, "NodesetLoader_importFile",
                      lambda s: [s.ghost["loader"], self.file_context(s, k)])
        return r

    def sort(self, states):
        return self.call(states, "NodesetLoader_sort", lambda s: [s.ghost["loader"]])

    def nodes(self, states):
        """[(state, [(class name, node value)])] as handed to a caller"""
        e = self.eng
        out = states
        E = self.m.enums
        order = sorted((v, k) for k, v in E.items() if k.startswith("NODECLASS_"))
        for s in out:
            s.ghost["seen"] = ()
        for v, k in order:
            nxt = []
            for s in out:
                s.ghost["mark%d" % v] = const(len(s.ghost["seen"]))
            out = [x for x, _ in self.call(out, "NodesetLoader_forEachNode", lambda s: [
                s.ghost["loader"], const(v), e.param("foreach-context"), e.param("cb:foreach")])]
        res = []
        for s in out:
            l = []
            marks = [(s.ghost["mark%d" % v].c, k) for v, k in order]
            for j, rec in enumerate(s.ghost["seen"]):
                cls = [k for c, k in marks if c <= j][-1]
                l.append((cls[len("NODECLASS_"):], rec[1], rec[0]))
            res.append((s, l))
        return res

    def outcome(self, events):
        """import, sort and read back; [(state, [(class, node)])]"""
        r = self.load(events)
        states = [s for s, v in r]
        states = [s for s, v in self.sort(states)]
        return self.nodes(states)

    def delete(self, states):
        return [s for s, _ in self.call(states, "NodesetLoader_delete", lambda s: [s.ghost["loader"]])]

    # ------------------------------------------------------------ reading back
    STRUCT = {"OBJECT": "NL_ObjectNode", "OBJECTTYPE": "NL_ObjectTypeNode", "VARIABLE": "NL_VariableNode",
              "DATATYPE": "NL_DataTypeNode", "METHOD": "NL_MethodNode", "REFERENCETYPE": "NL_ReferenceTypeNode",
              "VARIABLETYPE": "NL_VariableTypeNode", "VIEW": "NL_ViewNode"}

    def snap(self, st, p, struct):
        """member path -> value of the object p points to"""
        e = self.eng
        b, off = e.resolve(st, p)
        if b is None:
            return None
        out = {}
        self._snap(st, b, off or 0, struct, "", out)
        return out

    def _snap(self, st, b, off, struct, path, out):
        e = self.eng
        for m in self.m.structs[struct]["members"]:
            o = off + m["off"]
            p = path + m["name"]
            t = m["type"]
            if t == "UA_NodeId":
                out[p] = self.nid_at(st, b, o)
            elif m["kind"] == "struct" and t in self.m.structs:
                self._snap(st, b, o, t, p + ".", out)
            elif m["kind"] == "ptr" and t in ("char*", "const char*"):
                out[p] = self.text_of(st, e.read_cells(st, b, o, 8, "p")) or UNK
            elif t == "NL_Reference*":
                out[p] = self.refs(st, e.read_cells(st, b, o, 8, "p"))
            elif t == "NL_Value*":
                out[p] = self.value(st, e.read_cells(st, b, o, 8, "p"))
            elif t == "NL_DataTypeDefinition*":
                out[p] = self.definition(st, e.read_cells(st, b, o, 8, "p"))
            elif m["kind"] == "ptr":
                out[p] = self.ptr_name(st, e.read_cells(st, b, o, 8, "p"))
            else:
                out[p] = self.num(st, e.read_cells(st, b, o, m["size"], "i"))
                if m["size"] == 2 and isinstance(out[p], int) and -32768 <= out[p] < 0:
                    # the only members of this size are namespace indices
                    out[p] += 65536

    def ptr_name(self, st, v):
        e = self.eng
        v = e.norm(st, v)
        if not isinstance(v, Lin):
            return UNK
        if not v.t:
            return None if v.c == 0 else UNK
        s = v.single()
        if s is not None and e.syms[s].kind == "param":
            return e.syms[s].key[0]
        return UNK

    def num(self, st, v):
        e = self.eng
        v = e.norm(st, v)
        if isinstance(v, Lin):
            if not v.t:
                return v.c
            s = v.single()
            if s is not None:
                y = e.syms[s]
                if y.kind == "param":
                    return y.key[0]
                if y.kind == "term" and y.key[0] == "atoi" and isinstance(y.key[1], Lin):
                    z = y.key[1].single()
                    if z is not None and e.syms[z].kind == "param":
                        return e.syms[z].key[0]
        return UNK

    def refs(self, st, v):
        e, m = self.eng, self.m
        out = []
        for _ in range(1200):
            v = e.norm(st, v)
            if not isinstance(v, Lin):
                return UNK
            if not v.t:
                return out
            b, off = e.resolve(st, v)
            if b is None or b not in st.mem:
                return UNK
            if b in st.freed:
                return "freed"
            fwd = self.num(st, e.read_cells(st, b, off + m.off("NL_Reference", "isForward"), 1, "i"))
            out.append((fwd, self.nid_at(st, b, off + m.off("NL_Reference", "refType")),
                        self.nid_at(st, b, off + m.off("NL_Reference", "target"))))
            v = e.read_cells(st, b, off + m.off("NL_Reference", "next"), 8, "p")
        return "cyclic"

    def value(self, st, v):
        e, m = self.eng, self.m
        v = e.norm(st, v)
        if not v.t:
            return None
        b, off = e.resolve(st, v)
        if b in st.freed:
            return "freed"
        T = "NL_Value"
        d = {}
        for f in ("isArray", "isExtensionObject"):
            d[f] = self.num(st, e.read_cells(st, b, off + m.off(T, f), 1, "i"))
        d["type"] = self.text_of(st, e.read_cells(st, b, off + m.off(T, "type"), 8, "p")) or UNK
        d["data"] = self.data(st, e.read_cells(st, b, off + m.off(T, "data"), 8, "p"))
        return d

    def data(self, st, v, path=(), parent=ZERO):
        e, m = self.eng, self.m
        v = e.norm(st, v)
        if not isinstance(v, Lin):
            return UNK
        if not v.t:
            return None
        b, off = e.resolve(st, v)
        if b is None or b not in st.mem:
            return UNK
        if b in path or len(path) > 320:
            return "deep"
        if b in st.freed:
            return "freed"
        T = "NL_Data"
        ty = self.num(st, e.read_cells(st, b, off + m.off(T, "type"), 4, "i"))
        name = self.text_of(st, e.read_cells(st, b, off + m.off(T, "name"), 8, "p"))
        par = e.norm(st, e.read_cells(st, b, off + m.off(T, "parent"), 8, "p"))
        up = "" if par == e.norm(st, parent) else "!parent"
        if ty == m.enums["DATATYPE_PRIMITIVE"]:
            return ("prim" + up, self.plain(name),
                    self.text_of(st, e.read_cells(st, b, off + m.off(T, "val.primitiveData.value"), 8, "p")) or UNK)
        if ty != m.enums["DATATYPE_COMPLEX"]:
            return UNK
        n = self.num(st, e.read_cells(st, b, off + m.off(T, "val.complexData.membersSize"), 8, "i"))
        if not isinstance(n, int):
            return UNK
        mp = e.norm(st, e.read_cells(st, b, off + m.off(T, "val.complexData.members"), 8, "p"))
        l = []
        if n:
            mb, mo = e.resolve(st, mp)
            if mb is None:
                return UNK
            for k in range(n):
                l.append(self.data(st, e.read_cells(st, mb, mo + 8 * k, 8, "p"), path + (b,), v))
        return ("complex" + up, self.plain(name), l)

    @staticmethod
    def plain(t):
        if t is None:
            return UNK
        return t[1] if t[0] == "lit" else t

    def definition(self, st, v):
        e, m = self.eng, self.m
        v = e.norm(st, v)
        if not v.t:
            return None
        b, off = e.resolve(st, v)
        if b in st.freed:
            return "freed"
        T = "NL_DataTypeDefinition"
        d = {}
        for f in ("isEnum", "isUnion", "isOptionSet"):
            d[f] = self.num(st, e.read_cells(st, b, off + m.off(T, f), 1, "i"))
        n = self.num(st, e.read_cells(st, b, off + m.off(T, "fieldCnt"), 8, "i"))
        if not isinstance(n, int):
            d["fields"] = UNK
            return d
        fp = e.norm(st, e.read_cells(st, b, off + m.off(T, "fields"), 8, "p"))
        l = []
        F = "NL_DataTypeDefinitionField"
        if n:
            fb, fo = e.resolve(st, fp)
            for k in range(n):
                x = {}
                self._snap(st, fb, fo + k * m.sizeof(F), F, "", x)
                l.append(x)
        d["fields"] = l
        return d


def standalone(ctx, **kw):
    return World(ctx, **kw)
