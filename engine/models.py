"""Models of the external functions the sources call (libc, libxml2, the
open62541 API) and the assumptions made about them.  A model returns
[(state, value)], or None to fall back to the default treatment."""
from .lin import Lin, ZERO, ONE, const, S
from .core import Infeasible, Chunk, Obj

NODEID = 24
TOK = 16     # offset of identifier.string.data inside UA_NodeId


def mul(eng, st, a, b):
    a, b = eng.norm(st, a), eng.norm(st, b)
    if not a.t:
        return b.scale(a.c)
    if not b.t:
        return a.scale(b.c)
    return eng.term("mul", *sorted((a, b), key=lambda l: (l.c, l.t)), nonneg=True)


def _alloc(eng, st, size, zero, inst):
    if not eng.alloc_fail:
        return [(st, eng.new_heap(st, size, zero, inst))]
    s2 = st.copy()
    if eng.client:
        eng.client.on_alloc_fail(eng, s2, inst)
    return [(st, eng.new_heap(st, size, zero, inst)), (s2, ZERO)]


def m_malloc(eng, st, i, a):
    return _alloc(eng, st, eng.norm(st, a[0]), False, i)


def m_calloc(eng, st, i, a):
    return _alloc(eng, st, mul(eng, st, a[0], a[1]), True, i)


def m_realloc(eng, st, i, a):
    p, n = eng.norm(st, a[0]), eng.norm(st, a[1])
    out = []
    if eng.alloc_fail:
        s2 = st.copy()
        if eng.client:
            eng.client.on_alloc_fail(eng, s2, i)
        out.append((s2, ZERO))
    if not p.t and p.c == 0:
        return [(st, eng.new_heap(st, n, False, i))] + out
    base, off = eng.resolve(st, p)
    if base is None:
        return [(st, eng.new_heap(st, n, False, i))] + out
    old = eng.obj(st, base)
    r = eng.new_heap(st, n, False, i)
    nb = r.single()
    o = old.copy()
    o.kind = "heap"
    o.size = n
    o.realloc_from = (base, old.size)
    if o.default == "ext":
        o.ver = ("r", base, old.ver)
    eng.syms[nb].ptype = eng.syms[nb].ptype or eng.syms[base].ptype
    st.mem[nb] = o
    eng.do_free(st, p, i, "realloc")
    if eng.client:
        eng.client.on_realloc(eng, st, base, nb, i)
    return [(st, r)] + out


def m_free(eng, st, i, a):
    eng.do_free(st, a[0], i)
    return [(st, None)]


def m_memcpy(eng, st, i, a):
    eng.memcpy(st, a[0], a[1], a[2], i)
    return [(st, a[0])]


def m_memset(eng, st, i, a):
    eng.memset(st, a[0], a[1], a[2], i)
    return [(st, a[0])]


def _needptr(eng, st, v, inst, what="read"):
    """argument must be a valid pointer"""
    v = eng.norm(st, v)
    if not isinstance(v, Lin):
        return
    eng.check_ptr(st, v, what, inst)


def content_key(eng, st, p):
    """the string p points to, as (pointer, version of the storage)"""
    p = eng.norm(st, p)
    b, off = eng.resolve(st, p)
    if b is not None and b in st.mem:
        o = st.mem[b]
        if o.kind in ("heap", "arena", "alloca") and (o.cells or o.spans or o.default == "zero"):
            return (p, o.ver, len(o.spans))
    return (p, 0, 0)


def m_strlen(eng, st, i, a):
    _needptr(eng, st, a[0], i)
    c = eng.const_str(st, a[0])
    if c is not None:
        return [(st, const(len(c)))]
    return [(st, eng.term("strlen", *content_key(eng, st, a[0]), nonneg=True))]


def decide_str(eng, st, x, cs):
    """known comparison results of string x with constants:
    True/False when x == cs is decided by earlier comparisons, else None"""
    for s, v in st.sub.items():
        y = eng.syms[s]
        if y.kind != "term" or y.key[0] != "strcmp" or v.t:
            continue
        if eng.norm(st, y.key[1]) == x and v.c == 0:
            c2 = eng.const_str(st, y.key[2])
            if c2 is not None:
                return c2 == cs
    return None


def known_const(eng, st, x):
    for s, v in st.sub.items():
        y = eng.syms[s]
        if y.kind == "term" and y.key[0] == "strcmp" and not v.t and v.c == 0 and eng.norm(st, y.key[1]) == x:
            return eng.const_str(st, y.key[2])
    return None


def canon_str(eng, st, v, cs):
    """canonical address for a constant string (identical literals agree)"""
    return S(eng.mk("global", "str:" + cs, ptr=True, nonnull=True)) if False else v


def m_strcmp(eng, st, i, a):
    x, y = eng.norm(st, a[0]), eng.norm(st, a[1])
    _needptr(eng, st, x, i)
    _needptr(eng, st, y, i)
    x, y = eng.norm(st, x), eng.norm(st, y)
    cx, cy = eng.const_str(st, x), eng.const_str(st, y)
    if cx is not None and cy is not None:
        return [(st, const((cx > cy) - (cx < cy)))]
    if x == y:
        return [(st, ZERO)]
    if cx is not None:
        x, y, cx, cy = y, x, cy, cx
    elif cy is None and (x.c, x.t) > (y.c, y.t):
        x, y = y, x
    if cy is not None:
        d = decide_str(eng, st, x, cy)
        if d is True:
            return [(st, ZERO)]
        if d is False:
            return [(st, ONE)]
        y = eng.str_addr(cy)
    t = eng.term("strcmp", x, y)
    return [(st, eng.norm(st, t))]


def m_strncmp(eng, st, i, a):
    x, y, n = eng.norm(st, a[0]), eng.norm(st, a[1]), eng.norm(st, a[2])
    _needptr(eng, st, x, i)
    _needptr(eng, st, y, i)
    x, y = eng.norm(st, x), eng.norm(st, y)
    cx, cy = eng.const_str(st, x), eng.const_str(st, y)
    if cx is not None:
        x, y, cx, cy = y, x, cy, cx
    if cx is None and cy is not None:
        cx = known_const(eng, st, x)
    if cx is not None and cy is not None and not n.t:
        p, q = cx[:n.c], cy[:n.c]
        return [(st, const((p > q) - (p < q)))]
    if cy is not None:
        if not n.t and n.c > len(cy):
            # comparing past the terminator is a full comparison
            return m_strcmp(eng, st, i, [x, y])
        y = eng.str_addr(cy[:n.c] if not n.t else cy)
    t = eng.term("strncmp", x, y, n)
    return [(st, eng.norm(st, t))]


def m_strchr(eng, st, i, a):
    _needptr(eng, st, a[0], i)
    r = eng.mk("term", "strchr", eng.norm(st, a[0]), eng.norm(st, a[1]), ptr=True, nullable=True)
    return [(st, eng.norm(st, S(r)))]


def pure(name, ptrs=(0,), **attrs):
    def f(eng, st, i, a):
        for k in ptrs:
            _needptr(eng, st, a[k], i)
        at = dict(attrs)
        if i["ty"] == "p":
            at["ptr"] = True
        return [(st, eng.norm(st, eng.term(name, *[eng.norm(st, x) for x in a], **at)))]
    return f


def ignore(eng, st, i, a):
    return [(st, eng.ret_sym(st, i, "ignored") if i["ty"] != "void" else None)]


def noreturn(eng, st, i, a):
    return []


def havoc_args(idx):
    def f(eng, st, i, a):
        for k in (idx if idx is not None else range(len(a))):
            if k >= len(a) or i["args"][k]["ty"] != "p":
                continue
            b, off = eng.resolve(st, a[k])
            if b is not None and eng.syms[b].kind in ("alloca", "heap"):
                w = eng.wobj(st, b)
                w.cells = {}
                w.default = "ext"
                w.ver = ("h", eng.fresh("ver"))
        return [(st, eng.ret_sym(st, i, i.get("fn", "?")))] if i["ty"] != "void" else [(st, None)]
    return f


def m_fread(eng, st, i, a):
    _needptr(eng, st, a[0], i, "write")
    b, off = eng.resolve(st, a[0])
    w = eng.wobj(st, b)
    w.cells = {}
    w.default = "ext"
    w.ver = ("f", eng.fresh("ver"))
    n = S(eng.fresh("call", label=("fread", eng.where(i)), nonneg=True))
    try:
        eng.assume_ge0(st, eng.norm(st, a[2]) - n)
    except Infeasible:
        return []
    return [(st, n)]


def m_fopen(eng, st, i, a):
    _needptr(eng, st, a[0], i)
    s2 = st.copy()
    r = eng.new_heap(st, None, False, i)
    eng.syms[r.single()].name = "FILE"
    st.mem[r.single()].default = "ext"
    return [(st, r), (s2, ZERO)]


def m_fclose(eng, st, i, a):
    eng.do_free(st, a[0], i, "fclose")
    return [(st, S(eng.fresh("call", label=("fclose", eng.where(i)))))]


# ----------------------------------------------------------------- NodeIds
def nid_cells(eng, st, p, inst):
    b, off = eng.check_ptr(st, p, "read", inst)
    r = []
    for o, s, ty in ((0, 2, "i"), (4, 4, "i"), (8, 8, "i"), (16, 8, "p")):
        v = eng.read_cells(st, b, off + o, s, ty)
        if isinstance(v, Chunk):
            # a numeric identifier only sets the low four bytes
            lo = eng.subvalue(st, v, 0, 4, "i")
            v = lo if isinstance(lo, Lin) else S(eng.mk("term", "undef"))
        if o == 16 and isinstance(v, Lin) and v.single() is not None:
            y = eng.syms[v.single()]
            if y.kind in ("load", "phi", "join", "uninit"):
                y.ptr = True
                y.nullable = True
        r.append(v)
    return r


def nid_write(eng, st, p, vals, inst):
    b, off = eng.check_ptr(st, p, "write", inst)
    for (o, s), v in zip(((0, 2), (2, 2), (4, 4), (8, 8), (16, 8)), (vals[0], ZERO, vals[1], vals[2], vals[3])):
        k = off + o
        eng.write_cells(st, b, k if not isinstance(k, Lin) or k.t else k.c, s, v)


def fresh_token(eng, st, inst, label):
    s = eng.fresh("heap", label or eng.where(inst), ptr=True, nonnull=True, unique=True)
    eng.syms[s].name = "nodeid-string"
    st.mem[s] = Obj("heap", "ext", None)
    st.alloc[s] = eng.where(inst)
    return S(s)


def m_nid_init(eng, st, i, a):
    nid_write(eng, st, a[0], (ZERO, ZERO, ZERO, ZERO), i)
    return [(st, None)]


def m_nid_clear(eng, st, i, a):
    v = nid_cells(eng, st, a[0], i)
    eng.do_free(st, v[3], i, "UA_NodeId_clear")
    if eng.client:
        eng.client.on_nid_clear(eng, st, a[0], v, i)
    nid_write(eng, st, a[0], (ZERO, ZERO, ZERO, ZERO), i)
    return [(st, None)]


def m_nid_copy(eng, st, i, a):
    v = nid_cells(eng, st, a[0], i)
    t = v[3]
    if t.t:
        t = fresh_token(eng, st, i, None)
        eng.syms[t.single()].key = eng.syms[t.single()].key
        eng.tokdesc[t.single()] = eng.desc(st, v[3])
    nid_write(eng, st, a[1], (v[0], v[1], v[2], t), i)
    return [(st, ZERO)]


def m_nid_parse(eng, st, i, a):
    """UA_NodeId_parse(id, str): str arrives as (length, data)"""
    if len(a) == 3:
        ln, data = a[1], a[2]
    else:
        ln, data = eng.subvalue(st, a[1], 0, 8, "i"), eng.subvalue(st, a[1], 8, 8, "p")
    data = eng.norm(st, data)
    key = eng.desc(st, data)
    bad = st.copy()
    # success
    ns = eng.term("nidns", data, nonneg=True)
    ty = eng.term("nidtype", data, nonneg=True)
    idn = eng.term("nidid", data)
    tok = fresh_token(eng, st, i, ("parsed", eng.where(i)))
    eng.tokdesc[tok.single()] = key
    nid_write(eng, st, a[0], (ns, ty, idn, tok), i)
    if eng.client:
        eng.client.on_nid_parse(eng, st, a[0], data, i)
    out = [(st, ZERO)]
    if eng.parse_fail:
        nid_write(eng, bad, a[0], (ZERO, ZERO, ZERO, ZERO), i)
        out.append((bad, const(-2147483648)))
    return out


def nid_eqkey(eng, st, v):
    return tuple(v)


def m_nid_equal(eng, st, i, a):
    x = nid_cells(eng, st, a[0], i)
    y = nid_cells(eng, st, a[1], i)
    if all(not v.t for v in x + y):
        return [(st, const(int(x == y)))]
    kx, ky = tuple(x), tuple(y)
    if kx == ky:
        return [(st, ONE)]
    if repr(ky) < repr(kx):
        kx, ky = ky, kx
    t = S(eng.mk("term", "neq", kx, ky, boolean=True))
    return [(st, eng.norm(st, t))]


def m_nid_isnull(eng, st, i, a):
    x = nid_cells(eng, st, a[0], i)
    if all(not v.t for v in x):
        return [(st, const(int(all(v.c == 0 for v in x))))]
    z = (ZERO, ZERO, ZERO, ZERO)
    kx, ky = tuple(x), z
    if repr(ky) < repr(kx):
        kx, ky = ky, kx
    return [(st, eng.norm(st, S(eng.mk("term", "neq", kx, ky, boolean=True))))]


def m_nid_order(eng, st, i, a):
    x = nid_cells(eng, st, a[0], i)
    y = nid_cells(eng, st, a[1], i)
    if x == y:
        return [(st, ZERO)]
    t = eng.norm(st, S(eng.mk("term", "nord", tuple(x), tuple(y))))
    if t.t:
        try:
            eng.assume_ge0(st, t + 1)
            eng.assume_ge0(st, ONE - t)
        except Infeasible:
            return []
    return [(st, t)]


def m_nodeid_chars(eng, st, i, a):
    """UA_NODEID("i=38"): struct returned through sret"""
    cs = eng.const_str(st, a[-1])
    v = [ZERO, ZERO, ZERO, ZERO]
    if cs is not None and cs.startswith("i=") and cs[2:].isdigit():
        v[2] = const(int(cs[2:]))
    else:
        v = [eng.term("nidns", a[-1], nonneg=True), eng.term("nidtype", a[-1]), eng.term("nidid", a[-1]),
             fresh_token(eng, st, i, None)]
    if len(a) == 2:
        nid_write(eng, st, a[0], v, i)
        return [(st, None)]
    return [(st, Chunk(24, [(0, 2, v[0]), (4, 4, v[1]), (8, 8, v[2]), (16, 8, v[3])]))]


def m_nid_print(eng, st, i, a):
    b, off = eng.check_ptr(st, a[1], "write", i)
    nid_cells(eng, st, a[0], i)
    old = eng.norm(st, eng.read_cells(st, b, off + 8, 8, "p"))
    if isinstance(old, Lin) and not old.t and old.c == 0:
        t = eng.new_heap(st, None, False, i)
        st.mem[t.single()].default = "ext"
        eng.write_cells(st, b, off + 8, 8, t)
        eng.write_cells(st, b, off, 8, eng.term("printlen", t, nonneg=True))
    return [(st, ZERO)]


def m_string_clear(eng, st, i, a):
    b, off = eng.check_ptr(st, a[0], "write", i)
    v = eng.read_cells(st, b, off + 8, 8, "p")
    eng.do_free(st, v, i, "UA_String_clear")
    eng.write_cells(st, b, off, 8, ZERO)
    eng.write_cells(st, b, off + 8, 8, ZERO)
    return [(st, None)]


def m_find_type(eng, st, i, a):
    v = nid_cells(eng, st, a[0], i)
    s = eng.mk("term", "findDataType", tuple(v), ptr=True, nullable=True)
    eng.syms[s].ptype = "UA_DataType"
    return [(st, eng.norm(st, S(s)))]


def m_status_bad(eng, st, i, a):
    return [(st, eng.compare(st, "ne", a[0], ZERO))]


def _len(eng, st, i, p, limit=None):
    """[(state, length of the string at p, is it complete)], at most limit"""
    for s, n in eng.models["strlen"](eng, st, i, [p]):
        n = eng.norm(s, n)
        if limit is None:
            yield s, n, True
            continue
        k = eng.norm(s, limit)
        if not (k - n).t:
            yield (s, n, True) if (k - n).c >= 0 else (s, k, False)
            continue
        s2 = s.copy()
        for x, d, v, full in ((s, k - n, n, True), (s2, n - k - 1, k, False)):
            try:
                eng.assume_ge0(x, d)
            except Infeasible:
                continue
            yield x, eng.norm(x, v), full


def copy_string(limit=None, alloc=False, end=False, at_end=False, pad=False):
    """strcpy and its relatives: limit is the index of the argument with the greatest length"""
    def f(eng, st, i, a):
        out = []
        src = a[0] if alloc else a[1]
        for s, n, full in list(_len(eng, st, i, src, a[limit] if limit is not None else None)):
            if alloc:
                dst = _alloc(eng, s, eng.norm(s, n + 1), False, i)
            elif at_end:
                dst = [(x, eng.norm(x, a[0] + m)) for x, m, _ in _len(eng, s, i, a[0])]
            else:
                dst = [(s, a[0])]
            for x, d in dst:
                if not isinstance(d, Lin) or not d.t:
                    out.append((x, ZERO))
                    continue
                eng.memcpy(x, d, src, n, i)
                if pad:
                    eng.memset(x, d + n, ZERO, eng.norm(x, a[limit] - n), i)
                else:
                    eng.memset(x, d + n, ZERO, ONE, i)
                out.append((x, d if alloc else eng.norm(x, d + n) if end else a[0]))
        return out
    return f


def m_strnlen(eng, st, i, a):
    return [(s, n) for s, n, _ in _len(eng, st, i, a[0], a[1])]


def install(eng):
    eng.alloc_fail = False
    eng.parse_fail = True
    eng.tokdesc = {}
    M = eng.models
    M.update({
        "malloc": m_malloc, "calloc": m_calloc, "realloc": m_realloc, "free": m_free,
        "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset, "bzero": lambda eng, st, i, a: eng.memset(st, a[0], ZERO, a[1], i) and None or [(st, None)],
        "strlen": m_strlen, "strcmp": m_strcmp, "strncmp": m_strncmp, "strchr": m_strchr,
        "strcpy": copy_string(), "stpcpy": copy_string(end=True), "strcat": copy_string(at_end=True), "strdup": copy_string(alloc=True),
        "strncpy": copy_string(limit=2, pad=True), "strndup": copy_string(limit=1, alloc=True), "strncat": copy_string(limit=2, at_end=True),
        "strnlen": m_strnlen,
        "mempcpy": lambda eng, st, i, a: [(s, eng.norm(s, p + a[2])) for s, p in m_memcpy(eng, st, i, a)],
        "atoi": pure("atoi"), "atol": pure("atol"), "atof": pure("atof"),
        "strtol": pure("strtol", (0,)), "strtoul": pure("strtoul", (0,)), "strtod": pure("strtod", (0,)),
        "isspace": pure("isspace", ()), "__ctype_b_loc": pure("ctype", ()),
        "printf": ignore, "fprintf": ignore, "puts": ignore, "putchar": ignore, "vprintf": ignore,
        "vfprintf": ignore, "fflush": ignore, "fputs": ignore,
        "snprintf": havoc_args((0,)), "vsnprintf": havoc_args((0,)), "sscanf": havoc_args(None),
        "abort": noreturn, "exit": noreturn, "__assert_fail": noreturn,
        "fread": m_fread, "fopen": m_fopen, "fclose": m_fclose,
        "UA_NodeId_init": m_nid_init, "UA_NodeId_clear": m_nid_clear, "UA_NodeId_copy": m_nid_copy,
        "UA_NodeId_parse": m_nid_parse, "UA_NodeId_equal": m_nid_equal, "UA_NodeId_order": m_nid_order,
        "UA_NodeId_isNull": m_nid_isnull, "UA_NodeId_print": m_nid_print, "UA_NODEID": m_nodeid_chars,
        "UA_String_clear": m_string_clear, "UA_ByteString_clear": m_string_clear,
        "UA_findDataType": m_find_type, "UA_StatusCode_isBad": m_status_bad,
    })
