"""The file and the XML parser as the import sees them.

The file consists of `pieces` non-empty reads: all but the last fill the
request, the last one yields any number of bytes from one up to the request,
further reads yield nothing.  The XML parser context can fail to be created,
and each call that hands it bytes can report an error.  Where the bytes of a
buffer come from is followed as positions in the file (linear expressions)."""
from .core import AnalysisError, Infeasible
from .ir import FrontendError
from .lin import Lin, ZERO, ONE, const, S
from .world import World


class IO(World):
    pieces = 1            # non-empty reads
    opens = True          # the file can be opened
    creates = True        # the parser context can be created
    fails = None          # number of the parser call (0: creation ...) reporting an error
    dtd = False           # the document has a type declaration: the parser builds a document of its own
    when = 0              # parser call during which the events are delivered

    def __init__(self, ctx, **kw):
        World.__init__(self, ctx, **kw)
        e = self.eng
        e.models.pop("fclose", None)
        self.bad = []
        self.lost = []

    def reset(self, st):
        for k in ("pos", "reads", "fed", "feeds", "buf", "term", "failed", "eof", "created", "opened", "handle",
                  "xctx", "closed", "user", "errno", "xdoc", "noent"):
            st.ghost.pop(k, None)
        st.ghost["pos"] = ZERO
        st.ghost["fed"] = ZERO

    def load(self, events, states=None, k=0):
        if states is None:
            states = self.new_loader()
        for s in states:
            self.reset(s)
        return World.load(self, events, states, k)

    # ------------------------------------------------------------- the file
    def c_fopen(self, eng, st, inst, args):
        st.ghost["opened"] = self.g(st, "opened") + (eng.norm(st, args[0]),)
        if not self.opens:
            return [(st, ZERO)]
        r = eng.new_heap(st, None, False, inst)
        st.mem[r.single()].default = "ext"
        st.ghost["handle"] = r
        return [(st, r)]

    def use(self, eng, st, v, inst, what, ghost):
        """v must be the live handle"""
        v = eng.norm(st, v)
        h = st.ghost.get(ghost)
        if h is None or eng.known_0(st, v):
            self.report("bad-handle", st, inst, "%s is called without %s" % (what, {
                "handle": "an open file", "xctx": "a parser context"}[ghost]))
            return False
        eng.check_ptr(st, v, "read", inst)
        return True

    def c_fclose(self, eng, st, inst, args):
        v = eng.norm(st, args[0])
        if eng.known_0(st, v):
            self.report("bad-handle", st, inst, "fclose is called without an open file")
            return [(st, ZERO)]
        eng.do_free(st, v, inst)
        st.ghost["closed"] = ONE
        return [(st, ZERO)]

    def c_feof(self, eng, st, inst, args):
        return [(st, const(int("eof" in st.ghost)))]

    def c_ferror(self, eng, st, inst, args):
        return [(st, ZERO)]

    def c_fread(self, eng, st, inst, args):
        if not self.use(eng, st, args[3], inst, "fread", "handle"):
            return []
        buf, size, n = (eng.norm(st, x) for x in args[:3])
        k = len(self.g(st, "reads"))
        if eng.known_0(st, size) or eng.known_0(st, n):
            return [(st, ZERO)]
        self.gadd(st, "reads", ONE)
        if k >= self.pieces:
            st.ghost["eof"] = ONE
            return [(st, ZERO)]
        pos = st.ghost["pos"]
        if size.t and n.t:
            raise AnalysisError("fread of a product of two unknown sizes")
        want = size.scale(n.c) if not n.t else n.scale(size.c)
        eng.check_ptr(st, buf, "write", inst)
        self.room(eng, st, buf, want, inst)
        out = []
        if k < self.pieces - 1:
            self.got(eng, st, buf, pos, want)
            st.ghost["pos"] = eng.norm(st, pos + want)
            return [(st, n)]
        st.ghost["last"] = ONE
        # the last piece: complete items and, for items of several bytes, a rest
        s2 = st.copy()
        try:
            q = S(eng.fresh("call", label=("fread", "%d/%d" % (k, self.pieces)), nonneg=True))
            eng.assume_ge0(st, n - q)
            rest = ZERO
            if size != ONE:
                rest = S(eng.fresh("call", label=("fread", "rest"), nonneg=True))
                eng.assume_ge0(st, rest - 1)
                eng.assume_ge0(st, size - rest - 1)
                eng.assume_ge0(st, n - q - 1)
                if size.t:
                    raise AnalysisError("fread with items of unknown size")
            else:
                eng.assume_ge0(st, q - 1)
            whole = q.scale(size.c)
            self.got(eng, st, buf, pos, eng.norm(st, whole + rest))
            st.ghost["pos"] = eng.norm(st, pos + whole + rest)
            if not eng.entails_ge(st, q - n):
                st.ghost["eof"] = ONE
            out.append((st, q))
        except Infeasible:
            pass
        if size == ONE:
            # exactly as much as requested
            self.got(eng, s2, buf, pos, want)
            s2.ghost["pos"] = eng.norm(s2, pos + want)
            out.append((s2, n))
        return out

    def room(self, eng, st, buf, want, inst):
        b, off = eng.resolve(st, buf)
        o = st.mem.get(b)
        if o is None or o.size is None or off is None:
            return
        off = off if isinstance(off, Lin) else const(off)
        ok = eng.entails_ge(st, o.size - off - want)
        bad = eng.entails_ge(st, off + want - o.size - 1)
        self.sized(st, inst, True if ok else False if bad else None)

    def sized(self, st, inst, ok):
        pass

    def got(self, eng, st, buf, pos, n):
        b, off = eng.resolve(st, buf)
        if b is None:
            return
        off = off if isinstance(off, Lin) else const(off)
        keep = []
        for r in self.g(st, "buf"):
            rb, ro, rn, rp = r
            if rb != S(b):
                keep.append(r)
            elif eng.entails_ge(st, off - ro - rn) or eng.entails_ge(st, ro - off - n):
                keep.append(r)
            elif eng.entails_ge(st, off - ro - 1):
                keep.append((rb, ro, eng.norm(st, off - ro), rp))
        st.ghost["buf"] = tuple(keep) + ((S(b), off, n, pos),)

    def at_file(self, eng, st, p, n):
        """file position of the n bytes at p: Lin | "foreign" | None (unknown)"""
        b, off = eng.resolve(st, p)
        if b is None:
            return None
        off = off if isinstance(off, Lin) else const(off)
        recs = [r for r in self.g(st, "buf") if r[0] == S(b)]
        if not recs:
            o = st.mem.get(b)
            return None if o is not None and o.spans else "foreign"
        first, pos, left = None, off, n
        for _ in range(8):
            hit = None
            for r in recs:
                if eng.entails_ge(st, pos - r[1]) and eng.entails_ge(st, r[1] + r[2] - pos - 1):
                    hit = r
            if hit is None:
                return None
            fp = eng.norm(st, hit[3] + pos - hit[1])
            if first is None:
                first = fp
                start = pos
            elif eng.norm(st, fp - first - (pos - start)) != ZERO:
                return "foreign"
            end = eng.norm(st, hit[1] + hit[2])
            if eng.entails_ge(st, end - pos - left):
                return first
            left = eng.norm(st, left - (end - pos))
            if not eng.entails_ge(st, left):
                return None
            pos = end
            if not any(eng.norm(st, pos - r[1]) == ZERO for r in recs):
                # bytes behind what was read into the buffer
                return "foreign" if eng.entails_ge(st, left - 1) else None
        return None

    def on_memcpy(self, eng, st, db, do, sb, so, n, inst):
        World.on_memcpy(self, eng, st, db, do, sb, so, n, inst)
        f = self.at_file(eng, st, S(sb) + (so if isinstance(so, Lin) else const(so)), n)
        if isinstance(f, Lin):
            self.got(eng, st, S(db) + (do if isinstance(do, Lin) else const(do)), f, n)

    # ------------------------------------------------------- the XML parser
    def feed(self, eng, st, inst, p, n, what):
        """bytes handed to the XML parser"""
        n = eng.norm(st, n)
        k = len(self.g(st, "feeds"))
        self.gadd(st, "feeds", n)
        if eng.known_0(st, n):
            return
        f = self.at_file(eng, st, eng.norm(st, p), n)
        fed = st.ghost.get("fed")
        ok = None
        if f == "foreign":
            ok = False
        elif isinstance(f, Lin) and fed is not None:
            d = eng.norm(st, f - fed)
            if d == ZERO:
                ok = True
            elif self.nonzero(eng, st, d):
                ok = False
        self.fed_ob(st, inst, ok, k, what)
        st.ghost["fed"] = eng.norm(st, fed + n) if ok else None
        if not ok:
            del st.ghost["fed"]

    def nonzero(self, eng, st, d):
        """the difference is not zero for some file"""
        if eng.entails_ge(st, d - 1) or eng.entails_ge(st, d.scale(-1) - 1):
            return True
        s2 = st.copy()
        for x in (d - 1, d.scale(-1) - 1):
            s2 = st.copy()
            try:
                eng.assume_ge0(s2, x)
            except Infeasible:
                continue
            if all(eng.syms[s].kind == "call" for s, _ in d.t):
                return True
        return False

    def fed_ob(self, st, inst, ok, k, what):
        pass

    def complete(self, eng, st):
        """all bytes of the file were handed over and the input was terminated"""
        if "term" not in st.ghost:
            return "the input is never terminated"
        if len(self.g(st, "reads")) < self.pieces:
            return "not the whole file is read"
        if "fed" not in st.ghost:
            return None
        d = eng.norm(st, st.ghost["pos"] - st.ghost["fed"])
        if d == ZERO:
            return True
        return "bytes read from the file are not handed to the XML parser" if self.nonzero(eng, st, d) else None

    def verdict(self, eng, st, xctx, k):
        """(state, failed) of a call of the parser"""
        return self.fails is not None and k == self.fails

    def c_xmlCreatePushParserCtxt(self, eng, st, inst, args):
        m = self.m
        hb, ho = eng.resolve(st, args[0])
        fns = {}
        for ev, fld in (("S", "startElementNs"), ("E", "endElementNs"), ("C", "characters")):
            v = eng.norm(st, eng.read_cells(st, hb, ho + m.off("_xmlSAXHandler", fld), 8, "p"))
            y = eng.syms[v.single()] if isinstance(v, Lin) and v.single() is not None else None
            if y is None or y.kind != "fn":
                raise AnalysisError("no %s callback is registered with the XML parser" % fld)
            fns[ev] = m.fns[y.key[0]]
        self.handlers = fns
        if not eng.known_0(st, eng.norm(st, args[2])):
            self.feed(eng, st, inst, args[2], args[3], "xmlCreatePushParserCtxt")
        else:
            self.gadd(st, "feeds", ZERO)
        if not self.creates:
            st.ghost["failed"] = ONE
            return [(st, ZERO)]
        r = eng.new_heap(st, None, False, inst)
        o = st.mem[r.single()]
        o.default = "ext"
        self.state_of(eng, st, r, 1, 0)
        self.field(st, r, "myDoc", 8, ZERO)
        self.field(st, r, "replaceEntities", 4, ZERO)
        if self.dtd:
            d = eng.new_heap(st, None, False, inst)
            st.mem[d.single()].default = "ext"
            st.ghost["xdoc"] = d
            self.field(st, r, "myDoc", 8, d)
        st.ghost["xctx"] = r
        st.ghost["user"] = eng.norm(st, args[1])
        states = [st]
        if self.when == 0:
            states = self.deliver(eng, st, inst)
        return [(s, r) for s in states]

    def deliver(self, eng, st, inst):
        states = [st]
        for ev in self.events:
            states = self.apply(eng, states, self.handlers, ev, st.ghost["user"], inst)
        return states

    def state_of(self, eng, st, x, well, err):
        for f, v in (("wellFormed", well), ("errNo", err), ("disableSAX", int(not well))):
            self.field(st, x, f, 4, v if isinstance(v, Lin) else const(v))

    def c_xmlParseChunk(self, eng, st, inst, args):
        if not self.use(eng, st, args[0], inst, "xmlParseChunk", "xctx"):
            return []
        k = len(self.g(st, "feeds"))
        n = eng.norm(st, args[2])
        self.feed(eng, st, inst, args[1], n, "xmlParseChunk")
        t = eng.norm(st, args[3])
        states = [st]
        if self.when == k and k:
            states = self.deliver(eng, st, inst)
        out = []
        for s in states:
            if not eng.known_0(s, t):
                s.ghost["term"] = ONE
            if self.fails == k or "failed" in s.ghost:
                s.ghost["failed"] = ONE
                err = s.ghost.get("errno")
                if err is None:
                    err = S(eng.fresh("call", label=("input", "xml error number"), nonneg=True))
                    eng.assume_ge0(s, err - 1)
                    s.ghost["errno"] = err
                self.state_of(eng, s, s.ghost["xctx"], 0, err)
                out.append((s, err))
            else:
                out.append((s, ZERO))
        return out

    def decoded(self, st):
        try:
            b = st.ghost["xctx"].single()
            c = st.mem[b].cells.get(self.m.off("_xmlParserCtxt", "replaceEntities"))
        except FrontendError:
            c = None
        v = self.eng.norm(st, c[1]) if c and c[0] == 4 else st.ghost.get("noent", ZERO)
        if not isinstance(v, Lin) or not v.is_const():
            raise AnalysisError("it is not known whether the XML parser replaces references")
        return v.c != 0

    def c_xmlFreeParserCtxt(self, eng, st, inst, args):
        v = eng.norm(st, args[0])
        if not eng.known_0(st, v):
            eng.do_free(st, v, inst)
        return [(st, None)]

    def c_xmlCtxtGetLastError(self, eng, st, inst, args):
        return [(st, eng.param("xml-error") if "failed" in st.ghost else ZERO)]

    def c_xmlInitParser(self, eng, st, inst, args):
        return [(st, None)]

    c_xmlCleanupParser = c_xmlInitParser
    c_xmlParserError = c_xmlInitParser


def scenarios(thorough=False):
    """(name, settings of the IO) of all ways an import can go"""
    yield "the file cannot be opened", dict(opens=False)
    yield "an empty file", dict(pieces=0)
    for p in range(1, 6 if thorough else 5):
        yield "%d read%s" % (p, "s" if p > 1 else ""), dict(pieces=p)
        yield "%d reads, the parser cannot be created" % p, dict(pieces=p, creates=False)
        for f in range(1, p + 3):
            yield "%d reads, the parser reports an error at call %d" % (p, f), dict(pieces=p, fails=f)
    for p in (12, 40, 130) + ((400,) if thorough else ()):
        yield "%d reads" % p, dict(pieces=p)
