"""Analysis of the text arena: blocks of symbolic sizes.

The functions of the arena are interpreted for sequences of calls whose sizes are
symbols; the linear inequalities of the branches taken (does the block fit?)
are kept, and for every result the position of the block inside the allocation
it points into is compared with that of every block handed out before.  The
second part starts in an arbitrary state of the arena (any number of regions,
any fill level) which satisfies the invariant, and shows that one call keeps it."""
from .core import Client, Frame, Infeasible, Obj, AnalysisError
from .lin import Lin, ZERO, const, S

NEW, MALLOC, REALLOC, DELETE = ("CharArenaAllocator_" + n for n in ("new", "malloc", "realloc", "delete"))


class Arena(Client):
    def __init__(self, ctx, fails):
        self.ctx = ctx
        self.m = ctx.mod
        self.problems = []
        self.eng = ctx.engine(self, return_limit=400, MAX_STATES=400)
        self.eng.alloc_fail = fails
        self.watch = True

    def problem(self, rule, st, inst, msg):
        self.problems.append((rule, msg, self.eng.where(inst), st.stack[-1].fn.src if st.stack else ""))

    def add(self, st, k, *v):
        st.ghost[k] = st.ghost.get(k, ()) + (tuple(v),)

    def on_alloc_fail(self, eng, st, inst):
        st.ghost["failed"] = True

    def on_memcpy(self, eng, st, db, do, sb, so, n, inst):
        self.access(st, db, do, n, "write", inst)
        self.access(st, sb, so, n, "read", inst)
        self.add(st, "copies", db, lin(do), sb, lin(so), n)

    def on_store(self, eng, st, base, off, size, v, inst):
        self.access(st, base, off, const(size), "write", inst)
        if st.mem.get(base) is not None and any(b == base for b, o, n, k in st.ghost.get("blocks", ())):
            self.add(st, "stores", base, lin(off), const(size))

    def on_load(self, eng, st, base, off, size, v, inst):
        self.access(st, base, off, const(size), "read", inst)

    def access(self, st, base, off, n, what, inst):
        o = st.mem.get(base)
        if o is None or o.size is None or o.kind != "heap":
            return
        e = self.eng
        end = e.norm(st, lin(off) + n)
        room = e.norm(st, o.size - end)
        if e.entails_ge(st, room):
            return
        if refuted(e, st, room):
            self.problem("inside", st, inst, "%s of %s bytes at offset %s of an allocation of %s bytes" % (
                what, sh(e, n), sh(e, lin(off)), sh(e, o.size)))

    def on_uaf(self, eng, st, base, what, inst):
        self.problem("stable", st, inst, "%s of released memory" % what)

    def on_double_free(self, eng, st, base, inst, what):
        self.problem("stable", st, inst, "memory is released twice")

    def on_null(self, eng, st, v, what, inst, base):
        self.problem("failure", st, inst, "%s through a NULL pointer when memory runs out" % what
                     if st.ghost.get("failed") else "%s through a NULL pointer" % what)

    def on_free(self, eng, st, base, inst, what):
        if st.ghost.get("deleting"):
            return
        for b, o, n, k in st.ghost.get("blocks", ()):
            if b == base:
                self.problem("stable", st, inst, "the memory of the text handed out by call %d is released or moved" % k)

    def on_realloc(self, eng, st, old, new, inst):
        pass

    # ---------------------------------------------------------------- calls
    def call(self, st, name, args):
        fn = self.ctx.fn(name)
        st = st.copy()
        try:
            return self.eng.invoke(st, fn, args, None)
        except Infeasible:
            return []


def lin(o):
    return o if isinstance(o, Lin) else const(o)


def sh(e, l):
    l = lin(l)
    t = ["%s%s" % ("" if k == 1 else "%d*" % k, e.syms[s].key[0] if e.syms[s].kind == "param" else "?") for s, k in l.t]
    if l.c or not t:
        t.append(str(l.c))
    return "+".join(t)


def refuted(e, st, l):
    """some state of the sizes makes l negative: shown by a witness valuation"""
    l = e.norm(st, l)
    if not l.t:
        return l.c < 0
    return witness(e, st, l.scale(-1) - 1)


OPS = {"mul": lambda a, b: a * b, "udiv": lambda a, b: a // b, "sdiv": lambda a, b: a // b, "urem": lambda a, b: a % b,
       "srem": lambda a, b: a % b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
       "lshr": lambda a, b: a >> b, "shl": lambda a, b: a << b}


class Unknown(Exception):
    pass


def evaluate(e, l, env):
    """the value of a linear expression under a valuation of the parameters"""
    v = l.c
    for s, k in l.t:
        y = e.syms[s]
        if s in env:
            x = env[s]
        elif y.kind == "term" and y.key[0] in OPS and len(y.key) >= 3:
            a, b = evaluate(e, y.key[1], env), evaluate(e, y.key[2], env)
            if a < 0 or (b <= 0 and y.key[0] in ("udiv", "sdiv", "urem", "srem")):
                raise Unknown
            x = OPS[y.key[0]](a, b)
        else:
            raise Unknown
        v += x * k
    return v


def leaves(e, l, out, depth=0):
    for s, _ in l.t:
        y = e.syms[s]
        if y.kind == "param" and not y.ptr:
            out.add(s)
        elif y.kind == "term" and y.key[0] in OPS and depth < 8:
            for x in y.key[1:3]:
                leaves(e, x, out, depth + 1)
        else:
            return False
    return True


def witness(e, st, want):
    """is there a valuation of the size symbols which satisfies the path and want >= 0?
    (decided by trying small values: only ever says yes when there is one)"""
    cons = list(st.ge) + [want]
    syms = set()
    keep = []
    leaves(e, want, syms)
    while True:
        n = len(syms)
        for c in cons:
            own = set()
            leaves(e, c, own)
            if own & syms and c not in keep:
                keep.append(c)
                syms |= own
        if len(syms) == n:
            break
    if want not in keep:
        keep.append(want)
    keep += [S(s) for s in syms]
    syms = sorted(syms)
    cons = []
    for c in keep:
        own = set()
        if not leaves(e, c, own):
            return False
        cons.append((c, own))
    order = sorted(syms)
    last = [[c for c, own in cons if own and max(order.index(s) for s in own) == k] for k in range(len(order))]
    vals = (0, 1, 2, 3, 5, 8, 13, 21) if len(syms) <= 4 else (0, 1, 2, 3, 5, 9, 16) if len(syms) <= 5 else (0, 1, 2, 5, 8, 20)
    budget = [60000]

    def go(k, env):
        if k == len(order):
            return True
        for v in vals:
            budget[0] -= 1
            if budget[0] < 0:
                return False
            env[order[k]] = v
            try:
                if all(evaluate(e, c, env) >= 0 for c in last[k]) and go(k + 1, env):
                    return True
            except Unknown:
                return False
        env.pop(order[k], None)
        return False
    return go(0, {})


def decide(e, st, l):
    """l >= 0: True, False (with a witness) or None"""
    l = e.norm(st, l)
    if e.entails_ge(st, l):
        return True
    return False if refuted(e, st, l) else None


def either(e, st, a, b):
    """a >= 0 or b >= 0"""
    if e.entails_ge(st, a) or e.entails_ge(st, b):
        return True
    s = st.copy()
    try:
        e.assume_ge0(s, a.scale(-1) - 1)
    except Infeasible:
        return True
    return False if refuted(e, s, b) else None


def sequences(ctx, word, fails, out):
    """all paths of new, then one call per letter (m: malloc, r: realloc)"""
    c = Arena(ctx, fails)
    e = c.eng
    e.deadline = ctx.deadline()
    from .core import State
    st = State()
    st.stack.append(Frame(ctx.fn(NEW), {}, None))
    I = e.param("initial-size", None, ptr=False, nonneg=True)
    if word and not fails:
        pass
    states = []
    for s, v in c.call(st, NEW, [I]):
        v = e.norm(s, v)
        if not v.t:
            out.ob(c, s, "failure", True if s.ghost.get("failed") and not v.c else False,
                   "a new arena is only refused when memory runs out", NEW)
            continue
        s.ghost["arena"] = v
        states.append(s)
    out.flush(c, "new")
    for k, op in enumerate(word):
        n = e.param("n%d" % (k + 1), None, ptr=False, nonneg=True)
        fn = MALLOC if op == "m" else REALLOC
        name = "%s of %s" % (word[:k + 1], fn)
        nxt = []
        for s in states:
            s = s.copy()
            s.ghost["copies"] = ()
            s.ghost["stores"] = ()
            s.ghost.pop("failed", None)
            for t, v in c.call(s, fn, [s.ghost["arena"], n]):
                v = e.norm(t, v)
                if isinstance(v, Lin) and not v.t:
                    out.ob(c, t, "failure", True if t.ghost.get("failed") else False,
                           "call %d (%s): NULL only when memory runs out" % (k + 1, op), fn)
                    nxt.append(t)
                    continue
                check(out, c, t, v, op, n, k + 1, fn)
                nxt.append(t)
        states = nxt
        out.flush(c, fn)
    for s in states:
        s = s.copy()
        s.ghost["deleting"] = True
        for t, v in c.call(s, DELETE, [s.ghost["arena"]]):
            left = [e.syms[b].label for b in t.alloc]
            out.ob(c, t, "released", not left, "deleting the arena releases %s" % (
                "everything" if not left else "everything but the memory allocated at " + left[0]), DELETE)
    out.flush(c, DELETE)


def check(out, c, st, v, op, n, k, fn):
    e = c.eng
    base, off = e.resolve(st, v)
    o = st.mem.get(base)
    label = "call %d (%s)" % (k, {"m": "new text", "r": "growing the text"}[op])
    if o is None or o.size is None:
        out.ob(c, st, "inside", None, label, fn)
        return
    off = lin(off)
    blocks = st.ghost.get("blocks", ())
    last = st.ghost.get("last")
    total = n
    old = None
    if op == "r" and last is not None:
        old = last
        total = last[2] + n
    out.ob(c, st, "inside", both(decide(e, st, off), decide(e, st, o.size - off - total)),
           "%s: the block lies inside its allocation" % label, fn)
    # the bytes which are new
    lo, hi = off + (old[2] if old else ZERO), off + total
    ok = True if o.default == "zero" else None if o.kind != "heap" else False
    out.ob(c, st, "zeroed", ok, "%s: the memory of the block is zeroed" % label, fn)
    for b, bo, bn, bk in blocks:
        if b != base:
            continue
        own = old is not None and bk == old[3]
        if own:
            if bo == off:
                continue
        r = either(e, st, lo - (bo + bn), bo - hi)
        # an empty range overlaps nothing
        if r is not True and e.entails_ge(st, lo - hi):
            r = True
        out.ob(c, st, "disjoint", r, "%s: the new bytes do not overlap the text of call %d" % (label, bk), fn)
    for b, bo, bn in st.ghost.get("dirty", ()):
        if b == base and not any(x[:3] == (b, bo, bn) for x in blocks):
            r = either(e, st, lo - (bo + bn), bo - hi)
            if r is not True and e.entails_ge(st, lo - hi):
                r = True
            out.ob(c, st, "zeroed", r, "%s: the new bytes were never part of another text" % label, fn)
    for db, do, nn in st.ghost.get("stores", ()):
        for b, bo, bn, bk in blocks:
            if db == b:
                out.ob(c, st, "content", either(e, st, do - (bo + bn), bo - (do + nn)),
                       "%s: nothing is stored into the text of call %d" % (label, bk), fn)
    # content
    copies = st.ghost.get("copies", ())
    for db, do, sb, so, cn in copies:
        for b, bo, bn, bk in blocks:
            if db == b and not (old is not None and bk == old[3] and (sb, so) == (db, do)):
                out.ob(c, st, "content", either(e, st, do - (bo + bn), bo - (do + cn)),
                       "%s: nothing is copied over the text of call %d" % (label, bk), fn)
    if old is not None:
        if base == old[0] and e.norm(st, off - old[1]) == ZERO:
            ok = True
        else:
            ok = None if st.ghost.get("stores") or o.cells else False
            for db, do, sb, so, cn in copies:
                if db == base and e.norm(st, do - off) == ZERO and sb == old[0] and e.norm(st, so - old[1]) == ZERO:
                    ok = decide(e, st, cn - old[2])
            if e.entails_ge(st, old[2].scale(-1)):
                ok = True
        out.ob(c, st, "content", ok, "%s: the content so far is kept" % label, fn)
        # in the new block nothing but the old content
        for db, do, sb, so, cn in copies:
            if db == base and base != old[0]:
                out.ob(c, st, "zeroed", decide(e, st, off + old[2] - (do + cn)),
                       "%s: the new bytes are zero" % label, fn)
        blocks = tuple(x for x in blocks if x[3] != old[3])
        kk = old[3]
    else:
        kk = k
    if old is None or base != old[0]:
        st.ghost["dirty"] = st.ghost.get("dirty", ()) + ((base, off, total),)
    else:
        st.ghost["dirty"] = tuple(x for x in st.ghost.get("dirty", ()) if x != old[:3]) + ((base, off, total),)
    st.ghost["last"] = (base, off, total, kk)
    st.ghost["blocks"] = blocks + ((base, off, total, kk),)


def both(a, b):
    return False if a is False or b is False else True if a and b else None


class Out:
    """obligations of the rules of one property"""

    def __init__(self, ctx, rules):
        self.ctx, self.rules, self.name = ctx, rules, ""

    def ob(self, c, st, rule, ok, msg, fn):
        if rule not in self.rules:
            return
        f = self.ctx.mod.fn(fn)
        self.ctx.ob(rule, ok, "%s: %s" % (self.name, msg), "%s:%s" % (f.file, f.line) if f else "", fn)

    def flush(self, c, fn):
        for rule, msg, loc, f in c.problems:
            if rule in self.rules:
                self.ctx.ob(rule, False, "%s: %s" % (self.name, msg), loc, f)
        c.problems = []


def all_sequences(ctx, rules):
    import itertools
    out = Out(ctx, rules)
    for n in range(1, 7 if ctx.thorough else 6):
        for w in itertools.product("mr", repeat=n):
            w = "".join(w)
            for fails in ((False, True) if n <= 3 else (False,)):
                if ctx.skip():
                    continue
                out.name = "new text/growing sequence %s%s" % (w, ", memory may run out" if fails else "")
                try:
                    sequences(ctx, w, fails, out)
                except AnalysisError as e:
                    ctx.give_up(out.name, e)


def induction(ctx, rules):
    """one call in an arbitrary state which satisfies the invariant:
    size <= capacity, mem has capacity bytes, everything behind size is zero and was never
    handed out, userPtr + userSize == mem + size"""
    m = ctx.mod
    out = Out(ctx, rules)
    F = {}
    try:
        for s, fs in (("CharArenaAllocator", ("initialSize", "current")),
                      ("Region", ("capacity", "size", "next", "mem", "userPtr", "userSize"))):
            for f in fs:
                F[f] = (m.off(s, f), m.fsize(s, f))
    except Exception as e:
        # another representation: the sequences decide
        ctx.ob("inductive", None, "the arena is represented differently: %s" % e)
        return
    for fn, op in ((MALLOC, "m"), (REALLOC, "r")):
        if ctx.skip():
            continue
        out.name = "any history before"
        c = Arena(ctx, False)
        e = c.eng
        e.deadline = ctx.deadline()
        from .core import State
        st = State()
        st.stack.append(Frame(ctx.fn(NEW), {}, None))
        par = lambda n, **k: e.param(n, None, ptr=False, nonneg=True, **k)
        I, cap, size, us, n = par("initial-size"), par("capacity"), par("size"), par("user-size"), par("n")
        arena = e.param("arena", "CharArenaAllocator")
        reg = e.new_heap(st, None, False, None, label="region")
        e.syms[reg.single()].ptype = "Region"
        mem = e.new_heap(st, cap, True, None, label="text memory")
        nxt = e.param("next-region", "Region")
        e.assume_ge0(st, cap - size)
        e.assume_ge0(st, size - us)
        a = Obj("ext", "ext")
        a.cells[F["initialSize"][0]] = (F["initialSize"][1], I)
        a.cells[F["current"][0]] = (8, reg)
        st.mem[arena.single()] = a
        r = Obj("heap", "ext")
        vals = {"capacity": cap, "size": size, "next": nxt, "mem": mem, "userPtr": mem + (size - us), "userSize": us}
        for f, v in vals.items():
            r.cells[F[f][0]] = (F[f][1], v)
        st.mem[reg.single()] = r
        mb = mem.single()
        st.ghost["arena"] = arena
        st.ghost["last"] = (mb, size - us, us, 0)
        st.ghost["blocks"] = ((mb, ZERO, size - us, -1), (mb, size - us, us, 0))
        st.ghost["dirty"] = st.ghost["blocks"][0][:3], st.ghost["blocks"][1][:3]
        try:
            rets = c.call(st, fn, [arena, n])
        except AnalysisError as x:
            ctx.give_up("%s in an arbitrary state" % fn, x)
            continue
        out.flush(c, fn)
        for t, v in rets:
            v = e.norm(t, v)
            if not v.t:
                out.ob(c, t, "failure", False, "NULL is returned although memory is left", fn)
                continue
            check(out, c, t, v, op, n, 1, fn)
            # the invariant
            b, off = e.resolve(t, v)
            _, _, total, _ = t.ghost["last"]
            g = {f: e.norm(t, e.read_cells(t, e.resolve(t, e.read_cells(t, arena.single(), F["current"][0], 8, "p"))[0], F[f][0], F[f][1],
                                           "p" if f in ("next", "mem", "userPtr") else "i")) for f in vals}
            if any(not isinstance(x, Lin) for x in g.values()):
                out.ob(c, t, "inductive", None, "the state after the call", fn)
                continue
            rb, ro = e.resolve(t, g["mem"])
            obj = t.mem.get(rb)
            ok = rb == b and ro == 0
            out.ob(c, t, "inductive", True if ok else None, "the current region holds the block", fn)
            if not ok:
                continue
            out.ob(c, t, "inductive", decide(e, t, obj.size - g["capacity"]), "the capacity is that of the memory", fn)
            out.ob(c, t, "inductive", decide(e, t, g["capacity"] - g["size"]), "the fill level stays below the capacity", fn)
            out.ob(c, t, "inductive", decide(e, t, g["size"] - lin(off) - total), "the fill level covers the block", fn)
            d = e.norm(t, g["userPtr"] - v)
            out.ob(c, t, "inductive", True if d == ZERO else False if not d.t else refuted(e, t, d.scale(-1) - 1) is False and None,
                   "the block is the one which can be grown", fn)
            out.ob(c, t, "inductive", both(decide(e, t, g["userSize"] - total), decide(e, t, total - g["userSize"])),
                   "the size of the block which can be grown", fn)
            cur = e.norm(t, e.read_cells(t, arena.single(), F["current"][0], 8, "p"))
            out.ob(c, t, "inductive", True if cur == reg or g["next"] == reg else False,
                   "the regions before are still known", fn)
