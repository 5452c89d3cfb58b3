"""Value-flow analysis of the iteration: for documents with every number of
nodes per class, before and after sorting, the analysis determines which nodes
the caller's function gets, with which context, in which order and how often,
and what the iteration returns."""
from engine.graphs import *
from engine.family import family
from engine import counters
from engine.lin import ZERO, const, Lin
from engine.arena import Arena, decide, lin
from engine.core import State, Frame, Obj, Client

SHARDS = 8


def counts(r, exp):
    """exp: {class: number} -> returned and handed out per class"""
    r.alive("count")
    if r.skip:
        return
    w = r.w
    e = w.eng
    E = w.m.enums
    loc = r.ctx.at("NodesetLoader_forEachNode")
    for st, _ in r.result:
        for v, k in sorted((v, k) for k, v in E.items() if k.startswith("NODECLASS_")):
            s2 = st.copy()
            s2.ghost["seen"] = ()
            want = exp.get(k[len("NODECLASS_"):], 0)
            for s, n in w.call([s2], "NodesetLoader_forEachNode", lambda s: [
                    s.ghost["loader"], const(v), e.param("my-context"), e.param("cb:foreach")]):
                n = e.norm(s, n)
                r.ob(s, "count", None if n.t else n.c == want, "%s: the iteration over %s returns %s, the document has %d" % (
                    r.name, k, "?" if n.t else n.c, want), loc, "NodesetLoader_forEachNode")
                recs = w.g(s, "seen")
                r.ob(s, "count", len(recs) == want, "%s: the caller gets %d %s nodes, the document has %d" % (
                    r.name, len(recs), k, want), loc, "NodesetLoader_forEachNode")
                ps = [str(e.norm(s, x[1])) for x in recs]
                r.ob(s, "distinct", len(set(ps)) == len(ps), "%s: the caller gets every node once" % r.name, loc)
                cx = {shown(w, s, x[0]) for x in recs}
                r.ob(s, "context", cx <= {"my-context"}, "%s: the caller's context is passed to its function: %s" % (
                    r.name, sorted(map(str, cx))), loc)
                for x in recs:
                    m = w.snap(s, x[1], "NL_Node") or {}
                    r.ob(s, "class", None if m.get("nodeClass", UNK) == UNK else m["nodeClass"] == v,
                         "%s: a node handed out as %s is of that class" % (r.name, k), loc)


class Growing(Arena):
    """one call of the list in an arbitrary state"""

    def on_realloc(self, eng, st, old, new, inst):
        st.ghost["from"] = old

    def on_null(self, eng, st, v, what, inst, base):
        pass


def growing(ctx):
    """adding to a list of any length: size <= capacity, nodes has room for capacity entries"""
    m = ctx.mod
    fn = "NodeContainer_add"
    if ctx.skip() or m.fn(fn) is None:
        return
    F = {}
    try:
        for f in ("nodes", "size", "capacity", "incrementSize"):
            F[f] = (m.off("NodeContainer", f), m.fsize("NodeContainer", f))
    except Exception as x:
        ctx.ob("growth", None, "the list is represented differently: %s" % x)
        return
    c = Growing(ctx, False)
    e = c.eng
    e.deadline = ctx.deadline()
    st = State()
    st.stack.append(Frame(ctx.fn(fn), {}, None))
    par = lambda n: e.param(n, None, ptr=False, nonneg=True)
    V = {"capacity": par("capacity"), "size": par("size"), "incrementSize": par("increment")}
    e.assume_ge0(st, V["capacity"] - V["size"])
    e.assume_ge0(st, V["incrementSize"] - 1)
    # what the list itself has room for: some more than it says
    more = par("unused")
    V["nodes"] = e.new_heap(st, V["capacity"].scale(8) + more, False, None, label="list")
    box, new = e.param("list", "NodeContainer"), e.param("node", "NL_Node")
    o = Obj("ext", "ext")
    for f, v in V.items():
        o.cells[F[f][0]] = (F[f][1], v)
    st.mem[box.single()] = o
    loc = ctx.at(fn)
    stored = []
    put = c.on_store

    def on_store(eng, s, base, off, size, v, inst):
        put(eng, s, base, off, size, v, inst)
        if s.mem.get(base) is not None and s.mem[base].kind == "heap":
            s.ghost["put"] = s.ghost.get("put", ()) + ((base, lin(off), v),)
    c.on_store = on_store
    for t, _ in c.call(st, fn, [box, new]):
        g = {f: e.norm(t, e.read_cells(t, box.single(), F[f][0], F[f][1], "p" if f == "nodes" else "i")) for f in F}
        if any(not isinstance(x, Lin) for x in g.values()):
            ctx.ob("growth", None, "the state of the list after adding", loc, fn)
            continue
        b, off = e.resolve(t, g["nodes"])
        obj = t.mem.get(b)
        old = e.resolve(t, V["nodes"])[0]
        if obj is None or obj.size is None or off != 0:
            ctx.ob("growth", None, "the memory of the list after adding", loc, fn)
            continue
        ctx.ob("growth", decide(e, t, obj.size - g["capacity"].scale(8)),
               "a list of any length: its memory has room for the capacity it notes", loc, fn)
        ctx.ob("growth", decide(e, t, g["capacity"] - g["size"]), "a list of any length: the capacity covers the entries", loc, fn)
        d = e.norm(t, g["size"] - V["size"] - 1)
        ctx.ob("growth", True if d == ZERO else False if not d.t else None, "a list of any length: adding makes it one longer", loc, fn)
        puts = t.ghost.get("put", ())
        ok = None
        if len(puts) == 1:
            pb, po, v = puts[0]
            d = e.norm(t, po - V["size"].scale(8))
            ok = pb == b and e.norm(t, v) == new and (d == ZERO or (False if not d.t else None))
        ctx.ob("growth", ok, "a list of any length: the node is stored behind the others, and nothing else is", loc, fn)
        ctx.ob("growth", b == old or t.ghost.get("from") == old, "a list of any length: the other entries are kept", loc, fn)
        d = e.norm(t, g["incrementSize"] - 1)
        ctx.ob("growth", decide(e, t, d), "a list of any length: the list can grow again", loc, fn)
    for rule, msg, where, f in c.problems:
        ctx.ob("growth", False, "a list of any length: " + msg, where, f)


class Each(Client):
    pass


def any_length(ctx):
    """iterating over a list of any length"""
    m = ctx.mod
    fn = "Nodeset_forEachNode"
    if ctx.skip() or m.fn(fn) is None:
        return
    c = Each()
    e = ctx.engine(c, return_limit=100)
    e.deadline = ctx.deadline()
    loc = ctx.at(fn)
    mine, cb = e.param("my-context"), e.param("cb:foreach")

    def on_indirect(eng, st, inst, field, f, args):
        if eng.norm(st, f) == cb and args:
            v = eng.norm(st, args[0])
            ctx.ob("context", True if v == mine else None if not known(eng, st, v) else False,
                   "a list of any length: the caller's context is passed to its function", loc, fn)
        return None
    c.on_indirect = on_indirect
    st = State()
    st.stack.append(Frame(ctx.fn(fn), {}, None))
    try:
        e.invoke(st, ctx.fn(fn), [e.param("nodeset", "Nodeset"), e.param("class", None, ptr=False, nonneg=True), mine, cb], None)
    except AnalysisError as x:
        ctx.give_up("a list of any length", x)


def known(e, st, v):
    b, off = e.resolve(st, v)
    return b is None and not v.t or b is not None and b in e.syms and e.syms[b].kind in ("param", "alloc", "heap")


def run(ctx):
    counters.check(ctx, "src/nodes/NodeContainer.c", "src/Nodeset.c", "src/NodesetLoader.c")
    growing(ctx)
    any_length(ctx)
    for e in ELEMENTS:
        for n in (0, 1, 2, 5):
            r = analyse(ctx, "%d %s" % (n, e), [node(e, "i=%d" % (k + 1)) for k in range(n)], KINDS)
            counts(r, {CLASS[e]: n})
    for k, rnd in graphs(ctx, 24, "c24"):
        els = [rnd.choice(list(ELEMENTS)) for _ in range(rnd.randint(2, 14))]
        r = analyse(ctx, "nodes %s" % " ".join(els), [node(x, "i=%d" % (j + 1)) for j, x in enumerate(els)], KINDS)
        counts(r, {c: sum(CLASS[x] == c for x in els) for c in set(CLASS.values())})
    # more nodes than the list has room for at first
    for n in (101, 260):
        els = ["UAVariable" if j % 5 else "UAMethod" for j in range(n)] + ["UAObject"]
        r = Run(ctx, "%d nodes" % n, nodeset(*[node(x, "i=%d" % (j + 1)) for j, x in enumerate(els)]), unroll=2000)
        counts(r, {c: sum(CLASS[x] == c for x in els) for c in set(CLASS.values())})
    # before anything is imported or sorted
    if not ctx.skip():
        w = World(ctx)
        for st in w.new_loader():
            for v in range(8):
                for s, n in w.call([st.copy()], "NodesetLoader_forEachNode", lambda s: [
                        s.ghost["loader"], const(v), ZERO, w.eng.param("cb:foreach")]):
                    n = w.eng.norm(s, n)
                    ctx.ob("count", not n.t and n.c == 0 and not w.g(s, "seen"),
                           "without an import the iteration over class %d hands out nothing" % v, ctx.at("NodesetLoader_forEachNode"))
    ctx.require("count", 200)
    ctx.require("context", 100)
