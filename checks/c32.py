"""Analysis of everything that is logged.  Every call with a format - of a
logger, of the printf family and of functions which pass a format on - is
looked up in the intermediate representation: its format must be constant and
its conversions must agree in number and type with the arguments, its level must
be a defined one.  The loggers the repository provides (the default logger and
the one of the open62541 backend) are interpreted abstractly for every level,
and so are histories of a loader which log: context, level, message and the
lengths of the texts passed."""
from engine import fmt
from engine.core import Client, AnalysisError, Infeasible, Frame, State
from engine.lin import Lin, ZERO, const, S
from engine.graphs import *
from engine.history import everything
from engine.world import World

LEVELS = {"DEBUG": "debug", "WARNING": "warn", "ERROR": "err"}
OUT = set(fmt.PRINTF) | set(fmt.VPRINTF) | {"puts", "fputs", "putchar", "fputc", "putc", "fwrite", "putc_unlocked"}


def levels(ctx):
    E = ctx.mod.enums
    return {k: E["NODESETLOADER_LOGLEVEL_" + k] for k in LEVELS}


def calls(ctx):
    m = ctx.mod
    lv = set(levels(ctx).values())
    found, wrap = fmt.sites(m)
    for x in found:
        loc = "%s:%d" % tuple(x.inst["loc"])
        ctx.functions.add(x.fn.src)
        ctx.sites.add((x.fn.src, x.inst["id"]))
        where = "%s in %s" % (loc.split("/")[-1], x.fn.src)
        for f in x.fmt:
            if f[0] == "param":
                ok = True           # its callers are looked at
            elif f[0] == "unknown":
                ok = None
            elif f[0] == "variable":
                ctx.ob("format", False, "%s: the format is %s" % (where, f[1]), loc, x.fn.src)
                continue
            else:
                c = fmt.conversions(f[1])
                if c is None:
                    ctx.ob("format", False, "%s: the format \"%s\" is malformed" % (where, f[1]), loc, x.fn.src)
                    continue
                if x.kind == "list":
                    continue
                have = ["fp" if a["ty"] in ("double", "float", "x86_fp80") else a["ty"] for a in x.rest or ()]
                ok = have == c
                ctx.ob("format", ok, "%s: the format \"%s\" needs (%s), the arguments are (%s)" % (
                    where, f[1], ", ".join(c), ", ".join(have)), loc, x.fn.src)
                continue
            ctx.ob("format", ok, "%s: the format is not a constant" % where, loc, x.fn.src)
        if x.level is not None:
            ok = x.level[2] in lv if x.level[0] == "c" else True if x.level[0] == "v" and x.level[1] < len(x.fn.params) and x.fn.name in wrap else None
            ctx.ob("level", ok, "%s: level %s" % (where, x.level[2] if x.level[0] == "c" else "?"), loc, x.fn.src)


class Printing(Client):
    """records what is printed"""

    def __init__(self):
        self.problems = []

    def on_call(self, eng, st, inst, name, args):
        if name in OUT or name in ("va_start", "va_end", "va_copy"):
            st.ghost["out"] = st.ghost.get("out", ()) + ((name, tuple(eng.norm(st, a) if isinstance(a, Lin) else a for a in args)),)
            if name in OUT:
                return [(st, eng.term("printed", const(len(st.ghost["out"]))) if inst["ty"] != "void" else None)]
        return None

    def on_indirect(self, eng, st, inst, field, fp, args):
        st.ghost["out"] = st.ghost.get("out", ()) + (("indirect:%s.%s" % (field or ("?", "?"))[:2] if isinstance(field, tuple) else "indirect:%s" % (field,),
                                                     tuple(eng.norm(st, a) if isinstance(a, Lin) else a for a in args)),)
        return [(st, None)]

    def on_null(self, eng, st, *a):
        self.problems.append(a)


def variadic(f):
    return not f.decl and [p["ty"] for p in f.params] == ["p", "i32", "p"] and any(
        i["op"] == "call" and (i.get("fn") or "").startswith("llvm.va_start") for b in f.blocks for i in b)


def output(e, st, args):
    """text of the constant strings printed by a call"""
    out = []
    for a in args:
        if isinstance(a, Lin):
            try:
                t = e.const_str(st, a)
            except Exception:
                t = None
            if t:
                out.append(t)
    return out


def lists(ctx, name, outs, va, fn):
    """the caller's list of arguments is started, read once and ended"""
    started = [o for o in outs if o[0] == "va_start"]
    ended = [o for o in outs if o[0] == "va_end"]
    copies = [o for o in outs if o[0] == "va_copy"]
    ctx.ob("arguments", len(started) + len(copies) == len(ended), "%s: %d argument list(s) started, %d ended" % (
        name, len(started) + len(copies), len(ended)), ctx.at(fn.src), fn.src)
    return started


def default_logger(ctx):
    """the logger used when the caller gives none"""
    m = ctx.mod
    fns = [f for f in m.fns.values() if variadic(f) and "/backends/" not in f.file]
    for f in fns:
        for L, v in levels(ctx).items():
            name = "%s, level %s" % (f.src, L)
            with ctx.scenario(name):
                c = Printing()
                e = ctx.engine(c, return_limit=64, MAX_STATES=200)
                msg = e.param("message", "char")
                st0 = State()
                cx = e.param("context")
                st0.stack.append(Frame(f, {}, None))
                rets = e.invoke(st0, f, [cx, const(v), msg], None)
                ctx.ob("decided", True if rets else None, "%s returns" % name)
                for st, _ in rets:
                    outs = st.ghost.get("out", ())
                    lists(ctx, name, outs, None, f)
                    used = [o for o in outs if o[0] in fmt.VPRINTF and o[1][fmt.VPRINTF[o[0]]] == e.norm(st, msg)]
                    ctx.ob("printed", len(used) == 1, "%s: the message with its arguments is printed %d times" % (name, len(used)), ctx.at(f.src), f.src)
                    for o in outs:
                        if o[0] in fmt.PRINTF and o[1][fmt.PRINTF[o[0]]] == e.norm(st, msg):
                            ctx.ob("printed", False, "%s: the message is printed without its arguments" % name, ctx.at(f.src), f.src)
                    va = [o[1][0] for o in outs if o[0] in ("va_start",)]
                    for o in used:
                        l = o[1][-1]
                        ok = any(e.resolve(st, l)[0] == e.resolve(st, x)[0] for x in va)
                        before = [k for k, p in enumerate(outs) if p[0] == "va_start"]
                        at = outs.index(o)
                        ends = [k for k, p in enumerate(outs) if p[0] == "va_end"]
                        ok = ok and any(k < at for k in before) and all(k > at for k in ends)
                        ctx.ob("arguments", ok, "%s: the message is printed with the caller's arguments" % name, ctx.at(f.src), f.src)
                    said = " ".join(" ".join(output(e, st, o[1])) for o in outs if o[0] in OUT).lower()
                    names = {k for k, w in LEVELS.items() if w in said}
                    ctx.ob("level-name", True if names == {L} else None if not said.strip() else False,
                           "%s: prints the level as \"%s\"" % (name, said.strip()), ctx.at(f.src), f.src)


def created(ctx):
    """without a logger every loader has one of its own that works"""
    m = ctx.mod
    fns = {f.name for f in m.fns.values() if variadic(f) and "/backends/" not in f.file}
    with ctx.scenario("a loader without a logger"):
        w = World(ctx, report=lambda *a: None, logger=False)
        states = w.new_loader()
        for st in states:
            b, off = w.eng.resolve(st, st.ghost["loader"])
            lg = w.eng.norm(st, w.eng.read_cells(st, b, (off or 0) + m.off("NodesetLoader", "logger"), 8, "p"))
            lb, lo = w.eng.resolve(st, lg)
            ok = None
            if lb is not None:
                fp = w.eng.norm(st, w.eng.read_cells(st, lb, (lo or 0) + m.off("NodesetLoader_Logger", "log"), 8, "p"))
                s = fp.single() if isinstance(fp, Lin) else None
                ok = s is not None and w.eng.syms[s].kind == "fn" and w.eng.syms[s].key[0] in fns
            ctx.ob("default", ok, "a loader created without a logger gets a default one", ctx.at("NodesetLoader_new"), "NodesetLoader_new")


def backend_logger(ctx):
    m = ctx.mod
    E = m.enums
    for f in [f for f in m.fns.values() if variadic(f) and "/backends/" in f.file]:
        for L, v in levels(ctx).items():
            name = "%s, level %s" % (f.src, L)
            with ctx.scenario(name):
                c = Printing()
                e = ctx.engine(c, return_limit=64, MAX_STATES=200)
                lg = e.param("server-logger", "UA_Logger")
                msg = e.param("message", "char")
                st0 = State()
                st0.stack.append(Frame(f, {}, None))
                for st, _ in e.invoke(st0, f, [lg, const(v), msg], None):
                    outs = st.ghost.get("out", ())
                    lists(ctx, name, outs, None, f)
                    ind = [o for o in outs if o[0].startswith("indirect")]
                    ctx.ob("backend", len(ind) == 1, "%s: the server's logger is called %d times" % (name, len(ind)), ctx.at(f.src), f.src)
                    for o in ind:
                        a = o[1]
                        ok = len(a) == 5 and not a[1].t and a[1].c == E["UA_LOGLEVEL_" + L]
                        ctx.ob("backend", ok, "%s: is passed on as level %s of the server, not UA_LOGLEVEL_%s" % (name, a[1].c if not a[1].t else "?", L), ctx.at(f.src), f.src)
                        ctx.ob("backend", len(a) == 5 and a[3] == e.norm(st, msg), "%s: the message is passed on" % name, ctx.at(f.src), f.src)
                        own = e.norm(st, e.read_cells(st, lg.single(), m.off("UA_Logger", "context"), 8, "p"))
                        ctx.ob("backend", a[0] == own, "%s: the logger gets its context" % name, ctx.at(f.src), f.src)
                        va = [x[1][0] for x in outs if x[0] == "va_start"]
                        ok = any(e.resolve(st, a[4])[0] == e.resolve(st, x)[0] for x in va) and outs.index(o) < max(
                            [k for k, p in enumerate(outs) if p[0] == "va_end"] or [0])
                        ctx.ob("arguments", ok, "%s: the arguments are passed on" % name, ctx.at(f.src), f.src)


def histories(ctx):
    ids = [("s=a", "i=9502"), ("s=b", "i=47"), ("s=c", "i=9502")]
    never = dict(KINDS)
    never[(0, "i=9502")] = "U"
    docs = [("unresolved", never, nodeset(*[node("UAObject", i, refs(ref(t, "s=x", label=i))) for i, t in ids]), {(0, "s=a"), (0, "s=c")}),
            ("unresolved type", never, nodeset(node("UAReferenceType", "s=t", refs(ref("i=9502", "s=x", label="1")))), {(0, "s=t")}),
            ("duplicates", KINDS, nodeset(*[node("UAObject", "s=a")] * 3), None),
            ("a loop", KINDS, nodeset(node("UAObject", "s=a", refs(ref("i=47", "s=b", label="1"))), node("UAObject", "s=b", refs(ref("i=47", "s=a", label="2")))), None)]
    docs += [("document %d" % k, KINDS, d, None) for k, d in enumerate(everything())]
    docs += [("document %d, cut off" % k, KINDS, d[:len(d) // 2], None) for k, d in enumerate(everything())]
    lv = set(levels(ctx).values())
    for name, kinds, d, named in docs:
        if ctx.skip():
            continue
        with ctx.scenario(name):
            w = World(ctx, report=lambda *a: None, kinds=kinds, real_sort=True)
            states = [s for s, _ in w.load(d)]
            states = [s for s, _ in w.sort(states)]
            states = [s for s, _ in w.call(states, "NodesetLoader_importFile", lambda s: [s.ghost["loader"], ZERO])]
            for st in states:
                e = w.eng
                for rec in w.g(st, "log"):
                    level, cx, msg = rec[:3]
                    s = cx.single() if isinstance(cx, Lin) else None
                    ok = s is not None and e.syms[s].kind == "param" and e.syms[s].key[0] == "logger-context"
                    ctx.ob("context", ok, "%s: the logger is called with its context" % name)
                    ctx.ob("level", None if level.t else level.c in lv, "%s: level %s is logged" % (name, level.c if not level.t else "?"))
                    t = e.const_str(st, msg) if msg.t else None
                    ctx.ob("message", False if not msg.t else True if t else None, "%s: the message is a text" % name)
                    if t and "%.*s" in t:
                        # the length belongs to the text, which is the id of the node concerned
                        pr = [p for p in w.g(st, "printed") if e.norm(st, p[0]) == rec[4]]
                        ok = None
                        if pr:
                            n = e.norm(st, pr[-1][1])
                            k = e.syms[rec[3].single()].key if rec[3].single() is not None else None
                            ok = rec[3] == n or k is not None and k[0] == "trunc" and k[1] == n.single() or (False if not rec[3].t else None)
                        ctx.ob("text-length", ok, "%s: the length passed is that of the text" % name)
                        if named is not None and pr:
                            got = pr[-1][2]
                            ctx.ob("names-node", None if undecided(got) else got in named, "%s: the message names %s" % (name, show(got)),
                                   ctx.at("Nodeset_sort"), "Nodeset_sort")


def run(ctx):
    calls(ctx)
    default_logger(ctx)
    created(ctx)
    backend_logger(ctx)
    histories(ctx)
    ctx.require("format", 10)
    ctx.require("level", 10)
    ctx.require("context", 10)
