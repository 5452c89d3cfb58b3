"""Value-flow analysis of the import's result: for every way the file and the
XML parser can behave - not opened, empty, no parser context, an error in any
chunk or when the input is terminated, any number and size of reads, missing
arguments - the value returned and the messages logged on each path through the
import."""
from engine.io import IO, scenarios
from engine.lin import Lin, ZERO
from engine.doc import node, nodeset, rich, KINDS

SHARDS = 8


def logged(w, st):
    """levels logged so far; None if one is unknown"""
    out = []
    for rec in w.g(st, "log"):
        v = w.eng.norm(st, rec[0])
        out.append(v.c if isinstance(v, Lin) and not v.t else None)
    return out


def judge(ctx, w, name, st, v, good):
    e = w.eng
    loc = ctx.at("NodesetLoader_importFile")
    v = e.norm(st, v)
    val = None
    if isinstance(v, Lin):
        val = bool(v.c) if not v.t else True if e.entails_ge(st, v - 1) else False if e.known_0(st, v) else None
    op = "open" in st.ghost
    fn = "NodesetLoader_importFile"
    ctx.ob("verdict", None if val is None or (op and val != good) else val == good,
           "%s: the import returns %s" % (name, str(good).lower()), loc, fn)
    err = w.m.enums["NODESETLOADER_LOGLEVEL_ERROR"]
    l = logged(w, st)
    if not good:
        ctx.ob("logged", True if err in l else None if op or None in l else False,
               "%s: a failing import logs an error" % name, loc, fn)
    else:
        ctx.ob("logged", True if err not in l else None if op else False,
               "%s: a successful import logs no error" % name, loc, fn)


def run(ctx):
    doc = nodeset(node("UAObject", "i=1"))
    for name, cfg in scenarios(ctx.thorough):
        if ctx.skip():
            continue
        for prev in (None, dict(pieces=2), dict(opens=False), dict(pieces=2, fails=1)):
            w = IO(ctx, kinds=KINDS, unroll=500)
            states = w.new_loader()
            pre = ""
            if prev is not None:
                for k, v in prev.items():
                    setattr(w, k, v)
                states = [s for s, _ in w.load(rich(), states)]
                pre = "after %s import: " % ("a failed" if len(prev) > 1 or "opens" in prev else "another")
                for k in prev:
                    delattr(w, k)
            for k, v in cfg.items():
                setattr(w, k, v)
            for s in states:
                s.ghost.pop("log", None)
            with ctx.scenario(pre + name):
                for st, v in w.load(doc, states):
                    good = w.opens and w.creates and w.fails is None and w.pieces > 0
                    if w.fails is not None and "failed" not in st.ghost:
                        # the call that would have reported the error is never made
                        good = True
                    judge(ctx, w, pre + name, st, v, good)
                    e = w.eng
                    v = e.norm(st, v)
                    if not e.known_0(st, v):
                        ctx.ob("ends-early", True if "term" in st.ghost else None if "open" in st.ghost or v.t else False,
                               "%s: success is only reported after the parser checked that the document is complete" % (
                                   pre + name), ctx.at("Parser_run"), "Parser_run")
    if not ctx.skip():
        w = IO(ctx)
        for st, v in w.call(w.new_loader(), "NodesetLoader_importFile", lambda s: [s.ghost["loader"], ZERO]):
            judge(ctx, w, "no file context", st, v, False)
        w = IO(ctx)

        def fc(s):
            p = w.file_context(s)
            b, off = w.eng.resolve(s, p)
            s.mem[b].cells[off + w.m.off("NL_FileContext", "addNamespace")] = (8, ZERO)
            return [s.ghost["loader"], p]
        for st, v in w.call(w.new_loader(), "NodesetLoader_importFile", fc):
            judge(ctx, w, "no namespace callback", st, v, False)
    ctx.require("verdict", 40)
    ctx.require("logged", 40)
