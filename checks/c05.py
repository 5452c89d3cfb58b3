"""Dataflow analysis from the file to the XML parser: every buffer is followed
as a range of positions of the file (linear expressions over the symbolic
results of the reads), and every call that hands bytes to the parser must
continue exactly where the previous one ended, whatever the number and the size
of the reads; an import that succeeds has handed over everything it read, has
read everything, and has told the parser that the input ends."""
from engine.io import IO, scenarios
from engine.lin import Lin, ZERO, const

SHARDS = 8


def run(ctx):
    fn = "Parser_run"
    loc = ctx.at("Parser_run")
    for name, cfg in scenarios(ctx.thorough):
        if ctx.skip():
            continue
        for second in (False, True):
            w = IO(ctx, unroll=500)
            states = w.new_loader()
            nm = name
            if second:
                w.pieces = 2
                states = [s for s, _ in w.load([], states)]
                nm = "second import, " + name
                del w.pieces
            for k, v in cfg.items():
                setattr(w, k, v)

            def fed_ob(st, inst, ok, k, what, w=w, nm=nm):
                ctx.ob("in-order", ok, "%s: the bytes handed to %s are those that follow the bytes handed over before" % (
                    nm, what), w.eng.where(inst), fn)

            def sized(st, inst, ok, w=w, nm=nm):
                ctx.ob("fits", ok, "%s: the buffer holds as much as is read from the file" % nm, w.eng.where(inst), fn)
            w.fed_ob, w.sized = fed_ob, sized
            with ctx.scenario(nm):
                for st, v in w.load([], states):
                    e = w.eng
                    v = e.norm(st, v)
                    op = "open" in st.ghost
                    for p in w.g(st, "opened"):
                        ok = p == e.param("file-name")
                        ctx.ob("named-file", True if ok else None if op else False,
                               "%s: the file opened is the one the caller names" % nm, loc, fn)
                    if e.known_0(st, v):
                        continue
                    if not (isinstance(v, Lin) and (e.entails_ge(st, v - 1) or not v.t)):
                        ctx.ob("complete", None, "%s: result unknown" % nm)
                        continue
                    c = w.complete(e, st)
                    ctx.ob("complete", True if c is True else None if c is None or op else False,
                           "%s: a successful import has handed over the whole file and its end%s" % (
                               nm, "" if c is True or c is None else ": " + c), loc, fn)
    ctx.require("in-order", 30)
    ctx.require("complete", 8)
    ctx.require("named-file", 10)
