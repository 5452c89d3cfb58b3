"""Ownership analysis of the import: for every way the file and the XML parser
can behave, and for documents that end at any element, the file handle, the
parser context and every object of the import are released exactly once on each
path, none is used afterwards, and what stays is reachable from the loader."""
from engine.io import IO, scenarios
from engine.world import World
from engine.lin import Lin, ZERO, const, S
from engine.doc import *

SHARDS = 8


def kept(w, st):
    e = w.eng
    roots = [S(b) for b in st.mem if e.syms[b].kind in ("param", "global") and b not in st.freed]
    roots.append(st.ghost["loader"])
    return e.reach(st, roots)


def judge(ctx, w, name, st):
    e = w.eng
    op = "open" in st.ghost
    fn = "NodesetLoader_importFile"
    loc = ctx.at(fn)
    for k, what in (("handle", "the file"), ("xctx", "the XML parser context"),
                    ("xdoc", "what the XML parser builds of a document type declaration")):
        h = st.ghost.get(k)
        if h is None:
            continue
        ctx.ob("released", True if h.single() in st.freed else None if op else False,
               "%s: %s is released when the import returns" % (name, what), loc, fn)
    live = kept(w, st)
    n = 0
    for s, lab in st.alloc.items():
        if s in st.freed or s in live or S(s) in (st.ghost.get("handle"), st.ghost.get("xctx"), st.ghost.get("xdoc")):
            continue
        ctx.ob("no-leak", None if op else False,
               "%s: the object allocated at %s is neither released nor kept by the loader" % (name, lab), loc, fn)
        n += 1
    if not n:
        ctx.ob("no-leak", True, "%s: every object of the import is released or kept by the loader" % name)


def run(ctx):
    bodies = [node("UAObject", "i=1", refs(ref("i=47", "i=2"))),
              node("UAVariable", "i=1", El("Value", (), El("uax:Int32", (), T("v", "3")))),
              node("UADataType", "i=1", El("Definition", [("Name", T("d"))], El("Field", [("Name", T("f"))])))]
    docs = []
    for b in bodies:
        d = nodeset(b)
        docs += [d[:k] for k in range(len(d) + 1)]
    def ways():
        for name, cfg in scenarios(ctx.thorough):
            yield name, cfg
            if cfg.get("opens", True) and cfg.get("pieces") in (1, 2, 3):
                yield name + ", with a document type declaration", dict(cfg, dtd=True)

    for name, cfg in ways():
        for j, doc in enumerate(docs if cfg == dict(pieces=2, fails=2) else [[], docs[-1]]):
            if ctx.skip():
                continue
            nm = "%s, document %d" % (name, j)

            def report(rule, st, inst, msg):
                ctx.ob(rule, None if "open" in st.ghost else False, "%s: %s" % (nm, msg),
                       w.eng.where(inst) if isinstance(inst, dict) else "")
            with ctx.scenario(nm):
                w = IO(ctx, report=report, own=True, unroll=500)
                w.real_sort = True
                for k, v in cfg.items():
                    setattr(w, k, v)
                w.when = 1
                states = [s for s, _ in w.load(doc)]
                for st in states:
                    judge(ctx, w, nm, st)
                # a second import into the same loader
                for k in cfg:
                    delattr(w, k)
                w.pieces, w.when = 2, 0
                states = [s for s, _ in w.load(docs[-1], states)]
                for st in states:
                    judge(ctx, w, nm + ", then another import", st)
    ctx.require("released", 60)
    ctx.require("no-leak", 60)
