"""Effect analysis.  For every function of the library and its backend the
roots of every address written to - by stores, by functions of the C library or
by functions called - are determined: none leads to static data, and no function
is called that changes something the whole process shares.  For histories of
loaders the abstract interpreter determines the object of every write and
release: none is the caller's (interfaces, contexts, file context, attributes
and texts of the parser) or belongs to another loader."""
from engine.effects import Effects
from engine.history import *
from engine.family import Gen

SHARDS = 8
RULES = ("foreign-write", "foreign-release")


class Foreign(World):
    writes = 0

    def __init__(self, ctx, no_contexts=False, **kw):
        World.__init__(self, ctx, **kw)
        self.no_contexts = no_contexts

    def iface(self, st, name, struct, members):
        """the caller's interfaces may come without a context"""
        if self.no_contexts:
            members = {k: ZERO if k in ("context", "userContext") else v for k, v in members.items()}
        return World.iface(self, st, name, struct, members)

    def foreign(self, eng, st, base):
        y = eng.syms[base]
        if y.kind == "param":
            return "the caller's " + y.key[0].split(":")[0] if y.key[0].split(":")[0] != "text" else "a text of the parser"
        if y.kind == "global":
            return "the static object %s" % y.key[0]
        return None

    def on_range(self, eng, st, base, off, n, what, inst):
        if what == "write":
            self.writes += 1
            f = self.foreign(eng, st, base)
            if f:
                self.report("foreign-write", st, inst, "%s is written to" % f)

    def on_free(self, eng, st, base, inst, what):
        f = self.foreign(eng, st, base)
        if f:
            self.report("foreign-release", st, inst, "%s is released" % f)
        return World.on_free(self, eng, st, base, inst, what)


class Alone(History):
    world = Foreign
    rules = RULES


def globals_(ctx):
    m = ctx.mod
    e = Effects(m)
    bad = {}
    for f, i, g, what in e.violations():
        bad.setdefault(f.name, []).append((i, "the static object %s is written to (%s)" % (g, what)))
    proc = {}
    for f, i, n in e.process():
        proc.setdefault(f.name, []).append((i, "%s changes something the whole process shares" % n))
    for rule, found in (("global-write", bad), ("process-effect", proc)):
        for f in e.fns:
            ctx.functions.add(f.src)
            for i, msg in found.get(f.name, ()):
                loc = "%s:%d" % tuple(i["loc"]) if i.get("loc") else ""
                ctx.ob(rule, False, "%s: %s" % (f.src, msg), loc, f.src)
            if f.name not in found:
                ctx.ob(rule, True, f.src)
    for n, g in sorted(m.globals.items()):
        if not g["const"] and g.get("init") is not None:
            ctx.ob("global-write", True, "%s is not constant but never written" % n)


def two_loaders(ctx, name, d, kinds, second, **kw):
    """what is done with one loader is the same whether or not another one is used in between"""
    with ctx.scenario(name):
        w = World(ctx, kinds=kinds, internal_refs=True, real_sort=True, ns_index={k: 1 for k in range(9)}, **kw)

        def outcome(mixed):
            states = w.new_loader()
            for s in states:
                s.ghost["first"] = s.ghost["loader"]

            def other(states):
                if not mixed:
                    return states
                out = []
                for s in states:
                    if "second" in s.ghost:
                        s.ghost["loader"] = s.ghost["second"]
                        out.append(s)
                    else:
                        for x, v in w.call([s], "NodesetLoader_new", lambda q: [ZERO, ZERO]):
                            x.ghost["second"] = x.ghost["loader"] = v
                            out.append(x)
                for x in second[min(len(done), len(second) - 1)]:
                    out = [s for s, _ in (w.sort(out) if x == "sort" else w.load(x, out))]
                done.append(1)
                for s in out:
                    s.ghost["loader"] = s.ghost["first"]
                return out
            done = []
            states = other(states)
            res = []
            states = [s for s, v in w.load(d[0], states)]
            states = other(states)
            for x in d[1:]:
                states = [s for s, v in w.load(x, states)]
            r = w.sort(states)
            for s, v in r:
                res.append(("sort", str(s.stack and v or v)))
            states = other([s for s, _ in r])
            for st, l in w.nodes(states):
                res.append(tuple(sorted("%s %s" % (c, sorted((k, show(v)) for k, v in (w.snap(st, n, w.STRUCT[c]) or {}).items()
                                                              if k not in ("extension",) and v is not UNK)) for c, n, cx in l)))
            return res
        a, b = outcome(False), outcome(True)
        ctx.ob("independent", True if a == b else None if not a or not b or "?" in str(a) + str(b) else False,
               "%s: the first loader hands out %s, without the second one %s" % (name, str(b)[:400], str(a)[:400]),
               ctx.at("NodesetLoader_importFile"), "NodesetLoader_importFile")


def run(ctx):
    if not ctx.skip():
        globals_(ctx)

    def hist(name, steps, kinds=KINDS, **kw):
        if not ctx.skip():
            Alone(ctx, name, kinds, steps, **kw)
    docs = everything()
    late = dict(KINDS)
    late[(0, "i=9501")] = ("late", "H")
    for j, d in enumerate(docs):
        for kw in ({}, {"internal_refs": True}, {"logger": False}, {"ext": False}, {"no_contexts": True}):
            hist("document %d %s" % (j, kw), [("load", d), "sort", ("each", 1), "refs"], **kw)
        hist("document %d behind document %d" % (j, (j + 1) % len(docs)), [("load", docs[(j + 1) % len(docs)]), "sort", ("load", d), "sort", "refs"])
        for k in range(0, len(d), 1 if ctx.thorough else 5):
            hist("document %d up to its element %d" % (j, k), [("load", d[:k])])
        for k, (what, v) in enumerate(variants(d)):
            if ctx.thorough or (k + j) % 6 == 0:
                hist("document %d %s" % (j, what), [("load", v), "sort"])
    hist("deferred nodes", [("load", nodeset(node("UAObject", "s=a", refs(ref("i=9501", "s=zz", label="1"))), node("UAReferenceType", "i=9501"))),
                            "sort", ("each", 1)], late)
    for k, rnd in graphs(ctx, 40, "c33"):
        g = Gen("c33/%d" % k)
        hist("document %d of the family" % k, [("load", g.document()), "sort", ("each", 1)], g.kinds, ns_index=dict(enumerate(g.idx)))
    # two loaders
    R = lambda k, sup, lab, u="urn:1": nodeset(El("NamespaceUris", (), El("Uri", (), T(u, u))),
                                    node("UAReferenceType", "ns=1;s=rt%d" % k, refs(ref("i=45", sup, "false", label=lab))))
    use = lambda a, b: nodeset(node("UAObject", "s=u", refs(ref("ns=1;s=rt1", "ns=1;s=x", label="u1"), ref("ns=1;s=rt2", "ns=1;s=x", label="u2"))),
                               node("UAVariable", "s=v", refs(ref("i=40", "i=63", label="u3"), ref("A", "ns=1;s=y", label="u4")), attrs=[("DataType", T("udt", "A"))]))
    al = lambda t: nodeset(El("Aliases", (), El("Alias", [("Alias", T("al" + t, "A"))], T("at" + t, t))))
    for j, (d, second) in enumerate([
            ([use(1, 2)], [[R(1, "i=33", "s1")]]),
            ([R(1, "i=33", "f1"), use(1, 2)], [[R(2, "i=33", "s1"), "sort"]]),
            ([R(1, "i=33", "f1"), use(1, 2)], [[R(2, "i=33", "s1")], [use(1, 2), "sort"], [R(1, "i=32", "s2")]]),
            ([R(1, "ns=1;s=rt2", "f1"), use(1, 2)], [[R(2, "i=33", "s1", "urn:2"), "sort"], ["sort", use(1, 2)]]),
            ([al("i=45"), use(1, 2)], [[al("i=47")], [al("i=32")]]),
            ([use(1, 2)], [[al("i=47"), use(1, 2)], ["sort"]])]):
        if not ctx.skip():
            two_loaders(ctx, "two loaders, case %d" % j, d, dict(KINDS), second)
    ctx.require("global-write", 50)
    ctx.require("process-effect", 50)
    ctx.require("foreign-write", 50)
    ctx.require("independent", 4)
