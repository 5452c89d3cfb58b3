"""Value-flow and ownership analysis of sequences of API calls: every sequence
of up to three calls and longer drawn ones, with imports of two overlapping
files, imports with missing arguments, sorting, iterating and asking for the
encodings in any order, behind each other or not at all, with and without the
caller's logger and reference service.  What every call returns and hands out
is compared with a model of the loader's state."""
import itertools
from engine.graphs import *
from engine.world import World
from engine.lin import Lin, ZERO, const

SHARDS = 8


def files():
    a = [("OBJECT", "i=1", [refs(ref("i=47", "ns=1;s=b", label="a1"))], {}), ("VARIABLE", "i=2", [], {}),
         ("OBJECT", "i=3", [refs(ref("i=38", "i=9", "false", label="a3"))], dict(bn="Default Binary")),
         ("REFERENCETYPE", "i=9600", [refs(ref("i=45", "i=33", "false", label="a4"))], {})]
    b = [("METHOD", "i=4", [refs(ref("i=47", "ns=1;s=b", "false", label="b1"))], {}), ("OBJECT", "i=1", [], {}),
         ("VIEW", "ns=1;s=b", [], {}), ("OBJECT", "i=5", [refs(ref("i=38", "ns=1;s=q", "false", label="b2"))], dict(bn="Default Binary"))]
    elem = {c: e for e, c in CLASS.items()}
    enc = {"A": [((0, "i=9"), (0, "i=3"))], "B": [((1, "s=q"), (0, "i=5"))]}
    v = [("VIEW", "i=6", [], {})]
    return {k: (nodeset(*[node(elem[c], i, *x, **kw) for c, i, x, kw in l]), [(c, nid(i)) for c, i, _, _ in l], enc.get(k, []))
            for k, l in (("A", a), ("B", b), ("V", v), ("Q", []))}


def failing():
    """documents whose import fails before it has completed a node: (events, fault)"""
    t = nodeset(node("UAVariable", "i=1", refs(ref("i=47", "ns=1;s=b", label="t1")), El("Value", (), El("Int32", (), T("tv", "1")))))
    return {"T": (t[:-5], "truncated"), "X": ([], "broken"), "F": ([], "open"), "M": ([], "empty")}


class Model:
    def __init__(self):
        self.known, self.sorted, self.enc = {}, [], []
        self.any = self.failed = False

    def load(self, nodes, enc):
        self.any = True
        for c, i in nodes:
            self.known.setdefault(i, c)
        self.enc = enc[::-1] + self.enc

    def sort(self):
        self.sorted = list(self.known.items())


NAMES = {"A": "import of file A", "B": "import of file B", "V": "import of a view", "Q": "import of an empty nodeset",
         "T": "import of a truncated file", "X": "import of no XML", "F": "import of no file", "M": "import of an empty file", "S": "sort", "E": "iteration", "R": "encodings", "0": "import without a file context",
         "N": "import without addNamespace"}


def sequence(ctx, word, **kw):
    F, FF = files(), failing()
    mdl = Model()
    kinds = dict(KINDS)
    kinds[(0, "i=9600")] = "H"
    name = ", ".join(NAMES[x] for x in word) + "".join(", %s" % k for k, v in kw.items())
    bad = []

    def report(rule, st, inst, msg):
        bad.append(1)
        ctx.ob("no-misuse", None if "open" in st.ghost else False, "%s: %s" % (name, msg),
               w.eng.where(inst) if isinstance(inst, dict) else "", st.stack[-1].fn.src if st.stack else "")
    with ctx.scenario(name):
        w = World(ctx, report=report, own=True, real_sort=True, kinds=kinds, ns_index={0: 1, 1: 1, 2: 1}, **kw)
        E = w.m.enums
        states = w.new_loader()
        for k, x in enumerate(word):
            step = "%s: call %d (%s)" % (name, k + 1, NAMES[x])

            def result(rule, rets, want, fn):
                for st, v in rets:
                    v = w.eng.norm(st, v)
                    ok = None if v.t or "open" in st.ghost else v.c == want
                    ctx.ob(rule, ok, "%s returns %s, not %s" % (step, v.c if not v.t else "?", want), ctx.at(fn), fn)
                return [s for s, _ in rets]
            if x in F:
                r = w.load(F[x][0], states)
                mdl.load(F[x][1], F[x][2])
                states = result("import", r, 1, "NodesetLoader_importFile")
            elif x in FF:
                r = w.load(FF[x][0], states, fault=FF[x][1])
                mdl.failed = True
                states = result("import", r, 0, "NodesetLoader_importFile")
            elif x in "0N":
                def fc(s):
                    if x == "0":
                        return ZERO
                    return w.iface(s, "bad-context", "NL_FileContext", {"userContext": ZERO, "file": w.eng.param("file-name"),
                                                                        "addNamespace": ZERO, "extensionHandling": ZERO})
                w.events, w.fault = F["A"][0], None
                r = w.call(states, "NodesetLoader_importFile", lambda s: [s.ghost["loader"], fc(s)])
                states = result("import", r, 0, "NodesetLoader_importFile")
            elif x == "S":
                r = w.sort(states)
                mdl.sort()
                if mdl.any or not mdl.failed:
                    result("sort", r, int(mdl.any), "NodesetLoader_sort")
                states = [s for s, _ in r]
            elif x == "R":
                r = w.call(states, "NodesetLoader_getBidirectionalRefs", lambda s: [s.ghost["loader"]])
                for st, v in r:
                    got, n = [], 0
                    v = w.eng.norm(st, v)
                    while v.t and n < 20:
                        m = w.snap(st, v, "NL_BiDirectionalReference")
                        got.append((m.get("source"), m.get("target")))
                        v = w.eng.norm(st, m["next"]) if isinstance(m.get("next"), Lin) else next_of(w, st, v)
                        n += 1
                    ctx.ob("encodings", True if got == mdl.enc else None if undecided(got) else False,
                           "%s yields %s" % (step, ", ".join("%s>%s" % (show(a), show(b)) for a, b in got) or "nothing"),
                           ctx.at("NodesetLoader_getBidirectionalRefs"), "NodesetLoader_getBidirectionalRefs")
                states = [s for s, _ in r]
            elif x == "E":
                for st, l in w.nodes([s.copy() for s in states]):
                    got = []
                    for c, n, cx in l:
                        m = w.snap(st, n, w.STRUCT[c]) or {}
                        got.append((m.get("id", UNK), c))
                    want = mdl.sorted
                    ctx.ob("iteration", True if sorted(map(str, got)) == sorted(map(str, want)) else None if undecided(got) else False,
                           "%s hands out %s" % (step, ", ".join("%s %s" % (c, show(i)) for i, c in got) or "nothing"),
                           ctx.at("NodesetLoader_forEachNode"), "NodesetLoader_forEachNode")
        ctx.ob("no-misuse", True if states else None, "%s: analysed to its end" % name)
        for st in w.delete(states):
            left = sorted({lab for b, lab in st.alloc.items() if b not in st.freed})
            ctx.ob("no-misuse", not left or (None if "open" in st.ghost else False),
                   "%s: after the deletion the object allocated at %s is left" % (name, ", ".join(left)),
                   ctx.at("NodesetLoader_delete"), "NodesetLoader_delete")


def next_of(w, st, v):
    b, off = w.eng.resolve(st, v)
    return w.eng.norm(st, w.eng.read_cells(st, b, (off or 0) + w.m.off("NL_BiDirectionalReference", "next"), 8, "p"))


def run(ctx):
    words = [""]
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        words += ["".join(x) for x in itertools.product("ABSER0N" if n < 3 else "ABSER0", repeat=n)]
    words += ["VS", "QS", "QSE", "VSE", "QASE", "VASEVSE"]
    words += [x.replace("f", f) for x in ("f", "fS", "fSE", "AfSE", "fASE", "ASfSE", "ASffR", "AfBSER") for f in "TXFM"]
    for k, rnd in graphs(ctx, 96, "c30"):
        words.append("".join(rnd.choice("AABBVQSSEERN0TXFM") for _ in range(rnd.randint(4, 9))))
    for j, x in enumerate(words):
        if ctx.skip():
            continue
        sequence(ctx, x, **([{}, {"logger": False}, {"internal_refs": True}, {"logger": False, "internal_refs": True}][j % 4] if len(x) > 1 else {}))
    ctx.require("import", 200)
    ctx.require("iteration", 50)
    ctx.require("no-misuse", 200)
