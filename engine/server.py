"""What a server is given by NodesetLoader_loadFile, compared with what the
documents say."""
from .backend import *
from .doc import CLASS, differs, verdict
from .core import AnalysisError
from .lin import Lin, ZERO, const, S

ORG, COMP, PROP, SUBT, ENC, TYPEDEF = "i=35", "i=47", "i=46", "i=45", "i=38", "i=40"
EMPTY = ("lit", "")
URIS = El("NamespaceUris", (), El("Uri", (), T("uri1", "urn:1")), El("Uri", (), T("uri2", "urn:2")))
NS = {0: 5, 1: 3}           # the server's indexes of the file's namespaces
ADDORDER = ["REFERENCETYPE", "DATATYPE", "OBJECTTYPE", "VARIABLETYPE", "OBJECT", "METHOD", "VARIABLE", "VIEW"]
ELEM = {c: e for e, c in CLASS.items()}


def sid(text, ns=NS):
    """the server's id for an id of the file"""
    i = nid(text)
    return (i[0] and ns[i[0] - 1], i[1])


class Load:
    """files loaded one behind the other into one server"""

    def __init__(self, ctx, name, *files, world=None, states=None, faults=(), paths=(), **kw):
        self.ctx, self.name, self.problems, self.result, self.w = ctx, name, [], [], None
        self.skip = ctx.skip() if world is None else False
        if self.skip:
            return
        try:
            self.problems0 = self.problems
            kw.setdefault("ns_index", NS)
            w = self.w = world or Backend(ctx, report=self.problem, **kw)
            w.eng.deadline = ctx.deadline()
            for k, f in enumerate(files):
                if isinstance(f, dict):
                    w.ns_index, f = f["ns"], f["file"]
                if states is not None:
                    for s in states:
                        s.ghost.pop("namespaces", None)
                r = w.load_file(f, states, fault=faults[k] if k < len(faults) else None)
                states = [s for s, _ in r]
                self.result = r
        except AnalysisError as e:
            ctx.give_up(name, e)
            self.skip, self.result = True, []

    def problem(self, rule, st, inst, msg):
        loc = self.w.eng.where(inst) if isinstance(inst, dict) else ""
        self.problems.append((rule, msg, loc, st.stack[-1].fn.src if st.stack else "", "open" in st.ghost))

    def alive(self, rule):
        if self.skip:
            return
        for r, msg, loc, fn, o in self.problems:
            self.ctx.ob(rule, None if o else False, "%s: %s" % (self.name, msg), loc, fn)
        if not self.result and not self.problems:
            self.ctx.ob(rule, False, "%s: the file is not processed to its end" % self.name, self.ctx.at("NodesetLoader_loadFile"))

    def ob(self, st, rule, ok, msg, loc=None, fn="NodesetLoader_loadFile"):
        if ok is False and "open" in st.ghost:
            ok = None
        if isinstance(loc, tuple):
            loc, fn = loc
        return self.ctx.ob(rule, ok, "%s: %s" % (self.name, msg), loc or self.ctx.at("NodesetLoader_loadFile"), fn)

    def adds(self, st, ok=True):
        return [d for d in self.w.log_of(st) if d["op"] == "add" and (d["ok"] or not ok)]

    def refs(self, st):
        return [d for d in self.w.log_of(st) if d["op"] == "ref"]

    def returns(self, rule, want):
        self.alive(rule)
        for st, v in self.result:
            v = self.w.eng.norm(st, v)
            ok = None if v.t else bool(v.c) == want
            self.ob(st, rule, ok, "the result is %s%s" % ("failure" if not v.t and not v.c else "success" if not v.t else "undetermined",
                                                          "" if ok else ", expected was the opposite"))

    def compare(self, st, rule, what, want, got, loc):
        if callable(want):
            ok = want(got)
            exp = want.__doc__
        else:
            ok, exp = want == got, show(want)
        if not ok and undecided(got):
            ok = False if not callable(want) and differs(want, got) else None
        self.ob(st, rule, ok, "%s is %s" % (what, show(got)) + ("" if ok else ", expected was %s" % exp), loc)

    def node(self, rule, ident, cls, want, attrs=None):
        """the node is added once, with these properties and attributes"""
        self.alive(rule)
        for st, v in self.result:
            l = [d for d in self.adds(st) if d["id"] == ident]
            if len(l) != 1 or l[0]["class"] != cls:
                unk = any(undecided(d["id"]) for d in self.adds(st))
                self.ob(st, rule, None if unk else False, "%s %s is added %s" % (
                    cls, show(ident), "%d times" % len(l) if len(l) != 1 else "as " + l[0]["class"]), l[0]["at"] if l else None)
                continue
            d = l[0]
            who = "%s %s" % (cls, show(ident))
            for k, x in want.items():
                self.compare(st, rule, "%s of %s" % (k, who), x, d[k], d["at"])
            for k, x in (attrs or {}).items():
                if d["attributes"] == UNK:
                    self.ob(st, rule, None, "attributes of %s" % who, d["at"])
                elif k not in d["attributes"]:
                    self.ob(st, rule, False, "%s is added with the attributes of another class" % who, d["at"])
                else:
                    self.compare(st, rule, "%s of %s" % (k, who), x, d["attributes"][k], d["at"])

    def exactly(self, rule, ids):
        """these nodes are added, in any order, and no other"""
        self.alive(rule)
        for st, v in self.result:
            got = [(d["class"], d["id"]) for d in self.adds(st)]
            ok = sorted(map(repr, got)) == sorted(map(repr, ids))
            self.ob(st, rule, True if ok else None if undecided(got) else False,
                    "the nodes added are %s" % names(got) + ("" if ok else ", expected were %s" % names(ids)))


def names(l):
    return ", ".join("%s %s" % (c, show(i)) for c, i in l) or "none"


# reference types of the server: id -> kind
HIER = {"i=33": "H", "i=34": "H", "i=35": "H", "i=36": "H", "i=44": "H", "i=45": "H", "i=46": "H", "i=47": "H", "i=56": "H", "i=49": "H",
        "i=14476": "H"}
FLAT = {"i=32": "N", "i=37": "N", "i=38": "N", "i=39": "N", "i=41": "N", "i=3065": "N"}


class Net:
    """a drawn file without loops: nodes, references in both directions, own reference types"""

    def __init__(self, seed, nodes=5, types=2, density=0.5, second=False, base=None):
        import random
        r = self.r = random.Random(seed)
        self.kind = dict((base.kind if base else {}), **{k: v for k, v in list(HIER.items()) + list(FLAT.items())})
        self.nodes, self.want = [], []
        pre = "ns=1;i=" if not second else "ns=2;i="
        k0 = 100 if not second else 200
        own = []
        l = []
        for k in range(r.randrange(types + 1)):
            i = "%s%d" % (pre, k0 + 50 + k)
            up = r.choice(own + ["i=33", "i=35", "i=47", "i=32", "i=37", "i=3065"] + [x for x in self.kind if x.startswith("ns=")] * 2)
            self.kind[i] = self.kind[up]
            own.append(i)
            l.append((i, "REFERENCETYPE", [(SUBT, "false", up)], None))
        rts = [x for x in self.kind if x not in ("i=45",)]
        ids = ["%s%d" % (pre, k0 + k) for k in range(nodes)]
        known = [x[0] for x in base.nodes if x[1] in ("OBJECT", "OBJECTTYPE")] if base else []
        cls = {}
        for k, i in enumerate(ids):
            c = cls[i] = r.choice(["OBJECT", "OBJECT", "VARIABLE", "METHOD", "VIEW", "OBJECTTYPE", "VARIABLETYPE"])
            rl = []
            for j in range(k):
                if r.random() < density:
                    t = r.choice(own * 3 + rts)
                    if r.random() < .7:
                        rl.append((t, "false", ids[j]))         # the earlier one is the parent
                    else:
                        up = [x for x in l if x[0] == ids[j]][0]
                        up[2].append((t, r.choice([None, "true"]), i))
            if r.random() < .6:
                rl.append((r.choice(rts), "false", r.choice(known + ["i=85", "ns=2;s=ext", "ns=1;s=ext"])))
            if r.random() < .4:
                rl.append((r.choice([x for x in rts if self.kind[x] == "N"]), r.choice([None, "false"]), r.choice(["i=86", "ns=2;s=far"])))
            td = None
            if c in ("OBJECT", "VARIABLE") and r.random() < .7:
                td = r.choice(["i=61", "ns=2;i=99"])
            rl = self.unique(rl)
            r.shuffle(rl)
            l.append((i, c, rl, td))
        self.byid = {x[0]: x for x in l}
        self.nodes = l
        order = list(l)
        r.shuffle(order)
        els = []
        for i, c, rl, td in order:
            xs = [ref(t, g, f, label="%s:%d" % (i, k)) for k, (t, f, g) in enumerate(rl)]
            if td:
                xs.insert(r.randrange(len(xs) + 1), ref(TYPEDEF, td, r.choice([None, "true"]), label="%s:td" % i))
            at = []
            inv = [(t, g) for t, f, g in rl if f == "false" and self.kind[t] == "H"]
            fwd = [x for x in rl if self.kind[x[0]] == "H" and x[1] != "false"]
            pid = None
            if c in ("OBJECT", "VARIABLE", "METHOD", "VIEW"):
                if inv and r.random() < .5:
                    pid = r.choice(inv)[1]
                elif not inv and not fwd and r.random() < .5:
                    hosts = [x[0] for x in l if any(y[2] == i and y[1] != "false" and self.kind[y[0]] == "H" for y in x[2])]
                    pid = r.choice(hosts) if hosts else None
            if pid:
                at.append(("ParentNodeId", T("pid:" + i, pid)))
            els.append(node(ELEM[c], i, *([refs(*xs)] if xs or r.random() < .3 else []), attrs=at))
            par = [g for g in inv if g[1] == pid] if pid else inv
            self.want.append((i, c, pid, par, td, rl))
        self.events = nodeset(URIS, *els)

    @staticmethod
    def unique(l):
        out = []
        for x in l:
            if (x[0], x[1] == "false", x[2]) not in [(y[0], y[1] == "false", y[2]) for y in out]:
                out.append(x)
        return out

    def references(self):
        """(source, type, forward, target) of the file, server's ids"""
        out = []
        for i, c, pid, par, td, rl in self.want:
            for t, f, g in rl:
                out.append((sid(i), sid(t), int(f != "false"), sid(g)))
        return out

    def assumed(self):
        """what the loader assumes for nodes without hierarchical references (see C22)"""
        return [(sid(i), (0, COMP), 0, sid(pid)) for i, c, pid, par, td, rl in self.want
                if pid and not any(self.kind[t] == "H" for t, f, g in rl)]
