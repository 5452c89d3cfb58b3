"""Ownership analysis of whole histories of a loader: generated documents, every
prefix of documents that use all features, several files, sorting in between or
not at all, loops and duplicates, and finally the deletion.  On every path no
object is used after its release, none is released twice, and after the
deletion none is left."""
from engine.history import *
from engine.family import Gen

SHARDS = 8


def run(ctx):
    late = dict(KINDS)
    late[(0, "i=9501")] = ("late", "H")
    never = dict(KINDS)
    never[(0, "i=9502")] = "U"

    def hist(name, steps, kinds=KINDS, **kw):
        if not ctx.skip():
            History(ctx, name, kinds, steps, **kw)
    docs = everything()
    for j, d in enumerate(docs):
        for k in range(len(d) + 1):
            hist("document %d up to its element %d" % (j, k), [("load", d[:k])] + ([], ["sort"])[(j + k) % 2:][0])
        hist("document %d twice" % j, [("load", d), ("load", d), "sort", ("each", 1), "refs"])
        hist("document %d, no sorting" % j, [("load", d), ("each", 1)])
        hist("document %d, sorted twice" % j, [("load", d), "sort", "sort", ("each", 2)])
        hist("document %d without extension interface" % j, [("load", d), "sort"], ext=False)
        hist("document %d with the built-in reference service" % j, [("load", d), "sort"], internal_refs=True)
        hist("document %d without a logger" % j, [("load", d), "sort"], logger=False)
        hist("document %d behind document %d" % (j, (j + 1) % len(docs)), [("load", docs[(j + 1) % len(docs)]), ("load", d), "sort", "refs"])
        # elements left out: nothing is opened or closed in order
        for k in range(len(d)):
            if d[k][0] != "C" and (ctx.thorough or (k + j) % 3 == 0):
                hist("document %d without its element %d" % (j, k), [("load", d[:k] + d[k + 1:]), "sort"])
    L = lambda x, t: node("UAObject", x, refs(ref(t, "s=zz", label="1" + x), ref("i=47", "s=yy", label="2" + x)), attrs=[("ParentNodeId", T("p" + x, "s=pp"))])
    lt = node("UAReferenceType", "i=9501")
    for nm, ks, body in (("deferred nodes", late, [L("s=a", "i=9501"), L("s=b", "i=9501"), lt]),
                         ("deferred nodes with one id", late, [L("s=a", "i=9501"), L("s=a", "i=9501"), lt, L("s=a", "i=47")]),
                         ("deferred nodes which are never completed", never, [L("s=a", "i=9502"), L("s=b", "i=47"), L("s=c", "i=9502")]),
                         ("a loop", KINDS, [node("UAObject", "s=a", refs(ref("i=47", "s=b", label="1"))), L("s=x", "i=47"),
                                            node("UAObject", "s=b", refs(ref("i=47", "s=a", label="2")))]),
                         ("nodes with one id", KINDS, [L("s=a", "i=47"), node("UAVariable", "s=a", El("Value", (), El("Int32", (), T("v")))),
                                                       node("UADataType", "s=a", El("Definition", [("Name", T("n"))], El("Field", [("DataType", T("fd", "s=k"))])))])):
        for steps in (["sort"], [], ["sort", "sort"], ["sort", ("each", 1), "refs"]):
            hist("%s, then %s" % (nm, steps), [("load", nodeset(*body))] + steps, ks)
    hist("nothing", [])
    hist("nothing to sort", ["sort", ("each", 1), "refs"])
    # imports behind a sorting
    for j, d in enumerate(docs):
        hist("document %d, sorted, document %d, sorted" % (j, (j + 1) % len(docs)), [
            ("load", d), "sort", ("load", docs[(j + 1) % len(docs)]), "sort", ("each", 1), "refs"])
        hist("document %d, sorted, again" % j, [("load", d), "sort", ("load", d), "sort", ("each", 1)])
        hist("document %d, sorted, imported, not sorted" % j, [("load", d), "sort", ("load", d)])
    # parents
    string = dict(KINDS)
    string[(1, "s=rt")] = "H"
    for own in ("i=47", "ns=1;s=rt", "ns=1;s=other"):
        for fwd in ("true", "false"):
            hist("a node takes over its parent's reference with a string type, %s, %s" % (own, fwd), [("load", nodeset(
                node("UAObject", "ns=1;s=p", refs(ref("ns=1;s=rt", "ns=1;s=c", fwd, label="1"), ref("ns=1;s=rt", "ns=1;s=c", label="2"))),
                node("UAObject", "ns=1;s=c", refs(ref(own, "ns=1;s=z", label="3")), attrs=[("ParentNodeId", T("pp", "ns=1;s=p"))]))), "sort", ("each", 1)], string)
    for a in ("s=p", "s=q", None):
        for r in ([], [ref("i=47", "s=c", label="1")], [ref("i=35", "s=c", "false", label="1"), ref("i=46", "s=d", label="2")]):
            body = [node("UAObject", "s=p", *([refs(*r)] if r else [])),
                    node("UAVariable", "s=c", attrs=[("ParentNodeId", T("pp", a))] if a else [])]
            hist("a node with the parent attribute %s, %d references" % (a, len(r)), [("load", nodeset(*body)), "sort", ("each", 2)])
            hist("a node with the parent attribute %s, %d references, the parent behind" % (a, len(r)), [("load", nodeset(*body[::-1])), "sort"])
    for k, rnd in graphs(ctx, 60, "c29"):
        g = Gen("c29/%d" % k)
        ev = g.document()
        steps = [("load", ev)]
        idx = list(g.idx)
        if rnd.random() < .5:
            steps[0] = ("load", ev[:rnd.randint(0, len(ev))])
        elif rnd.random() < .5:
            h = Gen("c29/%d/second" % k)
            e2 = h.document()
            steps.append(("load", e2))
            idx += h.idx
            g.kinds = {**h.kinds, **g.kinds}
        if rnd.random() < .8:
            steps += ["sort", ("each", rnd.choice((1, 2)))]
        hist("document %d of the family: %s" % (k, " ".join(str(s if isinstance(s, str) else s[0]) for s in steps)), steps, g.kinds,
             ns_index=dict(enumerate(idx)))
    ctx.require("no-leak", 150)
    ctx.require("no-misuse", 150)
