"""Value and bounds analysis of documents that lack what the loader expects:
every attribute and every text of documents that use all features is left out,
empty or arbitrary, elements are left out, repeated or cut off.  On every path
each access goes through a pointer that is not NULL and lies inside of the
object it points into (offsets and sizes are linear expressions over the
lengths of the texts)."""
from engine.history import *
from engine.family import Gen

SHARDS = 8


class Safe(History):
    world = Bounds
    rules = ("null-dereference", "bounds")


def run(ctx):
    def hist(name, d, kinds=KINDS, **kw):
        if not ctx.skip():
            Safe(ctx, name, kinds, [("load", d), "sort", ("each", 1)], **kw)
    docs = everything()
    for j, d in enumerate(docs):
        hist("document %d" % j, d)
        for what, v in variants(d):
            hist("document %d %s" % (j, what), v)
        for k in range(len(d)):
            if (k + j) % 4 == 0 or ctx.thorough:
                hist("document %d up to its element %d" % (j, k), d[:k])
                hist("document %d without its element %d" % (j, k), d[:k] + d[k + 1:])
                hist("document %d with its element %d twice" % (j, k), d[:k] + [d[k]] + d[k:])
    for k, rnd in graphs(ctx, 40, "c31"):
        g = Gen("c31/%d" % k)
        ev = g.document()
        l = list(variants(ev))
        for what, v in [("", ev)] + rnd.sample(l, min(len(l), 3)):
            hist("document %d of the family %s" % (k, what), v, g.kinds, ns_index=dict(enumerate(g.idx)))
    ctx.require("bounds", 200)
    ctx.require("null-dereference", 200)
