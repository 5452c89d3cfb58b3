"""Value-flow analysis of the namespace translation: the server's answers to the
announced uris are abstract numbers; the analysis determines for every NodeId
and browse name of the document (all places where the schema has one) that the
file's index is replaced by the answer to the uri of that index."""
from engine.doc import *
from engine.family import family
from engine import counters

SHARDS = 8

V = "UAVariable"


def uris(n, base=0):
    return El("NamespaceUris", (), *[x for k in range(n) for x in El("Uri", (), T("uri%d" % (base + k)))])


def run(ctx):
    counters.check(ctx, "src/NamespaceList.c", "backends/open62541/src/ServerContext.c")
    for n, answers in ((0, {}), (1, {0: 7}), (1, {0: 1}), (2, {0: 2, 1: 1}), (3, {0: 5, 1: 5, 2: 300}), (3, {0: 0, 1: 3, 2: 2}),
                       (3, {})):
        for f in list(range(0, n + 3)) + ([255, 256, 257, 32768, 65535] if n == 3 and answers.get(2) == 300 else [65535] if n < 2 else []):
            def tr(i):
                if i == 0 or i > n:
                    return i
                return answers.get(i - 1, "nsidx:%d" % (i - 1))

            def ns(i, s):
                return "ns=%d;%s" % (i, s)
            exp = tr(f)
            name = "%d uris, server answers %s, index %d" % (n, [answers.get(k, "any") for k in range(n)], f)
            for e, (c, at) in ELEMENTS.items():
                attrs = [(a, T("v:" + a, ns(f, "s=" + a))) for a, (m, how, d) in at.items() if how == "id"]
                # the id of the node under test is found by its identifier
                ev = nodeset(uris(n), El(e, [("NodeId", T("id", ns(f, "s=node"))), ("BrowseName", T("bn", "%d:Name" % f))] + attrs,
                                         refs(El("Reference", [("ReferenceType", T("rt", ns(f, "i=9000")))],
                                                 T("tg", ns(f, "s=target"))))))
                r = Run(ctx, "%s: %s" % (name, e), ev, ns_index=answers)
                m = {"browseName.nsIdx": exp, "browseName.name": suffix("bn", len(str(f)) + 1),
                     "nonHierachicalRefs": [(1, (exp, "i=9000"), (exp, "s=target"))]}
                for a, (mm, how, d) in at.items():
                    if how == "id":
                        m[mm] = (exp, "s=" + a)
                r.expect("translation", (exp, "s=node"), c, m)
                announced(r, n)
            # aliases and data type fields
            ev = nodeset(uris(n), El("Aliases", (), El("Alias", [("Alias", T("al", "Tgt"))], T("alid", ns(f, "s=aliased")))),
                         node(V, "i=1", refs(ref("i=47", "Tgt"))),
                         node("UADataType", "i=2", El("Definition", [("Name", T("dn"))], El(
                             "Field", [("Name", T("fn")), ("DataType", T("fd", ns(f, "s=ft")))]))))
            r = Run(ctx, "%s: alias and field" % name, ev, ns_index=answers)
            r.expect("translation", (0, "i=1"), "VARIABLE", {"hierachicalRefs": [(1, H, (exp, "s=aliased"))]})
            r.expect("translation", (0, "i=2"), "DATATYPE", {"definition": field0(exp)})
    known(ctx)
    many(ctx)
    # every file has its own indices
    r = Run(ctx, "first file", nodeset(uris(2), node(V, "ns=2;i=1")), ns_index={0: 5, 1: 6, 2: 9}, sort=False)
    r2 = Run(ctx, "second file with other uris", nodeset(uris(1, 2), node(V, "ns=1;i=2"), node(V, "ns=2;i=3")),
             states=[s for s, v in r.imported], world=r.w)
    r2.expect_nodes("per-file", [("VARIABLE", (6, "i=1")), ("VARIABLE", (9, "i=2")), ("VARIABLE", (2, "i=3"))])
    family(ctx, "index", ["ids", "refs", "definition"], 120, lambda r, g: announced(r, [x for x in g.uris]), ns=8)
    ctx.require("translation", 300)
    ctx.require("announced", 100)


def suffix(lab, k):
    return ("suffix", lab, k)


def field0(exp):
    def f(d):
        if not isinstance(d, dict) or not isinstance(d["fields"], list) or len(d["fields"]) != 1:
            return False
        return d["fields"][0].get("dataType") == (exp, "s=ft")
    f.__doc__ = "a field of the data type %s" % show((exp, "s=ft"))
    return f


def known(ctx):
    """uris whose text matters: the standard one, the same one twice"""
    std = "http://opcfoundation.org/UA/"
    for l in ([std], ["a", std], [std, "a"], [std, std], ["a", "a"], ["a", "a", "b"], ["a", "b", "a"], ["a", "b", "a", "b"], ["a", "A"],
              ["http://a/", "http://a"], ["u:1", "u:11"], [std + "DI/", std, std[:-1]], ["", "a"], ["a", "", "b"], [""],
              ["x" * 300, "x" * 300 + "y"], ["http://opcfoundation.org/UA/DI/", "http://opcfoundation.org/UA/ADI/"]):
        for f in range(0, len(l) + 2):
            exp = f if f == 0 or f > len(l) else 40 + f
            ev = nodeset(El("NamespaceUris", (), *[El("Uri", (), T("uri%d" % k, u)) if u else El("Uri", (), T("uri%d" % k, "")) for k, u in enumerate(l)]),
                         El("UAVariable", [("NodeId", T("id", "ns=%d;s=node" % f)), ("BrowseName", T("bn", "%d:Name" % f)),
                                           ("DataType", T("dt", "ns=%d;i=77" % f))],
                            refs(El("Reference", [("ReferenceType", T("rt", "ns=%d;i=9000" % f))], T("tg", "ns=%d;s=target" % f)))))
            r = Run(ctx, "uris %s, index %d" % (", ".join(x[:30] for x in l), f), ev, ns_index={k: 41 + k for k in range(len(l))})
            r.expect("known-uris", (exp, "s=node"), "VARIABLE", {
                "browseName.nsIdx": exp, "browseName.name": suffix("bn", 2), "datatype": (exp, "i=77"),
                "nonHierachicalRefs": [(1, (exp, "i=9000"), (exp, "s=target"))]})
            if "" not in l:
                announced(r, len(l))


def many(ctx):
    """long lists of uris, long identifiers"""
    for n in (20, 70, 130, 300):
        for f in sorted({1, 9, 10, 15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, n - 1, n, n + 1}):
            if f > n + 1 or n < 300 and f < n - 1:
                continue
            for ln in (5, 260) if f < n else (130,):
                exp = f if f > n else 400 + f
                s = "x" * ln
                ev = nodeset(uris(n), El("UAVariable", [("NodeId", T("id", "ns=%d;s=node%s" % (f, s))), ("BrowseName", T("bn", "%d:Name" % f)),
                                                        ("DataType", T("dt", "ns=%d;i=77" % f)), ("ParentNodeId", T("pa", "ns=%d;s=parent%s" % (f, s)))],
                                         refs(El("Reference", [("ReferenceType", T("rt", "ns=%d;i=9000" % f))], T("tg", "ns=%d;s=target%s" % (f, s))))))
                r = Run(ctx, "%d uris, index %d, identifiers of %d characters" % (n, f, ln), ev, ns_index={k: 401 + k for k in range(n)})
                r.expect("many-uris", (exp, "s=node" + s), "VARIABLE", {
                    "browseName.nsIdx": exp, "browseName.name": suffix("bn", len(str(f)) + 1), "datatype": (exp, "i=77"),
                    "parentNodeId": (exp, "s=parent" + s), "nonHierachicalRefs": [(1, (exp, "i=9000"), (exp, "s=target" + s))]})
                announced(r, n)


def announced(r, n):
    """every uri is announced once, in order, with the user's context"""
    for st, l in r.result:
        got = [(shown(r.w, st, rec[0]), shown(r.w, st, rec[1])) for rec in r.w.g(st, "namespaces")]
        exp = [("user-context:0", x) for x in (n if isinstance(n, list) else [text("uri%d" % k) for k in range(n)])]
        r.ob(st, "announced", True if got == exp else None if undecided(got) else False,
             "%s: announced to the server: %s" % (r.name, show(got)), r.handler("E"))
