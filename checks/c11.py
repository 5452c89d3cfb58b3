"""Value-flow analysis of the text content: the parser may deliver the text of an
element in any number of pieces of any length.  For every element with text the
analysis determines which characters are stored, in which order, and that they
are terminated; text between elements, of the element before or of ignored
children is never taken over."""
from engine.doc import *
from engine.family import family

SHARDS = 8

V = "UAVariable"


def pieces(label, n):
    return [T("%s.%d" % (label, k)) for k in range(n)]


def labels(label, n):
    return ("text", tuple("%s.%d" % (label, k) for k in range(n))) if n else NULL


def run(ctx):
    top = 6 if ctx.thorough else 4
    WS = T("white", "\n  ")
    for e, (c, _) in ELEMENTS.items():
        texts = [("DisplayName", "displayName.text"), ("Description", "description.text")]
        if e == "UAReferenceType":
            texts.append(("InverseName", "inverseName.text"))
        for el, m in texts:
            for n in range(top):
                for a in ((), (("Locale", T("loc", "en")),)):
                    r = Run(ctx, "%s: %s in %d pieces" % (e, el, n), nodeset(
                        node(e, "i=1", WS, El(el, a, *pieces("t", n)), WS)))
                    r.expect("text", (0, "i=1"), c, {m: labels("t", n)})
            # nothing is left over from the elements around
            for other, om in texts:
                if other == el:
                    continue
                r = Run(ctx, "%s: empty %s after %s" % (e, el, other), nodeset(
                    node(e, "i=1", El(other, (), T("o")), El(el), WS)))
                r.expect("text", (0, "i=1"), c, {m: NULL, om: text("o")})
                r = Run(ctx, "%s: %s after %s" % (e, el, other), nodeset(
                    node(e, "i=1", El(other, (), T("o"), T("o2")), WS, El(el, (), T("t"), T("t2")))))
                r.expect("text", (0, "i=1"), c, {m: text("t", "t2"), om: text("o", "o2")})
            r = Run(ctx, "%s: empty %s after white space" % (e, el), nodeset(node(e, "i=1", WS, El(el))))
            r.expect("text", (0, "i=1"), c, {m: NULL})
            r = Run(ctx, "%s: %s behind an ignored child" % (e, el), nodeset(
                node(e, "i=1", El(el, (), El("Unknown", (), T("u")), T("t"), T("t2")))))
            r.expect("text", (0, "i=1"), c, {m: text("t", "t2")})
            # the texts of two nodes
            r = Run(ctx, "%s: two nodes with %s" % (e, el), nodeset(
                node(e, "i=1", El(el, (), T("t"), T("t2"))), node(e, "i=2", El(el, (), T("s"), T("s2")))))
            r.expect("text", (0, "i=1"), c, {m: text("t", "t2")})
            r.expect("text", (0, "i=2"), c, {m: text("s", "s2")})
    # long texts come in many pieces, nodes may have many texts
    for n in (9, 17, 33, 65, 130):
        r = Run(ctx, "texts in %d pieces" % n, nodeset(node(V, "i=1", El("DisplayName", (), *pieces("t", n)), El("Description", (), *pieces("s", n)))))
        r.expect("text", (0, "i=1"), "VARIABLE", {"displayName.text": labels("t", n), "description.text": labels("s", n)})
        r = Run(ctx, "%d nodes with texts" % n, nodeset(*[node(V, "i=%d" % (k + 1), El("DisplayName", (), *pieces("t%d" % k, k % 3)))
                                                          for k in range(n)]), unroll=4 * n)
        for k in (0, 1, 2, n // 2, n - 3, n - 2, n - 1):
            r.expect("text", (0, "i=%d" % (k + 1)), "VARIABLE", {"displayName.text": labels("t%d" % k, k % 3)})
    # values
    for n in range(top):
        r = Run(ctx, "value in %d pieces" % n, nodeset(
            node(V, "i=1", El("Value", (), WS, El("String", (), *pieces("t", n)), WS))))
        r.expect("text", (0, "i=1"), "VARIABLE", {
            "value": {"isArray": 0, "isExtensionObject": 0, "type": ("lit", "String"),
                      "data": ("prim", "String", labels("t", n))}})
        r = Run(ctx, "value list in %d pieces" % n, nodeset(
            node(V, "i=1", El("Value", (), El("ListOfString", (), WS, El("String", (), *pieces("t", n)), WS,
                                              El("String", (), *pieces("s", n)), WS)))))
        r.expect("text", (0, "i=1"), "VARIABLE", {
            "value": {"isArray": 1, "isExtensionObject": 0, "type": ("lit", "String"),
                      "data": ("complex", "ListOfString", [("prim", "String", labels("t", n)),
                                                           ("prim", "String", labels("s", n))])}})
    # reference targets, aliases and namespace uris are split by the parser as well
    for cut in range(1, 4):
        for el, ev in (("target", lambda s: nodeset(node(V, "i=1", refs(El(
                "Reference", [("ReferenceType", T("rt", "i=47"))], *s))))),
                ("alias", lambda s: nodeset(El("Aliases", (), El("Alias", [("Alias", T("al", "Tgt"))], *s)), node(V, "i=1", refs(
                    ref("i=47", "Tgt")))))):
            s = "ns=0;s=ab"
            parts = [T("p%d" % k, x) for k, x in enumerate((s[:cut], s[cut:cut + 2], s[cut + 2:]))]
            r = Run(ctx, "%s split behind %d characters" % (el, cut), ev(parts))
            r.expect("text", (0, "i=1"), "VARIABLE", {"hierachicalRefs": [(1, (0, "i=47"), (0, "s=ab"))]})
    for n in range(1, top):
        r = Run(ctx, "namespace uri in %d pieces" % n, nodeset(El("NamespaceUris", (), WS, El("Uri", (), *pieces("u", n)), WS,
                                                                 El("Uri", (), *pieces("w", n)))))
        uris(r, [labels("u", n), labels("w", n)])
    family(ctx, "text", ["text", "refs", "value"], 120, pieces=.8, ws=.6)
    ctx.require("text", 100)


def uris(r, exp):
    r.alive("text")
    for st, l in r.result:
        got = [shown(r.w, st, rec[1]) for rec in r.w.g(st, "namespaces")]
        r.ob(st, "text", True if got == exp else None if undecided(got) else False,
             "%s: the uris announced are %s, the document says %s" % (r.name, show(got), show(exp)), r.handler("E"))
