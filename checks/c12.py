"""Value-flow analysis of the localized texts: the display name, the description
and the inverse name of a node are determined from the document for every
presence and order of the elements, with and without a locale."""
import itertools
from engine.doc import *
from engine.family import family

SHARDS = 8


def run(ctx):
    for e, (c, _) in ELEMENTS.items():
        full = [("DisplayName", "displayName"), ("Description", "description"), ("InverseName", "inverseName")]
        known = [m for el, m in full if m != "inverseName" or e == "UAReferenceType"]
        for k in range(4):
            for sel in itertools.permutations(full, k):
                for loc in itertools.product((0, 1, 2), repeat=k):
                    if not ctx.thorough and k == 3 and sum(loc) % 2:
                        continue
                    ev = []
                    exp = {}
                    for m in known:
                        exp[m + ".locale"] = NULL
                        exp[m + ".text"] = NULL
                    for (el, m), lo in zip(sel, loc):
                        at = [("Locale", T("loc:" + el))] if lo == 1 else [("local", T("x"))] if lo == 2 else []
                        ev += El(el, at, T("t:" + el))
                        if m in known:
                            exp[m + ".locale"] = text("loc:" + el) if lo == 1 else NULL
                            exp[m + ".text"] = text("t:" + el)
                    r = Run(ctx, "%s with %s" % (e, ", ".join("%s%s" % (el, (" (locale)", " (similar attribute)")[lo - 1] if lo else "")
                                                                for (el, m), lo in zip(sel, loc)) or "no text"),
                            nodeset(node(e, "i=1", ev)))
                    r.expect("localized-text", (0, "i=1"), c, exp)
        # locale and text come from the same element when it is repeated
        for el, m in full:
            if m not in known:
                continue
            for first, second, l2, t2 in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2)):
                # the locale of an absent attribute, the text of an empty element
                at = [[("Locale", T("l%d" % k))] if has else [] for k, has in ((1, first), (2, l2))]
                tx = [T("t2")] if t2 == 1 else [T("t2", "")] if t2 == 2 else []
                if second and not t2:
                    continue
                r = Run(ctx, "%s with two %s, locales %d %d, second text %d%s" % (e, el, first, l2, t2, ", between others" if second else ""),
                        nodeset(node(e, "i=1", El(el, at[0], T("t1")), refs(ref("i=37", "i=14")) if second else [],
                                     El(el, at[1], *tx))))
                one = (text("l1") if first else NULL, text("t1"))
                two = (text("l2") if l2 else NULL, text("t2") if t2 == 1 else NULL)
                same_element(r, m, [one, two] + ([(two[0], text()), (two[0], ("lit", "")), (two[0], "")] if t2 != 1 else []))
    family(ctx, "localized-text", ["text"], 120)
    ctx.require("localized-text", 200)


def same_element(r, m, want):
    for st, l in r.result:
        for c2, n, mem in r.find(st, l, (0, "i=1")):
            got = (mem.get(m + ".locale"), mem.get(m + ".text"))
            ok = got in want
            r.ob(st, "same-element", True if ok else None if undecided(got) else False,
                 "%s: locale %s and text %s" % (r.name, show(got[0]), show(got[1])), r.handler("S"))
