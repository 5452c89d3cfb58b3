"""Counters: a count of things a document may have any number of must not be
kept in fewer than 32 bits. The rule looks at every add of a constant in the
compiled program whose result goes back where its operand came from (a member of
a struct, or a variable of a loop)."""
import os
from engine import ir



def address(fn, v):
    """base and offset of a pointer operand"""
    off = 0
    while v[0] == "v" and v[1] in fn.defs:
        d = fn.defs[v[1]][1]
        if d["op"] != "gep" or d.get("vars"):
            break
        off += d["off"]
        v = d["b"]
    return tuple(map(str, v)), off


def strip(fn, v):
    while v[0] == "v" and v[1] in fn.defs and fn.defs[v[1]][1]["op"] == "cast":
        v = fn.defs[v[1]][1]["a"]
    return v


def stepped(fn, v):
    """x if v is x plus or minus a constant"""
    v = strip(fn, v)
    if v[0] != "v" or v[1] not in fn.defs:
        return None
    d = fn.defs[v[1]][1]
    if d["op"] != "bin" or d["bop"] not in ("add", "sub"):
        return None
    a, b = d["a"], d["b"]
    if b[0] != "c" and d["bop"] == "add":
        a, b = b, a
    if b[0] != "c" or not b[2]:
        return None
    return strip(fn, a)


def narrow(mod, files):
    """(fn, instruction, bits, what, is_violation) of every counter of the files"""
    for fn in mod.fns.values():
        if fn.decl or os.path.relpath(fn.file, ir.REPO) not in files:
            continue
        for blk in fn.blocks:
            for i in blk:
                if i["op"] == "store":
                    x = stepped(fn, i["v"])
                    if x is None or x[0] != "v" or x[1] not in fn.defs:
                        continue
                    d = fn.defs[x[1]][1]
                    if d["op"] == "load" and address(fn, d["p"]) == address(fn, i["p"]):
                        yield fn, i, i["ssz"] * 8, "member", i["ssz"] < 4
                elif i["op"] == "phi" and i["ty"].startswith("i"):
                    for v, _ in i["in"]:
                        x = stepped(fn, v)
                        if x == ["v", i["id"]]:
                            yield fn, i, int(i["ty"][1:]), "variable", int(i["ty"][1:]) < 32


def width(fn, k):
    if k in fn.defs:
        return fn.defs[k][1].get("sz", 8) * 8
    t = [p["ty"] for p in fn.params if p["id"] == k]
    return int(t[0][1:]) if t and t[0][1:].isdigit() else 64


def compared(mod, fn, phi):
    """the variable is compared with something which may be larger than it can hold"""
    bits = int(phi["ty"][1:])
    for blk in fn.blocks:
        for i in blk:
            if i["op"] != "icmp":
                continue
            for x, y in ((i["a"], i["b"]), (i["b"], i["a"])):
                s = strip(fn, x)
                if s != ["v", phi["id"]] and stepped(fn, x) != ["v", phi["id"]]:
                    continue
                if y[0] == "c":
                    if abs(y[2]) >= 1 << bits:
                        return True
                    continue
                y = strip(fn, y)
                if y[0] == "v" and width(fn, y[1]) > bits:
                    return True
    return False


def check(ctx, *files):
    if ctx.skip():
        return
    for fn, i, bits, what, bad in narrow(ctx.mod, files):
        if bad and what == "variable":
            bad = compared(ctx.mod, fn, i)
        loc = i.get("loc")
        ctx.ob("counter-width", not bad, "%s: a count of %d bits%s" % (fn.src, bits, "" if not bad else
               ": it starts again after %d" % (1 << bits)), "%s:%s" % tuple(loc[:2]) if loc else ctx.at(fn.src), fn.src)
