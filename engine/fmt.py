"""Format strings: what a call's format may be and what it consumes."""
import re

PRINTF = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "asprintf": 1, "__printf_chk": 1,
          "__fprintf_chk": 2, "__snprintf_chk": 4, "syslog": 1}
VPRINTF = {"vprintf": 0, "vfprintf": 1, "vdprintf": 1, "vsprintf": 1, "vsnprintf": 2, "vasprintf": 1}
CONV = re.compile(r"%(?P<flags>[-+ #0']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d*))?(?P<len>hh|h|ll|l|j|z|t|L)?(?P<conv>[a-zA-Z%])")


def conversions(fmt):
    """the types the arguments must have, or None if the format is malformed"""
    out, k = [], 0
    while True:
        k = fmt.find("%", k)
        if k < 0:
            return out
        m = CONV.match(fmt, k)
        if not m:
            return None
        k = m.end()
        c = m["conv"]
        if c == "%":
            continue
        for x in ("width", "prec"):
            if m[x] == "*":
                out.append("i32")
        if c in "diuxXoc":
            out.append("i64" if m["len"] in ("l", "ll", "j", "z", "t") else "i32")
        elif c in "sp":
            out.append("p")
        elif c in "fFeEgGaA":
            out.append("fp")
        else:
            return None


def text(mod, name, off=0):
    """the string in a constant global"""
    g = mod.globals.get(name)
    if not g or not g.get("init"):
        return None
    if not g["const"]:
        return None
    for o, n, v in g["init"]:
        if v[0] == "str" and o <= off < o + n:
            b = bytes.fromhex(v[1])[off - o:]
            return b.split(b"\0")[0].decode("latin1") if b"\0" in b else None
    return None


def formats(mod, fn, v, seen=()):
    """what a format operand may be: set of ("text", t) | ("param", k) | ("variable", what) | ("unknown",)"""
    if v[0] == "g":
        t = text(mod, v[1], v[2] if len(v) > 2 else 0)
        return {("text", t)} if t is not None else {("unknown",)}
    if v[0] != "v":
        return {("unknown",)}
    if v[1] < len(fn.params):
        return {("param", v[1])}
    if (fn.name, v[1]) in seen:
        return set()
    d = fn.defs.get(v[1])
    if d is None:
        return {("unknown",)}
    seen = seen + ((fn.name, v[1]),)
    d = d[1]
    if d["op"] == "phi":
        out = set()
        for x, _ in d["in"]:
            out |= formats(mod, fn, x, seen)
        return out
    if d["op"] == "select":
        return formats(mod, fn, d["a"], seen) | formats(mod, fn, d["b"], seen)
    if d["op"] == "load":
        # a table of messages
        p, off = d["p"], None
        if p[0] == "v" and p[1] in fn.defs and fn.defs[p[1]][1]["op"] == "gep":
            p = fn.defs[p[1]][1]["b"]
        elif p[0] == "g":
            off = p[2]
        g = mod.globals.get(p[1]) if p[0] == "g" else None
        if g and g["const"] and g.get("init"):
            out = set()
            for o, _, x in g["init"]:
                if (off is None or o == off) and x[0] == "g":
                    out |= formats(mod, fn, x, seen)
            return out or {("unknown",)}
        if g is None and root(fn, p) in ("param", "load", "call"):
            return {("variable", "read from memory at run time")}
    if d["op"] in ("alloca", "gep", "cast") and root(fn, v) == "alloca":
        return {("variable", "a buffer")}
    if d["op"] == "gep" and root(fn, v) in ("param", "load"):
        return {("variable", "computed at run time")}
    if d["op"] == "call":
        g = mod.fns.get(d.get("fn"))
        if g is None or g.decl:
            return {("variable", "the result of a call")} if d.get("fn") else {("unknown",)}
        out = set()
        for b in g.blocks:
            if b[-1]["op"] == "ret" and "v" in b[-1]:
                for t in formats(mod, g, b[-1]["v"], seen):
                    out |= formats(mod, fn, d["args"][t[1]]["v"], seen) if t[0] == "param" and t[1] < len(d["args"]) else {t}
        return out or {("unknown",)}
    return {("unknown",)}


def root(fn, v, n=0):
    """what an address is based on: "param", "alloca", "load", "call", "global" or None"""
    if v[0] == "g":
        return "global"
    if v[0] != "v" or n > 40:
        return None
    if v[1] < len(fn.params):
        return "param"
    d = fn.defs.get(v[1])
    if d is None:
        return None
    d = d[1]
    if d["op"] in ("alloca", "load", "call"):
        return d["op"]
    if d["op"] in ("gep", "cast"):
        return root(fn, d["b" if d["op"] == "gep" else "a"], n + 1)
    return None


class Site:
    """a call with a format"""

    def __init__(self, fn, inst, fmt, rest, kind, level=None):
        self.fn, self.inst, self.fmt, self.rest, self.kind, self.level = fn, inst, fmt, rest, kind, level


def sites(mod):
    """calls with a format, those of functions which pass on a format of their caller included"""
    fns = [f for f in mod.fns.values() if not f.decl]
    wrap, out, done = {}, [], set()

    def site(f, i):
        a = i["args"]
        n = i.get("fn")
        if n in PRINTF:
            return PRINTF[n], "args", None
        if n in VPRINTF:
            return VPRINTF[n], "list", None
        if n in wrap:
            return wrap[n]
        if n is None and i.get("fp") and [x["ty"] for x in a[:3]] == ["p", "i32", "p"]:
            if i["nfix"] == 3 and i.get("va", len(a) >= 3) and log_call(mod, f, i):
                return 2, "args", 1
            if i["nfix"] == 5 and [x["ty"] for x in a] == ["p", "i32", "i32", "p", "p"]:
                return 3, "list", None
        return None
    again = True
    while again:
        again = False
        for f in fns:
            for b in f.blocks:
                for i in b:
                    if i["op"] != "call" or (f.name, i["id"]) in done:
                        continue
                    s = site(f, i)
                    if s is None:
                        continue
                    done.add((f.name, i["id"]))
                    k, kind, lv = s
                    fm = formats(mod, f, i["args"][k]["v"])
                    rest = i["args"][max(i["nfix"], k + 1):] if kind == "args" else None
                    if isinstance(kind, tuple):
                        rest = [{"ty": t} for t in kind]
                    x = Site(f, i, fm, rest, kind,
                             i["args"][lv]["v"] if lv is not None else None)
                    out.append(x)
                    for t in fm:
                        if t[0] == "param" and f.name not in wrap:
                            lp = x.level[1] if x.level and x.level[0] == "v" and x.level[1] < len(f.params) else None
                            if kind == "list":
                                w = "args" if any(j["op"] == "call" and (j.get("fn") or "").startswith("llvm.va_start")
                                                  for c in f.blocks for j in c) else "list"
                            else:
                                w = kind if kind != "args" else tuple(a["ty"] for a in x.rest)
                            wrap[f.name] = (t[1], w, lp)
                            again = True
    return out, wrap


def log_call(mod, f, i):
    """the function pointer is the log member of a logger (it is called with the logger's context)"""
    d = f.defs.get(i["fp"][1]) if i["fp"][0] == "v" else None
    if d is None or d[1]["op"] != "load":
        return False
    g = f.defs.get(d[1]["p"][1]) if d[1]["p"][0] == "v" else None
    off = g[1]["off"] if g is not None and g[1]["op"] == "gep" and not g[1]["vars"] else 0
    return off == mod.off("NodesetLoader_Logger", "log")
