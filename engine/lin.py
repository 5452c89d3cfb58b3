"""Linear expressions over abstract symbols and the small inequality domain."""
from math import gcd


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n:
                d[s] = n
            else:
                del d[s]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, c * k) for s, c in self.t))

    def is_const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def single(self):
        """sym id if exactly 1*sym + 0"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def subst(self, m):
        """m: dict sym -> Lin"""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, tuple((s, k) for s, k in self.t if s not in m))
        for s, k in self.t:
            if s in m:
                r = r + m[s].scale(k)
        return r

    def __repr__(self):
        parts = ["%s%ss%d" % ("" if k == 1 else "-" if k == -1 else "%d*" % k, "", s) for s, k in self.t]
        if self.c or not parts:
            parts.append(str(self.c))
        return "+".join(parts)


ZERO = Lin(0)
ONE = Lin(1)


def const(n):
    return Lin(n)


def S(sym):
    return Lin(0, ((sym, 1),))


def tighten(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {s: k // g for s, k in d.items()}
        c = c // g  # floor: sum >= -c  -> integer tightening
    return c, d


def infeasible(cons, limit=120):
    """cons: list of Lin meaning lin >= 0 over integers. True only if proved empty."""
    cur = []
    seen = set()
    for l in cons:
        c, d = tighten(l.c, dict(l.t))
        if not d:
            if c < 0:
                return True
            continue
        key = (c, tuple(sorted(d.items())))
        if key not in seen:
            seen.add(key)
            cur.append((c, d))
    while cur:
        vars_ = {}
        for c, d in cur:
            for s, k in d.items():
                p = vars_.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        s = min(vars_, key=lambda x: vars_[x][0] * vars_[x][1] - (1 if 0 in vars_[x] else 0))
        pos = [(c, d) for c, d in cur if d.get(s, 0) > 0]
        neg = [(c, d) for c, d in cur if d.get(s, 0) < 0]
        rest = [(c, d) for c, d in cur if s not in d]
        new = {}
        for c, d in rest:
            k = tuple(sorted(d.items()))
            if k not in new or c < new[k]:
                new[k] = c
        for c1, d1 in pos:
            a = d1[s]
            for c2, d2 in neg:
                b = -d2[s]
                d = {}
                for x, k in d1.items():
                    if x != s:
                        d[x] = k * b
                for x, k in d2.items():
                    if x != s:
                        n = d.get(x, 0) + k * a
                        if n:
                            d[x] = n
                        else:
                            d.pop(x, None)
                c = c1 * b + c2 * a
                c, d = tighten(c, d)
                if not d:
                    if c < 0:
                        return True
                    continue
                k = tuple(sorted(d.items()))
                if k not in new or c < new[k]:
                    new[k] = c
        if len(new) > limit:
            return False
        cur = [(c, dict(k)) for k, c in new.items()]
    return False
