"""What a check needs to state obligations and to report.

A check module in /verif/checks defines LEVEL-independent `run(ctx)`.  Every
obligation is recorded through ctx.ob(); an obligation that does not hold is a
violation identified by rule, function and message (no line numbers, so that
known findings survive edits elsewhere)."""
import time
from . import ir
from .core import Engine, AnalysisError


class Anchor(Exception):
    """something the check is anchored on vanished"""


class Ctx:
    def __init__(self, prop, tier, mod):
        self.prop = prop
        self.tier = tier
        self.mod = mod
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.undecided = {}
        self.violations = {}
        self.functions = set()
        self.sites = set()
        self.unmodelled = set()
        self.engines = []
        self.samples = []
        self.rules = {}
        self.notes = []
        self.extra = {}
        self.until = None
        self.given_up = 0
        self.shard, self.shards, self.count = 0, 1, 0
        self.first = None         # time of the first violation, shared by the workers
        self.known = set()
        self.stat = {"steps": 0, "states": 0, "loops": 0, "joins": 0, "derefs": 0}

    def skip(self):
        """scenarios are dealt out to the workers"""
        self.count += 1
        return self.count % self.shards != self.shard

    def deadline(self):
        """the end of the time set aside for a scenario, within that for the check"""
        now = time.monotonic()
        k = 2 if self.thorough else 1
        if self.until is None:
            self.until = now + 240 * k
        if self.first is not None and self.first.value and not self.thorough:
            # the check fails: no need to look at everything
            self.until = min(self.until, self.first.value + 30)
        return min(now + 60 * k, self.until)

    def scenario(self, name):
        return Scenario(self, name)

    def give_up(self, name, e):
        """the analysis of a scenario ended without a result"""
        self.obligations += 1
        self.given_up += 1
        m = "%s: %s" % (name, e)
        self.undecided.setdefault(("given-up", m), 0)
        self.undecided[("given-up", m)] += 1

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------- anchors
    def fn(self, name, file=None):
        f = self.mod.fn(name, file)
        if f is None:
            raise Anchor("function %s%s is not defined any more" % (name, " (%s)" % file if file else ""))
        return f

    def at(self, name):
        """where a function is defined"""
        f = self.mod.fn(name)
        return "%s:%s" % (f.file, f.line) if f is not None else name

    def engine(self, client, **kw):
        e = Engine(self.mod, client)
        for k, v in kw.items():
            setattr(e, k, v)
        self.engines.append(e)
        return e

    # --------------------------------------------------------- obligations
    def ob(self, rule, ok, msg, loc=None, fn=None, path=None):
        """ok: True (discharged), False (violated), None (undecided)"""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if ok is True:
            self.discharged += 1
            if len(self.samples) < 12 and self.rules[rule] <= 2:
                self.samples.append("%s: %s" % (rule, msg))
            return True
        if ok is None:
            self.undecided.setdefault((rule, msg), 0)
            self.undecided[(rule, msg)] += 1
            return None
        self.violate(rule, msg, loc, fn, path)
        return False

    def violate(self, rule, msg, loc=None, fn=None, path=None):
        k = (rule, fn or "", msg)
        if self.first is not None and not self.first.value and k not in self.known:
            self.first.value = time.monotonic()
        if k not in self.violations:
            self.violations[k] = {"rule": rule, "function": fn or "", "message": msg,
                                  "location": loc or "", "path": path or ""}

    def require(self, rule, n):
        """fail as broken when a rule matched fewer instances than confirmed"""
        if self.violations or self.shards > 1 or self.given_up:
            self.required = getattr(self, "required", []) + [(rule, n)]
            return
        if self.rules.get(rule, 0) < n:
            raise Anchor("rule %s: %d instances, expected at least %d" % (rule, self.rules.get(rule, 0), n))

    def sample(self, s):
        if len(self.samples) < 24:
            self.samples.append(s)

    def absorb(self):
        for e in self.engines:
            self.functions |= e.stats["functions"]
            self.sites |= e.stats["calls"]
            self.unmodelled |= e.stats["unmodelled"]
            for k in self.stat:
                self.stat[k] += e.stats[k]
        self.engines = []
        return self.stat

    PARTS = ("obligations", "given_up", "discharged", "undecided", "violations", "functions", "sites", "unmodelled", "samples",
             "rules", "extra", "stat")

    def export(self):
        self.absorb()
        d = {k: getattr(self, k) for k in self.PARTS}
        d["required"] = getattr(self, "required", [])
        return d

    def merge(self, d):
        for k in ("obligations", "discharged", "given_up"):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ("functions", "sites", "unmodelled"):
            setattr(self, k, getattr(self, k) | d[k])
        for k in ("undecided", "rules", "stat"):
            m = getattr(self, k)
            for x, n in d[k].items():
                m[x] = m.get(x, 0) + n
        for k, v in d["violations"].items():
            self.violations.setdefault(k, v)
        self.samples = (self.samples + d["samples"])[:12]
        self.extra.update(d["extra"])
        self.required = d["required"]


class Scenario:
    """with ctx.scenario(name): an analysis that ends without a result is given up"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, AnalysisError):
            self.ctx.give_up(self.name, v)
            return True
        return False
