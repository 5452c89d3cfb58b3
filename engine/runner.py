"""Runs one check and turns its result into the exit status, the report and
the evidence file."""
import importlib.util
import json
import os
import sys
import time
import traceback

from . import ir
from .contract import Ctx, Anchor
from .core import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == prop]


def load(prop):
    p = os.path.join(VERIF, "checks", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop.lower(), p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run(ctx, chk):
    """the check, its documents dealt out to worker processes"""
    n = getattr(chk, "SHARDS", 1)
    if n == 1:
        chk.run(ctx)
        return
    import multiprocessing as mp
    mpc = mp.get_context("fork")
    first = mpc.Value("d", 0.0)
    listed = {(f["rule"], f["function"], f["message"]) for f in known(ctx.prop)}

    def work(k, q):
        c = Ctx(ctx.prop, ctx.tier, ctx.mod)
        c.shard, c.shards = k, n
        c.first, c.known = first, listed
        err = None
        try:
            chk.run(c)
        except (Anchor, AnalysisError, ir.FrontendError) as e:
            err = "%s: %s" % (type(e).__name__, e)
        except Exception:
            err = traceback.format_exc()
        q.send((c.export(), err))
        q.close()
    ps = []
    for k in range(n):
        a, b = mpc.Pipe(False)
        p = mpc.Process(target=work, args=(k, b))
        p.start()
        b.close()
        ps.append((p, a))
    errs = []
    for p, a in ps:
        try:
            d, err = a.recv()
            ctx.merge(d)
            if err:
                errs.append(err)
        except EOFError:
            errs.append("a worker of the analysis ended early")
        p.join()
    if errs:
        raise AnalysisError(errs[0])
    for rule, k in ctx.required:
        ctx.require(rule, k)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    ctx = None
    err = None
    try:
        mod = ir.module()
        ctx = Ctx(prop, tier, mod)
        chk = load(prop)
        run(ctx, chk)
    except (Anchor, AnalysisError, ir.FrontendError) as e:
        err = "%s: %s" % (type(e).__name__, e)
    except Exception:
        err = traceback.format_exc()
    if ctx is None:
        print("ERROR %s: %s" % (prop, err))
        return 2
    if not ctx.violations and err is None and ctx.discharged == 0:
        err = "no obligation was decided: %s" % list(ctx.undecided)[:3]
    st = ctx.absorb()
    kf = known(prop)
    unlisted, listed = [], []
    for k, v in ctx.violations.items():
        hit = None
        for f in kf:
            if f["rule"] == v["rule"] and f["function"] == v["function"] and f["message"] == v["message"]:
                hit = f
        (listed if hit else unlisted).append(v)
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    und = sum(ctx.undecided.values())
    cov = {
        "explanation": chk.__doc__.strip() if "chk" in locals() and chk.__doc__ else prop,
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "undecided": und,
        "rules": ctx.rules,
        "functions_analysed": sorted(ctx.functions),
        "call_sites": len(ctx.sites),
        "abstract_states": st["states"],
        "loops_fixpointed": st["loops"],
        "joins": st["joins"],
        "dereferences_checked": st["derefs"],
        "unmodelled_externals": sorted(ctx.unmodelled),
        "samples": ctx.samples,
    }
    cov.update(ctx.extra)
    if und:
        cov["undecided_samples"] = ["%s: %s" % k for k in list(ctx.undecided)[:40]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": cov,
        "assumptions": getattr(chk, "ASSUMPTIONS", []) if 'chk' in locals() else [],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(unlisted),
    }
    if err:
        ev["coverage"]["error"] = err
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["rule"], v["message"]))
    if unlisted:
        rp = os.path.join("evidence", prop + ".report.txt")
        with open(os.path.join(evd, prop + ".report.txt"), "w") as f:
            for v in unlisted:
                t = "%s: rule %s in %s\n  %s\n" % (v["location"] or "?", v["rule"], v["function"] or "?", v["message"])
                if v["path"]:
                    t += "  path: %s\n" % v["path"]
                f.write(t)
                print(t, end="")
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if err:
        print("ERROR %s: %s" % (prop, err))
        return 2
    print("OK %s: %d obligations, %d discharged, %d undecided, %d functions, %d call sites, %.1fs" % (
        prop, ctx.obligations, ctx.discharged, und, len(ctx.functions), len(ctx.sites), time.time() - t0))
    return 0
