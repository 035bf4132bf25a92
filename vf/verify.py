"""Runs one contract through the verifier."""
import time, traceback
from .sym import *
from . import ex as X, spec as S, sym

class Result:
    def __init__(self): self.name = None; self.ok = False; self.failures = []; self.obl = {}; self.how = {}; self.error = None; self.loops = []; self.inlined = set(); self.used = set(); self.ext = set(); self.t = 0; self.cases = 0; self.paths = 0; self.solver = 0.0; self.term = 0; self.nonterm = []; self.vac = []; self.log = []; self.models = []; self.bounded = False

def reset_tables():
    for d in (sym.BOUNDS, sym.ARRB, sym._lin, sym._bc): d.clear()
    from . import lib
    for f in (lib.FN1, lib.FN2, lib.GEN, lib.ADD, lib.MUL, lib.SUB): sym.ARRB[f.get_id()] = (f, 0, (1 << 32) - 1)

def verify(mod, con, table, budget=240, debug=False, timeout=8000):
    R = Result(); R.name = con.name
    t0 = time.time(); sym.STATS.__init__()
    script = []
    first = True
    try:
        while True:
            reset_tables()
            ex = X.Exec(mod, mode=con.opt.get("mode", "int"), unroll=con.opt.get("unroll"), contracts={k: v for k, v in table.items() if k not in con.opt.get("inline", ())}, budget=budget - (time.time() - t0))
            ex.once = con.opt.get("once", ())
            ex.timeout = con.opt.get("timeout", timeout)
            ex.debug = debug
            c = S.SymCtx(ex, script); c.func = con.func; c.debug = debug
            try:
                con.fn(c)
            except X.PathEnd: pass
            except S.SpecSkip: c.vacuous = None
            R.cases += 1
            for f in ex.failures:
                f.case = c.case_name; f.named = c.named; R.failures.append(f)
            for k, v in ex.nob.items(): R.obl[k] = R.obl.get(k, 0) + v
            for k, v in ex.discharged.items(): R.how[k] = R.how.get(k, 0) + v
            R.loops += ex.loopinfo; R.inlined |= ex.inlined; R.used |= ex.used_contracts; R.ext |= ex.externals
            R.paths += ex.npaths; R.term += getattr(ex, "terminating", 0); R.nonterm += getattr(ex, "nonterm", [])
            if len(R.log) < 60: R.log += ex.obl_log[:60]
            if c.vacuous and not ex.failures: R.vac.append(c.case_name + ": " + c.vacuous)
            if c.pre is None and not isinstance(c, type(None)) and not ex.nob and False: R.vac.append("never ran")
            # next script
            ch = c.choices
            while ch and ch[-1][0] + 1 >= ch[-1][1]: ch.pop()
            if not ch: break
            script = [i for i, n in ch[:-1]] + [ch[-1][0] + 1]
        if sum(R.obl.values()) == 0: R.vac.append("no obligations")
        R.ok = not R.failures and not R.vac
    except (VError, Budget) as e:
        R.error = "%s: %s" % (type(e).__name__, e)
        if debug: traceback.print_exc()
    except z3.Z3Exception as e:
        R.error = "z3: %s" % e
        if debug: traceback.print_exc()
    except Exception as e:
        R.error = "internal: %r %s" % (e, traceback.format_exc()[-600:])
        if debug: traceback.print_exc()
    R.t = time.time() - t0
    R.solver = sym.STATS.tl + sym.STATS.th
    return R
