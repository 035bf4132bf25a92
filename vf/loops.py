"""Loops: inductive invariants found by Houdini over automatic linear candidates, frame candidates and the
contract author's quantified templates.  Nothing unproved is ever kept: a candidate survives only if it holds on
entry and is preserved by every path of the real loop body."""
import z3, time
from .sym import *
from .ir import *
from . import ex as X

import os
DEAD = os.environ.get("VF_DEAD", "")
def smt(fs, g):
    s = z3.Solver()
    for f in fs: s.add(f)
    s.add(z3.Not(zb(g))); return s.sexpr()
SLOW = float(os.environ.get("VF_SLOW", 0))
class H:
    """view of the machine at a loop header: state + phi values"""
    def __init__(self, ex, st, vals, k): self.ex, self.st, self.vals, self.k = ex, st, vals, k

class Ind:
    """forall lo<=k<hi. P(k): as a fact, and as the step of a strong induction to be proved (hint: a false statement that mentions terms)"""
    def __init__(self, lo, hi, P, hint=lambda k: False):
        self.fact = forall(lo, hi, P)
        k = z3.Int(fresh_name("ind"))
        self.goal = bImp(bAnd(lo <= k, k < hi, forall(lo, k, P)), bOr(hint(k), P(k)))

class Term:
    """a loop-varying quantity usable in candidates"""
    def __init__(self, name, kind, reg, get, e0): self.name, self.kind, self.reg, self.get, self.e0 = name, kind, reg, get, e0
    def __repr__(self): return self.name

def reg_of(ex, st, rid):
    for r in ex.all_regions(st):
        if r.id == rid: return r
    return None

def run_loop(ex, st, L, frm, keep=True):
    fr = st.frames[-1]; fn = fr.fn; hb = fn.blocks[L.header]; D = ex.D
    if D.bv: raise VError("loop in bit-vector mode needs unrolling (%s)" % L.header)
    depth = len(st.frames)
    entry = {}
    for ph in hb.phis:
        for v, lb in ph.a:
            if lb == frm: entry[ph.res] = ex.val(st, v, ph.ty); break
        else: raise VError("phi")
    ptys = {ph.res: ph.ty for ph in hb.phis}
    base_writes = set(st.writes)
    rec = ex.rec
    where = "%s:%s" % (fn.name, L.header)

    # ---- 0. loops whose iterations are all decided are simply executed
    def peel(rec_, limit):
        s = st.fork(); f = s.frames[-1]
        for n, e in entry.items(): f.env[n] = e
        f.prev = frm; f.blk = L.header; f.ip = 0
        outs = []; work = [s]; forks = 0
        try:
            for it in range(limit):
                ctx = X.LoopCtx(L, depth); ex.rec = rec_
                done = ex.run(work, ctx)
                outs += ctx.exit + done
                if not ctx.back: return outs, it + 1
                if ctx.exit or done or (len(ctx.back) > 1 and not wide):
                    forks += 1
                    if forks > peel_forks: return None, it
                if len(ctx.back) > (wide or 8): return None, it
                work = []
                for b in ctx.back:
                    pf, to = b.pending; b.pending = None
                    ex.do_phis(b, pf, to); work.append(b)
            return None, limit
        except VError as e:
            if getattr(ex.spec, "debug", False): print("peel:", where, e)
            return None, 0
        finally: ex.rec = rec
    peel_forks = getattr(ex.spec, "peel", 0) if ex.spec is not None else 0
    wide = getattr(ex.spec, "peel_wide", 0) if ex.spec is not None else 0     # bodies may fork, the number of iterations is decided
    nt = ex.npaths
    outs, its = peel(False, 40)
    if outs is not None:
        if rec:
            outs, its = peel(True, its + 1)
            ex.terminating = getattr(ex, "terminating", 0) + 1
            ex.loopinfo.append(dict(loop=where, rounds=0, invariants=["executed exactly: %d iterations at most" % its], affine={}, mods=[]))
        return outs
    ex.npaths = nt

    mods = set(); aff = {}; opaque = {}; kept = set()      # kept: pointers to objects believed unchanged (checked below)
    def header(cands):
        s = st.fork(); s.writes = set(); f = s.frames[-1]
        k = z3.Int(fresh_name("k")); set_bounds(k, 0, 1 << 62)
        s.assume(k >= 0)
        for n, e in entry.items():
            if isinstance(e, P) and e.r is not None:
                if n in aff and aff[n] is not None:
                    v = P(e.r, norm(e.i + aff[n] * k) if aff[n] else e.i, e.o)
                elif e.r.kind == "obj":
                    o = z3.Int(fresh_name(n)); v = P(e.r, 0, o)
                else: v = P(e.r, z3.Int(fresh_name(n)), e.o)
            elif isinstance(e, P):
                v = e      # null stays null unless the body says otherwise (checked on the back edge)
            elif isinstance(e, N):
                if n in aff and aff[n] is not None: v = N(e.w, norm(e.e + aff[n] * k) if aff[n] else e.e)
                else:
                    v = D.fresh(e.w, n); s.assume(D.range_fact(v))
            elif isinstance(e, (bool, z3.BoolRef)): v = z3.Bool(fresh_name(n))
            elif isinstance(e, Undef):
                v = ex.undef(ptys[n], n) if ptys[n].k == "int" else UNDEF
                if isinstance(v, N): s.assume(D.range_fact(v))
            elif isinstance(e, Fl): v = Fl(D.fresh(e.n.w, n))
            elif isinstance(e, Fn): v = e
            else: raise VError("loop phi of kind %r" % e)
            f.env[n] = v
        for (rid, o) in sorted(mods, key=str):
            if rid == "ghost":
                g = z3.Int(fresh_name("gh_" + o)); set_bounds(g, 0, 1 << 62); s.ghost[o] = g; s.assume(g >= 0); continue
            if rid not in s.mem: continue
            if o == "alive": raise VError("memory freed inside a loop")
            r = reg_of(ex, s, rid); rs = s.wrs(r)
            if r.kind == "arr":
                rs.arrs = [ex.fresh_arr(r, q) for q in range(len(r.fields))]
                if rs.occ: rs.occ = {q: z3.Int(fresh_name("occ")) for q in rs.occ}
            else:
                c0 = st.rs(r).cells.get(o)
                sz, v0 = c0 if c0 else (None, None)
                if c0 is None:
                    rs.cells.pop(o, None); continue
                if isinstance(v0, N): v = D.fresh(v0.w, "%s_%d" % (r.name, o)); s.assume(D.range_fact(v))
                elif isinstance(v0, P) and v0.r is not None and v0.r.kind == "arr": v = P(v0.r, z3.Int(fresh_name("%s_%d" % (r.name, o))), v0.o)
                elif keep and isinstance(v0, P) and v0.r is not None and v0.r.kind == "obj": v = v0; kept.add((rid, o))
                elif isinstance(v0, P) and v0.r is not None and v0.r.kind == "obj": v = P(v0.r, 0, z3.Int(fresh_name("%s_%d" % (r.name, o))))
                elif isinstance(v0, Undef): v = UNDEF
                else: raise VError("loop modifies pointer cell %s+%d" % (r, o))
                rs.cells[o] = (sz, v)
        f.prev = frm; f.blk = L.header; f.ip = 0
        h = H(ex, s, {n: f.env[n] for n in entry}, k)
        for c in cands:
            x = c.f(h); s.assume(x.fact if isinstance(x, Ind) else x)
        return s, h
    def back_h(b, h):
        """H for a back-edge state: next phi values"""
        f, to = b.pending
        bb = b.frames[-1].fn.blocks[to]; vals = {}
        for ph in bb.phis:
            for v, lb in ph.a:
                if lb == f: vals[ph.res] = ex.val(b, v, ph.ty); break
        return H(ex, b, vals, norm(h.k + 1))
    def body(cands, rec_):
        s, h = header(cands)
        ctx = X.LoopCtx(L, depth)
        ex.rec = rec_
        hs = s.fork()
        done = ex.run([s], ctx)
        ex.rec = rec
        return h, hs, ctx, done

    # ---- 1. modification set and affine phis
    for _ in range(6):
        h, hs, ctx, done = body([], False)
        new = set()
        for b in ctx.back: new |= {w for w in b.writes if w[0] == "ghost" or w[0] in st.mem}
        # object cells may be split differently; havoc whole overlapping cells
        if new <= mods: break
        mods |= new
    for n in list(entry):
        e = entry[n]; cur = h.vals[n]
        ds = set()
        for b in ctx.back:
            nx = back_h(b, h).vals[n]
            if isinstance(cur, P) and isinstance(nx, P):
                if nx.r is not cur.r: raise VError("loop pointer %s changes block in %s" % (n, where))
                if cur.r is not None and cur.r.kind == "arr" and nx.o == cur.o: ds.add(diffconst(nx.i, cur.i))
                elif cur.r is not None and cur.r.kind == "obj": ds.add(None)
                else: ds.add(0 if X.same(nx.i, cur.i) else None)
            elif isinstance(cur, N) and isinstance(nx, N): ds.add(diffconst(nx.e, cur.e))
            else: ds.add(None)
        if len(ds) == 1 and None not in ds: aff[n] = ds.pop()
    if not ctx.back:
        # the loop never iterates: a single pass explores everything (with the entry values)
        s = st.fork(); f = s.frames[-1]
        for n, e in entry.items(): f.env[n] = e
        f.prev = frm; f.blk = L.header; f.ip = 0
        ctx = X.LoopCtx(L, depth)
        done = ex.run([s], ctx)
        if not ctx.back: return done + ctx.exit

    # ---- 2. terms and references
    terms = []
    for n, e in entry.items():
        if isinstance(e, P) and e.r is not None and e.r.kind == "arr": terms.append(Term(n, "p", e.r, (lambda hh, n=n: hh.vals[n].i if isinstance(hh.vals[n], P) else 0), e.i))
        elif isinstance(e, N):
            if n in aff: terms.append(Term(n, "i", None, (lambda hh, n=n: hh.vals[n].e), e.e))
            else: terms.append(Term(n, "i", None, (lambda hh, n=n: D.u(hh.st, hh.vals[n])), D.u(st, e)))
        elif isinstance(e, Undef) and ptys[n].k == "int": terms.append(Term(n, "i", None, (lambda hh, n=n: D.u(hh.st, hh.vals[n]) if isinstance(hh.vals[n], N) else 0), None))
    for (rid, o) in sorted(mods, key=str):
        if rid == "ghost": continue
        r = reg_of(ex, st, rid)
        if r is None or r.kind != "obj" or o == "alive": continue
        c0 = st.rs(r).cells.get(o)
        if c0 and isinstance(c0[1], N): terms.append(Term("%s+%s" % (r.name, o), "i", None, (lambda hh, r=r, o=o: D.u(hh.st, hh.st.rs(r).cells[o][1])), D.u(st, c0[1])))
        elif c0 and isinstance(c0[1], P) and c0[1].r is not None and c0[1].r.kind == "arr":
            rr = c0[1].r
            terms.append(Term("%s+%s" % (r.name, o), "p", rr, (lambda hh, r=r, o=o: hh.st.rs(r).cells[o][1].i), c0[1].i))
    # ghost terms
    for (rid, o) in mods:
        if rid == "ghost": terms.append(Term("ghost:" + o, "i", None, (lambda hh, o=o: hh.st.ghost.get(o, 0)), st.ghost.get(o, 0)))
    prefs = {}; irefs = []
    def addp(r, e):
        l = prefs.setdefault(r.id, [])
        if len(l) < 14 and not any(X.same(e, x) for x in l): l.append(e)
    def addi(e):
        if len(irefs) < 14 and not any(X.same(e, x) for x in irefs): irefs.append(e)
    def addv(v):
        if isinstance(v, P) and v.r is not None and v.r.kind == "arr": addp(v.r, v.i)
        elif isinstance(v, N) and v.w >= 8 and (isz(v.e) or True): addi(norm(D.u(st, v)) if isz(v.e) else v.e)
    for e in entry.values(): addv(e)
    addi(0)
    used = set()
    for bn in L.blocks:
        for i in fn.blocks[bn].ins:
            if i.op == "icmp":
                for o in i.a[2:]:
                    if o.k == "reg" and o.v in fr.env: addv(fr.env[o.v])
                    elif o.k == "int" and i.a[1].w > 1: addi(o.v)
            elif i.op == "ptrtoint":
                for o in i.a:
                    if getattr(o, "k", None) == "reg" and o.v in fr.env:
                        v = fr.env[o.v]; addv(v)
                        if isinstance(v, P) and v.r is not None and v.r.kind == "arr" and not v.o: addp(v.r, norm(v.i + 1))
            elif i.op in ("sext", "zext", "trunc"):
                for o in i.a:
                    if getattr(o, "k", None) == "reg" and o.v in fr.env: addv(fr.env[o.v])
            elif i.op == "getelementptr":
                for t, o in i.a[2]:
                    if o.k == "reg" and o.v in fr.env: addv(fr.env[o.v])
            elif i.op in ("load", "store"):
                o = i.a[0] if i.op == "load" else i.a[1]
                if o.k == "reg" and o.v in fr.env: addv(fr.env[o.v])
            elif i.op in ("call", "invoke"):
                for t, o in i.a[1]:
                    if o is not None and o.k == "reg" and o.v in fr.env: addv(fr.env[o.v])
    if getattr(ex.spec, "env_refs", False):         # every pointer in scope is a reference
        for v in list(fr.env.values()): addv(v) if isinstance(v, P) else None
    for x in getattr(ex.spec, "refs", []) if ex.spec else []:
        if isinstance(x, tuple): addp(x[0], x[1])
        else: addi(x)
    for f in (st.frames[0], fr):
        for ty, nm, at, sr in f.fn.params:
            if nm in f.env: addv(f.env[nm])
    for t in terms:
        if t.kind == "p": addp(t.reg, 0); addp(t.reg, t.reg.n)

    # ---- 3. linear candidates
    cands = []
    class Cand:
        rng = None
        def __init__(self, label, f): self.label, self.f = label, f
    isaff = {t.name for t in terms if t.name in aff}
    for t in terms:
        refs = prefs.get(t.reg.id, []) if t.kind == "p" else irefs
        if aff.get(t.name) == 0: continue
        for q, c in enumerate(refs):
            cands.append(Cand("%s<=#%d" % (t.name, q), lambda h, t=t, c=c: le(t.get(h), c)))
            cands.append(Cand("%s>=#%d" % (t.name, q), lambda h, t=t, c=c: le(c, t.get(h))))
            cands.append(Cand("%s<#%d" % (t.name, q), lambda h, t=t, c=c: lt(t.get(h), c)))
            cands.append(Cand("%s>#%d" % (t.name, q), lambda h, t=t, c=c: lt(c, t.get(h))))
    for a in range(len(terms)):
        for b in range(a + 1, len(terms)):
            x, y = terms[a], terms[b]
            if aff.get(x.name) == 0 or aff.get(y.name) == 0: continue
            if x.kind == y.kind and x.reg is y.reg:
                cands.append(Cand("%s<=%s" % (x, y), lambda h, x=x, y=y: le(x.get(h), y.get(h))))
                cands.append(Cand("%s>=%s" % (x, y), lambda h, x=x, y=y: le(y.get(h), x.get(h))))
                for u, v in ((x, y), (y, x)):
                    if u.name not in isaff and u.e0 is not None: cands.append(Cand("%s=0|<%s" % (u, v), lambda h, u=u, v=v: bOr(eq(u.get(h), u.e0), lt(u.get(h), v.get(h)))))
            if x.name in isaff and y.name in isaff: continue
            if x.e0 is None or y.e0 is None: continue
            cands.append(Cand("d%s<=d%s" % (x, y), lambda h, x=x, y=y: le(norm(x.get(h) - x.e0), norm(y.get(h) - y.e0))))
            cands.append(Cand("d%s>=d%s" % (x, y), lambda h, x=x, y=y: le(norm(y.get(h) - y.e0), norm(x.get(h) - x.e0))))
            if x.kind == "i" or y.kind == "i":
                cands.append(Cand("d%s<=-d%s" % (x, y), lambda h, x=x, y=y: le(norm(x.get(h) - x.e0 + y.get(h) - y.e0), 0)))
                cands.append(Cand("d%s>=-d%s" % (x, y), lambda h, x=x, y=y: le(0, norm(x.get(h) - x.e0 + y.get(h) - y.e0))))
    # step > 1: distance to the references stays a multiple of the step
    for t in terms:
        c = aff.get(t.name)
        if c is not None and abs(c) > 1:
            for q, rf in enumerate(prefs.get(t.reg.id, []) if t.kind == "p" else irefs):
                cands.append(Cand("%s=#%d mod %d" % (t.name, q, c), lambda h, t=t, rf=rf, c=c: eq(zi_(norm(t.get(h) - rf)) % abs(c), 0)))
    spec = ex.spec
    T = spec.loop_templates(ex, st, where, terms, prefs, irefs) if spec is not None else []
    cands += [Cand("spec:" + l, f) for l, f, q in T if not q]
    tick = time.time()
    # entry
    e_h = H(ex, st.fork(), dict(entry), 0)
    e_h.st.frames[-1].env.update(entry)
    def holds(s, g, quick=True):
        if g is True: return True
        if g is False: g = z3.BoolVal(False)
        if not is_quant(g):
            if ex.light.valid(s.qf, g): return True
            if quick: return False
        t0 = time.time()
        r, _ = heavy(ex.facts(s), g, getattr(ex.spec, "inv_timeout", 2500))
        if SLOW and time.time() - t0 > SLOW: print("slow", r, round(time.time() - t0, 2), str(g)[:300])
        return r == "proved"
    def safe(c, hh):
        try:
            x = c.f(hh)
            return x.goal if isinstance(x, Ind) else x
        except (KeyError, AttributeError, TypeError) as e:
            if spec is not None and getattr(spec, "debug", False): print("template error", c.label, repr(e))
            return z3.BoolVal(False)
    cands = [c for c in cands if holds(e_h.st, safe(c, e_h))]
    rounds = 0
    while True:
        rounds += 1
        h, hs, ctx, done = body(cands, False)
        alive = []
        dead = set()
        for b in ctx.back:
            bh = back_h(b, h)
            for c in cands:
                if c.label in dead: continue
                if not holds(b, safe(c, bh)): dead.add(c.label)
        if not dead: break
        cands = [c for c in cands if c.label not in dead]
        if rounds > 40: raise VError("houdini does not stabilise")
    # ---- 4. quantified candidates
    Q = [Cand("spec:" + l, f) for l, f, q in T if q]
    framed = []
    for (rid, o) in sorted(mods, key=str):
        if rid == "ghost": continue
        r = reg_of(ex, st, rid)
        if r is None or r.kind != "arr": continue
        old = st.rs(r)
        pts = [("#%d" % q, (lambda h, e=e: e)) for q, e in enumerate(prefs.get(rid, [])) if X.same(e, 0) is False or True]
        pts += [(t.name, (lambda h, t=t: t.get(h))) for t in terms if t.kind == "p" and t.reg is r]
        pts += [(t.name, (lambda h, t=t: t.get(h))) for t in terms if t.kind == "i" and getattr(spec, "int_frames", False)]
        for nm, g in pts:
            for fi in range(len(r.fields)):
                F = lambda lbl, f, lo, hi, r=r, fi=fi: (lambda cd: (setattr(cd, "rng", (r, fi, lo, hi)), Q.append(cd)))(Cand(lbl, f))
                F("frame<%s:%s.%d" % (nm, r.name, fi), lambda h, g=g, r=r, fi=fi, old=old: forall(0, g(h), lambda j: eq(h.st.rs(r).arrs[fi].sel(j), old.arrs[fi].sel(j))), lambda h: 0, g)
                F("frame>=%s:%s.%d" % (nm, r.name, fi), lambda h, g=g, r=r, fi=fi, old=old: forall(g(h), r.n, lambda j: eq(h.st.rs(r).arrs[fi].sel(j), old.arrs[fi].sel(j))), g, lambda h, r=r: r.n)
                F("frame>%s:%s.%d" % (nm, r.name, fi), lambda h, g=g, r=r, fi=fi, old=old: forall(norm(g(h) + 1), r.n, lambda j: eq(h.st.rs(r).arrs[fi].sel(j), old.arrs[fi].sel(j))), lambda h, g=g: norm(g(h) + 1), lambda h, r=r: r.n)
    # values bounded by their width
    for (rid, o) in sorted(mods, key=str):
        if rid == "ghost": continue
        r = reg_of(ex, st, rid)
        if r is not None and r.kind == "arr" and st.rs(r).occ:
            for key in st.rs(r).occ:
                Q.append(Cand("occ:%s" % r.name, lambda h, r=r, key=key: eq(h.st.rs(r).occ[key], st.rs(r).occ[key])))
    if Q:
        if DEAD:
            for c in Q:
                if DEAD in c.label and not holds(e_h.st, safe(c, e_h), False): print("dead at entry", where, c.label); open("/tmp/dead.smt2", "w").write(smt(ex.facts(e_h.st), safe(c, e_h)))
        Q = [c for c in Q if holds(e_h.st, safe(c, e_h), False)]
        # step-wise pruning
        while True:
            rounds += 1
            allc = cands + Q
            h, hs, ctx, done = body(allc, False)
            dead = set()
            for b in ctx.back:
                bh = back_h(b, h)
                for c in allc:
                    if c.label in dead: continue
                    q = frame_step(ex, c, h, b, bh) if c.rng else None
                    if q is None: q = holds(b, safe(c, bh), False)
                    if not q:
                        dead.add(c.label)
                        if DEAD and DEAD in c.label: print("dead", c.label, heavy(ex.facts(b), safe(c, bh), 5000)); DEAD[:1] == "!" or open("/tmp/dead.smt2", "w").write(smt(ex.facts(b), safe(c, bh)))
            if not dead: break
            cands = [c for c in cands if c.label not in dead]; Q = [c for c in Q if c.label not in dead]
            if rounds > 60: raise VError("houdini does not stabilise")
    allc = cands + Q
    for rid, o in sorted(kept, key=str):
        r = reg_of(ex, st, rid); v0 = st.rs(r).cells[o][1]
        for b in ctx.back:
            v = b.rs(r).cells.get(o)
            v = v[1] if v else None
            if not (isinstance(v, P) and v.r is v0.r and X.same(v.i, v0.i) and X.same(v.o, v0.o)): return run_loop(ex, st, L, frm, keep=False)
    # pointer phis must stay in their block
    if rec:
        h, hs, ctx, done = body(allc, True)
        nb = len(ctx.back)
        ex.nob["inv-init"] = ex.nob.get("inv-init", 0) + len(allc); ex.nob["inv-step"] = ex.nob.get("inv-step", 0) + len(allc) * max(nb, 1)
        ex.discharged["houdini"] = ex.discharged.get("houdini", 0) + len(allc) * (1 + max(nb, 1))
        ex.loopinfo.append(dict(loop=where, rounds=rounds, invariants=[c.label for c in allc], affine={k: v for k, v in aff.items()}, mods=[(getattr(reg_of(ex, st, m[0]), "name", m[0]), m[1]) for m in mods]))
        check_terminates(ex, st, L, h, hs, ctx, back_h, where, terms, prefs, irefs)
    outs = []
    for s in ctx.exit + done:
        s.writes |= base_writes | mods
        outs.append(s)
    return outs

def frame_step(ex, c, h, b, bh):
    """frame candidate over one iteration, decided by where the iteration writes: True, False (dropped) or None (ask the solver)"""
    r, fi, lo, hi = c.rng
    try: l0, h0, l1, h1 = lo(h), hi(h), lo(bh), hi(bh)
    except (KeyError, AttributeError, TypeError): return None
    a0 = h.st.rs(r).arrs[fi]; a = b.rs(r).arrs[fi]; ws = []
    while a is not a0:
        if isinstance(a, Store): ws.append((a.i, norm(a.i + 1)))
        elif isinstance(a, Rev): ws.append((a.lo, a.hi))
        elif isinstance(a, (Copy, FillA)): ws.append((a.d, norm(a.d + a.n)))
        else: return None
        if len(ws) > 12: return None
        a = a.p
    for w0, w1 in ws:
        if ex.light.feasible(b.qf, bAnd(le(l1, w0), lt(w0, h1), lt(w0, w1))): return False     # (would need equal values: not looked for)
    if not ex.light.valid(b.qf, bOr(le(h1, l1), bAnd(le(l0, l1), le(h1, h0)))): return None
    for w0, w1 in ws:
        if not ex.light.valid(b.qf, bOr(le(h1, w0), le(w1, l1))): return None
    return True

def check_terminates(ex, st, L, h, hs, ctx, back_h, where, terms, prefs, irefs):
    """variant: some bounded linear term strictly decreases on every back edge (recorded, reported, not an alarm)"""
    backs = [(b, back_h(b, h)) for b in ctx.back]
    cand = []
    for t in terms:
        refs = prefs.get(t.reg.id, []) if t.kind == "p" else irefs
        for c in refs:
            cand.append((lambda hh, t=t, c=c: norm(c - t.get(hh))))
            cand.append((lambda hh, t=t, c=c: norm(t.get(hh) - c)))
    for x in terms:
        for y in terms:
            if x is not y and x.kind == y.kind and x.reg is y.reg: cand.append((lambda hh, x=x, y=y: norm(x.get(hh) - y.get(hh))))
    for m in cand[:80]:
        try:
            if all(ex.light.valid(b.qf, bAnd(le(0, m(h)), lt(m(bh), m(h)))) for b, bh in backs):
                ex.terminating = getattr(ex, "terminating", 0) + 1
                return
        except Exception: pass
    ex.nonterm = getattr(ex, "nonterm", []) + [where]

def zi_(e): return e if isz(e) else z3.IntVal(e)
