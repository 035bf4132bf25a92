"""C23 atomics and shared_ptr reference counts under interference (rely/guarantee): whenever the code touches a shared
cell, other threads may have changed it in any way their own contracts permit"""
from vf.spec import *
from contracts.c17 import Thing, is_, holds, spobj, heap_objs
P_, G = "C23", "sp"
def at(name, func=None, **kw): return contract(P_, func or name, G, name, **kw)
# ---- atomic<T>: every operation is one indivisible step
def cell(c, w): 
    o = c.obj("a", w, [(0, w, c.num("v0", 8 * w))]); c.modifies(o)
    if c.sym: c.share(o, 0, lambda st, old, now: True)
    return o
def step(c, o, w, kind="rmw"):
    """(value found, value left) of the single step"""
    if not c.sym: return int.from_bytes(o.snap, "little"), c.fld(o, 0, w)
    ev = c.events(o)
    if kind != "load": ev = [e for e in ev if e[0] != "load"]        # looking is harmless
    c.ensure("one indivisible step", len(ev) == 1 and ev[0][0] == kind)
    if not ev or ev[0][0] != kind: raise X.PathEnd()
    c.ensure("sequentially consistent by default", ev[0][5] == "seq_cst")
    return ev[0][3], ev[0][4]
def msk(x, w): return x if isz(x) else x % (1 << (8 * w))
OPS = dict(fetch_add=(lambda o, v: o + v, 0), fetch_sub=(lambda o, v: o - v, 0), fetch_and=(lambda o, v: o & v, 0), fetch_or=(lambda o, v: o | v, 0), fetch_xor=(lambda o, v: o ^ v, 0),
    add_fetch=(lambda o, v: o + v, 1), sub_fetch=(lambda o, v: o - v, 1), and_fetch=(lambda o, v: o & v, 1), or_fetch=(lambda o, v: o | v, 1), xor_fetch=(lambda o, v: o ^ v, 1),
    addeq=(lambda o, v: o + v, None), subeq=(lambda o, v: o - v, None), andeq=(lambda o, v: o & v, None), oreq=(lambda o, v: o | v, None), xoreq=(lambda o, v: o ^ v, None),
    exchange=(lambda o, v: v, 0), inc=(lambda o, v: o + 1, 1), dec=(lambda o, v: o - 1, 1), inc_post=(lambda o, v: o + 1, 0), dec_post=(lambda o, v: o - 1, 0))
for x, w in (("a8", 8), ("a4", 4)):
    for nm, (f, ret) in OPS.items():
        @at("%s_%s" % (x, nm), mode="bv", race=(nm, w))
        def g(c, nm=nm, f=f, ret=ret, w=w):
            o = cell(c, w); v = c.num("v", 8 * w)
            def post(r):
                a, b = step(c, o, w)
                c.ensure("the new value follows from the one replaced", eq(b, msk(f(a, v), w)))
                if ret is not None: c.ensure("returns the value of that step", eq(r.n, b if ret else a))
            c.run(o, *([] if nm.startswith(("inc", "dec")) else [v]), post=post)
    for nm in ("store", "asg"):
        @at("%s_%s" % (x, nm), mode="bv", race=(nm, w))
        def g(c, w=w):
            o = cell(c, w); v = c.num("v", 8 * w)
            c.run(o, v, post=lambda r: c.ensure("stores the value", eq(step(c, o, w, "store")[1], v)))
    for nm in ("load", "conv"):
        @at("%s_%s" % (x, nm), mode="bv", race=(nm, w))
        def g(c, w=w):
            o = cell(c, w)
            c.run(o, post=lambda r: c.ensure("returns the value found", eq(step(c, o, w, "load")[0], r.n)))
    for nm in ("cas", "casw", "casw2"):
        @at("%s_%s" % (x, nm), mode="bv", race=(nm, w))
        def g(c, w=w):
            o = cell(c, w); e0 = c.num("expected", 8 * w); v = c.num("v", 8 * w); e = c.obj("e", w, [(0, w, e0)]); c.modifies(e)
            def post(r):
                a, b = step(c, o, w)
                c.ensure("true iff the expected value was found", Iff(r.n, eq(a, e0)))
                c.ensure("replaces it then, and only then", And(Imp(eq(a, e0), eq(b, v)), Imp(Not(eq(a, e0)), eq(b, a))))
                c.ensure("reports the value found", eq(c.fld(e, 0, w), a))
            c.run(o, e, v, post=post)
@at("af_tas", mode="bv", race=("tas", 1))
def g(c):
    o = cell(c, 1)
    if c.sym: c.shared_cells[(o.r.id, 0)].rely = lambda st, old, now: z3.ULE(now, 1)
    c.require((z3.ULE if c.sym else lambda a, b: a <= b)(c.fld(o, 0, 1), 1))
    def post(r):
        a, b = step(c, o, 1)
        c.ensure("sets the flag", eq(b, 1)); c.ensure("returns what it was", Iff(r.n, eq(a, 1)))
    c.run(o, post=post)
@at("af_clear", mode="bv")
def g(c):
    o = cell(c, 1); c.run(o, post=lambda r: c.ensure("clears the flag", eq(step(c, o, 1, "store")[1], 0)))

# ---- shared_ptr: `own` owners of the control block are in this thread, the others anywhere.  The others keep the count
# at least `own`; without owners here the block may be gone at any time.
class Ctl:
    def __init__(self, c, name, own=1):
        self.c, self.name, self.own = c, name, own
        self.x = Thing(c, name + "_obj"); self.refs = c.size(name + "_refs", lo=own, hi=1 << 40)
        self.b = c.obj(name + "_ctl", 16, [(0, 8, self.x.p), (8, 8, self.refs)], heap=True); c.modifies(self.b)
        if c.sym: c.share(self.b, 8, self.rely, self.after); c.st.ghost["own_" + name] = own
    def rely(self, st, old, now):
        n = st.ghost["own_" + self.name]
        return eq(old, now) if n == "all" else And(n <= now, now <= 1 << 40)
    def after(self, ex, st, p, old, new):
        n = st.ghost["own_" + self.name]
        if n == "all": return None
        ex.oblige(st, "ensures", Or(eq(new, old + 1), eq(new, old - 1)), "%s: count follows one owner at a time" % self.name)
        if ex.light.valid(st.qf, eq(new, old + 1)):
            st.ghost["own_" + self.name] = n + 1; return None
        st.ghost["own_" + self.name] = n - 1
        if n > 1: return None
        outs = []
        f = st.fork(); f.assume(eq(new, 0)); f.ghost["own_" + self.name] = "all"      # nobody else has it
        if ex.light.feasible(f.qf, eq(new, 0)): outs.append(f)
        st.assume(Not(eq(new, 0)))
        if ex.light.feasible(st.qf, Not(eq(new, 0))):
            for r in (self.b.r, self.x.b.r): st.wrs(r).alive = False
            st.ghost["left_" + self.name] = True
            outs.append(st)
        return outs
    def settle(self, owners):
        """`owners` of the pointers here hold it now"""
        c = self.c
        if not c.sym:
            n = self.refs - self.own + owners
            c.ensure("%s: released with its last owner" % self.name, c.alive(self.b) == (n > 0) == c.alive(self.x.b))
            if n:
                c.owns(self.b); c.owns(self.x.b); c.ensure("%s: count is the number of owners" % self.name, eq(c.fld(self.b, 8), n))
            return 0 if n else 1
        st = c.cur; n = st.ghost["own_" + self.name]
        c.ensure("%s: the count includes exactly the owners here" % self.name, (0 if n == "all" else n) == owners)
        if n == "all":
            c.ensure("%s: released by its last owner" % self.name, not c.alive(self.b) and not c.alive(self.x.b)); return 1
        if not st.ghost.get("left_" + self.name):
            c.ensure("%s: not released" % self.name, bool(c.alive(self.b) and c.alive(self.x.b)))
            for o in (self.b, self.x.b):
                if c.alive(o): c.owns(o.r)
        return 0
def share(name, mk, func=None):
    @at("mt_" + name, "sq_" + name)
    def g(c):
        heap_objs(c); objs, ctls, args, want = mk(c)
        def post(r):
            hs = []
            for o in objs:
                v = c.ptr(o, 0); h = next((t for t in ctls if holds(c, v, t.b)), None if c.isnull(v) else "new"); hs.append(h)
                if h == "new": c.owns(v.r if c.sym else v)
            if "new" in hs and c.sym: c.owns(Y[0].b.r)
            elif "new" in hs: c.owns(Y[0].b)
            n = sum(t.settle(sum(h is t for h in hs)) for t in ctls)
            c.ensure("destructions", eq(c.ghost("gone"), n))
            for k, w in enumerate(want):
                if w is not any: c.ensure("pointer %d" % k, hs[k] is w or hs[k] == w)
        c.run(*args, post=post)
Y = [None]
def one(c, extra=()):
    t = Ctl(c, "m"); o = spobj(c, "m", t); return t, o
def m_ctor_copy(c):
    t = Ctl(c, "p"); p = spobj(c, "p", t); o = c.obj("m", 8); c.modifies(o); return [o, p], [t], [o, p], [t, t]
def m_ctor_move(c):
    t = Ctl(c, "p"); p = spobj(c, "p", t); o = c.obj("m", 8); c.modifies(o); return [o, p], [t], [o, p], [t, None]
share("ctor_copy", m_ctor_copy); share("ctor_move", m_ctor_move)
def m_one(c): t, o = one(c); return [o], [t], [o], [None]
share("reset", m_one)
@at("mt_dtor", "sq_dtor")
def g(c):
    t, o = one(c)
    c.run(o, post=lambda r: c.ensure("destructions", eq(c.ghost("gone"), t.settle(0))))
def m_new(c):
    t, o = one(c); y = Thing(c, "y"); Y[0] = y; return [o], [t], [o, y.p], ["new"]
share("reset_p", m_new); share("eq_p", m_new)
def two(keep):
    def m(c):
        k = c.case("source", ["another object", "the same object", "itself", "empty", "into empty"])
        s = None
        if k == "into empty": t = None; s = Ctl(c, "p")
        else:
            t = Ctl(c, "m", 2 if k == "the same object" else 1)
            s = Ctl(c, "p") if k == "another object" else None if k == "empty" else t
        o = spobj(c, "m", t); p = o if k == "itself" else spobj(c, "p", s)
        ctls = [x for x in ([t] if s is t else [t, s]) if x]
        if p is o: return [o], ctls, [o, o], [s]
        return [o, p], ctls, [o, p], [s, s if keep == "copy" else t if keep == "swap" else any]
    return m
share("eq", two("copy")); share("eq_move", two("move")); share("swap", two("swap")); share("uswap", two("swap"))
