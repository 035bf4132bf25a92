"""C17 smart pointers: the owned object is destroyed exactly once, when the last owner lets go"""
from vf.spec import *
P_, G = "C17", "sp"
def sp(name, func=None, **kw): return contract(P_, func or name, G, name, **kw)
# ---- owned things: an element with a lifetime (Q), or an array of plain elements
class Thing:
    def __init__(self, c, name, arr=False):
        self.c, self.name, self.arr = c, name, arr
        if arr: self.b = c.arr(name, heap=True)
        else: self.b = c.obj(name, 8, [(0, 4, c.num(name + "_v", 32)), (4, 4, Q_LIVE)], heap=True)
        c.modifies(self.b)
    @property
    def p(self): return self.b.p
    def kept(self):
        c = self.c
        c.ensure("%s is not destroyed" % self.name, bool(c.alive(self.b)))
        if not self.arr and c.alive(self.b): c.ensure("%s is still alive" % self.name, eq(c.fld(self.b, 4, 4), Q_LIVE))
        if c.alive(self.b): c.owns(self.b.r)
    def gone(self): self.c.ensure("%s is destroyed" % self.name, not self.c.alive(self.b))
def holds(c, v, t):
    """pointer value v designates thing (or block) t"""
    b = t.b if isinstance(t, Thing) else t
    return (isinstance(v, P) and v.r is b.r) if c.sym else v == b.p
def heap_objs(c): c.heap_objs = {8, 16}
def destroyed(c, n): c.ensure("number of destructions", eq(c.ghost("gone"), n))
class Ptr:
    """a unique owner: null or owning a thing"""
    def __init__(self, c, name, arr=False, kind=None):
        self.c, self.name = c, name
        self.kind = kind or c.case(name, ["owner", "empty"])
        self.x = Thing(c, name + "_obj", arr) if self.kind == "owner" else None
        self.o = c.obj(name, 8, [(0, 8, self.x.p if self.x else c.null)]); c.modifies(self.o)
def is_(c, o, x, what="holds"):
    v = c.ptr(o, 0)
    c.ensure("%s: %s" % (getattr(o, "name", ""), what), c.isnull(v) if x is None else holds(c, v, x))
def N_(x, arr): return 0 if x is None or arr else 1
def ret_is(c, r, x, label="returns the held pointer"):
    v = r.v
    c.ensure(label, c.isnull(v) if x is None else (holds(c, v, x) and (not c.sym or at0(v))))
def at0(v): return not isz(v.i) and v.i == 0 and not isz(v.o) and v.o == 0
def family(x, arr=False, move=True):
    @sp(x + "_ctor")
    def g(c):
        o = c.obj("m", 8); c.modifies(o); c.run(o, post=lambda r: is_(c, o, None))
    @sp(x + "_ctor_p")
    def g(c):
        t = Thing(c, "x", arr); o = c.obj("m", 8); c.modifies(o)
        c.run(o, t.p, post=lambda r: (is_(c, o, t), t.kept(), destroyed(c, 0)))
    @sp(x + "_dtor")
    def g(c):
        m = Ptr(c, "m", arr)
        def post(r):
            if m.x: m.x.gone()
            destroyed(c, N_(m.x, arr))
        c.run(m.o, post=post)
    for nm in ("_get", "_release"):
        @sp(x + nm)
        def g(c, nm=nm):
            m = Ptr(c, "m", arr)
            def post(r):
                ret_is(c, r, m.x); is_(c, m.o, m.x if nm == "_get" else None)
                if m.x: m.x.kept()
                destroyed(c, 0)
            c.run(m.o, post=post)
    for nm in ("_reset_p", "_eq_p"):
        @sp(x + nm)
        def g(c, nm=nm):
            m = Ptr(c, "m", arr); t = Thing(c, "x", arr) if c.case("new", ["object", "null"]) == "object" else None
            def post(r):
                is_(c, m.o, t)
                if t: t.kept()
                if m.x: m.x.gone()
                destroyed(c, N_(m.x, arr))
            c.run(m.o, t.p if t else c.null, post=post)
    for nm in ("_deref", "_arrow"):
        @sp(x + nm)
        def g(c):
            m = Ptr(c, "m", arr, "owner"); c.run(m.o, post=lambda r: (ret_is(c, r, m.x), m.x.kept(), is_(c, m.o, m.x)))
    def cmpp(nm, neg):
        @sp(x + nm)
        def g(c):
            m = Ptr(c, "m", arr); q = c.case("with", ["same", "other", "null"])
            t = Thing(c, "x", arr) if q == "other" else None
            def post(r):
                c.ensure("compares the pointers", Iff(r.n, (q == "same" or (q == "null" and m.x is None)) != neg))
                if m.x: m.x.kept()
                if t: t.kept()
            c.run(m.o, t.p if t else m.x.p if q == "same" and m.x else c.null, post=post)
    cmpp("_cmp_p", False)
    @sp(x + "_cmp")
    def g(c):
        m = Ptr(c, "m", arr); p = m if c.case("with", ["self", "other"]) == "self" else Ptr(c, "p", arr)
        def post(r):
            c.ensure("compares the pointers", Iff(r.n, p is m or (m.x is None and p.x is None)))
            for y in {m, p}:
                if y.x: y.x.kept()
        c.run(m.o, p.o, post=post)
    if not move: return
    cmpp("_ncmp_p", True)
    @sp(x + "_ctor_move")
    def g(c):
        p = Ptr(c, "p", arr); o = c.obj("m", 8); c.modifies(o)
        def post(r):
            is_(c, o, p.x); is_(c, p.o, None); destroyed(c, 0)
            if p.x: p.x.kept()
        c.run(o, p.o, post=post)
    @sp(x + "_eq_move")
    def g(c):
        m = Ptr(c, "m", arr); p = m if c.case("from", ["other", "itself"]) == "itself" else Ptr(c, "p", arr)
        def post(r):
            is_(c, m.o, p.x)
            if p.x: p.x.kept()
            if p is not m:
                is_(c, p.o, None)
                if m.x: m.x.gone()
            destroyed(c, N_(m.x, arr) if p is not m else 0)
        c.run(m.o, p.o, post=post)
    for nm in ("_swap", "_uswap"):
        @sp(x + nm)
        def g(c):
            m, p = Ptr(c, "m", arr), Ptr(c, "p", arr)
            def post(r):
                is_(c, m.o, p.x); is_(c, p.o, m.x); destroyed(c, 0)
                for y in (m, p):
                    if y.x: y.x.kept()
            c.run(m.o, p.o, post=post)
    def boolean(nm, neg):
        @sp(x + nm)
        def g(c):
            m = Ptr(c, "m", arr)
            def post(r):
                c.ensure("true iff it holds an object", Iff(r.n, (m.x is not None) != neg))
                if m.x: m.x.kept()
            c.run(m.o, post=post)
    boolean("_bool", False); boolean("_not", True)
    @sp(x + "_index")
    def g(c):
        m = Ptr(c, "m", arr, "owner"); i = c.size("i", hi=m.x.b.n - 1) if arr else 0
        if arr: c.require(And(m.x.b.n >= 1, i < m.x.b.n))
        def post(r):
            if arr: c.ensure("designates element i", eq(r.idx(m.x.b), i))
            else: ret_is(c, r, m.x)
            m.x.kept()
        c.run(m.o, i, post=post)
    less(x + "_less", lambda c, A, i, nm: c.obj(nm, 8, [(0, 8, A.at(i))]))
def less(name, mk):
    @sp(name)
    def g(c):       # two pointers into one block (never released here)
        A = c.arr("A"); i, j = c.size("i", hi=A.n), c.size("j", hi=A.n)
        T8 = name.startswith(("uq", "sq"))
        c.run(mk(c, A, i, "m"), mk(c, A, j, "p"), post=lambda r: c.ensure("orders by address", Iff(r.n, i < j)))
family("uq"); family("ua", arr=True); family("aq", move=False)
@sp("uq_reset")
def g(c):
    m = Ptr(c, "m")
    def post(r):
        is_(c, m.o, None); destroyed(c, N_(m.x, False))
        if m.x: m.x.gone()
    c.run(m.o, post=post)
def fresh_q(c, v, x):
    """v points at a new element with value x"""
    c.ensure("a new object", isinstance(v, P) and v.r is not None and v.r.origin == "heap" if c.sym else c.lib.l.vf_is_live(v) == 1)
    c.ensure("constructed once", And(eq(c.ghost("born"), 1), eq(c.ghost("gone"), 0)))
    if c.sym:
        b = Obj(c, "new", v.r); c.owns(v.r)
        c.ensure("its value", eq(c.fld(b, 0, 4), x)); c.ensure("it is alive", eq(c.fld(b, 4, 4), Q_LIVE))
    else:
        c.owns(v); c.ensure("its value", int.from_bytes(c.rdmem(v, 4), "little") == x)
@sp("uq_make")
def g(c):
    heap_objs(c); o = c.obj("m", 8); c.modifies(o); x = c.num("x", 32)
    c.run(o, x, post=lambda r: fresh_q(c, c.ptr(o, 0), x))
@sp("ua_make")
def g(c):
    c.heap_elem = (4, K.fields); o = c.obj("m", 8); c.modifies(o); n = c.size("n", hi=1 << 30)
    def post(r):
        v = c.ptr(o, 0); B = c.block(v, n, K)
        c.ensure("a new block of n elements", (isinstance(v, P) and v.r is not None and v.r.origin == "heap") if c.sym else c.lib.l.vf_is_live(v) == 1)
        c.owns(v.r if c.sym else v)
        if c.sym: c.ensure("n elements", eq(v.r.n, n))
        c.ensure("zero-initialised", forall(0, n, lambda j: eq(B[j], 0)))
    c.run(o, n, post=post)
# arrays of elements with destructors: the block starts with the element count
def qarray(c, n, name="x"):
    A = c.arr(name, n=n + 1, T=Q, heap=True); c.modifies(A)
    A.set(0, n, 0); A.set(0, 0, 1)
    for j in range(n): A.set(j + 1, Q_LIVE, 1)
    return A
for nm in ("uqa_dtor", "uqa_reset_p"):
    @sp(nm)
    def g(c, nm=nm):
        n = c.case("n", [0, 1, 2, 3]); c.peel = 4
        A = qarray(c, n); o = c.obj("m", 8, [(0, 8, A.at(1))]); c.modifies(o)
        def post(r):
            c.ensure("the block is released", not c.alive(A)); destroyed(c, n)
        c.run(*([o, c.null] if nm == "uqa_reset_p" else [o]), post=post)
for nm in ("aq_ctor_a", "aq_eq_a"):
    @sp(nm)
    def g(c, nm=nm):
        p = Ptr(c, "p"); m = None
        if nm == "aq_eq_a": m = p if c.case("from", ["other", "itself"]) == "itself" else Ptr(c, "m")
        o = m.o if m else c.obj("m", 8); c.modifies(o)
        def post(r):
            is_(c, o, p.x); destroyed(c, N_(m.x, False) if m and m is not p else 0)
            if p.x: p.x.kept()
            if m is not p: is_(c, p.o, None)
            if m and m is not p and m.x: m.x.gone()
        c.run(o, p.o, post=post)

# ---- shared_ptr: object + count in a control block
class Ctl:
    """a control block with `refs` owners, holding an object or (a null pointer given) none"""
    def __init__(self, c, name, hold=True, owners=1):
        self.c, self.name, self.given = c, name, owners
        self.x = Thing(c, name + "_obj") if hold else None
        k = c.case(name, ["sole", "more"])
        self.refs = owners if k == "sole" else owners + c.size(name + "_others", lo=1, hi=1 << 40)
        self.b = c.obj(name + "_ctl", 16, [(0, 8, self.x.p if self.x else c.null), (8, 8, self.refs)], heap=True); c.modifies(self.b)
    def settle(self, owners):
        """the arguments held it `given` times before and hold it `owners` times now"""
        c = self.c; n = self.refs - self.given + owners
        dead = not isz(n) and n == 0
        if dead:
            c.ensure("%s: released with its last owner" % self.name, not c.alive(self.b))
            if self.x: self.x.gone()
        else:
            c.ensure("%s: not released while it has owners" % self.name, bool(c.alive(self.b)))
            if c.alive(self.b):
                c.owns(self.b.r); c.ensure("%s: count is the number of owners" % self.name, eq(c.fld(self.b, 8), n))
                v = c.ptr(self.b, 0); c.ensure("%s: object unchanged" % self.name, c.isnull(v) if self.x is None else holds(c, v, self.x))
            if self.x: self.x.kept()
        return 1 if dead and self.x else 0
def spobj(c, name, ctl):
    o = c.obj(name, 8, [(0, 8, ctl.b.p if ctl else c.null)]); c.modifies(o); return o
def held(c, o, ctls):
    """control block held by o: one of ctls, None (empty) or 'new'"""
    v = c.ptr(o, 0)
    if c.isnull(v): return None
    for t in ctls:
        if t is not None and holds(c, v, t.b): return t
    return "new"
def settle(c, objs, ctls, new=None):
    """every control block is counted by the arguments that hold it; -> destructions"""
    hs = [held(c, o, ctls) for o in objs]
    n = 0
    for t in {t for t in ctls if t is not None}: n += t.settle(sum(h is t for h in hs))
    destroyed(c, n)
    if new is None: c.ensure("no unknown control block", "new" not in hs)
    return hs
def newctl(c, v, x, refs=1):
    if c.sym:
        c.ensure("a new control block", isinstance(v, P) and v.r is not None and v.r.origin == "heap")
        b = Obj(c, "ctl", v.r); c.owns(v.r)
        c.ensure("one owner", eq(c.fld(b, 8), refs)); w = c.ptr(b, 0)
    else:
        c.owns(v); c.ensure("one owner", int.from_bytes(c.rdmem(v + 8, 8), "little") == refs); w = int.from_bytes(c.rdmem(v, 8), "little")
    return w
def which(c, name="m", own=1, opts=("owner", "empty", "holds null")):
    k = c.case(name, list(opts)) if len(opts) > 1 else opts[0]
    return None if k == "empty" else Ctl(c, name, k == "owner", own)
def sq1(nm, body):
    @sp("sq_" + nm)
    def g(c):
        heap_objs(c); t = which(c); o = spobj(c, "m", t); body(c, t, o)
@sp("sq_ctor")
def g(c):
    o = c.obj("m", 8); c.modifies(o); c.run(o, post=lambda r: is_(c, o, None))
@sp("sq_ctor_p")
def g(c):
    heap_objs(c); x = Thing(c, "x"); o = c.obj("m", 8); c.modifies(o)
    def post(r):
        w = newctl(c, c.ptr(o, 0), x); c.ensure("holds the object", holds(c, w, x)); x.kept(); destroyed(c, 0)
    c.run(o, x.p, post=post)
@sp("sq_make")
def g(c):
    heap_objs(c); o = c.obj("m", 8); c.modifies(o); x = c.num("x", 32)
    c.run(o, x, post=lambda r: fresh_q(c, newctl(c, c.ptr(o, 0), None), x))
for nm, mv in (("sq_ctor_copy", 0), ("sq_ctor_move", 1)):
    @sp(nm)
    def g(c, mv=mv):
        t = which(c); p = spobj(c, "p", t); o = c.obj("m", 8); c.modifies(o)
        def post(r):
            hs = settle(c, [o, p], [t])
            c.ensure("shares the object", hs[0] is t)
            c.ensure("the source", hs[1] is (None if mv else t))
        c.run(o, p, post=post)
for nm in ("dtor", "reset"):
    def b(c, t, o, nm=nm):
        def post(r):
            if nm == "reset": is_(c, o, None)
            if t: destroyed(c, t.settle(0))
            else: destroyed(c, 0)
        c.run(o, post=post)
    sq1(nm, b)
for nm in ("reset_p", "eq_p"):
    def b(c, t, o):
        x = Thing(c, "x") if c.case("new", ["object", "null"]) == "object" else None
        def post(r):
            if x:
                w = newctl(c, c.ptr(o, 0), x); c.ensure("holds the object", holds(c, w, x)); x.kept()
            else: is_(c, o, None)
            destroyed(c, t.settle(0) if t else 0)
        c.run(o, x.p if x else c.null, post=post)
    sq1(nm, b)
for nm in ("sq_eq", "sq_eq_move", "sq_swap", "sq_uswap"):
    @sp(nm)
    def g(c, nm=nm):
        k = c.case("source", ["another object", "the same object", "itself"])
        if k == "another object": t, s = which(c, "m"), which(c, "p")
        else: t = s = which(c, "m", own=1 if k == "itself" else 2, opts=("owner", "empty"))
        o = spobj(c, "m", t); p = o if k == "itself" else spobj(c, "p", s)
        def post(r):
            hs = settle(c, [o] if p is o else [o, p], [t, s])
            c.ensure("holds the source's object", hs[0] is s)
            if p is not o:
                if nm == "sq_eq": c.ensure("the source keeps it", hs[1] is s)
                elif nm in ("sq_swap", "sq_uswap"): c.ensure("exchanged", hs[1] is t)
        c.run(o, p, post=post)
def obs(nm, check, opts=("owner", "empty", "holds null"), args=()):
    @sp("sq_" + nm)
    def g(c):
        t = which(c, opts=opts); o = spobj(c, "m", t)
        def post(r):
            check(c, t, r); c.ensure("still holds it", settle(c, [o], [t])[0] is t)
        c.run(o, *args, post=post)
X = lambda t: t.x if t else None
obs("get", lambda c, t, r: ret_is(c, r, X(t))); obs("deref", lambda c, t, r: ret_is(c, r, X(t)), ("owner",)); obs("arrow", lambda c, t, r: ret_is(c, r, X(t)), ("owner",))
obs("index", lambda c, t, r: ret_is(c, r, X(t)), ("owner",), (0,))
obs("use_count", lambda c, t, r: c.ensure("number of owners", eq(r.n, t.refs if t else 0)))
obs("unique", lambda c, t, r: c.ensure("true iff there is one owner", Iff(r.n, eq(t.refs, 1) if t else False)))
obs("bool", lambda c, t, r: c.ensure("true iff it holds an object", Iff(r.n, X(t) is not None)))
obs("not", lambda c, t, r: c.ensure("true iff it holds no object", Iff(r.n, X(t) is None)))
for nm, neg in (("cmp_p", False), ("ncmp_p", True)):
    def b(c, t, o, neg=neg):
        q = c.case("with", ["same", "other", "null"]); y = Thing(c, "y") if q == "other" else None
        def post(r):
            c.ensure("compares the pointers", Iff(r.n, (q == "same" or (q == "null" and X(t) is None)) != neg)); settle(c, [o], [t])
            if y: y.kept()
        c.run(o, y.p if y else X(t).p if q == "same" and X(t) else c.null, post=post)
    sq1(nm, b)
@sp("sq_cmp")
def g(c):
    k = c.case("other", ["another", "same"])
    if k == "another": t, s = which(c, "m"), which(c, "p")
    else: t = s = which(c, "m", own=2, opts=("owner",))
    o, p = spobj(c, "m", t), spobj(c, "p", s)
    c.run(o, p, post=lambda r: (c.ensure("compares the pointers", Iff(r.n, t is s or (X(t) is None and X(s) is None))), settle(c, [o, p], [t, s])))
less("sq_less", lambda c, A, i, nm: c.obj(nm, 8, [(0, 8, c.obj(nm + "_ctl", 16, [(0, 8, A.at(i)), (8, 8, 1)]).p)]))

# ---- scope guards and resources
def guard(c, name, off, kind=None):
    """{pointer, enabled at off}"""
    k = kind or c.case(name, ["on", "off"]); x = Thing(c, name + "_obj")
    o = c.obj(name, 16, [(0, 8, x.p), (off, 1, 1 if k == "on" else 0)]); c.modifies(o)
    return o, x, k == "on"
def guards(pfx, off):
    def on(c, o): return eq(c.fld(o, off, 1), 1)
    def isoff(c, o): return eq(c.fld(o, off, 1), 0)
    @sp(pfx + "_ctor")
    def g(c):
        x = Thing(c, "x"); o = c.obj("m", 16); c.modifies(o); e = True if pfx == "xq" else c.case("enabled", [True, False])
        def post(r):
            is_(c, o, x); c.ensure("enabled as asked", on(c, o) if e else isoff(c, o)); x.kept(); destroyed(c, 0)
        c.run(*([o, x.p] if pfx == "xq" else [o, x.p, e]), post=post)
    @sp(pfx + "_ctor_move")
    def g(c):
        p, x, e = guard(c, "p", off); o = c.obj("m", 16); c.modifies(o)
        def post(r):
            is_(c, o, x); c.ensure("enabled as the source was", on(c, o) if e else isoff(c, o)); c.ensure("the source lets go", isoff(c, p)); x.kept(); destroyed(c, 0)
        c.run(o, p, post=post)
    def act(nm):
        @sp(pfx + nm)
        def g(c):
            o, x, e = guard(c, "m", off)
            def post(r):
                if e: x.gone()
                else: x.kept()
                destroyed(c, 1 if e else 0)
                if nm == "_reset": c.ensure("disabled", isoff(c, o))
            c.run(o, post=post)
    act("_dtor")
    @sp(pfx + "_release")
    def g(c):
        o, x, e = guard(c, "m", off)
        c.run(o, post=lambda r: (c.ensure("disabled", isoff(c, o)), x.kept(), destroyed(c, 0), ret_is(c, r, x) if pfx == "rq" else None))
    if pfx == "xq": return
    act("_reset")
    @sp("rq_get")
    def g(c):
        o, x, e = guard(c, "m", off)
        c.run(o, post=lambda r: (ret_is(c, r, x), c.ensure("enabled as before", on(c, o) if e else isoff(c, o)), x.kept()))
    @sp("rq_reset_p")
    def g(c):
        o, x, e = guard(c, "m", off); y = Thing(c, "y")
        def post(r):
            is_(c, o, y); c.ensure("enabled", on(c, o)); y.kept(); destroyed(c, 1 if e else 0)
            if e: x.gone()
            else: x.kept()
        c.run(o, y.p, post=post)
    @sp("rq_eq_move")
    def g(c):
        o, x, e = guard(c, "m", off); p, y, f = guard(c, "p", off)
        def post(r):
            is_(c, o, y); c.ensure("enabled as the source was", on(c, o) if f else isoff(c, o)); c.ensure("the source lets go", isoff(c, p)); y.kept(); destroyed(c, 1 if e else 0)
            if e: x.gone()
            else: x.kept()
        c.run(o, p, post=post)
    @sp("rq_checked")
    def g(c):
        x = Thing(c, "x"); o = c.obj("m", 16); c.modifies(o); k = c.case("resource", ["valid", "invalid"]); y = Thing(c, "y") if k == "valid" else None
        def post(r):
            is_(c, o, x); c.ensure("enabled iff valid", on(c, o) if k == "valid" else isoff(c, o)); x.kept(); destroyed(c, 0)
            if y: y.kept()
        c.run(o, x.p, y.p if y else x.p, post=post)
guards("rq", 9); guards("xq", 8)
