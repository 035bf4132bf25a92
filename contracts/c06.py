"""C06 vector<T>: plain elements (K) and elements with a lifetime (Q)"""
from vf.spec import *
from contracts.blk import *
from contracts.c01 import same_storage, exactly
from contracts.c09 import forall_m
G = "vec"
P_ = "C06"
LIM = 1 << 29
def live(c, A, lo, hi, old=False):
    f = A.old if old else (lambda j, k: A.f(j, k))
    return forall(lo, hi, lambda j: eq(f(j, 1), Q_LIVE))
def HE(t): T = K if t == 'k' else Q; return (T.size, T.fields)
KO = lambda t: ("owned", "linked") if t == "k" else ("owned",)
class V:
    """a vector argument; t in 'k','q'"""
    def __init__(self, c, t, name="m", kinds=None, const=False, lo=0, **kw):
        self.c, self.t, self.T = c, t, K if t == "k" else Q
        if kinds is None: kinds = ("owned", "linked", "null") if t == "k" else ("owned", "null")
        c.heap_elem = (self.T.size, self.T.fields)
        self.b = b = Blk(c, name, T=self.T, cls="mb", kinds=kinds, hi=LIM, const=const, **kw)
        self.o, self.n, self.A, self.cap, self.kind = b.o, b.n, b.A, b.cap, b.kind
        if lo: c.require(b.n >= lo)
        if t == "q" and b.A is not None:
            if c.sym: c.require(live(c, b.A, 0, b.n))
            else: revive(b.A, b.n)
    def old(self, j): return self.b.old(j)
    def at(self, j): return self.b.at(j)
    def iter(self, name="ip"):
        i = self.c.size(name, hi=self.n); return i, (self.at(i) if self.A is not None else self.c.null)
def revive(A, n):
    for j in range(n): A.set(j, Q_LIVE, 1)
def elem(c, t, name="v"):
    v = c.elem(name, T=K if t == "k" else Q)
    if t == "q":
        if c.sym: c.require(eq(v.f(0, 1), Q_LIVE))
        else: revive(v, 1)
    return v
def chk(c, o, t, n, val, label="vector", cap_min=None, linked=None):
    T = K if t == "k" else Q
    p, B = check(c, o, T, label, n, None, cls="mb", cap_min=cap_min, linked=linked)
    if B is None: return p, B
    if val is not None: c.ensure("%s: elements" % label, forall(0, n, lambda j: eq(B.f(j, 0), val(j))))
    if t == "q": c.ensure("%s: every element is alive" % label, live(c, B, 0, n))
    return p, B
def balance(c, t, delta, min_born=None):
    """constructions and destructions account for the change in the number of elements"""
    if t == "q": c.ensure("constructions and destructions balance", eq(c.ghost("born"), c.ghost("gone") + delta))
def done(c, m, n, val, label="vector", cap_min=None, linked=None):
    r = chk(c, m.o, m.t, n, val, label, cap_min, linked); balance(c, m.t, n - m.n); return r
def fillinv(c, t, lo, val, tag=""):
    """element loops over raw storage: everything from element lo up to the running pointer is constructed"""
    T = K if t == "k" else Q
    def f(x):
        i, B = x
        return forall(lo, i, lambda j: Or(j < 0, j >= B.n, And(eq(B.f(j, 0), val(j - lo)), True if t == "k" else eq(B.f(j, 1), Q_LIVE))))
    c.inv(f, [("hx", T)], "constructed" + tag)
    if t == "q": c.inv(lambda x: forall(0, lo, lambda j: Or(j >= x[1].n, eq(x[1].f(j, 1), Q_LIVE))), [("hx", T)], "alive before" + tag)
def vk(name, fn=None, both=True):
    """register for K and Q"""
    def d(f):
        for t in ("k", "q") if both else ("k",):
            fname = "v%s_%s" % (t, name)
            contract(P_, fname, G, fname)(lambda c, t=t: f(c, t))
        return f
    return d
@vk("ctor")
def g(c, t):
    o = fresh_obj(c); c.run(o, post=lambda r: (chk(c, o, t, 0, None), balance(c, t, 0)))
@vk("dtor")
def g(c, t):
    m = V(c, t); c.run(m.o, post=lambda r: balance(c, t, -m.n))

zero = lambda j: 0
@vk("ctor_n")
def g(c, t):
    c.heap_elem = HE(t); o = fresh_obj(c); n = c.size("n", hi=LIM); fillinv(c, t, 0, zero)
    c.run(o, n, post=lambda r: (chk(c, o, t, n, zero, cap_min=n), balance(c, t, n)))
@vk("ctor_nv")
def g(c, t):
    c.heap_elem = HE(t); o = fresh_obj(c); n = c.size("n", hi=LIM); v = elem(c, t); x = v.old(0); fillinv(c, t, 0, lambda j: x)
    c.run(o, n, v.p, post=lambda r: (chk(c, o, t, n, lambda j: x, cap_min=n), balance(c, t, n)))
@vk("ctor_v")
def g(c, t):
    v = V(c, t, "v", const=True); o = fresh_obj(c); fillinv(c, t, 0, v.old)
    c.run(o, v.o, post=lambda r: (chk(c, o, t, v.n, v.old), balance(c, t, v.n)))
def rng(c, t, name="p"):
    A = c.arr(name, T=K if t == "k" else Q); a, b = c.size(name + "_a", hi=A.n), c.size(name + "_b", hi=A.n); c.require(a <= b); c.require(A.n <= LIM)
    if t == "q":
        if c.sym: c.require(live(c, A, 0, A.n))
        else: revive(A, A.n)
    return A, a, b, (lambda j: A.old(a + j)), [A.at(a), A.at(b)]
@vk("ctor_ii")
def g(c, t):
    c.heap_elem = HE(t); o = fresh_obj(c); A, a, b, ch, args = rng(c, t); fillinv(c, t, 0, ch)
    c.run(o, *args, post=lambda r: (chk(c, o, t, b - a, ch), balance(c, t, b - a)))
def taken(c, o, s, label):
    p, B = chk(c, o, s.t, s.n, s.old, label)
    c.ensure("%s: same storage" % label, same_storage(c, p, s.b)); c.ensure("%s: same capacity" % label, eq(c.fld(o, 24), s.cap * s.T.size))
@vk("ctor_move")
def g(c, t):
    s = V(c, t, "s"); o = fresh_obj(c)
    c.run(o, s.o, post=lambda r: (taken(c, o, s, "target"), chk(c, s.o, t, 0, None, "source"), balance(c, t, 0)))
def mv(name):
    @vk(name)
    def g(c, t):
        m, s = V(c, t), V(c, t, "s")
        c.run(m.o, s.o, post=lambda r: (taken(c, m.o, s, "target"), taken(c, s.o, m, "source"), balance(c, t, 0)))
for q in ("eq_move", "swap", "uswap"): mv(q)
def retain(c, m, o, t, n, new, label="vector", **kw):
    """n elements: the first min(n, size) kept, the others new"""
    return chk(c, o, t, n, lambda j: ite3(j < m.n, lambda: m.old(j), lambda: new(j)), label, **kw)
@vk("reserve")
def g(c, t):
    m = V(c, t); n = c.size("n", hi=LIM); x = c.bool("exact")
    def post(r):
        done(c, m, m.n, m.old); cap = c.fld(m.o, 24)
        c.ensure("capacity is sufficient", Or(n * m.T.size <= cap, eq(n, 0))); c.ensure("capacity is never reduced", m.cap * m.T.size <= cap)
        c.ensure("sufficient capacity is left alone", Imp(n <= m.cap, eq(cap, m.cap * m.T.size)))
    c.run(m.o, n, x, post=post)
@vk("resize")
def g(c, t):
    m = V(c, t); n = c.size("n", hi=LIM); fillinv(c, t, m.n, zero)
    c.run(m.o, n, post=lambda r: (retain(c, m, m.o, t, n, zero), balance(c, t, n - m.n)))
@vk("resize_v")
def g(c, t):
    m = V(c, t); n = c.size("n", hi=LIM); v = elem(c, t); x = v.old(0); fillinv(c, t, m.n, lambda j: x)
    c.run(m.o, n, v.p, post=lambda r: (retain(c, m, m.o, t, n, lambda j: x), balance(c, t, n - m.n)))
@vk("push_back")
def g(c, t):
    m = V(c, t); v = elem(c, t)
    c.run(m.o, v.p, post=lambda r: done(c, m, m.n + 1, ins(m.old, m.n, 1, lambda j: v.old(0))))

@vk("push_back0")
def g(c, t):
    m = V(c, t); c.run(m.o, post=lambda r: done(c, m, m.n + 1, ins(m.old, m.n, 1, zero)))
@vk("push_backm")
def g(c, t):
    m = V(c, t); v = elem(c, t); c.run(m.o, v.p, post=lambda r: done(c, m, m.n + 1, ins(m.old, m.n, 1, lambda j: v.old(0))))
@vk("emplace_back")
def g(c, t):
    m = V(c, t); x = c.num("x"); c.run(m.o, x, post=lambda r: done(c, m, m.n + 1, ins(m.old, m.n, 1, lambda j: x)))
@vk("pop_back")
def g(c, t):
    m = V(c, t, lo=1, kinds=("owned", "linked") if t == "k" else ("owned",)); c.run(m.o, post=lambda r: done(c, m, m.n - 1, m.old))
@vk("clear")
def g(c, t):
    m = V(c, t); c.run(m.o, post=lambda r: (done(c, m, 0, None), c.ensure("capacity is kept", eq(c.fld(m.o, 24), m.cap * m.T.size))))
@vk("shrink")
def g(c, t):
    m = V(c, t); c.run(m.o, post=lambda r: (done(c, m, m.n, m.old), c.ensure("capacity is the size", eq(c.fld(m.o, 24), (m.n if m.kind == "owned" else 0) * m.T.size))))
@vk("deallocate")
def g(c, t):
    m = V(c, t); c.run(m.o, post=lambda r: done(c, m, 0, None, linked=True))
@vk("assign_ii")
def g(c, t):
    m = V(c, t); A, a, b, ch, args = rng(c, t); asg_inv(c, t, m, b - a, ch)
    c.run(m.o, *args, post=lambda r: done(c, m, b - a, ch))
@vk("assign_nv")
def g(c, t):
    m = V(c, t); n = c.size("n", hi=LIM); v = elem(c, t); x = v.old(0); asg_inv(c, t, m, n, lambda j: x)
    c.run(m.o, n, v.p, post=lambda r: done(c, m, n, lambda j: x))
def asg_inv(c, t, m, n, val):
    T = K if t == "k" else Q
    c.inv(lambda x: forall(0, x[0], lambda j: Or(j >= x[1].n, eq(x[1].f(j, 0), val(j)))), [("hx", T)], "assigned")
    if t == "q":
        c.inv(lambda x: forall(0, n, lambda j: Or(j >= x[1].n, eq(x[1].f(j, 1), Q_LIVE))), [("hx", T)], "alive")
        c.inv(lambda x: forall(0, x[0], lambda j: Or(j >= x[1].n, eq(x[1].f(j, 1), Q_LIVE))), [("hx", T)], "alive up to")
@vk("eq")
def g(c, t):
    m = V(c, t); v = V(c, t, "v", const=True); asg_inv(c, t, m, v.n, v.old)
    c.run(m.o, v.o, post=lambda r: done(c, m, v.n, v.old))
for t_ in ("k", "q"):
    @contract(P_, "v%s_eq" % t_, G, "v%s_eq_self" % t_)
    def g(c, t=t_):
        m = V(c, t); asg_inv(c, t, m, m.n, m.old)
        c.run(m.o, m.o, post=lambda r: done(c, m, m.n, m.old))
def inserting(name, src):
    @vk(name)
    def g(c, t):
        m = V(c, t); i, ip = m.iter(); n, val, args = src(c, t)
        fillinv(c, t, i, val)
        if t == "q": c.inv(lambda x: forall(i + n, m.n + n, lambda j: Or(j >= x[1].n, eq(x[1].f(j, 1), Q_LIVE))), [("hx", Q)], "alive behind")
        def post(r):
            p, B = done(c, m, m.n + n, ins(m.old, i, n, val))
            if B is not None: c.ensure("returns the first inserted element", eq(index_in(c, r.v, B), i))
        c.run(m.o, ip, *args, post=post)
def index_in(c, v, B):
    if not c.sym: return (v - B.addr) // B.T.size if (v - B.addr) % B.T.size == 0 else -1
    if not isinstance(v, P) or v.r is not B.r: return -1
    return norm(v.i - B.off) if isz(v.i) or isz(B.off) else v.i - B.off
def one(c, t): v = elem(c, t); return 1, (lambda j: v.old(0)), [v.p]
def one_x(c, t): x = c.num("x"); return 1, (lambda j: x), [x]
def many(c, t): n = c.size("n", hi=LIM); v = elem(c, t); return n, (lambda j: v.old(0)), [n, v.p]
def rngs(c, t): A, a, b, ch, args = rng(c, t); return b - a, ch, args
inserting("insert", one); inserting("insertm", one); inserting("emplace", one_x); inserting("insert_n", many); inserting("insert_ii", rngs)
def erasing(name, args):
    @vk(name)
    def g(c, t):
        m = V(c, t, lo=1 if args == "one" else 0, kinds=KO(t) if args == "one" else None); n = c.size("n", hi=m.n) if args != "one" else 1; e = c.size("ep", hi=m.n); c.require(e + n <= m.n)
        if t == "q":
            for lo, hi in ((0, e), (e + n, m.n)): c.inv(lambda x, lo=lo, hi=hi: forall(lo, hi, lambda j: Or(j >= x[1].n, eq(x[1].f(j, 1), Q_LIVE))), [("hx", Q)], "others alive")
        a = dict(n=lambda: [m.at(e), n], one=lambda: [m.at(e)], ii=lambda: [m.at(e), m.at(e + n)])[args]()
        def post(r):
            p, B = done(c, m, m.n - n, era(m.old, e, n))
            if B is not None: c.ensure("returns the element that followed", eq(index_in(c, r.v, B), e))
        c.run(m.o, *a, post=post)
erasing("erase_n", "n"); erasing("erase", "one"); erasing("erase_ii", "ii")
# ---- access
def acc(name, f, **kw):
    @vk(name)
    def g(c, t):
        m = V(c, t, const=True, **kw); c.run(m.o, post=lambda r: f(c, m, r))
def val(name, f): acc(name, lambda c, m, r: c.ensure("value", f(c, m, r)))
val("size", lambda c, m, r: eq(r.n, m.n)); val("capacity", lambda c, m, r: eq(r.n, m.cap)); val("empty", lambda c, m, r: Iff(r.n, eq(m.n, 0)))
def at_(c, m, r, i):
    if m.A is None: c.ensure("null for no data", c.isnull(r.v)); return
    c.ensure("position", eq(r.idx(m.A), i))
for q in ("begin", "wbegin", "cbegin", "rend", "crend", "wrend", "data", "cdata", "wdata"): acc(q, lambda c, m, r: at_(c, m, r, 0))
for q in ("end", "wend", "cend", "rbegin", "crbegin", "wrbegin"): acc(q, lambda c, m, r: at_(c, m, r, m.n))
def acc_i(name, lim):
    @vk(name)
    def g(c, t):
        m = V(c, t, const=True, lo=lim, kinds=KO(t)); i = c.size("i", hi=m.n - lim); c.run(m.o, i, post=lambda r: at_(c, m, r, i))
for q in ("at", "wat", "index", "windex"): acc_i(q, 1)
for q in ("iat", "wiat"): acc_i(q, 0)
def ends(name, last):
    @vk(name)
    def g(c, t):
        m = V(c, t, const=True, lo=1, kinds=KO(t)); c.run(m.o, post=lambda r: at_(c, m, r, m.n - 1 if last else 0))
ends("front", 0); ends("wfront", 0); ends("back", 1); ends("wback", 1)
# ---- K only: comparison, linking, conversions
@vk("opeq", both=False)
def g(c, t):
    a, b = V(c, t, "a", const=True), V(c, t, "b", const=True)
    m = imin(a.n, b.n)
    p = c.first(0, m, lambda j: Not(eq(a.old(j), b.old(j)))) if a.A is not None and b.A is not None else m
    def post(r): c.ensure("value", Iff(r.n, And(eq(a.n, b.n), eq(p, m))))
    c.run(a.o, b.o, post=post)
@vk("is_linked", both=False)
def g(c, t):
    m = V(c, t, const=True); c.run(m.o, post=lambda r: c.ensure("value", Iff(r.n, m.kind != "owned")))
def plain(c): A = c.arr("p", T=K); return A
def lk(name, args):
    @vk(name, both=False)
    def g(c, t):
        m = V(c, t, kinds=("linked", "null")); A, n, a = args(c)
        def post(r):
            p, B = chk(c, m.o, t, n, None, linked=True)
            c.ensure("that storage", And(not c.isnull(p), eq(index_in(c, p, A), 0)) if not c.isnull(p) else eq(n, 0))
        c.run(m.o, *a, post=post)
def l_pn(c): A = plain(c); return A, A.n, [A, A.n]
def l_ii(c): A = plain(c); return A, A.n, [A.b, A.e]
lk("link_pn", l_pn); lk("link_wpn", l_pn); lk("link_ii", l_ii); lk("link_wii", l_ii)

def lkv(name):
    @vk(name, both=False)
    def g(c, t):
        m = V(c, t, kinds=("linked", "null")); v = V(c, t, "v", const=True)
        def post(r):
            p, B = chk(c, m.o, t, v.n, None, linked=True)
            c.ensure("that storage", c.isnull(p) if v.A is None else And(not c.isnull(p), eq(index_in(c, p, v.A), 0) if not c.isnull(p) else False))
        c.run(m.o, v.o, post=post)
lkv("link_v"); lkv("link_wv")
@vk("manage", both=False)
def g(c, t):
    m = V(c, t, kinds=("null", "linked")); A = c.arr("p", T=K, heap=True, n=c.size("n", lo=1, hi=LIM)); c.modifies(A)
    def post(r):
        p, B = chk(c, m.o, t, A.n, A.old, cap_min=A.n); c.ensure("that block", eq(index_in(c, p, A), 0) if not c.isnull(p) else False)
    c.run(m.o, A, A.n, post=post)
@vk("unlink", both=False)
def g(c, t):
    m = V(c, t, kinds=("null", "linked")); c.run(m.o, post=lambda r: chk(c, m.o, t, 0, None, linked=True))
@vk("copy_link", both=False)
def g(c, t):
    m = V(c, t); c.run(m.o, post=lambda r: (chk(c, m.o, t, m.n, m.old), c.ensure("owns its elements", Or(eq(m.n, 0), c.fld(m.o, 24) > 0))))
@vk("ctor_il", both=False)
def g(c, t):
    c.heap_elem = HE(t); o = fresh_obj(c); a, b, d = elem(c, t, "a"), elem(c, t, "b"), elem(c, t, "d")
    want = lambda j: ite3(eq(j, 0), lambda: a.old(0), lambda: ite3(eq(j, 1), lambda: b.old(0), lambda: d.old(0)))
    fillinv(c, t, 0, want); c.run(o, a.p, b.p, d.p, post=lambda r: chk(c, o, t, 3, want))
def two(c, t):
    a, b = elem(c, t, "a"), elem(c, t, "b")
    return 2, (lambda j: ite3(eq(j, 0), lambda: a.old(0), lambda: b.old(0))), [a.p, b.p]
def inserting_k(name, src):
    @vk(name, both=False)
    def g(c, t):
        m = V(c, t); i, ip = m.iter(); n, val, args = src(c, t); fillinv(c, t, i, val)
        def post(r):
            p, B = done(c, m, m.n + n, ins(m.old, i, n, val)); c.ensure("returns the first inserted element", eq(index_in(c, r.v, B), i))
        c.run(m.o, ip, *args, post=post)
inserting_k("insert_il", two)
def conv(name, cls):
    @vk(name, both=False)
    def g(c, t):
        o = fresh_obj(c, "r", 24); m = V(c, t, const=True)
        def post(r):
            p = c.ptr(o, 8); c.ensure("size in bytes", eq(c.fld(o, 16), m.n * 4))
            c.ensure("that storage", c.isnull(p) if m.A is None else And(not c.isnull(p), eq(index_in(c, p, m.A), 0) if not c.isnull(p) else False))
        c.run(o, m.o, post=post)
conv("to_cml", "cl"); conv("to_ml", "ml")
@vk("max_size")
def g(c, t):
    m = V(c, t, const=True); S = m.T.size
    c.run(m.o, post=lambda r: c.ensure("value", eq(r.n, m.n if m.kind != "owned" else ((1 << 64) - 1) // S)))
# ---- container helpers
def filt(name, keep, extra):
    @vk(name, both=False)
    def g(c, t):
        m = V(c, t, kinds=("owned", "null")); v = elem(c, t) if extra else None; x = v.old(0) if extra else None
        if m.A is None: return c.run(m.o, *([v.p] if extra else []), post=lambda r: done(c, m, 0, None))
        A = m.A; k = lambda j: keep(A.old(j), x)
        cnt = c.ghost_uf("cnt", 0, m.n, lambda i, y: y + ite(k(i), 1, 0), trig=lambda j: A.old(j))
        c.inv(lambda x, y: And(eq(y, cnt(x)), y <= x, y >= 0), [A, A], "written = kept so far")
        c.inv(lambda x, y: forall(0, x, lambda j: Or(j >= m.n, Not(k(j)), And(cnt(j) >= 0, cnt(j) < y, eq(A[cnt(j)], A.old(j))))), [A, A], "kept elements in place")
        def post(r):
            p, B = done(c, m, cnt(m.n), None)
            c.ensure("kept elements in order", forall(0, m.n, lambda j: Imp(k(j), And(0 <= cnt(j), cnt(j) < cnt(m.n), eq(B[cnt(j)], A.old(j))))))
        c.run(m.o, *([v.p] if extra else []), post=post)
filt("remove", lambda a, x: Not(keq(a, x)), True); filt("remove_if", lambda a, x: Not(pred(a)), False)
@vk("unique", both=False)
def g(c, t):
    m = V(c, t, kinds=("owned", "null"))
    if m.A is None: return c.run(m.o, post=lambda r: done(c, m, 0, None))
    A = m.A; a = A.old; c.mention = True
    last = c.ghost_uf("last", 0, m.n, lambda i, x: ite(Or(eq(i, 0), keq(a(i), a(x))), x, i), trig=lambda j: a(j))
    k = lambda j: Or(eq(j, 0), Not(keq(a(j), a(last(j)))))
    cnt = c.ghost_uf("cnt", 0, m.n, lambda i, x: x + ite(k(i), 1, 0), trig=lambda j: a(j))
    c.inv(lambda x, y: And(x >= 1, eq(y + 1, cnt(x)), y < x, y >= 0, last(x) >= 0, last(x) < x, eq(A[y], a(last(x)))), [A, A], "write position")
    c.inv(lambda x, y: And(x >= 0, eq(y + 1, cnt(x + 1)), y <= x, y >= 0, last(x + 1) >= 0, last(x + 1) <= x, eq(A[y], a(last(x + 1)))), [A, A], "write position'")
    for d in (0, 1): c.inv(lambda x, y, d=d: forall(0, x + d, lambda j: Or(j >= m.n, Not(k(j)), And(cnt(j) >= 0, cnt(j) <= y, eq(A[cnt(j)], a(j))))), [A, A], "kept elements in place")
    def post(r):
        p, B = done(c, m, cnt(m.n), None)
        c.ensure("first element of every group, in order", forall(0, m.n, lambda j: Imp(k(j), And(0 <= cnt(j), cnt(j) < cnt(m.n), eq(B[cnt(j)], a(j))))))
    c.run(m.o, post=post)
