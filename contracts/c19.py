"""C19 list, queue and stack: sequences over a vector of plain elements"""
from vf.spec import *
from contracts.blk import *
from contracts.c06 import V, chk, done, elem, index_in, rng, fillinv, asg_inv, taken, at_, LIM, HE
from contracts.c10 import reverse_inv
from contracts.c13 import Counts
from contracts import c06
P_ = "C19"
G = "adp"
def sc(name, **kw):
    def reg(f):
        @contract(P_, name, G, name, **kw)
        def g(c): c.heap_elem = HE("q" if name.split("_")[0][-1] == "q" and len(name.split("_")[0]) > 1 else "k"); return f(c)
    return reg
def same_as(what, *names, pre="l_"):
    """the same contract as the vector's"""
    for n in names: variant("vk_" + what, pre + n, G, prop=P_)
# ---- list
for n in "ctor ctor_n ctor_nv ctor_v ctor_ii ctor_move ctor_il dtor eq_move size begin wbegin end wend front wfront remove remove_if unique".split(): same_as(n, n)
def push_front(name, arg):
    @sc(name)
    def g(c):
        m = V(c, "k"); x, a = arg(c); fillinv(c, "k", 0, lambda j: x)
        c.run(m.o, a, post=lambda r: done(c, m, m.n + 1, ins(m.old, 0, 1, lambda j: x)))
def by_ref(c): v = elem(c, "k"); return v.old(0), v.p
def by_val(c): x = c.num("x"); return x, x
push_front("l_push_front", by_ref); push_front("l_push_frontm", by_ref); push_front("l_emplace_front", by_val); push_front("d_push_front", by_ref)
def pop_front(name):
    @sc(name)
    def g(c):
        m = V(c, "k", lo=1, kinds=("owned", "linked")); c.run(m.o, post=lambda r: done(c, m, m.n - 1, era(m.old, 0, 1)))
pop_front("l_pop_front"); pop_front("d_pop_front")
same_as("push_back", "push_back", pre="d_"); same_as("pop_back", "pop_back", pre="d_")
@sc("l_reverse")
def g(c):
    m = V(c, "k"); n = m.n
    if m.A is not None: c.modifies(m.A); reverse_inv(c, m.A, 0, n)
    c.run(m.o, post=lambda r: done(c, m, n, lambda j: m.old(n - 1 - j)))
@sc("l_sort")
def g(c):
    m = V(c, "k", kinds=("owned", "null")); n = m.n
    if m.A is None: return c.run(m.o, post=lambda r: done(c, m, 0, None))
    gh = c.count_ghost(m.A, 0, n)
    def post(r):
        p, B = done(c, m, n, None)
        c.ensure("sorted", c.pairwise(0, n, kle, lambda j: B[j])); c.ensure("same storage", eq(index_in(c, p, m.A), 0)); c.ensure("same elements", c.perm_ok(gh))
    c.run(m.o, post=post)
@sc("l_splice")
def g(c):
    m = V(c, "k"); i, ip = m.iter(); v = V(c, "k", "v"); fillinv(c, "k", i, v.old)
    c.run(m.o, ip, v.o, post=lambda r: (done(c, m, m.n + v.n, ins(m.old, i, v.n, v.old)), chk(c, v.o, "k", 0, None, "source")))
@sc("l_splice_f")
def g(c):
    m = V(c, "k"); i, ip = m.iter(); v = V(c, "k", "v", kinds=("owned", "linked")); f = c.size("f", hi=v.n); k = v.n - f
    val = lambda j: v.old(f + j); fillinv(c, "k", i, val)
    c.run(m.o, ip, v.o, v.at(f), post=lambda r: (done(c, m, m.n + k, ins(m.old, i, k, val)), chk(c, v.o, "k", f, v.old, "source")))
@sc("l_splice_fl")
def g(c):
    m = V(c, "k"); i, ip = m.iter(); v = V(c, "k", "v", kinds=("owned", "linked")); f = c.size("f", hi=v.n); l = c.size("l", hi=v.n); c.require(f <= l); k = l - f
    val = lambda j: v.old(f + j); fillinv(c, "k", i, val)
    c.run(m.o, ip, v.o, v.at(f), v.at(l), post=lambda r: (done(c, m, m.n + k, ins(m.old, i, k, val)), chk(c, v.o, "k", v.n - k, era(v.old, f, k), "source")))
@contract(P_, "c_merge", "sort", "merge_into_gap")
def g(c):
    """merge where the first range is the end of the output's block"""
    B = c.arr("B"); m = B.n; n = c.size("n"); R = c.arr("R", m + n)
    c.require_sorted(B, klt); c.require_sorted(R, klt, m, m + n)
    w = c.num("w"); C = Counts(c, R, lambda x: eq(x, w), B)
    c.modifies(R)
    first = lambda: C.r(m + n) - C.r(m) if c.sym else sum(1 for j in range(m, m + n) if R.old(j) == w)
    if c.sym:
        b = C.f[0]; c.env_refs = True
        both = lambda i, j, k: eq(C.written(k), C.r(i) - C.r(m) + b(j))
        for q, P, Z in (("", B, B), (", second at rest", ("ref", B), B)):
            c.inv(lambda i, j, k: And(eq(k, i - m + j), i >= m), [R, P, R], "k=i+j" + q, False)
            c.inv(lambda i, j, k: And(k <= i, both(i, j, k)), [R, P, R], "counts" + q)
        c.inv(lambda i, j, k: And(eq(k, i - m + j), i >= m), [("ref", R), B, R], "k=i+j, first at rest", False)
        c.inv(lambda i, j, k: both(i, j, k), [("ref", R), B, R], "counts, first at rest")
        c.inv(lambda i: forall(i, m + n, lambda t: Or(t < 0, eq(R[t], R.old(t)))), [R], "rest as it was")
        c.inv(lambda k: c.pairwise(0, k, kle, lambda j: R[j]), [R], "sorted so far")
        c.inv(lambda i, k: Or(i >= m + n, forall(0, k, lambda t: kle(R[t], R.old(i)))), [R, R], "not above the next of the first")
        c.inv(lambda j, k: Or(j >= m, forall(0, k, lambda t: kle(R[t], B[j]))), [B, R], "not above the next of the second")
    def post(r):
        c.ensure("returns the end of the output", eq(r.idx(R), n + m)); c.ensure("output is sorted", c.pairwise(0, n + m, kle, lambda j: R[j]))
        c.ensure("every value occurs as often as in both inputs together", eq(C.written(n + m), first() + C.total(0)))
    c.run(R.at(m), R.e, B.b, B.e, R.b, post=post)
@sc("l_merge")
def g(c):
    m, v = V(c, "k", kinds=("owned", "null")), V(c, "k", "v", const=True); n = m.n + v.n
    for x in (m, v):
        if x.A is not None: c.require_sorted(x.A, klt, 0, x.n)
    def post(r):
        p, B = done(c, m, n, None)
        if B is None: return
        c.ensure("sorted", c.pairwise(0, n, kle, lambda j: B[j]))
        c.same_elements(B, n, ins(m.old, m.n, v.n, v.old))
    c.run(m.o, v.o, post=post)
# ---- stack: the vector's end is the top
for n in "ctor dtor size empty".split(): same_as(n, n, pre="stk_")
same_as("ctor_v", "ctor_v", "ctor_c", pre="stk_"); same_as("ctor_move", "ctor_move", "ctor_cm", pre="stk_")
same_as("push_back", "push", pre="stk_"); same_as("emplace_back", "emplace", pre="stk_"); same_as("pop_back", "pop", pre="stk_")
same_as("back", "top", pre="stk_"); same_as("wback", "wtop", pre="stk_"); same_as("swap", "swap", pre="stk_"); same_as("eq_move", "eq_move", pre="stk_"); same_as("opeq", "opeq", pre="stk_")
# ---- queue: a vector and the number of elements at its begin that are gone already
class Que(V):
    def __init__(self, c, name="m", kinds=("owned", "null"), nonempty=False, t="k", **kw):
        self.f = c.size(name + "_front", hi=LIM); V.__init__(self, c, t, name, kinds, size=40, extra=[(32, 8, self.f)], **kw)
        c.require(self.f < self.n if nonempty else self.f <= self.n)
        self.len = self.n - self.f
    def el(self, j): return self.old(self.f + j)
def que(c, o, n, val, label="queue", t="k"):
    """o is a queue of the n elements val(0..n-1), the front first"""
    f = c.fld(o, 32); p, B = chk(c, o, t, f + n, None, label)
    if B is not None and val is not None: c.ensure("%s: elements, front first" % label, forall(f, f + n, lambda j: eq(B.f(j, 0), val(j - f))))
    return p, B
def fresh_q(c): return fresh_obj(c, "m", 40)
@sc("q_ctor")
def g(c): o = fresh_q(c); c.run(o, post=lambda r: que(c, o, 0, None))
@sc("q_ctor_c")
def g(c): o = fresh_q(c); v = V(c, "k", "v", const=True); fillinv(c, "k", 0, v.old); c.run(o, v.o, post=lambda r: que(c, o, v.n, v.old))
@sc("q_ctor_cm")
def g(c): o = fresh_q(c); v = V(c, "k", "v"); c.run(o, v.o, post=lambda r: (que(c, o, v.n, v.old), chk(c, v.o, "k", 0, None, "source")))
@sc("q_ctor_v")
def g(c):
    o = fresh_q(c); s = Que(c, "s", const=True); fillinv(c, "k", 0, s.old); fillinv(c, "k", 0, s.el, "'"); c.run(o, s.o, post=lambda r: que(c, o, s.len, s.el))
@sc("q_ctor_move")
def g(c): o = fresh_q(c); s = Que(c, "s"); c.run(o, s.o, post=lambda r: (que(c, o, s.len, s.el), que(c, s.o, 0, None, "source")))
@sc("q_dtor")
def g(c): m = Que(c); c.run(m.o)
@sc("q_size")
def g(c): m = Que(c, const=True); c.run(m.o, post=lambda r: c.ensure("number of elements", eq(r.n, m.len)))
@sc("q_empty")
def g(c): m = Que(c, const=True); c.run(m.o, post=lambda r: c.ensure("no elements", Iff(r.n, eq(m.len, 0))))
def qend(name, last):
    @sc(name)
    def g(c):
        m = Que(c, const=True, kinds=("owned",), nonempty=True); c.run(m.o, post=lambda r: c.ensure("the %s element" % ("last" if last else "first"), eq(r.idx(m.A), m.n - 1 if last else m.f)))
qend("q_front", 0); qend("q_wfront", 0); qend("q_back", 1); qend("q_wback", 1)
def qpush(name, arg):
    @sc(name)
    def g(c):
        m = Que(c); x, a = arg(c); c.run(m.o, a, post=lambda r: que(c, m.o, m.len + 1, ins(m.el, m.len, 1, lambda j: x)))
qpush("q_push", by_ref); qpush("q_emplace", by_val)
@sc("q_pop")
def g(c):
    m = Que(c, kinds=("owned",), nonempty=True); c.run(m.o, post=lambda r: que(c, m.o, m.len - 1, era(m.el, 0, 1)))
def exch(name):
    @sc(name)
    def g(c):
        m, s = Que(c), Que(c, "s"); c.run(m.o, s.o, post=lambda r: (que(c, m.o, s.len, s.el, "target"), que(c, s.o, m.len, m.el, "source")))
exch("q_swap"); exch("q_eq_move")

# ---- elements with a lifetime
from contracts.c06 import balance, live, Q_LIVE
same_as_q = lambda what, name: variant("vq_" + what, name, G, prop=P_)
same_as_q("dtor", "lq_dtor"); same_as_q("dtor", "stkq_dtor"); same_as_q("push_back", "stkq_push"); same_as_q("pop_back", "stkq_pop")
@sc("lq_push_front")
def g(c):
    m = V(c, "q"); v = elem(c, "q"); fillinv(c, "q", 0, lambda j: v.old(0))
    c.inv(lambda x: forall(1, m.n + 1, lambda j: Or(j >= x[1].n, eq(x[1].f(j, 1), Q_LIVE))), [("hx", Q)], "alive behind")
    c.run(m.o, v.p, post=lambda r: done(c, m, m.n + 1, ins(m.old, 0, 1, lambda j: v.old(0))))
def q_others(c, m, e, n):
    for lo, hi in ((0, e), (e + n, m.n)): c.inv(lambda x, lo=lo, hi=hi: forall(lo, hi, lambda j: Or(j >= x[1].n, eq(x[1].f(j, 1), Q_LIVE))), [("hx", Q)], "others alive")
@sc("lq_pop_front")
def g(c):
    m = V(c, "q", lo=1, kinds=("owned",)); q_others(c, m, 0, 1)
    c.run(m.o, post=lambda r: done(c, m, m.n - 1, era(m.old, 0, 1)))
@sc("qq_dtor")
def g(c): m = Que(c, t="q"); c.run(m.o, post=lambda r: balance(c, "q", -m.n))
def stored(c, o, before): c.ensure("constructions and destructions account for what is stored", eq(c.ghost("born") * 8, c.ghost("gone") * 8 + c.fld(o, 16) - before * 8))
@sc("qq_ctor_v")
def g(c):
    o = fresh_q(c); s = Que(c, "s", const=True, t="q"); fillinv(c, "q", 0, s.old); fillinv(c, "q", 0, s.el, "'"); c.run(o, s.o, post=lambda r: (que(c, o, s.len, s.el, t="q"), stored(c, o, 0)))
@sc("qq_ctor_move")
def g(c): o = fresh_q(c); s = Que(c, "s", t="q"); c.run(o, s.o, post=lambda r: (que(c, o, s.len, s.el, t="q"), que(c, s.o, 0, None, "source", "q"), balance(c, "q", 0)))
@sc("qq_push")
def g(c):
    m = Que(c, t="q"); v = elem(c, "q"); c.run(m.o, v.p, post=lambda r: (que(c, m.o, m.len + 1, ins(m.el, m.len, 1, lambda j: v.old(0)), t="q"), stored(c, m.o, m.n)))
@sc("qq_pop")
def g(c):
    m = Que(c, kinds=("owned",), nonempty=True, t="q"); q_others(c, m, 0, m.f + 1)
    def post(r):
        que(c, m.o, m.len - 1, era(m.el, 0, 1), t="q")
        stored(c, m.o, m.n)
    c.run(m.o, post=post)
@sc("qq_swap")
def g(c):
    m, s = Que(c, t="q"), Que(c, "s", t="q"); c.run(m.o, s.o, post=lambda r: (que(c, m.o, s.len, s.el, "target", "q"), que(c, s.o, m.len, m.el, "source", "q"), balance(c, "q", 0)))
