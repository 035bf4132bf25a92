"""C11 heaps: par(k) = (k-1)/2 is the parent of position k; a heap has no element above its parent"""
from vf.spec import *
from vf.loops import Ind
G = "sort"
P_ = "C11"
par = lambda k: divc(k - 1, 2)
def node(k): return NODE(k) if isz(k) else True
NODE = z3.Function("node", z3.IntSort(), z3.BoolSort())
def begin(c):
    """node(k) is true of every k; it only tells the solver for which k a statement on all nodes matters"""
    if c.sym:
        k = z3.Int(fresh_name("nk")); c.require(z3.ForAll([k], NODE(k), patterns=[NODE(k)]))
def nodes(lo, n, f):
    if not isz(n): return all(f(k) for k in range(lo, n))
    k = z3.Int(fresh_name("nk"))
    return z3.ForAll([k], zb(Imp(And(lo <= k, k < n, NODE(k)), f(k))), patterns=[NODE(k)])
def heap(c, A, lo, n, nodes=nodes, le=kle):
    """every k in [1,n) whose parent is at lo or behind is not above its parent"""
    return nodes(1, n, lambda k: Or(par(k) < lo, le(A[k], A[par(k)])))
def require_heap(c, A, n, nodes=nodes, le=kle):
    if c.sym: return c.require(heap(c, A, 0, n, nodes, le))
    for k in range(1, n):           # sift up
        while k and not le(A[k], A[par(k)]):
            a, b = A[k], A[par(k)]; A.set(k, b); A.set(par(k), a); k = par(k)
def is_heap(name):
    @contract(P_, "h_" + name, G, name)
    def f(c):
        A = c.arr("A"); n = A.n; c.mention = True
        c.inv(lambda x, y: Or(eq(y, 2 * x), y >= n), [A, A], "child of the first", False)
        c.inv(lambda x: forall(1, n, lambda k: Or(par(k) >= x, kle(A[k], A[par(k)]))), [A], "parents seen so far")
        c.inv(lambda x: forall(1, x, lambda k: kle(A[k], A[par(k)])), ["i"], "children seen so far")
        def post(r):
            c.ensure("true only for a heap", Imp(r.n, heap(c, A, 0, n, forall)))
            c.ensure("true for every heap", Or(r.n, Not(heap(c, A, 0, n, forall))))
        c.run(A.b, A.e, post=post)
is_heap("is_heap"); is_heap("is_heap_c")
def size(r):
    """a heap size or a position, not a stored value"""
    if isz(r) and "select" in r.sexpr(): raise TypeError
    return r
def down(c, A, g, N, s, *pool):
    """trickle_down_heap: the hole is at x; its old content (at loop entry: of position s(r)) is still to be placed;
    N(r): the heap size.  pool: what r stands for"""
    occ = lambda x, s: eq(c.cur.mem[A.r.id].occ[g[1]] + ite(eq(A.ent(s), g[3]), 1, 0) - ite(eq(A[x], g[3]), 1, 0), c.ent.mem[A.r.id].occ[g[1]])
    def inv(name, f, q=True):
        c.inv((lambda x, r: f(x, s(size(r)), N(r))) if pool else (lambda x: f(x, s(0), N(0))), ["i"] + list(pool), name, q)
    c.inv(lambda x, y: eq(y, 2 * x + 1), ["i", "i"], "first child of the hole", False)
    inv("hole inside", lambda x, s, N: And(s <= x, Or(x < N, eq(x, s))), False)
    inv("heap but for the hole", lambda x, s, N: nodes(1, N, lambda k: Or(par(k) < s, eq(par(k), x), eq(k, x), c.le(A[k], A[par(k)]))))
    inv("parent of the hole is above", lambda x, s, N: Or(eq(x, s), And(c.le(A.ent(s), A[par(x)]), Or(2 * x + 1 >= N, Not(node(2 * x + 1)), c.le(A[2 * x + 1], A[par(x)])), Or(2 * x + 2 >= N, Not(node(2 * x + 2)), c.le(A[2 * x + 2], A[par(x)])))))
    inv("same elements but for the hole", lambda x, s, N: occ(x, s))
def up(c, A, g, v):
    """push_heap: the hole is at x, v still to be placed"""
    n = A.n
    for t, pool in (("", A), (", index", "i")):
        c.inv(lambda x: And(0 <= x, x < n), [pool], "hole inside'" + t, False)
        c.inv(lambda x: And(forall(1, n, lambda k: Or(And(eq(k, n - 1), eq(x, n - 1)), c.le(A[k], A[par(k)]))), forall(1, n, lambda k: Or(Not(eq(par(k), x)), c.le(A[k], v)))), [pool], "heap but for the hole'" + t)
        c.inv(lambda x: eq(c.cur.mem[A.r.id].occ[g[1]] + ite(eq(v, g[3]), 1, 0) - ite(eq(A[x], g[3]), 1, 0), g[2]), [pool], "same elements but for the hole'" + t)
def domination(c, A, n):
    """the first element of a heap is not below any other (by induction along the parents)"""
    if c.sym: c.induct("root is a greatest element", 0, n, lambda k: Or(Not(node(k)), c.le(A[k], A[0])), at=lambda k: A[k], trig=lambda k: A[k])
def order(c, sfx):
    """the comparator: less, less passed explicitly, or less in a direction which the comparator object holds"""
    d = c.case("descending", [0, 1]) if sfx == "_d" else 0
    c.le = (lambda x, y: kle(y, x)) if d else kle
    return [d] if sfx == "_d" else []
for sfx in ("", "_c", "_d"):
    @contract(P_, "h_make_heap" + sfx, G, "make_heap" + sfx)
    def make_heap(c, sfx=sfx):
        args = order(c, sfx)
        A = c.arr("A"); n = A.n; c.modifies(A); g = c.count_ghost(A); c.mention = c.split_bool = True; begin(c)
        if c.sym:
            c.env_refs = True
            for t, pool in (("", A), (", index", "i")):
                c.inv(lambda i: nodes(1, n, lambda k: Or(par(k) <= i, c.le(A[k], A[par(k)]))), [pool], "heap behind i" + t)
                c.inv(lambda i: nodes(1, n, lambda k: Or(par(k) < i, c.le(A[k], A[par(k)]))), [pool], "heap from i on" + t)
            down(c, A, g, lambda r: n, lambda r: r, "iref")
        def post(r):
            c.ensure("heap", heap(c, A, 0, n, nodes, c.le)); c.ensure("same elements", c.perm_ok(g))
        c.run(A.b, A.e, *args, post=post)
    @contract(P_, "h_push_heap" + sfx, G, "push_heap" + sfx)
    def push_heap(c, sfx=sfx):
        args = order(c, sfx)
        A = c.arr("A"); n = A.n; c.modifies(A); g = c.count_ghost(A); c.mention = c.split_bool = True
        require_heap(c, A, n - 1, forall, c.le)
        if c.sym: up(c, A, g, A.old(n - 1))
        def post(r):
            c.ensure("heap", heap(c, A, 0, n, forall, c.le)); c.ensure("same elements", c.perm_ok(g))
        c.run(A.b, A.e, *args, post=post)
    @contract(P_, "h_pop_heap" + sfx, G, "pop_heap" + sfx)
    def pop_heap(c, sfx=sfx):
        args = order(c, sfx)
        A = c.arr("A"); n = A.n; c.modifies(A); g = c.count_ghost(A); c.mention = c.split_bool = True; begin(c)
        c.require(n > 0); require_heap(c, A, n, nodes, c.le)
        if c.sym:
            domination(c, A, n)
            down(c, A, g, lambda r: n - 1, lambda r: 0)
            c.inv(lambda x: And(eq(A[n - 1], A.old(0)), forall(0, n - 1, lambda k: c.le(A[k], A.old(0)))), ["i"], "none above the popped")
        def post(r):
            c.ensure("heap without the last", heap(c, A, 0, n - 1, nodes, c.le)); c.ensure("same elements", c.perm_ok(g))
            c.ensure("last is the old root", eq(A[n - 1], A.old(0)))
            c.ensure("last is a greatest element", forall(0, n, lambda k: c.le(A[k], A[n - 1])))
        c.run(A.b, A.e, *args, post=post)
    @contract(P_, "h_sort_heap" + sfx, G, "sort_heap" + sfx)
    def sort_heap(c, sfx=sfx):
        args = order(c, sfx)
        A = c.arr("A"); n = A.n; c.modifies(A); g = c.count_ghost(A); c.mention = c.split_bool = True; begin(c)
        require_heap(c, A, n, nodes, c.le)
        if c.sym:
            c.env_refs = True
            root = lambda l: Ind(0, l, lambda k: c.le(A[k], A[0]), lambda k: Not(node(k)))
            c.inv(lambda l: heap(c, A, 0, l, nodes, c.le), [A], "front is a heap")
            c.inv(root, [A], "root is a greatest element of the front")
            c.inv(lambda l: Or(l >= n, forall(0, l, lambda t: c.le(A[t], A[l]))), [A], "front not above the back")
            c.inv(lambda l: c.pairwise(l, n, c.le, lambda j: A[j]), [A], "back sorted")
            down(c, A, g, lambda r: r, lambda r: 0, "iref")
            c.inv(lambda l: forall(l, n, lambda t: eq(A[t], A.ent(t))), [("ref", A)], "back unchanged")
            c.inv(lambda l: forall(0, l, lambda t: Or(l >= n, c.le(A[t], A[l]))), [("ref", A)], "front not above the back'")
        def post(r):
            c.ensure("sorted", c.pairwise(0, n, c.le, lambda j: A[j])); c.ensure("same elements", c.perm_ok(g))
        c.run(A.b, A.e, *args, post=post)

# ---- priority_queue: a vector that is a heap by the comparator behind it
from contracts.blk import *
from contracts.c06 import V, chk, elem, index_in, rng, fillinv, asg_inv, LIM, HE
def le_of(d): return (lambda x, y: kle(y, x)) if d else (lambda x, y: kle(x, y))
class Pq(V):
    def __init__(self, c, name="m", kinds=("owned", "null"), **kw):
        self.d = c.case(name + "_descending", [0, 1]); self.le = le_of(self.d)
        V.__init__(self, c, "k", name, kinds, size=40, extra=[(32, 4, self.d)], **kw)
        if self.A is not None: require_heap(c, self.A, self.n, nodes, self.le)
def pq(c, o, n, val, d, label="queue"):
    """o is a priority queue in direction d, of the elements val(0..n-1) in some order"""
    p, B = chk(c, o, "k", n, None, label)
    c.ensure("%s: comparator" % label, eq(c.fld(o, 32, 4), d))
    if B is not None:
        c.ensure("%s: is a heap" % label, heap(c, B, 0, n, nodes, le_of(d)))
        if val is not None: c.same_elements(B, n, val)
    return p, B
def pqc(name, **kw):
    def reg(f):
        @contract(P_, name, "adp", name, **kw)
        def g(c):
            begin(c); c.heap_elem = HE("k"); return f(c)
    return reg
def fresh_pq(c): return fresh_obj(c, "m", 40)
order_ = lambda c: c.case("descending", [0, 1])
@pqc("p_ctor")
def g(c): o = fresh_pq(c); d = order_(c); c.run(o, d, post=lambda r: pq(c, o, 0, None, d))
@pqc("p_ctor_c")
def g(c):
    o = fresh_pq(c); d = order_(c); v = V(c, "k", "v", const=True); fillinv(c, "k", 0, v.old)
    c.run(o, d, v.o, post=lambda r: pq(c, o, v.n, v.old, d))
@pqc("p_ctor_cm")
def g(c):
    o = fresh_pq(c); d = order_(c); v = V(c, "k", "v", ("owned", "null"))
    c.run(o, d, v.o, post=lambda r: (pq(c, o, v.n, v.old, d), chk(c, v.o, "k", 0, None, "source")))
@pqc("p_ctor_ii")
def g(c):
    o = fresh_pq(c); A, a, b, ch, args = rng(c, "k"); d = order_(c); fillinv(c, "k", 0, ch)
    c.run(o, *args, d, post=lambda r: pq(c, o, b - a, ch, d))
@pqc("p_ctor_iim")
def g(c):
    o = fresh_pq(c); A, a, b, ch, args = rng(c, "k"); d = order_(c); v = V(c, "k", "v", ("owned", "null")); fillinv(c, "k", v.n, ch)
    c.run(o, *args, d, v.o, post=lambda r: (pq(c, o, v.n + (b - a), ins(v.old, v.n, b - a, ch), d), chk(c, v.o, "k", 0, None, "source")))
@pqc("p_ctor_move")
def g(c):
    o = fresh_pq(c); s = Pq(c, "s"); c.run(o, s.o, post=lambda r: (pq(c, o, s.n, s.old, s.d), chk(c, s.o, "k", 0, None, "source")))
@pqc("p_dtor")
def g(c): m = Pq(c); c.run(m.o)
@pqc("p_size")
def g(c): m = Pq(c, const=True); c.run(m.o, post=lambda r: c.ensure("number of elements", eq(r.n, m.n)))
@pqc("p_empty")
def g(c): m = Pq(c, const=True); c.run(m.o, post=lambda r: c.ensure("no elements", Iff(r.n, eq(m.n, 0))))
@pqc("p_top")
def g(c):
    m = Pq(c, const=True, kinds=("owned",), lo=1); n = m.n; A = m.A
    if c.sym: c.induct("root is a greatest element", 0, n, lambda k: Or(Not(node(k)), m.le(A[k], A[0])), at=lambda k: A[k], trig=lambda k: A[k])
    def post(r):
        c.ensure("an element", eq(r.idx(A), 0)); c.ensure("none is above it", forall(0, n, lambda k: m.le(A[k], A[0])))
    c.run(m.o, post=post)
def push_(name, arg):
    @pqc(name)
    def g(c):
        m = Pq(c); x, a = arg(c); c.run(m.o, a, post=lambda r: pq(c, m.o, m.n + 1, ins(m.old, m.n, 1, lambda j: x), m.d))
def by_ref(c): v = elem(c, "k"); return v.old(0), v.p
def by_val(c): x = c.num("x"); return x, x
push_("p_push", by_ref); push_("p_emplace", by_val)
@pqc("p_pop")
def g(c):
    m = Pq(c, kinds=("owned",), lo=1); n = m.n
    def post(r):
        p, B = pq(c, m.o, n - 1, None, m.d)
        if c.isnull(p): return c.ensure("storage is kept", False)
        c.same_elements(B, n, m.old)                    # the popped one has become the last
        c.ensure("a greatest element was removed", And(eq(B[n - 1], m.old(0)), forall(0, n, lambda k: m.le(B[k], B[n - 1]))))
    c.run(m.o, post=post)
def exch(name):
    @pqc(name)
    def g(c):
        m, s = Pq(c), Pq(c, "s"); c.run(m.o, s.o, post=lambda r: (pq(c, m.o, s.n, s.old, s.d, "target"), pq(c, s.o, m.n, m.old, m.d, "source")))
exch("p_swap"); exch("p_eq_move")
