"""C09 non-modifying sequence algorithms"""
from vf.spec import *
G = "algo"
P_ = "C09"
def two(c, same=False):
    A = c.arr("A"); B = c.arr("B", A.n if same else None)
    return A, B
def scan(name, func, match, arg=False):
    @contract(P_, func, G, name)
    def f(c):
        A = c.arr("A"); v = c.elem("v") if arg else None
        m = lambda j: match(A, j, v)
        p = c.first(0, A.n, m)
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, Not(m(j)))), [A], "none before")
        args = [A.b, A.e] + ([v.p] if arg else [])
        c.run(*args, post=lambda r: c.ensure("first match, else end", eq(r.idx(A), p)))
scan("find", "h_find", lambda A, j, v: keq(A[j], v.v), True)
scan("find_if", "h_find_if", lambda A, j, v: pred(A[j]))
def adj(name, func, rel):
    @contract(P_, func, G, name)
    def f(c):
        A = c.arr("A")
        p = c.first(0, imax(A.n - 1, 0), lambda j: rel(A[j], A[j + 1]))
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n - 1, Not(rel(A[j], A[j + 1])))), [A], "none before")
        c.run(A.b, A.e, post=lambda r: c.ensure("first adjacent match, else end", eq(r.idx(A), ite(p < A.n - 1, p, A.n))))
adj("adjacent_find", "h_adjacent_find", keq)
adj("adjacent_find_p", "h_adjacent_find_p", bp)
def mism(name, func, rel, eqonly):
    @contract(P_, func, G, name)
    def f(c):
        A, B = two(c, True)
        p = c.first(0, A.n, lambda j: Not(rel(A[j], B[j])))
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, rel(A[j], B[j]))), [A], "equal before")
        if eqonly:
            c.run(A.b, A.e, B.b, post=lambda r: c.ensure("true iff all elements match", Iff(r.n, eq(p, A.n))))
        else:
            a, b = c.obj("oa", 8), c.obj("ob", 8); c.modifies(a, b)
            def post(r):
                c.ensure("first is the first mismatch", eq(c.index(c.ptr(a, 0), A), p))
                c.ensure("second is at the same position", eq(c.index(c.ptr(b, 0), B), p))
            c.run(A.b, A.e, B.b, a.p, b.p, post=post)
mism("mismatch", "h_mismatch", keq, False)
mism("mismatch_p", "h_mismatch_p", bp, False)
mism("equal", "h_equal", keq, True)
mism("equal_p", "h_equal_p", bp, True)
def cnt(name, func, match, arg):
    @contract(P_, func, G, name)
    def f(c):
        A = c.arr("A"); v = c.elem("v") if arg else None
        m = lambda j: match(A.old(j) if c.pre else A[j], v)
        g = c.ghost_uf("cnt", 0, A.n, lambda i, x: x + ite(m(i), 1, 0), trig=lambda j: A[j])
        c.inv(lambda x, k: And(eq(k, g(x)), k >= 0, k <= x), [A, "i"], "counted")
        c.run(A.b, A.e, *([v.p] if arg else []), post=lambda r: c.ensure("number of matching elements", eq(r.n, g(A.n))))
cnt("count", "h_count", lambda x, v: keq(x, v.v), True)
cnt("count_if", "h_count_if", lambda x, v: pred(x), False)
def srch(name, func, rel, end):
    @contract(P_, func, G, name)
    def f(c):
        A, B = two(c)
        M = c.defall("match", 0, B.n, lambda j, k: rel(A[j + k], B[k]), lambda k: B[k])
        hi = imax(A.n - B.n + 1, 0)
        c.inv(lambda x: forall_m(c, 0, x, M, A.n - B.n + 1), [A], "no match before")
        c.inv(lambda x: forall_m(c, x + 1, A.n - B.n + 1, M, A.n - B.n + 1), [A], "no match after")
        c.inv(lambda x, y: forall(0, y, lambda k: Or(k >= B.n, rel(A[x + k], B[k]))), [A, B], "prefix matches")
        c.inv(lambda x, y: forall(0, y, lambda k: Or(k >= B.n, rel(A[x - y + k], B[k]))), [A, B], "prefix matches at")
        def post(r):
            i = r.idx(A)
            c.ensure("a position of a full match or end", Or(eq(i, A.n), And(0 <= i, i + B.n <= A.n)))
            c.ensure("match found at result", Imp(i + B.n <= A.n, M(i)))
            if end:
                c.ensure("no later match", forall_m(c, i + 1, A.n - B.n + 1, M, A.n - B.n + 1))
                c.ensure("end only when there is no match", Imp(And(eq(i, A.n), B.n > 0), forall_m(c, 0, A.n - B.n + 1, M, A.n - B.n + 1)))
            else:
                c.ensure("no earlier match", forall_m(c, 0, i, M, A.n - B.n + 1))
        c.run(A.b, A.e, B.b, B.e, post=post)
def forall_m(c, lo, hi, M, lim):
    """forall lo<=j<hi, j<lim. not M(j), triggered on M"""
    if not SYMBOLIC[0]: return all(not M(j) for j in range(lo, min(hi, lim)))
    j = z3.Int(fresh_name("mj"))
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi, j < lim), z3.Not(M(j))), patterns=[M(j)])
srch("search", "h_search", keq, False)
srch("search_p", "h_search_p", bp, False)
srch("find_end", "h_find_end", keq, True)
srch("find_end_p", "h_find_end_p", bp, True)
def srchn(name, func, rel):
    @contract(P_, func, G, name)
    def f(c):
        A = c.arr("A"); v = c.elem("v"); n = c.size("count", lo=1)
        k = v.v
        # ghost: length of the run of matching elements that ends just before index i
        g = c.ghost_uf("run", 0, A.n, lambda i, x: ite(rel(A[i], k), x + 1, 0), trig=lambda j: A[j])
        short = lambda hi: c.all_g(g, 0, hi, lambda x: x < n)
        c.inv(lambda x, m: And(eq(m, g(x)), m <= x, m < n, forall(x - m, x, lambda q: Or(q >= A.n, rel(A[q], k)))), [A, "i"], "current run")
        c.inv(lambda x: short(x + 1), [A], "no full run so far")
        def post(r):
            i = r.idx(A)
            c.ensure("in range, with room for the run", Or(eq(i, A.n), And(0 <= i, i + n <= A.n)))
            c.ensure("a run starts at the result", Imp(i < A.n, forall(i, i + n, lambda q: Or(q >= A.n, rel(A[q], k)))))
            c.ensure("no run of this length ends earlier", ite_b(i < A.n, lambda: short(i + n), lambda: short(A.n + 1)))
        c.run(A.b, A.e, n, v.p, post=post)
srchn("search_n", "h_search_n", keq)
srchn("search_n_p", "h_search_n_p", bp)
def ffo(name, func, rel):
    @contract(P_, func, G, name)
    def f(c):
        A, B = two(c)
        M = c.defall("none", 0, B.n, lambda j, k: Not(rel(A[j], B[k])), lambda k: B[k])
        c.inv(lambda x: forall_t(0, x, lambda j: M(j), A.n), [A], "none before")
        c.inv(lambda y, x: forall(0, y, lambda k: Or(k >= B.n, Not(rel(A[x], B[k])))), [B, ("ref", A)], "none of the set so far")
        def post(r):
            i = r.idx(A)
            c.ensure("in range", And(0 <= i, i <= A.n))
            c.ensure("result is in the set", Imp(i < A.n, Not(M(i))))
            c.ensure("nothing earlier is", forall_t(0, i, lambda j: M(j), A.n))
        c.run(A.b, A.e, B.b, B.e, post=post)
def forall_t(lo, hi, M, lim):
    if not SYMBOLIC[0]: return all(M(j) for j in range(lo, min(hi, lim)))
    j = z3.Int(fresh_name("mj"))
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi, j < lim), M(j)), patterns=[M(j)])
ffo("find_first_of", "h_find_first_of", keq)
ffo("find_first_of_p", "h_find_first_of_p", bp)
for sfx in ("", "_c"):
    @contract(P_, "h_is_sorted" + sfx, G, "is_sorted" + sfx)
    def iss(c):
        A = c.arr("A")
        p = c.first(0, imax(A.n - 1, 0), lambda j: klt(A[j + 1], A[j]))
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n - 1, Not(klt(A[j + 1], A[j])))), [A], "sorted before")
        c.run(A.b, A.e, post=lambda r: c.ensure("true iff no element is less than its predecessor", Iff(r.n, p >= A.n - 1)))
    @contract(P_, "h_lexicographical_compare" + sfx, G, "lexicographical_compare" + sfx)
    def lex(c):
        A, B = two(c)
        m = imin(A.n, B.n)
        if c.sym:
            mm = z3.Int("minlen"); c.require(mm == m); m = mm
        p = c.first(0, m, lambda j: Not(kequiv(A[j], B[j])))
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= m, kequiv(A[j], B[j]))), [A], "equivalent before")
        c.run(A.b, A.e, B.b, B.e, post=lambda r: c.ensure("decided by the first difference, else by length",
            Iff(r.n, ite_b(p < m, lambda: klt(A[p], B[p]), lambda: A.n < B.n))))
    def mx(name, rel):
        @contract(P_, "h_%s%s" % (name, sfx), G, name + sfx)
        def f(c):
            A = c.arr("A")
            c.inv(lambda x, y: And(forall(0, x, lambda j: Or(j >= A.n, Not(rel(A[y], A[j])))), forall(0, y, lambda j: Or(j >= A.n, rel(A[j], A[y])))), [A, A], "best so far")
            def post(r):
                i = r.idx(A)
                c.ensure("in range", And(0 <= i, i <= A.n, Imp(A.n > 0, i < A.n)))
                c.ensure("no element beats the result", forall(0, A.n, lambda j: Not(rel(A[i], A[j]))))
                c.ensure("result is the first such", forall(0, i, lambda j: rel(A[j], A[i])))
            c.run(A.b, A.e, post=post)
    mx("max_element", klt)
    mx("min_element", lambda a, b: klt(b, a))
    @contract(P_, "h_minmax_element" + sfx, G, "minmax_element" + sfx)
    def mme(c):
        A = c.arr("A"); a, b = c.obj("oa", 8), c.obj("ob", 8); c.modifies(a, b)
        c.inv(lambda x, y: forall(0, x, lambda j: Or(j >= A.n, Not(klt(A[y], A[j])))), [A, A], "max so far")
        c.inv(lambda x, y: forall(0, x, lambda j: Or(j >= A.n, Not(klt(A[j], A[y])))), [A, A], "min so far")
        def post(r):
            i, k = c.index(c.ptr(a, 0), A), c.index(c.ptr(b, 0), A)
            c.ensure("in range", And(0 <= i, i <= A.n, 0 <= k, k <= A.n, Imp(A.n > 0, And(i < A.n, k < A.n))))
            c.ensure("nothing is less than first", forall(0, A.n, lambda j: Not(klt(A[j], A[i]))))
            c.ensure("nothing is greater than second", forall(0, A.n, lambda j: Not(klt(A[k], A[j]))))
        c.run(A.b, A.e, a.p, b.p, post=post)
    @contract(P_, "h_clamp" + sfx, G, "clamp" + sfx)
    def clampf(c):
        v, l, h = c.elem("v"), c.elem("l"), c.elem("h")
        c.require(Not(klt(h.v, l.v)))
        c.run(v.p, l.p, h.p, post=lambda r: c.ensure("nearest value in [l,h]", eq(r.n, ite(klt(v.v, l.v), l.v, ite(klt(h.v, v.v), h.v, v.v)))))

for n in "find find_if count count_if".split(): variant(n, "hc_" + n, "ctr")
for n in "find find_if".split(): variant(n, "hc_%sm" % n, "ctr")
