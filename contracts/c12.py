"""C12 sorting, merging and partitioning"""
from vf.spec import *
from contracts.c13 import ksorted, Counts
from contracts.c14 import c_reverse, R3
G = "sort"
P_ = "C12"
c_reverse(P_, "c_reverse12")

@contract(P_, "h_inplace_merge", G, "inplace_merge")
def inplace_merge(c):
    A = c.arr("A"); n = A.n; m0 = c.size("m", hi=n)
    c.require_sorted(A, klt, 0, m0); c.require_sorted(A, klt, m0, n); c.modifies(A)
    g = c.count_ghost(A); c.mention = True
    c.inv(lambda m: ksorted(c, A, 0, m), [A], "merged so far sorted")
    c.inv(lambda m: ksorted(c, A, m, n), [A], "remainder sorted")
    c.inv(lambda f, m: Or(m >= n, forall(0, f, lambda t: kle(A[t], A[m]))), [A, A], "front not above the remainder")
    c.inv(lambda f, m: Or(m >= n, forall(0, f, lambda t: kle(A[t], A[m]))), [A, ("ref", A)], "front not above the next")
    def post(r):
        c.ensure("sorted", ksorted(c, A, 0, n)); c.ensure("same elements", c.perm_ok(g))
    c.run(A.b, A.at(m0), A.e, post=post)

def sorts(name, func, post_, mid=False, stable=False):
    for sfx in ("", "_c"):
        @contract(P_, func + sfx, G, name + sfx)
        def f(c):
            A = c.arr("A"); n = A.n; c.modifies(A)
            m = c.size("m", hi=n) if mid else None
            rel = kle
            if stable:          # an arbitrary tag that tells equivalent elements apart, in order of position
                rel = lambda a, b: Or(klt(a, b), And(kequiv(a, b), fn1(a) <= fn1(b)))
                tagorder = lambda a, b: Or(Not(kequiv(a, b)), fn1(a) <= fn1(b))
                if c.sym: c.require(c.pairwise(0, n, tagorder, lambda j: A[j]))
                else: c.require(c.pairwise(0, n, tagorder, lambda j: A[j]))
            g = c.count_ghost(A); c.mention = True
            so = lambda lo, hi: c.pairwise(lo, hi, rel, lambda j: A[j])
            c.inv(lambda i: Or(i > n, so(0, i)), [A], "prefix sorted")
            c.inv(lambda i: Or(i >= n, so(0, i + 1)), [A], "prefix sorted'")
            if stable: c.inv(lambda i: c.pairwise(0, n, tagorder, lambda j: A[j]), [A], "equivalent elements in order")
            c.inv(lambda j, i: forall(j + 1, i, lambda t: Or(t < 0, t >= n, klt(A[i], A[t]))), [A, ("ref", A)], "scanned are greater")
            c.inv(lambda j, i: forall(j, i, lambda t: Or(t < 0, t >= n, klt(A[i], A[t]))), [A, ("ref", A)], "scanned are greater'")
            def post(r):
                post_(c, A, m, so); c.ensure("same elements", c.perm_ok(g))
            c.run(A.b, *([A.at(m)] if mid else []), A.e, post=post)
sorts("stable_sort", "h_stable_sort", lambda c, A, m, so: c.ensure("sorted, equivalent elements in their old order", so(0, A.n)), stable=True)
def p_partial(c, A, m, so):
    c.ensure("first part sorted", so(0, m))
    c.ensure("nothing behind it is less", forall(m, A.n, lambda t: Or(eq(m, 0), kle(A[m - 1], A[t]))))
sorts("partial_sort", "h_partial_sort", p_partial, True)
def p_nth(c, A, m, so):
    c.ensure("nothing before is greater", Or(m >= A.n, forall(0, m, lambda t: kle(A[t], A[m]))))
    c.ensure("nothing behind is less", Or(m >= A.n, forall(m, A.n, lambda t: kle(A[m], A[t]))))
sorts("nth_element", "h_nth_element", p_nth, True)
sorts("sort", "h_sort", lambda c, A, m, so: c.ensure("sorted", so(0, A.n)))

for sfx in ("", "_c"):
    @contract(P_, "h_psc" + sfx, G, "partial_sort_copy" + sfx)
    def psc(c):
        A, R = c.arr("A"), c.arr("R"); n, k = A.n, R.n
        w = c.num("w", 30); v = c.num("v")
        C = Counts(c, R, lambda x: key(x) <= w, A); D = Counts(c, R, lambda x: eq(x, v), A)
        c.modifies(R)
        if c.sym:
            c.mention = c.split_bool = True
            a, d = C.f[0], D.f[0]
            c.inv(lambda i, e: eq(e, imin(i, k)), [A, R], "filled", False)
            c.inv(lambda i, e: eq(e, imin(i, k)), [("ref", A), R], "filled'", False)
            c.inv(lambda e: ksorted(c, R, 0, e), [R], "sorted so far")
            c.inv(lambda i, e: And(eq(C.written(e), imin(a(i), k)), D.written(e) <= d(i), a(i) <= i, Or(i >= n, key(A[i]) <= w, eq(a(i + 1), a(i)))), [A, R], "counts")
            c.inv(lambda e: And(forall(0, e, lambda t: eq(key(R[t]) <= w, t < C.written(e))), Or(C.written(e) >= e, C.written(e) < 0, key(R[C.written(e)]) > w)), [R], "those not above w come first")
            c.inv(lambda x, i: forall(0, x, lambda t: Or(t >= k, klt(R[t], A[i]))), [R, ("ref", A)], "less before")
            c.inv(lambda q, e: And(forall(q, e, lambda t: eq(R[t], R.ent(t - 1))), forall(0, q, lambda t: eq(R[t], R.ent(t))), forall(e, k, lambda t: eq(R[t], R.ent(t)))), [R, ("ref", R)], "shifted by one")
            c.inv(lambda q, e: And(C.moved(e, q), D.moved(e, q)), [R, ("ref", R)], "counts while shifting")
        def post(r):
            e = r.idx(R)
            c.ensure("as many as fit", eq(e, imin(n, k)))
            c.ensure("sorted", ksorted(c, R, 0, e))
            c.ensure("the least elements", eq(C.written(e), imin(C.total(0), k)))
            c.ensure("no element more often than in the input", D.written(e) <= D.total(0))
            c.ensure("nothing written behind the returned end", forall(e, k, lambda j: eq(R[j], R.old(j))))
        c.run(A.b, A.e, R.b, R.e, post=post)

SP = "_ZN4ustl16stable_partitionIP1K2PrEET_S4_S4_T0_"
def part(func, name, **opt):
    @contract(P_, func, G, name, **opt)
    def f(c):
        """every element that satisfies the predicate comes before every other one, each kind in its old order"""
        A = c.arr("A"); n = A.n; lo = c.size("f", hi=n); hi = c.size("l", hi=n); c.require(lo <= hi)
        C = c.ghost_uf("count", 0, n, lambda j, v: v + ite(pred(A.old(j)), 1, 0), trig=lambda j: A.old(j))
        if c.sym:
            # C is monotone and grows by at most one, told from the three points that matter
            mid = lo + (hi - lo) / 2
            for what, b in (("first", lo), ("middle", mid), ("last", hi)):
                c.induct("counts between %s and what follows" % what, b, n + 1, lambda j: And(C(b) <= C(j), C(j) - C(b) <= j - b), at=lambda j: A.old(j - 1), trig=C)
                c.induct("counts between %s and what precedes" % what, 0, b + 1, lambda j: And(C(j) <= C(b), C(b) - C(j) <= b - j), down=True, at=lambda j: A.old(j), trig=C)
            c.part_count = C
            if opt: c.part_measure = hi - lo
        c.modifies(A); g = c.count_ghost(A); c.mention = True
        def post(r):
            p = r.idx(A)
            c.ensure("returns the number of matching elements", eq(p, lo + C(hi) - C(lo)))
            c.ensure("matching elements first", forall(lo, p, lambda j: pred(A[j])))
            c.ensure("the others behind", forall(p, hi, lambda j: Not(pred(A[j]))))
            c.ensure("matching elements in their old order", forall(lo, hi, lambda j: Or(Not(pred(A.old(j))), eq(A[lo + C(j) - C(lo)], A.old(j)))))
            c.ensure("the others in their old order", forall(lo, hi, lambda j: Or(pred(A.old(j)), eq(A[imin(p + (j - lo) - (C(j) - C(lo)), hi - 1)], A.old(j)))))
            c.ensure("rest untouched", And(forall(0, lo, lambda j: eq(A[j], A.old(j))), forall(hi, n, lambda j: eq(A[j], A.old(j)))))
            c.ensure("same elements", c.perm_ok(g))
        c.run(A.at(lo), A.at(hi), post=post)
part("h_stable_partition", "c_stable_partition", once=[SP])
part("h_partition", "partition")
