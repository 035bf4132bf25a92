"""C12/C13 merging and set operations on sorted ranges: the output is sorted, comes from the inputs, and every value
occurs in it exactly as often as counting the inputs prescribes"""
from vf.spec import *
G = "sort"
def ksorted(c, A, lo, hi, get=None): return c.pairwise(lo, hi, lambda x, y: kle(x, y), get or (lambda j: A[j]))
class Fold:
    """number of the first j elements of X (old content) that match"""
    def __init__(self, c, X, match):
        self.n = X.n
        self.f = f = c.ghost_uf("cnt" + X.name, 0, X.n, lambda i, v: v + ite(match(X.old(i)), 1, 0), trig=lambda j: X.old(j))
        if c.sym: c.induct("counts of %s are not negative" % X.name, 0, X.n + 1, lambda j: f(j) >= 0, at=lambda j: X.old(j - 1), trig=f)
    def __call__(self, j): return self.f(j)
class Counts:
    """ghost: number of elements of a class among the first j of each input, of the old output, and in the output now"""
    def __init__(self, c, R, match, *ins):
        self.c, self.R, self.ins, self.match = c, R, ins, match
        self.g = c.count_ghost(R, match=match)
        if not c.sym: return
        self.r = Fold(c, R, match); self.f = [Fold(c, X, match) for X in ins]
        c.require(eq(self.g[2], self.r(R.n)))
    def written(self, k):
        """how many of the first k outputs match, all behind them being old"""
        if not self.c.sym: return sum(1 for j in range(k) if self.match(self.R[j]))
        A, kid, o, w = self.g
        return self.c.cur.mem[A.r.id].occ[kid] - o + self.r(k)
    def moved(self, e, q):
        """in an invariant: relative to the loop's entry, the element before position e is gone and that before q is there twice"""
        A, kid, o, w = self.g
        m = lambda x: ite(self.match(x), 1, 0)
        return eq(self.c.cur.mem[A.r.id].occ[kid], self.c.ent.mem[A.r.id].occ[kid] - m(self.R.ent(e - 1)) + m(self.R.ent(q - 1)))
    def total(self, q):
        return self.f[q](self.ins[q].n) if self.c.sym else sum(1 for j in range(self.ins[q].n) if self.match(self.ins[q].old(j)))
def some(c, name="w"):
    """an arbitrary value"""
    return z3.Int(fresh_name(name)) if c.sym else None

@contract("C12", "h_merge", G, "merge")
def merge(c):
    A, B = c.arr("A"), c.arr("B"); n, m = A.n, B.n
    R = c.arr("R", n + m)
    c.require_sorted(A, klt); c.require_sorted(B, klt)
    w = c.num("w"); C = Counts(c, R, lambda x: eq(x, w), A, B)
    c.modifies(R)
    if c.sym:
        a, b = C.f; c.env_refs = True
        c.inv(lambda i, j, k: eq(k, i + j), [A, B, R], "k=i+j", False); c.inv(lambda i, j, k: eq(C.written(k), a(i) + b(j)), [A, B, R], "counts")
        c.inv(lambda i, k: eq(k, i + m), [A, R], "k=i+m", False); c.inv(lambda i, k: eq(C.written(k), a(i) + b(m)), [A, R], "counts A")
        c.inv(lambda j, k: eq(k, n + j), [B, R], "k=n+j", False); c.inv(lambda j, k: eq(C.written(k), a(n) + b(j)), [B, R], "counts B")
        c.inv(lambda i, j, k: eq(k, i + j), [A, ("ref", B), R], "k=i+j, second at rest", False); c.inv(lambda i, j, k: eq(C.written(k), a(i) + b(j)), [A, ("ref", B), R], "counts, second at rest")
        c.inv(lambda i, j, k: eq(k, i + j), [("ref", A), B, R], "k=i+j, first at rest", False); c.inv(lambda i, j, k: eq(C.written(k), a(i) + b(j)), [("ref", A), B, R], "counts, first at rest")
        c.inv(lambda k: ksorted(c, R, 0, k), [R], "sorted so far")
        c.inv(lambda i, k: Or(i >= n, forall(0, k, lambda t: kle(R[t], A[i]))), [A, R], "not above the next of A")
        c.inv(lambda j, k: Or(j >= m, forall(0, k, lambda t: kle(R[t], B[j]))), [B, R], "not above the next of B")
    def post(r):
        c.ensure("returns the end of the output", eq(r.idx(R), n + m))
        c.ensure("output is sorted", ksorted(c, R, 0, n + m))
        c.ensure("every value occurs as often as in both inputs together", eq(C.written(n + m), C.total(0) + C.total(1)))
    c.run(A.b, A.e, B.b, B.e, R.b, post=post)

# ---- C13
def setop(name, expect, expect_a):
    """expect(a, b): how many of a class with a members in A and b in B are in the output; expect_a: how many of those are A's"""
    for sfx in ("", "_c"):
        @contract("C13", "h_%s%s" % (name, sfx), G, name + sfx)
        def f(c):
            A, B = c.arr("A"), c.arr("B"); n, m = A.n, B.n
            R = c.arr("R", n + m)
            tagged(c, A, B)
            c.require_sorted(A, klt); c.require_sorted(B, klt)
            w = c.num("w", 30)
            C = Counts(c, R, lambda x: eq(key(x), w), A, B); D = Counts(c, R, lambda x: And(eq(key(x), w), pred(x)), A, B)
            c.modifies(R)
            if c.sym:
                a, b = C.f
                for X, f_ in ((A, a), (B, b)):
                    c.induct("counts of %s do not decrease" % X.name, 0, X.n, lambda j, X=X, f_=f_: And(f_(j) <= f_(X.n), Imp(key(X.old(j)) > w, eq(f_(j), f_(X.n))), Imp(eq(key(X.old(j)), w), f_(j) < f_(X.n))), down=True, at=lambda j, X=X: X.old(j))
                c.env_refs = True; c.mention = True
                c.inv(lambda k, i, j: k <= i + j, [R, ("ref", A), ("ref", B)], "k<=i+j", False)
                c.inv(lambda k, i, j: eq(C.written(k), expect(a(i), b(j))), [R, ("ref", A), ("ref", B)], "counts")
                c.inv(lambda k, i, j: eq(D.written(k), expect_a(a(i), b(j))), [R, ("ref", A), ("ref", B)], "counts of A")
                c.inv(lambda i, j: And(Imp(a(i) < b(j), Or(i >= n, key(A[i]) > w)), Imp(b(j) < a(i), Or(j >= m, key(B[j]) > w))), [("ref", A), ("ref", B)], "matched in pairs")
                c.inv(lambda k: ksorted(c, R, 0, k), [R], "sorted so far")
                c.inv(lambda i, k: Or(i >= n, forall(0, k, lambda t: kle(R[t], A[i]))), [A, R], "not above the next of A")
                c.inv(lambda j, k: Or(j >= m, forall(0, k, lambda t: kle(R[t], B[j]))), [B, R], "not above the next of B")
            def post(r):
                e = r.idx(R)
                c.ensure("returns a position in the output", And(0 <= e, e <= n + m))
                c.ensure("output is sorted", ksorted(c, R, 0, e))
                c.ensure("count of every class", eq(C.written(e), expect(C.total(0), C.total(1))))
                c.ensure("elements come from the input prescribed", eq(D.written(e), expect_a(C.total(0), C.total(1))))
                c.ensure("nothing written behind the returned end", forall(e, n + m, lambda j: eq(R[j], R.old(j))))
            c.run(A.b, A.e, B.b, B.e, R.b, post=post)
def tagged(c, A, B):
    """every element of A satisfies the (otherwise arbitrary) predicate, none of B does"""
    if c.sym:
        c.require(forall(0, A.n, lambda j: pred(A[j]))); c.require(forall(0, B.n, lambda j: Not(pred(B[j]))))
    else:
        for X, v in ((A, True), (B, False)):
            for j in range(X.n):
                x = X[j]
                while bool(pred(x)) != v: x = (x + 1) & 0xffffffff
                X.set(j, x)
pos = lambda x: imax(x, 0)
setop("set_union", lambda a, b: imax(a, b), lambda a, b: a)
setop("set_intersection", lambda a, b: imin(a, b), lambda a, b: imin(a, b))
setop("set_difference", lambda a, b: pos(a - b), lambda a, b: pos(a - b))
setop("set_symmetric_difference", lambda a, b: imax(a - b, b - a), lambda a, b: pos(a - b))

for sfx in ("", "_c"):
    @contract("C13", "h_includes" + sfx, G, "includes" + sfx)
    def inc(c):
        A, B = c.arr("A"), c.arr("B"); n, m = A.n, B.n
        c.require_sorted(A, klt); c.require_sorted(B, klt)
        if not c.sym:
            na = lambda k: sum(1 for j in range(n) if key(A[j]) == k); nb = lambda k: sum(1 for j in range(m) if key(B[j]) == k)
            incl = all(nb(key(B[j])) <= na(key(B[j])) for j in range(m))
            return c.run(A.b, A.e, B.b, B.e, post=lambda r: (c.ensure("true only when every class of the second range has enough elements in the first", not r.n or incl), c.ensure("false only when some class has not", bool(r.n) or not incl)))
        fa, fb = [c.fold2("cnt" + X.name, X.n, lambda k, i, v, X=X: v + ite(eq(key(X[i]), k), 1, 0), lambda j, X=X: X[j]) for X in (A, B)]
        for X, f in ((A, fa), (B, fb)):
            c.induct2("counts of %s do not decrease" % X.name, 0, X.n + 1, lambda k, i, f=f, X=X: f(k, i) <= f(k, X.n), f, True, [lambda k, i, X=X: X[i], lambda k, i, f=f: f(k, i)])
            c.induct2("nothing of %s counts before its class" % X.name, 0, X.n + 1, lambda k, i, f=f, X=X: Imp(Or(eq(i, 0), key(X[i - 1]) < k), eq(f(k, i), 0)), f, False, [lambda k, i, X=X: X[i - 1], lambda k, i, X=X: X[i - 2], lambda k, i, f=f: f(k, i - 1)])
            c.induct2("nothing of %s counts after its class" % X.name, 0, X.n, lambda k, i, f=f, X=X: Imp(key(X[i]) > k, eq(f(k, i), f(k, X.n))), f, True, [lambda k, i, X=X: X[i + 1], lambda k, i, f=f: f(k, i)])
        w = c.num("w")
        c.mention = c.env_refs = True
        c.inv(lambda i, j: And(fb(w, j) <= fa(w, i), Imp(fb(w, j) < fa(w, i), Or(j >= m, key(B[j]) > w))), [A, B], "matched in pairs")
        c.inv(lambda i, j: Or(j >= m, fa(key(B[j]), i) <= fb(key(B[j]), j)), [A, B], "all of A's class matched")
        def post(r):
            c.ensure("true only when every class of the second range has enough elements in the first", Imp(r.n, fb(w, m) <= fa(w, n)))
            k = z3.Int(fresh_name("k"))
            c.ensure("false only when some class has not", Imp(Not(r.n), z3.Exists([k], fb(k, m) > fa(k, n))))
        c.run(A.b, A.e, B.b, B.e, post=post)
