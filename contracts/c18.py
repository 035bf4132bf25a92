"""C18 integer utilities and numeric algorithms"""
from vf.spec import *
from contracts.blk import fresh_obj
P_, G = "C18", "num"
def nu(name, func=None, **kw): return contract(P_, func or name, G, name, **kw)
# ---- bit-precise helpers (symbolic: bit vectors; concrete: masked integers)
def M(w): return (1 << w) - 1
def sg(x, w): return x if isz(x) else (x & M(w)) - (1 << w) if (x & M(w)) >> (w - 1) else x & M(w)
def slt(a, b, w): return a < b if isz(a) or isz(b) else sg(a, w) < sg(b, w)
def ult(a, b, w): return z3.ULT(a, b) if isz(a) or isz(b) else (a & M(w)) < (b & M(w))
def neg(a, w): return -a if isz(a) else (-a) & M(w)
def shr(a, k, w): return z3.LShR(a, k) if isz(a) else (a & M(w)) >> k
def shl(a, k, w): return a << k if isz(a) else (a << k) & M(w)
def pick(g, a, b): return z3.If(g, a, b) if isz(g) else a if g else b
def zx(a, w, W): return z3.ZeroExt(W - w, a) if isz(a) else a & M(w)
def ext(a, hi, lo): return z3.Extract(hi, lo, a) if isz(a) else (a >> lo) & M(hi - lo + 1)
def cat(*xs):
    """bytes, most significant first"""
    if isz(xs[0]): return z3.Concat(*xs) if len(xs) > 1 else xs[0]
    r = 0
    for x in xs: r = r << 8 | x
    return r
TY = [(s + str(w), w, s == "s") for s in "su" for w in (8, 16, 32, 64)]
for k, w, sgn in TY:
    lt = slt if sgn else ult
    @nu("min_" + k, mode="bv")
    def g(c, w=w, lt=lt):
        a, b = c.num("a", w), c.num("b", w); c.run(a, b, post=lambda r: c.ensure("the smaller", eq(r.n, pick(lt(b, a, w), b, a))))
    @nu("max_" + k, mode="bv")
    def g(c, w=w, lt=lt):
        a, b = c.num("a", w), c.num("b", w); c.run(a, b, post=lambda r: c.ensure("the larger", eq(r.n, pick(lt(b, a, w), a, b))))
    @nu("absv_" + k, mode="bv")
    def g(c, w=w, sgn=sgn):
        a = c.num("a", w)
        if sgn: c.require(Not(eq(a, 1 << (w - 1))))
        c.run(a, post=lambda r: c.ensure("absolute value", eq(r.n, pick(slt(a, 0, w), neg(a, w), a) if sgn else a)))
    @nu("sign_" + k, mode="bv")
    def g(c, w=w, sgn=sgn):
        a = c.num("a", w); one = z3.BitVecVal(1, w) if c.sym else 1; zero = one - one
        c.run(a, post=lambda r: c.ensure("-1, 0 or 1", eq(r.n, pick(eq(a, 0), zero, pick(slt(a, 0, w), neg(one, w), one) if sgn else one))))
for k in ("s32", "u32"):
    @nu("isneg_" + k, mode="bv")
    def g(c, k=k):
        a = c.num("a", 32); c.run(a, post=lambda r: c.ensure("true iff below zero", Iff(r.n, slt(a, 0, 32) if k == "s32" else False)))
for k in ("min_k", "max_k"):
    @nu(k)
    def g(c, k=k):
        a, b = c.elem("a"), c.elem("b")
        def post(r):
            c.ensure("one of the two", Or(eq(r.n, a.old(0)), eq(r.n, b.old(0))))
            for x in (a, b): c.ensure("no other is smaller (larger)", Not(klt(x.old(0), r.n) if k == "min_k" else klt(r.n, x.old(0))))
        c.run(a.p, b.p, post=post)
for w in (16, 32, 64):
    by = lambda v, n=w: [ext(v, 8 * i + 7, 8 * i) for i in range(n // 8)]
    for f in ["bswap_u%d", "bswap_s%d", "be2n_u%d", "n2be_u%d"]:
        @nu(f % w, mode="bv")
        def g(c, w=w, by=by):
            v = c.num("v", w); c.run(v, post=lambda r: c.ensure("bytes in reverse order", eq(r.n, cat(*by(v)))))
    for f in ("le2n_u%d", "n2le_u%d"):
        @nu(f % w, mode="bv")
        def g(c, w=w):
            v = c.num("v", w); c.run(v, post=lambda r: c.ensure("unchanged on this little-endian machine", eq(r.n, v)))
@nu("bswap_u8", mode="bv")
def g(c):
    v = c.num("v", 8); c.run(v, post=lambda r: c.ensure("one byte is its own reverse", eq(r.n, v)))
for a, b in ((8, 16), (8, 32), (8, 64), (16, 32), (16, 64), (32, 64)):
    @nu("pack_%d_%d" % (a, b), mode="bv", unroll=8)
    def g(c, a=a, b=b):
        v = c.num("v", a)
        def post(r):
            for i in range(b // a): c.ensure("copy %d" % i, eq(ext(r.n, a * i + a - 1, a * i), v))
        c.run(v, post=post)
for w in (32, 64):
    @nu("firstbit_u%d" % w, mode="bv")
    def g(c, w=w):
        v, n = c.num("v", w), c.num("none", 64)
        def post(r):
            k = ext(r.n, w - 1, 0)
            c.ensure("the highest set bit, or the given value", pick(eq(v, 0), eq(r.n, n), And(ult(r.n, w, 64), eq(shr(v, k if isz(k) else min(k, 64), w), 1))) if c.sym else (r.n == n if v == 0 else r.n == v.bit_length() - 1))
        c.run(v, n, post=post)
    for nm, left in (("rol", True), ("ror", False)):
        for q in (16, 32, 64) if w == 32 else ():
            @nu("%s_u%d" % (nm, q), mode="bv")
            def g(c, q=q, left=left):
                v, n = c.num("v", q), c.num("n", 64); c.require(ult(n, q, 64))
                if c.sym: k = ext(n, q - 1, 0) if q < 64 else n; want = z3.RotateLeft(v, k) if left else z3.RotateRight(v, k)
                else: m = n if left else (q - n) % q; want = (v << m | v >> (q - m)) & M(q)
                c.run(v, n, post=lambda r: c.ensure("rotated", eq(r.n, want)))
@nu("nextpow2", mode="bv")
def g(c):
    v = c.num("v", 32)
    def post(r):
        p = r.n; one = ult(p, 2, 32)
        c.ensure("a power of two", And(Not(eq(p, 0)), eq(p & (p - 1), 0)))
        big = ult(1 << 31, v, 32)
        c.ensure("1 for values without one", Imp(big, eq(p, 1)))
        c.ensure("at least the value", Or(big, Not(ult(p, v, 32))))
        c.ensure("the next one, except that 1 goes to 2", Or(big, eq(p, 1), ult(shr(p, 1, 32), v, 32), And(eq(v, 1), eq(p, 2))))
    c.run(v, post=post)
@nu("testandset")
def g(c):
    o = c.obj("m", 4, [(0, 4, c.num("v0", 32))]); v0 = c.fld(o, 0, 4); c.modifies(o)
    c.run(o, post=lambda r: (c.ensure("set to 1", eq(c.fld(o, 0, 4), 1)), c.ensure("true iff it was 0", Iff(r.n, eq(v0, 0)))))
# ---- rounding: any grain
GRAINS = [1, 2, 3, 4, 7, 8, 10, 12, 16, 64, 100, 4096]
for k, w in (("u32", 32), ("u64", 64)):
    for nm in ("aligndown", "align"):
        @nu("%s_%s" % (nm, k))
        def g(c, nm=nm, w=w):
            gr = c.case("grain", GRAINS + ["any"]); v = c.num("v", w)
            if gr == "any": gr = c.size("grain", lo=1, hi=1 << (w - 2))
            if nm == "align": c.require(v + gr - 1 < 1 << w)
            x = v if nm == "aligndown" else v + gr - 1
            def post(r):
                c.ensure("a whole number of grains", eq(modc_(r.n, gr), 0))
                c.ensure("the nearest one", And(r.n <= v, v < r.n + gr) if nm == "aligndown" else And(v <= r.n, r.n < v + gr))
            c.run(v, gr, post=post)
        @nu("%s0_%s" % (nm, k), "%s0_%s" % (nm, k))
        def g(c, nm=nm, w=w):
            v = c.num("v", w)
            if nm == "align": c.require(v + 7 < 1 << w)
            c.run(v, post=lambda r: c.ensure("the nearest multiple of the pointer size", And(eq(modc(r.n, 8), 0), And(r.n <= v, v < r.n + 8) if nm == "aligndown" else And(v <= r.n, r.n < v + 8))))
def modc_(a, b): return (a if isz(a) else z3.IntVal(a)) % b if isz(a) or isz(b) else a % b
for k, w, sgn in TY:
    if w < 32: continue
    @nu("divru_" + k)
    def g(c, w=w, sgn=sgn):
        d = c.case("divisor", [1, 2, 3, 7, 8, 10, 60, 1024] + ["any"]); a = c.snum("a", w) if sgn else c.num("a", w); lim = 1 << (w - 1 if sgn else w)
        if d == "any": d = c.size("divisor", lo=1, hi=lim - 1)
        c.require(And(a + (d - 1) < lim, a - (d - 1) >= -lim))
        def post(r):
            q = r.s if sgn else r.n
            c.ensure("rounded away from zero", Or(And(a >= 0, (q - 1) * d < a, a <= q * d), And(a < 0, (q + 1) * d > a, a >= q * d)))
        c.run(a if c.sym else a % (1 << w), d, post=post)
@nu("velem")
def g(c):
    A = c.arr("v", n=7, T=U8); i = c.num("i", 64)
    c.run(A, i, post=lambda r: c.ensure("the element, or the last one", eq(r.idx(A), ite(i < 7, i, 6))))
# ---- folds
from contracts.c10 import mapped
def fold(name, func, step, two=False, elem=K):
    @nu(name, func)
    def g(c):
        A = c.arr("A", T=elem); B = c.arr("B", A.n, T=elem) if two else None; i = c.num("init", 32)
        F = c.ghost_uf("fold", i, A.n, lambda j, x: step(x, A[j], B[j] if two else None), trig=lambda j: A[j])
        c.inv(lambda x, y: eq(y, F(x)), [A, "i"], "folded so far")
        c.run(A.b, A.e, *([B.b] if two else []), i, post=lambda r: c.ensure("the left fold", eq(r.n, F(A.n))))
fold("accumulate", "h_accumulate", lambda x, a, b: kadd(x, a))
fold("accumulate_op", "h_accumulate_op", lambda x, a, b: fn2(x, a))
fold("inner", "h_inner", lambda x, a, b: kadd(x, kmul(a, b)), True)
fold("inner_op", "h_inner_op", lambda x, a, b: fn2(x, kmul(a, b)), True)
def psum(name, func, op, inplace=False):
    @nu(name, func)
    def g(c):
        A = c.arr("A"); R = A if inplace else c.arr("R", A.n); c.modifies(R)
        F = c.ghost_uf("sum", 0, A.n, lambda j, x: ite(eq(j, 0), A.old(0), op(x, A.old(j))) if c.sym else (A.old(0) if j == 0 else op(x, A.old(j))), trig=lambda j: A[j])
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, eq(R[j], F(j + 1)))), [R], "sums written")
        c.inv(lambda x: forall(0, x + 1, lambda j: Or(j >= A.n, eq(R[j], F(j + 1)))), [R], "sums written'")
        def post(r):
            c.ensure("the sum of the first j+1 elements", forall(0, A.n, lambda j: eq(R[j], F(j + 1))))
            c.ensure("returns the end of the output", eq(r.idx(R), A.n))
        c.run(A.b, A.e, *([] if inplace else [R.b]), post=post)
psum("partial_sum", "h_partial", kadd); psum("partial_sum_op", "h_partial_op", fn2); psum("partial_sum_inplace", "h_partial_ip", kadd, True)
def ite3_(g, a, b): return ite(g, a(), b()) if isz(g) else a() if g else b()
def m_adj(op):
    def mk(c):
        A = c.arr("A"); R = c.arr("R", A.n)
        return A, R, [A.b, A.e, R.b], lambda j: ite3_(eq(j, 0), lambda: A.old(0), lambda: op(A.old(j), A.old(j - 1)))
    return mk
mapped_num = lambda name, func, mk, **kw: mapped(name, func, mk, group=G, prop=P_, **kw)
mapped_num("adjacent_difference", "h_adjdiff", m_adj(ksub)); mapped_num("adjacent_difference_op", "h_adjdiff_op", m_adj(fn2))
@nu("iota", "h_iota")
def g(c):
    R = c.arr("R", T=U32); v = c.num("v", 32); c.modifies(R); W = lambda j: modc(v + j, 1 << 32)
    c.inv(lambda x, y: eq(y, W(x)), [R, "i"], "the next value", q=False)
    c.inv(lambda x: forall(0, x, lambda j: Or(j >= R.n, eq(R[j], W(j)))), [R], "written")
    c.run(R.b, R.e, v, post=lambda r: c.ensure("consecutive values", forall(0, R.n, lambda j: eq(R[j], W(j)))))
@nu("accumulate_u32", "h_accumulate_u32")
def g(c):
    A = c.arr("A", T=U32); i = c.num("init", 32)
    F = c.ghost_uf("sum", i, A.n, lambda j, x: modc(x + A[j], 1 << 32), trig=lambda j: A[j])
    c.inv(lambda x, y: eq(y, F(x)), [A, "i"], "summed so far")
    c.run(A.b, A.e, i, post=lambda r: c.ensure("the sum modulo 2^32", eq(r.n, F(A.n))))
# ---- Euclid: G is the mathematical greatest common divisor; its recurrence is assumed as a theorem
def euclid(c):
    if not c.sym:
        import math
        return math.gcd
    Gf = z3.Function("gcd_math", z3.IntSort(), z3.IntSort(), z3.IntSort()); x, y = z3.Int("gx"), z3.Int("gy")
    c.assume_theorem(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y > 0), Gf(x, y) == Gf(y, x % y)), patterns=[Gf(x, y)]))
    c.assume_theorem(z3.ForAll([x], Gf(x, 0) == x, patterns=[Gf(x, 0)]))
    return lambda a, b: Gf(zi(a), zi(b))
for w in (32, 64):
    @nu("gcd_u%d" % w)
    def g(c, w=w):
        a, b = c.num("a", w), c.num("b", w); Gc = euclid(c)
        c.inv(lambda x, y: eq(Gc(x, y), Gc(a, b)), ["i", "i"], "same divisors")
        c.run(a, b, post=lambda r: c.ensure("the greatest common divisor", eq(r.n, Gc(a, b))))
for nm in ("power_exp", "power_exp_op"):
    @nu(nm)
    def g(c):
        n = c.num("n", 32)
        c.inv(lambda r, x, m: eq(r + 2 * x * divc(m, 2), n), ["i", "i", "i"], "what is left to multiply")
        c.inv(lambda x, m: And(x * m <= n, 1 <= x, 0 <= m), ["i", "i"], "no overflow")
        c.run(n, post=lambda r: c.ensure("x multiplied n times", eq(r.n, n)))
