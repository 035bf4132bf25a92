"""C21 tuples, arrays, matrices (element-wise, bit precise) and iterator adaptors"""
import struct
from vf.spec import *
from vf import ex as X
from contracts.c18 import M, sg, slt, ult, pick, zx
P_, G = "C21", "tup"
def sx(a, w, W): return (z3.SignExt(W - w, a) if W > w else a) if isz(a) else sg(a, w) & M(W)
class Ty:
    """element type: width in bits, kind u(nsigned) s(igned) f(loat)"""
    def __init__(self, k, w): self.k, self.w, self.sz = k, w, w // 8
    def fmt(self): return "f" if self.w == 32 else "d"
    def val(self, c, name):
        v = c.num(name, self.w)
        if not c.sym and self.k == "f":
            if c.rng.random() < 0.8: v = struct.unpack("<I" if self.w == 32 else "<Q", struct.pack("<" + self.fmt(), c.rng.choice([0, 1, 2, 3, 5, -1, 0.5, -7, 100, 1e9, 1e-9, float(c.rng.randint(-50, 50))])))[0]
            c.inputs[name] = v
        return v
    def ext(self, v, W): return v if W == self.w else sx(v, self.w, W) if self.k == "s" else zx(v, self.w, W)
    def same(self, a, b):
        if isz(a) or isz(b) or self.k != "f": return eq(a, b)
        nan = lambda x: (x & M(31 if self.w == 32 else 63)) > (0x7f800000 if self.w == 32 else 0x7ff0000000000000)
        return a == b or (nan(a) and nan(b))
def fl(t, op, a, b):
    """the IEEE operation: uninterpreted for the prover, the machine's own in the replay"""
    if isz(a) or isz(b):
        z = lambda v: v if isz(v) else z3.BitVecVal(v, t.w)
        return X.fuf("f" + op, z(a), z(b))
    import numpy as np
    f, u = (np.float32, np.uint32) if t.w == 32 else (np.float64, np.uint64)
    x, y = np.array([a], u).view(f), np.array([b], u).view(f)
    with np.errstate(all="ignore"): r = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}[op](x, y)
    return int(r.view(u)[0])
def feq(t, a, b):
    if isz(a) or isz(b): return X.fuf("oeq", a if isz(a) else z3.BitVecVal(a, t.w), b if isz(b) else z3.BitVecVal(b, t.w), True)
    q = lambda v: struct.unpack("<" + t.fmt(), struct.pack("<I" if t.w == 32 else "<Q", v))[0]
    return q(a) == q(b)
def arith(op, t, a, b, u=None):
    """element of type t `op` element of type u, converted to t: the usual arithmetic conversions, then truncation"""
    u = u or t
    if t.k == "f": return fl(t, op, a, b)
    W = max(32, t.w, u.w)
    x, y = t.ext(a, W), u.ext(b, W)
    if op == "add": r = x + y
    elif op == "sub": r = x - y
    elif op == "mul": r = x * y
    else:
        sgn = not any(q.k == "u" and q.w == W for q in (t, u))
        if isz(x) or isz(y):
            z = lambda v: v if isz(v) else z3.BitVecVal(v, W)
            r = z(x) / z(y) if sgn else z3.UDiv(z(x), z(y))
        elif sgn: p, q = sg(x, W), sg(y, W); r = abs(p) // abs(q); r = r if (p < 0) == (q < 0) else -r
        else: r = x // y
    if not isz(r): return r & M(t.w)
    return z3.Extract(t.w - 1, 0, r) if t.w < W else r
def div_ok(c, t, a, b):
    if t.k == "f": return
    c.require(Not(eq(b, 0)))
    if t.k == "s" and t.w >= 32: c.require(Not(And(eq(b, M(t.w)), eq(a, 1 << (t.w - 1)))))
def less(t, u, a, b):
    W = max(32, t.w, u.w); x, y = t.ext(a, W), u.ext(b, W)
    return slt(x, y, W) if not any(q.k == "u" and q.w == W for q in (t, u)) else ult(x, y, W)
def equal(t, u, a, b):
    if t.k == "f": return feq(t, a, b)
    W = max(32, t.w, u.w); return eq(t.ext(a, W), u.ext(b, W))
def tup(c, name, t, n, vals=None):
    vs = vals or [t.val(c, "%s%d" % (name, i)) for i in range(n)]
    return c.obj(name, n * t.sz, [(i * t.sz, t.sz, v) for i, v in enumerate(vs)]), vs
def is_(c, what, o, t, want):
    for i, w in enumerate(want): c.ensure("%s %d" % (what, i), t.same(c.fld(o, i * t.sz, t.sz), w))
def self_(c, r, o): c.ensure("returns the object itself", (r.v.r is o.r) if c.sym else r.v == o.addr)
def at_index(c, i, n): c.require(ult(i, n, 64))
def choose(c, i, vs):
    r = vs[-1]
    for k in range(len(vs) - 2, -1, -1): r = pick(eq(i, k), vs[k], r)
    return r
def lex(lt, eq_, a, b):
    g = False
    for x, y in reversed(list(zip(a, b))): g = Or(lt(x, y), And(eq_(x, y), g))
    return g
def con(name, **kw): return contract(P_, name, G, name, mode="bv", unroll=20, **kw)
def tie(c, a, b):
    """sampling only: make equal prefixes likely"""
    if not c.sym and c.rng.random() < 0.7:
        k = c.rng.randint(0, len(a)); b[:k] = a[:k]
    return b
def family(p, n, t, N):
    """operations common to tuple (p = "t") and array (p = "a")"""
    T = "%s_%%s_%s" % (p, n); el = "element"
    for op in ("add", "sub", "mul", "div"):
        def pair(c, op=op, k=N):
            a, va = tup(c, "a", t, N); b, vb = tup(c, "b", t, k)
            if op == "div":
                for x, y in zip(va, vb): div_ok(c, t, x, y)
            return a, va, b, vb
        @con(T % op)
        def g(c, op=op, pair=pair):
            r, _ = tup(c, "r", t, N); a, va, b, vb = pair(c); c.modifies(r)
            c.run(r, a, b, post=lambda q: is_(c, el, r, t, [arith(op, t, x, y) for x, y in zip(va, vb)]))
        @con(T % (op + "eq"))
        def g(c, op=op, pair=pair):
            a, va, b, vb = pair(c); c.modifies(a)
            c.run(a, b, post=lambda q: (is_(c, el, a, t, [arith(op, t, x, y) for x, y in zip(va, vb)]), self_(c, q, a)))
        @con(T % (op + "s"))
        def g(c, op=op):
            r, _ = tup(c, "r", t, N); a, va = tup(c, "a", t, N); v, (y,) = tup(c, "v", t, 1); c.modifies(r)
            if op == "div": [div_ok(c, t, x, y) for x in va]
            c.run(r, a, v, post=lambda q: is_(c, el, r, t, [arith(op, t, x, y) for x in va]))
        @con(T % (op + "seq"))
        def g(c, op=op):
            a, va = tup(c, "a", t, N); v, (y,) = tup(c, "v", t, 1); c.modifies(a)
            if op == "div": [div_ok(c, t, x, y) for x in va]
            c.run(a, v, post=lambda q: (is_(c, el, a, t, [arith(op, t, x, y) for x in va]), self_(c, q, a)))
        for s in ("il", "ilr") if p == "a" else ("il",):
            @con(T % (op + s))
            def g(c, op=op, pair=pair, s=s):
                r = tup(c, "r", t, N)[0] if s == "ilr" else None
                a, va, b, vb = pair(c, k=2); d = r or a; c.modifies(d)
                want = [arith(op, t, x, y) for x, y in zip(va, vb)] + va[2:]
                c.run(*([r] if r else []), a, b, post=lambda q: (is_(c, "listed elements change, the others stay:", d, t, want), r or self_(c, q, a)))
    @con(T % "addil9")
    def g(c):
        a, va = tup(c, "a", t, N); b, vb = tup(c, "b", t, 9); c.modifies(a)
        c.run(a, b, post=lambda q: is_(c, el, a, t, [arith("add", t, x, y) for x, y in zip(va, vb)]))
    @con(T % "eq")
    def g(c):
        a, va = tup(c, "a", t, N); vb = [t.val(c, "b%d" % i) for i in range(N)]; b, vb = tup(c, "b", t, N, tie(c, va, vb))
        c.run(a, b, post=lambda q: c.ensure("equal iff every element is", Iff(q.n, And(*[equal(t, t, x, y) for x, y in zip(va, vb)]))))
    if t.k != "f":
        @con(T % "lt")
        def g(c):
            a, va = tup(c, "a", t, N); vb = [t.val(c, "b%d" % i) for i in range(N)]; b, vb = tup(c, "b", t, N, tie(c, va, vb))
            c.run(a, b, post=lambda q: c.ensure("lexicographic order", Iff(q.n, lex(lambda x, y: less(t, t, x, y), lambda x, y: eq(x, y), va, vb))))
    for f in ("swap", "swapf") if p == "t" else ("swap",):
        @con(T % f)
        def g(c):
            a, va = tup(c, "a", t, N); b, vb = tup(c, "b", t, N); c.modifies(a); c.modifies(b)
            c.run(a, b, post=lambda q: (is_(c, "first takes", a, t, vb), is_(c, "second takes", b, t, va)))
    for f in ("at", "idx"):
        @con(T % f)
        def g(c):
            o, _ = tup(c, "o", t, 1); a, va = tup(c, "a", t, N); i = c.case("index", list(range(N))); c.modifies(o)
            c.run(o, a, cn(c, i), post=lambda q: is_(c, "the element named", o, t, [va[i]]))
    for f in ("set", "setat"):
        @con(T % f)
        def g(c):
            a, va = tup(c, "a", t, N); v, (y,) = tup(c, "v", t, 1); i = c.case("index", list(range(N))); c.modifies(a)
            c.run(a, cn(c, i), v, post=lambda q: is_(c, "only the named element changes:", a, t, [y if k == i else va[k] for k in range(N)]))
    @con(T % "size")
    def g(c):
        a, _ = tup(c, "a", t, N); c.run(a, post=lambda q: c.ensure("number of elements", eq(q.n, N)))
def cn(c, i): return i
def tuples(n, t, N):
    family("t", n, t, N); T = "t_%%s_%s" % n
    def made(name, k, want):
        """construct from k values"""
        @con(T % name)
        def g(c):
            r, _ = tup(c, "r", t, N); c.modifies(r)
            v, vs = tup(c, "v", t, k) if k else (None, [])
            c.run(r, *([v] if k else []), post=lambda q: is_(c, "element", r, t, want(vs)))
    made("zero", 0, lambda v: [0] * N)
    made("fill", 1, lambda v: v * N)
    made("ptr", N, lambda v: v)
    made("copy", N, lambda v: v)
    made("il0", 0, lambda v: [0] * N)
    made("il1", 1, lambda v: v + [0] * (N - 1))
    made("il2", 2, lambda v: v + [0] * (N - 2))
    made("il9", 9, lambda v: v[:N])
    def vs_(name, k):
        @con(T % name)
        def g(c):
            r, _ = tup(c, "r", t, N); c.modifies(r); os_ = [tup(c, "v%d" % i, t, 1) for i in range(k)]; vs = [v[1][0] for v in os_]
            c.run(r, *[o[0] for o in os_], post=lambda q: is_(c, "element", r, t, vs + [vs[-1]] * (N - k)))
    vs_("v2", 2)
    if n in ("s5", "f4", "s32x4", "u16x4", "u8x8", "u32x4"): vs_("v3", 3); vs_("v4", 4)
    @con(T % "assign")
    def g(c):
        r, _ = tup(c, "r", t, N); v, vs = tup(c, "v", t, N); c.modifies(r)
        c.run(r, v, post=lambda q: (is_(c, "element", r, t, vs), self_(c, q, r)))
U = lambda w: Ty("u", w)
S_ = lambda w: Ty("s", w)
F = lambda w: Ty("f", w)
for n, t, N in (("u3", U(32), 3), ("s5", S_(16), 5), ("b3", U(8), 3), ("q3", U(64), 3), ("f4", F(32), 4), ("f2", F(32), 2), ("d2", F(64), 2), ("f3", F(32), 3),
                ("s32x4", S_(32), 4), ("u32x4", U(32), 4), ("s16x4", S_(16), 4), ("u16x4", U(16), 4), ("s32x2", S_(32), 2), ("u32x2", U(32), 2),
                ("s8x8", S_(8), 8), ("u8x8", U(8), 8), ("s16x2", S_(16), 2)): tuples(n, t, N)
def arrays(n, t, N):
    family("a", n, t, N)
    @con("a_fillm_" + n)
    def g(c):
        a, _ = tup(c, "a", t, N); v, (y,) = tup(c, "v", t, 1); c.modifies(a)
        c.run(a, v, post=lambda q: is_(c, "element", a, t, [y] * N))
for n, t, N in (("u3", U(32), 3), ("s5", S_(16), 5), ("q2", U(64), 2), ("f3", F(32), 3), ("b8", U(8), 8)): arrays(n, t, N)
def mixed(p, n, t, u, N):
    T = "%s_%%s_%s" % (p, n)
    for op in ("add", "sub", "mul"):
        @con(T % ("m" + op))
        def g(c, op=op):
            r, _ = tup(c, "r", t, N); a, va = tup(c, "a", t, N); b, vb = tup(c, "b", u, N); c.modifies(r)
            c.run(r, a, b, post=lambda q: is_(c, "element", r, t, [arith(op, t, x, y, u) for x, y in zip(va, vb)]))
        @con(T % ("m%seq" % op))
        def g(c, op=op):
            a, va = tup(c, "a", t, N); b, vb = tup(c, "b", u, N); c.modifies(a)
            c.run(a, b, post=lambda q: (is_(c, "element", a, t, [arith(op, t, x, y, u) for x, y in zip(va, vb)]), self_(c, q, a)))
    @con(T % "meq")
    def g(c):
        a, va = tup(c, "a", t, N); b, vb = tup(c, "b", u, N)
        c.run(a, b, post=lambda q: c.ensure("equal iff every element is", Iff(q.n, And(*[equal(t, u, x, y) for x, y in zip(va, vb)]))))
    @con(T % "mlt")
    def g(c):
        a, va = tup(c, "a", t, N); b, vb = tup(c, "b", u, N)
        c.run(a, b, post=lambda q: c.ensure("lexicographic order", Iff(q.n, lex(lambda x, y: less(t, u, x, y), lambda x, y: equal(t, u, x, y), va, vb))))
    if p == "t":
        cv = lambda v: u.ext(v, t.w) if t.w >= u.w else (z3.Extract(t.w - 1, 0, v) if isz(v) else v & M(t.w))
        for f in ("conv", "convas"):
            @con(T % f)
            def g(c, f=f):
                r, _ = tup(c, "r", t, N); b, vb = tup(c, "b", u, N); c.modifies(r)
                c.run(r, b, post=lambda q: (is_(c, "converted element", r, t, [cv(v) for v in vb]), self_(c, q, r) if f == "convas" else 0))
MIX = (("u8u32", U(8), U(32), 3), ("u32u8", U(32), U(8), 3), ("u64u16", U(64), U(16), 2))
for m in MIX: mixed("t", *m); mixed("a", *m)
mixed("t", "s32u32", S_(32), U(32), 4)
# ---- matrices: X columns, Y rows, stored by rows
def dot(t, xs, ys):
    """sum of products from zero, in order"""
    r = 0
    for x, y in zip(xs, ys): r = arith("add", t, r, arith("mul", t, x, y))
    return r
def sse4(t, xs, ys):
    """the four-wide float transform adds pairwise"""
    p = [fl(t, "mul", x, y) for x, y in zip(xs, ys)]
    return fl(t, "add", fl(t, "add", p[0], p[1]), fl(t, "add", p[2], p[3]))
def matrices(n, t, X_, Y, sq):
    T = "x_%%s_%s" % n; el = "element"; N = X_ * Y
    dp = sse4 if n == "f4" else dot
    @con(T % "get")
    def g(c):
        o, _ = tup(c, "o", t, 1); m, v = tup(c, "m", t, N); r, q = c.case("row", list(range(Y))), c.case("column", list(range(X_))); c.modifies(o)
        c.run(o, m, r, q, post=lambda _: is_(c, "the element named", o, t, [v[r * X_ + q]]))
    @con(T % "set")
    def g(c):
        m, v = tup(c, "m", t, N); r, q = c.case("row", list(range(Y))), c.case("column", list(range(X_))); a, (y,) = tup(c, "v", t, 1); c.modifies(m)
        c.run(m, r, q, a, post=lambda _: is_(c, "only the named element changes:", m, t, [y if k == r * X_ + q else v[k] for k in range(N)]))
    @con(T % "row")
    def g(c):
        o, _ = tup(c, "o", t, X_); m, v = tup(c, "m", t, N); i = c.case("row", list(range(Y))); c.modifies(o)
        c.run(o, m, i, post=lambda _: is_(c, el, o, t, v[i * X_:(i + 1) * X_]))
    @con(T % "col")
    def g(c):
        o, _ = tup(c, "o", t, Y); m, v = tup(c, "m", t, N); i = c.case("column", list(range(X_))); c.modifies(o)
        c.run(o, m, i, post=lambda _: is_(c, el, o, t, v[i::X_]))
    for f in ("assign", "copy"):
        @con(T % f)
        def g(c):
            r, _ = tup(c, "r", t, N); m, v = tup(c, "m", t, N); c.modifies(r); c.run(r, m, post=lambda _: is_(c, el, r, t, v))
    @con(T % "zero")
    def g(c):
        r, _ = tup(c, "r", t, N); c.modifies(r); c.run(r, post=lambda _: is_(c, el, r, t, [0] * N))
    for op in ("add", "sub", "mul", "div"):
        @con(T % (op + "s"))
        def g(c, op=op):
            r, _ = tup(c, "r", t, N); m, v = tup(c, "m", t, N); a, (y,) = tup(c, "v", t, 1); c.modifies(r)
            if op == "div": [div_ok(c, t, x, y) for x in v]
            c.run(r, m, a, post=lambda _: is_(c, el, r, t, [arith(op, t, x, y) for x in v]))
    @con(T % "tmul")
    def g(c):
        o, _ = tup(c, "o", t, X_); q, tv = tup(c, "t", t, Y); m, v = tup(c, "m", t, N); c.modifies(o)
        c.run(o, q, m, post=lambda _: is_(c, "sum over the rows for column", o, t, [dp(t, tv, v[x::X_]) for x in range(X_)]))
    @con(T % "mmul")
    def g(c):
        o, _ = tup(c, "o", t, Y * Y); m, v = tup(c, "a", t, N); b, w = tup(c, "b", t, N); c.modifies(o)
        c.run(o, m, b, post=lambda _: is_(c, "row times column", o, t, [dp(t, v[r * X_:(r + 1) * X_], w[k::Y]) for r in range(Y) for k in range(Y)]))
    @con(T % "dim")
    def g(c):
        m, _ = tup(c, "m", t, N); c.run(m, post=lambda r: c.ensure("columns and rows", eq(r.n, 16 * X_ + Y)))
    if sq:
        one = 1 if t.k != "f" else 0x3f800000
        @con(T % "ident")
        def g(c):
            m, _ = tup(c, "m", t, N); c.modifies(m); c.run(m, post=lambda _: is_(c, el, m, t, [one if k // X_ == k % X_ else 0 for k in range(N)]))
        @con(T % "trans")
        def g(c):
            m, v = tup(c, "m", t, N); c.modifies(m); c.run(m, post=lambda _: is_(c, el, m, t, [v[k % X_ * X_ + k // X_] for k in range(N)]))
for a in (("u3x2", U(32), 3, 2, 0), ("s16x2x3", S_(16), 2, 3, 0), ("u3", U(32), 3, 3, 1), ("i4", S_(32), 4, 4, 1), ("f4", F(32), 4, 4, 1), ("f2", F(32), 2, 2, 1)): matrices(*a)
# ---- packed operations: element i of the result is op(element i of the second, element i of the first); three operands: op(first, second)
def packed(op, t, a, b):
    """the value of `op` for elements a, b of an integer type"""
    w, sgn = t.w, t.k == "s"
    if op in ("add", "sub", "mul", "div"): return arith(op, t, a, b)
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if isz(a) or isz(b):
        z = lambda v: v if isz(v) else z3.BitVecVal(v, w)
        a, b = z(a), z(b)
        if op == "shl": return a << b
        if op == "shr": return a >> b if sgn else z3.LShR(a, b)
        lt = a < b if sgn else z3.ULT(a, b)
        if op == "min": return z3.If(lt, a, b)
        if op == "max": return z3.If(lt, b, a)
        e = (lambda v: z3.SignExt(2, v)) if sgn else (lambda v: z3.ZeroExt(2, v)); k = lambda v: z3.BitVecVal(v, w + 2)
        if op == "avg": return z3.Extract(w - 1, 0, (e(a) + e(b) + 1) / 2)       # rounds towards zero, as / does
        r = e(a) + e(b) if op == "adds" else e(a) - e(b); lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sgn else (0, M(w))
        return z3.Extract(w - 1, 0, z3.If(r < k(lo), k(lo), z3.If(r > k(hi), k(hi), r)))
    x, y = (sg(a, w), sg(b, w)) if sgn else (a, b)
    if op == "shl": return a << b & M(w)
    if op == "shr": return (x >> b) & M(w)
    if op == "min": return min(x, y) & M(w)
    if op == "max": return max(x, y) & M(w)
    if op == "avg": s = x + y + 1; return (abs(s) // 2 * (1 if s >= 0 else -1)) & M(w)
    r = x + y if op == "adds" else x - y; lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sgn else (0, M(w))
    return min(max(r, lo), hi) & M(w)
def fless(t, a, b):
    if isz(a) or isz(b): return X.fuf("olt", a, b, True)
    q = lambda v: struct.unpack("<" + t.fmt(), struct.pack("<I" if t.w == 32 else "<Q", v))[0]
    return q(a) < q(b)
def fpacked(op, t, a, b):
    if op in ("and", "or", "xor"): return packed(op, U(t.w), a, b)
    if op in ("min", "max"):
        l = fless(t, a, b) if op == "min" else fless(t, b, a)
        return pick(l, a, b) if isz(l) else a if l else b
    if op == "avg": return fl(t, "div", fl(t, "add", a, b), 0x40000000 if t.w == 32 else 1 << 62)
    return fl(t, op, a, b)
def defined(c, op, t, a, b):
    if op == "div": div_ok(c, t, a, b)
    elif t.k == "f": return
    elif op in ("shl", "shr"): c.require(ult(b, t.w, t.w))
    elif op == "avg" and t.w >= 32:     # the sum is formed in the element type
        if not isz(a):
            x, y = (sg(a, t.w), sg(b, t.w)) if t.k == "s" else (a, b)
            c.require((x + y + 1 <= M(t.w)) if t.k == "u" else -(1 << t.w - 1) <= x + y and x + y + 1 < 1 << t.w - 1)
        else:
            e = (lambda v: z3.SignExt(2, v)) if t.k == "s" else (lambda v: z3.ZeroExt(2, v)); r = e(a) + e(b)
            c.require(z3.And(r + 1 <= (M(t.w) if t.k == "u" else M(t.w - 1)), r >= (0 if t.k == "u" else -(1 << t.w - 1))))
def simd(n, t, N):
    P = packed if t.k != "f" else fpacked
    for op in ("add", "sub", "mul", "div", "min", "max", "avg") + (("and", "or", "xor", "shl", "shr") + (("subs", "adds") if n != "s5" else ()) if t.k != "f" else ("and", "or", "xor") if n == "f4" else ()):
        @con("s_%s_%s" % (op, n))
        def g(c, op=op):
            a, va = tup(c, "a", t, N); b, vb = tup(c, "b", t, N); c.modifies(b)
            for x, y in zip(va, vb): defined(c, op, t, y, x)
            c.run(a, b, post=lambda q: is_(c, "element", b, t, [P(op, t, y, x) for x, y in zip(va, vb)]))
        if t.k == "f" and op in ("and", "or", "xor"): continue
        @con("s3_%s_%s" % (op, n))
        def g(c, op=op):
            a, va = tup(c, "a", t, N); b, vb = tup(c, "b", t, N); r, _ = tup(c, "r", t, N); c.modifies(r)
            for x, y in zip(va, vb): defined(c, op, t, x, y)
            c.run(a, b, r, post=lambda q: is_(c, "element", r, t, [P(op, t, x, y) for x, y in zip(va, vb)]))
    for f in ("assign", "iassign"):
        @con("s_%s_%s" % (f, n))
        def g(c):
            a, va = tup(c, "a", t, N); r, _ = tup(c, "r", t, N); c.modifies(r); c.run(a, r, post=lambda q: is_(c, "element", r, t, va))
for n, t, N in (("u3", U(32), 3), ("s5", S_(16), 5), ("b3", U(8), 3), ("q3", U(64), 3), ("s32x4", S_(32), 4), ("u32x4", U(32), 4), ("s16x4", S_(16), 4), ("u16x4", U(16), 4),
                ("s32x2", S_(32), 2), ("u32x2", U(32), 2), ("s16x2", S_(16), 2), ("s8x8", S_(8), 8), ("u8x8", U(8), 8), ("f4", F(32), 4), ("f2", F(32), 2), ("f3", F(32), 3), ("d2", F(64), 2)): simd(n, t, N)
# ---- iterator adaptors
from contracts.c06 import V as Vec, elem, done, LIM
from contracts.blk import ins, ite3
GI = "iter"
def it(name, **kw): return contract(P_, name, GI, name, **kw)
def place(c, r, A, j, what="designates element"): c.ensure(what, eq(r.idx(A), j))
def adaptor(x, s):
    """s = +1: steps with its base; -1: against it"""
    off = -1 if s < 0 else 0            # the element designated, relative to the base position
    def pos(c, A, lo, hi, name="p"):
        p = c.size(name, hi=LIM); c.require(And(p >= lo, p <= hi)); return p
    def arr(c): A = c.arr("A"); c.require(A.n <= LIM); return A
    for f in ("deref", "arrow"):
        @it("%s_%s" % (x, f))
        def g(c):
            A = arr(c); p = pos(c, A, 1, A.n) if s < 0 else pos(c, A, 0, A.n - 1)
            c.run(A.at(p), post=lambda r: place(c, r, A, p + off))
    @it(x + "_index")
    def g(c):
        A = arr(c); p = pos(c, A, 0, A.n); n = c.size("n", hi=LIM); e = p + s * n + off; c.require(And(e >= 0, e < A.n))
        c.run(A.at(p), n, post=lambda r: place(c, r, A, e))
    for f in ("base", "copy") + (("make",) if x != "rc" else ()):
        @it("%s_%s" % (x, f))
        def g(c): A = arr(c); p = pos(c, A, 0, A.n); c.run(A.at(p), post=lambda r: place(c, r, A, p, "the base"))
    for f, d in (("inc", 1), ("dec", -1)):
        @it("%s_%s" % (x, f))
        def g(c, d=d):
            A = arr(c); p = pos(c, A, 0, A.n); e = p + s * d; c.require(And(e >= 0, e <= A.n)); c.run(A.at(p), post=lambda r: place(c, r, A, e, "steps by one and returns itself"))
        @it("%s_p%s" % (x, f))
        def g(c, d=d):
            A = arr(c); p = pos(c, A, 0, A.n); e = p + s * d; c.require(And(e >= 0, e <= A.n)); o = c.obj("o", 8); c.modifies(o)
            def post(r):
                q = c.ptr(o, 0)
                place(c, r, A, e, "steps by one"); c.ensure("returns the previous position", And(q.r is A.r, eq(q.i, p)) if c.sym else q == A.at(p))
            c.run(A.at(p), o, post=post)
    for f, d in (("addeq", 1), ("subeq", -1), ("add", 1), ("sub", -1)):
        @it("%s_%s" % (x, f))
        def g(c, d=d):
            A = arr(c); p = pos(c, A, 0, A.n); n = c.size("n", hi=LIM); e = p + s * d * n; c.require(And(e >= 0, e <= A.n)); c.run(A.at(p), n, post=lambda r: place(c, r, A, e, "steps by n"))
    @it(x + "_diff")
    def g(c):
        A = arr(c); p, q = pos(c, A, 0, A.n), pos(c, A, 0, A.n, "q"); c.run(A.at(p), A.at(q), post=lambda r: c.ensure("steps from the second to the first", eq(r.s, s * (p - q))))
    for f, rel in (("eq", lambda p, q: eq(p, q)), ("ne", lambda p, q: Not(eq(p, q))), ("lt", lambda p, q: p < q if s > 0 else q < p)):
        @it("%s_%s" % (x, f))
        def g(c, rel=rel):
            A = arr(c); p, q = pos(c, A, 0, A.n), pos(c, A, 0, A.n, "q"); c.run(A.at(p), A.at(q), post=lambda r: c.ensure("relation of the positions", Iff(r.n, rel(p, q))))
adaptor("rk", -1); adaptor("rc", -1); adaptor("mv", 1)

def ixs(c):
    A = c.arr("A"); X_ = c.arr("X", T=U32); c.require(And(A.n <= LIM, X_.n <= LIM)); return A, X_
def valid(c, A, X_): c.require(forall(0, X_.n, lambda j: And(X_[j] >= 0, X_[j] <= A.n)))
def ipos(c, X_, hi, name="p"): p = c.size(name, hi=LIM); c.require(p <= hi); return p
@it("ix_deref")
def g(c):
    A, X_ = ixs(c); p = ipos(c, X_, X_.n - 1); c.require(X_[p] <= A.n); c.run(A.b, X_.at(p), post=lambda r: place(c, r, A, X_.old(p), "base offset by the index"))
for f in ("index", "addderef"):
    @it("ix_" + f)
    def g(c):
        A, X_ = ixs(c); p = ipos(c, X_, X_.n); n = c.size("n", hi=LIM); c.require(p + n < X_.n); c.require(X_[p + n] <= A.n)
        c.run(A.b, X_.at(p), n, post=lambda r: place(c, r, A, X_.old(p + n), "base offset by the index"))
@it("ix_base")
def g(c): A, X_ = ixs(c); p = ipos(c, X_, X_.n); c.run(A.b, X_.at(p), post=lambda r: place(c, r, X_, p))
for f, d in (("inc", 1), ("dec", -1)):
    @it("ix_" + f)
    def g(c, d=d):
        A, X_ = ixs(c); p = ipos(c, X_, X_.n); e = p + d; c.require(And(e >= 0, e <= X_.n)); c.run(A.b, X_.at(p), post=lambda r: place(c, r, X_, e, "steps by one and returns itself"))
    @it("ix_p" + f)
    def g(c, d=d):
        A, X_ = ixs(c); p = ipos(c, X_, X_.n); e = p + d; c.require(And(e >= 0, e <= X_.n)); o = c.obj("o", 8); c.modifies(o)
        def post(r):
            q = c.ptr(o, 0)
            place(c, r, X_, e, "steps by one"); c.ensure("returns the previous position", And(q.r is X_.r, eq(q.i, p)) if c.sym else q == X_.at(p))
        c.run(A.b, X_.at(p), o, post=post)
for f, d in (("addeq", 1), ("subeq", -1), ("add", 1), ("sub", -1)):
    @it("ix_" + f)
    def g(c, d=d):
        A, X_ = ixs(c); p = ipos(c, X_, X_.n); n = c.size("n", hi=LIM); e = p + d * n; c.require(And(e >= 0, e <= X_.n)); c.run(A.b, X_.at(p), n, post=lambda r: place(c, r, X_, e, "steps by n"))
@it("ix_diff")
def g(c):
    A, X_ = ixs(c); p, q = ipos(c, X_, X_.n), ipos(c, X_, X_.n, "q"); c.run(A.b, X_.at(p), X_.at(q), post=lambda r: c.ensure("steps from the second to the first", eq(r.s, p - q)))
for f, rel in (("eq", lambda p, q: eq(p, q)), ("ne", lambda p, q: Not(eq(p, q))), ("lt", lambda p, q: p < q)):
    @it("ix_" + f)
    def g(c, rel=rel):
        A, X_ = ixs(c); p, q = ipos(c, X_, X_.n), ipos(c, X_, X_.n, "q"); c.run(A.b, X_.at(p), X_.at(q), post=lambda r: c.ensure("relation of the positions", Iff(r.n, rel(p, q))))
# ---- free functions
for f in ("advance", "advance_ptr", "advance_void", "advance_cvoid"):
    @it("fr_" + f)
    def g(c, f=f):
        A = c.arr("A", T=U8 if "void" in f else K); c.require(A.n <= LIM); p = ipos(c, A, A.n); n = c.snum("n", 64); c.require(And(n >= -p, n <= A.n - p))
        c.run(A.at(p), n, post=lambda r: place(c, r, A, p + n, "moved by n"))
for f in ("distance", "distance_vv", "distance_cv", "distance_vc", "distance_cc", "abs"):
    @it("fr_" + f)
    def g(c, f=f):
        A = c.arr("A", T=U8 if "_" in f else K); c.require(A.n <= LIM); p, q = ipos(c, A, A.n), ipos(c, A, A.n, "q")
        c.run(A.at(p), A.at(q), post=lambda r: c.ensure("distance", eq(r.n, pick(p <= q, q - p, p - q)) if f == "abs" else eq(r.s, q - p)))
for f, end in (("rbegin", 1), ("rend", 0), ("crbegin", 1), ("crend", 0), ("begin", 0), ("end", 1), ("cbegin", 0), ("cend", 1), ("frbegin", 1), ("frend", 0), ("fcrbegin", 1), ("fcrend", 0), ("data", 0)):
    @it("ct_" + f)
    def g(c, end=end):
        m = Vec(c, "k", const=True)
        c.run(m.o, post=lambda r: place(c, r, m.A, m.n if end else 0, "position in the container") if m.A is not None else c.ensure("null for an empty container", c.isnull(r.v) if c.sym else r.v == 0))
@it("ct_size")
def g(c): m = Vec(c, "k", const=True); c.run(m.o, post=lambda r: c.ensure("number of elements", eq(r.n, m.n)))
@it("ct_empty")
def g(c): m = Vec(c, "k", const=True); c.run(m.o, post=lambda r: c.ensure("no elements", Iff(r.n, eq(m.n, 0))))
for f, j in (("begin", 0), ("end", 5), ("vend", 5), ("data", 0)):
    @it("ar_" + f)
    def g(c, j=j): A = c.arr("A", 5); c.run(A.b, post=lambda r: place(c, r, A, j, "position in the array"))
@it("ar_size")
def g(c): A = c.arr("A", 5); c.run(A.b, post=lambda r: c.ensure("number of elements", eq(r.n, 5)))
for f in ("ii", "cc"):
    @it("ib_" + f)
    def g(c):
        a, b = Vec(c, "k", "a", kinds=("owned",), const=True), Vec(c, "k", "b", kinds=("owned",), const=True); c.require(eq(a.n, b.n)); i = c.size("i", hi=LIM); c.require(i <= a.n)
        c.run(a.o, b.o, i, post=lambda r: place(c, r, b.A, i, "the corresponding element"))
@it("ct_unconst")
def g(c): a = Vec(c, "k", "a", kinds=("owned",), const=True); i = c.size("i", hi=LIM); c.require(i <= a.n); c.run(a.o, i, post=lambda r: place(c, r, a.A, i, "the same element"))
# ---- inserters
def two(x, y): return lambda j: ite3(eq(j, 0), lambda: x, lambda: y)
@it("in_back")
def g(c):
    m = Vec(c, "k"); x = elem(c, "k"); c.run(m.o, x.p, post=lambda r: done(c, m, m.n + 1, ins(m.old, m.n, 1, lambda j: x.old(0))))
@it("in_back2")
def g(c):
    m = Vec(c, "k", kinds=("owned", "null")); x, y = elem(c, "k", "x"), elem(c, "k", "y"); c.run(m.o, x.p, y.p, post=lambda r: done(c, m, m.n + 2, ins(m.old, m.n, 2, two(x.old(0), y.old(0)))))
@it("in_at")
def g(c):
    m = Vec(c, "k"); x = elem(c, "k"); i = c.size("i", hi=LIM); c.require(i <= m.n)
    c.run(m.o, i, x.p, post=lambda r: done(c, m, m.n + 1, ins(m.old, i, 1, lambda j: x.old(0))))
for f in ("in_at2", "in_at2p"):
    @it(f)
    def g(c):
        m = Vec(c, "k", kinds=("owned", "null")); x, y = elem(c, "k", "x"), elem(c, "k", "y"); i = c.size("i", hi=LIM); c.require(i <= m.n)
        c.run(m.o, i, x.p, y.p, post=lambda r: done(c, m, m.n + 2, ins(m.old, i, 2, two(x.old(0), y.old(0)))))
@it("in_front")
def g(c):
    m = Vec(c, "k"); x = elem(c, "k"); c.run(m.o, x.p, post=lambda r: done(c, m, m.n + 1, ins(m.old, 0, 1, lambda j: x.old(0))))
@it("in_front2")
def g(c):
    m = Vec(c, "k", kinds=("owned", "null")); x, y = elem(c, "k", "x"), elem(c, "k", "y"); c.run(m.o, x.p, y.p, post=lambda r: done(c, m, m.n + 2, ins(m.old, 0, 2, two(y.old(0), x.old(0)))))
# ---- adaptors driving an algorithm
def source(c): A = c.arr("A"); c.require(A.n <= LIM); return A
@it("al_rcopy")
def g(c):
    A = source(c); R = c.arr("R", n=A.n); c.modifies(R)
    c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, eq(R[j], A.old(A.n - 1 - j)))), [R], "copied so far")
    c.run(A.b, A.e, R.b, post=lambda r: (c.ensure("reversed copy", forall(0, A.n, lambda j: eq(R[j], A.old(A.n - 1 - j)))), c.ensure("end of the output", eq(r.idx(R), A.n))))
@it("al_wcopy")
def g(c):
    A = source(c); R = c.arr("R", n=A.n); c.modifies(R)
    c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, eq(R[A.n - 1 - j], A.old(j)))), [A], "copied so far")
    c.run(A.b, A.e, R.e, post=lambda r: (c.ensure("reversed copy", forall(0, A.n, lambda j: eq(R[A.n - 1 - j], A.old(j)))), c.ensure("start of the output", eq(r.idx(R), 0))))
@it("al_rfind")
def g(c):
    A = source(c); v = c.elem("v")
    c.inv(lambda x: forall(x, A.n, lambda j: Or(j < 0, Not(keq(A[j], v.old(0))))), [A], "not found so far")
    def post(r):
        j = r.idx(A)
        c.ensure("last position found, or the start", Or(eq(j, 0), And(j > 0, keq(A.old(j - 1), v.old(0)))))
        c.ensure("none after it", forall(j, A.n, lambda k: Not(keq(A.old(k), v.old(0)))))
    c.run(A.b, A.e, v.p, post=post)
@it("al_mcopy")
def g(c):
    A = source(c); R = c.arr("R", n=A.n); c.modifies(R)
    c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, eq(R[j], A.old(j)))), [R], "copied so far")
    c.run(A.b, A.e, R.b, post=lambda r: (c.ensure("copy", forall(0, A.n, lambda j: eq(R[j], A.old(j)))), c.ensure("end of the output", eq(r.idx(R), A.n))))
