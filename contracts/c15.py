"""C15 bitset: bit k of the set is bit k%32 of word k/32.  Sizes are concrete (one and several words, full and partial last
word); contents, positions and values are arbitrary.  The spare bits of a partial last word are claimed only where no
operation that fills whole words set them (they are part of the capacity)."""
from vf.spec import *
from contracts.c18 import M, ult, zx
from vf.lib import popc
from contracts.blk import VT, fresh_obj
P_, G = "C15", "bits"
SIZES = [1, 30, 32, 33, 63, 64, 70, 85, 128]
nw = lambda N: (N + 31) // 32
def bs(c, name, N, spare=True, mod=False):
    """a bitset of size N with any content; spare=False: the spare bits are clear"""
    ws = [c.num("%s%d" % (name, i), 32) for i in range(nw(N))]
    if not spare and N % 32:
        if c.sym: c.require(eq(ws[-1] & (M(32) ^ M(N % 32)), 0))
        else: ws[-1] &= M(N % 32); c.inputs["%s%d" % (name, nw(N) - 1)] = ws[-1]
    o = c.obj(name, 4 * nw(N), [(4 * i, 4, w) for i, w in enumerate(ws)])
    if mod: c.modifies(o)
    return o, ws
def bit(ws, k): return bitof(ws[k // 32], k % 32)
def bitof(w, k): return eq(z3.Extract(k, k, w), 1) if isz(w) else bool(w >> k & 1)
def words(c, o, N): return [c.fld(o, 4 * i, 4) for i in range(nw(N))]
def is_(c, o, N, f, what="bit", spare=None):
    """bits of the set; spare: what the spare ones must be"""
    w = words(c, o, N)
    for i in range(nw(N)):
        ks = [k for k in range(32 * i, min(N, 32 * i + 32))]
        c.ensure("%s: word %d" % (what, i), And(*[Iff(bit(w, k), f(k)) for k in ks]))
    if spare is not None and N % 32: c.ensure("spare bits", And(*[Iff(bit(w, k), spare(k)) for k in range(N, 32 * nw(N))]))
def con(name, N, **kw): return contract(P_, "%s_%d" % (name, N), G, "%s_%d" % (name, N), mode="bv", unroll=40, **kw)
def pos(c, N, name="n"):
    n = c.num(name, 64) if c.sym else c.rng.randrange(N)
    if c.sym: c.require(ult(n, N, 64))
    else: c.inputs[name] = n
    return n
def self_(c, r, o): c.ensure("returns the object itself", (r.v.r is o.r) if c.sym else r.v == o.addr)
def family(N):
    W = nw(N)
    @con("b_ctor", N)
    def g(c):
        o = fresh_obj(c, "m", 4 * W); v = c.num("v", 32)
        c.run(o, v, post=lambda r: is_(c, o, N, lambda k: bitof(v, k) if k < 32 else False, "bits of the integer, then clear", lambda k: bitof(v, k) if k < 32 else False))
    @con("b_ctor0", N)
    def g(c): o = fresh_obj(c, "m", 4 * W); c.run(o, post=lambda r: is_(c, o, N, lambda k: False, "clear", lambda k: False))
    @con("b_copy", N)
    def g(c): o = fresh_obj(c, "m", 4 * W); v, vs = bs(c, "v", N); c.run(o, v, post=lambda r: is_(c, o, N, lambda k: bit(vs, k), "same", lambda k: bit(vs, k)))
    @con("b_assign", N)
    def g(c): o, _ = bs(c, "m", N, mod=True); v, vs = bs(c, "v", N); c.run(o, v, post=lambda r: is_(c, o, N, lambda k: bit(vs, k), "same", lambda k: bit(vs, k)))
    def one(name, f, val=False):
        @con(name, N)
        def g(c):
            m, ms = bs(c, "m", N, mod=True); n = pos(c, N); args = [m, n]; v = None
            if val: v = c.case("v", [0, 1]); args.append(v)
            c.run(*args, post=lambda r: is_(c, m, N, lambda k: Or(And(eq(n, k), f(bit(ms, k), v)), And(Not(eq(n, k)), bit(ms, k))), "only the named bit changes", lambda k: bit(ms, k)))
    one("b_flip1", lambda b, v: Not(b)); one("b_set1", lambda b, v: True); one("b_reset1", lambda b, v: False); one("b_setv", lambda b, v: eq(v, 1), True)
    for name in ("b_test", "b_idx", "b_at"):
        @con(name, N)
        def g(c, name=name):
            m, ms = bs(c, "m", N); n = pos(c, N)
            def post(r):
                v = r.n; t = v if isinstance(v, (bool, z3.BoolRef)) else Not(eq(v, 0))
                for i in range(W):
                    c.ensure("the named bit, word %d" % i, And(*[Imp(eq(n, k), Iff(t, bit(ms, k))) for k in range(32 * i, min(N, 32 * i + 32))]))
                if name == "b_at": c.ensure("0 or 1", ult(v, 2, 32))
            c.run(m, n, post=post)
    def rng(c):
        """[f,l) inside one word, as documented"""
        f = c.case("first", sorted({x for x in (0, 1, 13, 30, 31, N - 2, N - 1, 32, 45, 63, 64) if 0 <= x < N}))
        l = c.case("last", list(range(32)))
        l += f // 32 * 32
        if l <= f or l > N: l = None
        return f, l
    @con("b_setr", N)
    def g(c):
        m, ms = bs(c, "m", N, mod=True); f, l = rng(c)
        if l is None: f, l = 0, 1
        v = c.num("v", 32)
        if c.sym: c.require(eq(v & (M(32) ^ M(l - f)), 0))
        else: v &= M(l - f); c.inputs["v"] = v
        c.run(m, f, l, v, post=lambda r: is_(c, m, N, lambda k: bitof(v, k - f) if f <= k < l else bit(ms, k), "exactly the range takes the value", lambda k: bit(ms, k)))
    @con("b_atr", N)
    def g(c):
        m, ms = bs(c, "m", N); f, l = rng(c)
        if l is None: f, l = 0, 1
        if N == 1: return c.run(m, 0, 1, post=lambda r: c.ensure("value of the bit", Iff(eq(r.n, 1), bit(ms, 0))))
        c.run(m, f, l, post=lambda r: c.ensure("value of the range", And(*[Iff(bitof(r.n, k), bit(ms, f + k) if k < l - f else False) for k in range(32)])))
    def whole(name, f):
        @con(name, N)
        def g(c): m, ms = bs(c, "m", N, mod=True); c.run(m, post=lambda r: is_(c, m, N, lambda k: f(bit(ms, k)), "every bit"))
    whole("b_reset", lambda b: False); whole("b_clear", lambda b: False); whole("b_set", lambda b: True); whole("b_flip", lambda b: Not(b))
    @con("b_not", N)
    def g(c): o, _ = bs(c, "m", N, mod=True); a, va = bs(c, "a", N); c.run(o, a, post=lambda r: is_(c, o, N, lambda k: Not(bit(va, k)), "every bit"))
    def both(name, f):
        @con("b_" + name, N)
        def g(c):
            o, _ = bs(c, "m", N, mod=True); a, va = bs(c, "a", N); b, vb = bs(c, "b", N)
            c.run(o, a, b, post=lambda r: is_(c, o, N, lambda k: f(bit(va, k), bit(vb, k)), "every bit"))
        @con("b_%seq" % name, N)
        def g(c):
            a, va = bs(c, "a", N, mod=True); b, vb = bs(c, "b", N)
            c.run(a, b, post=lambda r: (is_(c, a, N, lambda k: f(bit(va, k), bit(vb, k)), "every bit"), self_(c, r, a)))
    both("and", lambda x, y: And(x, y)); both("or", lambda x, y: Or(x, y)); both("xor", lambda x, y: Not(Iff(x, y)))
    @con("b_value", N)
    def g(c): m, ms = bs(c, "m", N); c.run(m, post=lambda r: c.ensure("the first word", And(*[Iff(bitof(r.n, k), bit(ms, k)) for k in range(min(N, 32))])))
    @con("b_size", N)
    def g(c): m, ms = bs(c, "m", N); c.run(m, post=lambda r: c.ensure("size", eq(r.n, N)))
    for name, t in (("b_any", True), ("b_none", False)):
        @con(name, N)
        def g(c, t=t):
            m, ms = bs(c, "m", N, spare=False)
            if not c.sym and c.rng.random() < 0.5: pass
            c.run(m, post=lambda r: c.ensure("some bit is set" if t else "no bit is set", Iff(r.n, Or(*[bit(ms, k) for k in range(N)]) if t else Not(Or(*[bit(ms, k) for k in range(N)])))))
    @con("b_count", N)
    def g(c):
        m, ms = bs(c, "m", N, spare=False)
        def pc(w):
            if not isz(w): return bin(w).count("1")
            t, d = popc(w); c.require(d); return z3.ZeroExt(32, t)
        n = sum((pc(w) for w in ms[1:]), pc(ms[0]))
        def post(r): c.ensure("number of set bits", eq(r.n, n))
        c.run(m, post=post)
    for name in ("b_eq", "b_ne"):
        @con(name, N)
        def g(c, name=name):
            a, va = bs(c, "a", N, spare=False); b, vb = bs(c, "b", N, spare=False)
            s = And(*[Iff(bit(va, k), bit(vb, k)) for k in range(N)])
            c.run(a, b, post=lambda r: c.ensure("same bits", Iff(r.n, s if name == "b_eq" else Not(s))))
    @con("b_swap", N)
    def g(c):
        a, va = bs(c, "a", N, mod=True); b, vb = bs(c, "b", N, mod=True)
        c.run(a, b, post=lambda r: (is_(c, a, N, lambda k: bit(vb, k), "first takes", lambda k: bit(vb, k)), is_(c, b, N, lambda k: bit(va, k), "second takes", lambda k: bit(va, k))))
for N in SIZES: family(N)

# ---- strings: the last character is bit 0
import ctypes
from vf.ir import IntTy
def byte(c, p, k):
    if c.sym: return c.ex.D.u(c.cur, c.ex.load(c.cur, c.ex.padd(c.cur, p, k), IntTy(8)))
    return c.rdmem(p + k, 1)[0]
class Txt:
    """a string of L characters"""
    def __init__(self, c, name, L, mod=False):
        self.ch = [c.num("%s_%d" % (name, k), 8) for k in range(L)] if c.sym else [c.rng.choice((48, 49, 49, 48, 120, 0)) for k in range(L)]
        if not c.sym:
            for k, x in enumerate(self.ch): c.inputs["%s_%d" % (name, k)] = x
        self.A = c.obj(name + "_data", L + 1, [(k, 1, x) for k, x in enumerate(self.ch + [0])])
        self.o = c.obj(name, 32, [(0, 8, c.vtable(VT["str"])), (8, 8, self.A.p), (16, 8, L), (24, 8, 0)])
        if mod: c.modifies(self.o); c.modifies(self.A)
def same_chars(c, label, get, want):
    for i in range(0, len(want), 16): c.ensure("%s %d.." % (label, i), And(*[eq(get(k), want[k]) for k in range(i, min(len(want), i + 16))]))
def char(b): return If_(b, 49, 48)
def If_(b, x, y): return (x if b else y) if isinstance(b, bool) else z3.If(b, z3.BitVecVal(x, 8), z3.BitVecVal(y, 8))
def strings(N):
    @con("b_ctor_s", N)
    def g(c):
        L = c.case("length", sorted({0, 1, max(0, N - 1), N, N + 1, 32 * nw(N), 32 * nw(N) + 3})); s = Txt(c, "s", L); c.merge = True
        m, _ = bs(c, "m", N, mod=True); f = lambda k: k < L and Not(eq(s.ch[L - 1 - k], 48))
        c.run(m, s.o, post=lambda r: is_(c, m, N, f, "bits as in the text"))
    @con("b_str", N)
    def g(c):
        m, ms = bs(c, "m", N); s = Txt(c, "s", 0, mod=True)
        def post(r):
            p = c.ptr(s.o, 8); c.ensure("one character per bit", eq(c.fld(s.o, 16), N)); c.owner_ok("text", p, c.fld(s.o, 24), 1)
            if c.isnull(p): return c.ensure("has text", False)
            same_chars(c, "characters", lambda k: byte(c, p, k), [char(bit(ms, N - 1 - k)) for k in range(N)])
            c.ensure("terminated", eq(byte(c, p, N), 0))
        c.run(m, s.o, post=post)
    VTI, VTO = "_ZTVN4ustl7istreamE", "_ZTVN4ustl7ostreamE"
    def stream(c, vt, extra):
        p0 = c.case("position", [0, 4]); n = p0 + 4 * nw(N) + extra; bs_ = [c.num("d%d" % k, 8) for k in range(n)]
        A = c.obj("data", n, [(k, 1, x) for k, x in enumerate(bs_)])
        o = c.obj("stream", 40, [(0, 8, c.vtable(vt)), (8, 8, A.p), (16, 8, n), (24, 2, 0), (26, 2, 0), (32, 8, p0)]); c.modifies(o)
        return o, A, p0, n, bs_
    @con("b_write", N)
    def g(c):
        m, ms = bs(c, "m", N); o, A, p0, n, old = stream(c, VTO, c.case("room", [0, 4])); c.modifies(A)
        def post(r):
            c.ensure("position", eq(c.fld(o, 32), p0 + 4 * nw(N)))
            for k in range(n): 
                w = ms[(k - p0) // 4] if p0 <= k < p0 + 4 * nw(N) else None
                c.ensure("byte %d" % k, eq(c.fld(A, k, 1), old[k] if w is None else z3.Extract(8 * ((k - p0) % 4) + 7, 8 * ((k - p0) % 4), w) if isz(w) else w >> 8 * ((k - p0) % 4) & 255))
        c.run(m, o, post=post)
    @con("b_read", N)
    def g(c):
        m, _ = bs(c, "m", N, mod=True); o, A, p0, n, old = stream(c, VTI, c.case("room", [0, 4]))
        def post(r):
            c.ensure("position", eq(c.fld(o, 32), p0 + 4 * nw(N)))
            is_(c, m, N, lambda k: bitof(old[p0 + k // 8], k % 8), "bits read", lambda k: bitof(old[p0 + k // 8], k % 8))
        c.run(m, o, post=post)
for N in SIZES: strings(N)
def conv(name): return contract(P_, name, G, name, mode="bv", unroll=70)
def wvec(c, n, mod=False):
    ws = [c.num("w%d" % i, 32) for i in range(n)]; o = c.obj("w", 4 * max(n, 1), [(4 * i, 4, x) for i, x in enumerate(ws)])
    if mod: c.modifies(o)
    return o, ws
@conv("b_to_bits")
def g(c):
    n = c.case("words", [0, 1, 2, 3]); L = c.case("length", [0, 1, 5, 31, 32, 33, 63, 67, 97]); o, ws = wvec(c, n); s = Txt(c, "s", L, mod=True)
    def post(r):
        p = c.ptr(s.o, 8); c.ensure("length", eq(c.fld(s.o, 16), L))
        same_chars(c, "characters", lambda k: byte(c, p, k), [char(bit(ws, L - 1 - k)) if L - 1 - k < 32 * n else s.ch[k] for k in range(L)]); c.ensure("terminated", eq(byte(c, p, L), 0))
    c.run(o, n, s.o, post=post)
@conv("b_from_bits")
def g(c):
    n = c.case("words", [0, 1, 2, 3]); L = c.case("length", [0, 1, 5, 31, 32, 33, 63, 67, 97]); s = Txt(c, "s", L); c.merge = True; o, ws = wvec(c, n, True)
    f = lambda k: k < L and Not(eq(s.ch[L - 1 - k], 48))
    def post(r):
        w = [c.fld(o, 4 * i, 4) for i in range(n)]
        for i in range(n): c.ensure("word %d" % i, And(*[Iff(bit(w, k), f(k)) for k in range(32 * i, 32 * i + 32)]))
    c.run(s.o, o, n, post=post)
