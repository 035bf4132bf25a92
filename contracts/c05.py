"""C05 UTF-8 encoding and decoding"""
from vf.spec import *
from contracts.blk import *
from contracts.c03 import Str, txt, LIM
P_, G = "C05", "utf8"
def ut(name, func=None, **kw): return contract(P_, func or name, G, name, **kw)
LIMS = [1 << 7, 1 << 11, 1 << 16, 1 << 21, 1 << 26, 1 << 31, 1 << 32]     # exclusive upper bounds of the encoded lengths 1..7
HDR = [0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE]
def ulen(v):
    """bytes needed to encode v"""
    if not isz(v): return next(i for i, l in enumerate(LIMS) if v < l) + 1
    r = z3.IntVal(7)
    for i in range(5, -1, -1): r = z3.If(v < LIMS[i], z3.IntVal(i + 1), r)
    return r
def width(c, name="len"): return c.case(name, [1, 2, 3, 4, 5, 6, 7])
class cp:
    """an arbitrary code point with an L-byte encoding, given by its 6-bit digits; .enc(j) is byte j of the encoding"""
    def __init__(self, c, L, name="v"):
        self.L = L
        if L == 1: self.d = [c.num(name, 8, hi=127)]; self.v = self.d[0]; return
        top = 3 if L == 7 else (1 << (7 - L)) - 1       # U-FFFFFFFF is the largest
        if L == 7: self.d = [0, c.num(name + "_1", 8, lo=2, hi=3)]
        else: self.d = [c.num(name + "_0", 8, hi=top)]
        while len(self.d) < L: self.d.append(c.num("%s_%d" % (name, len(self.d)), 8, hi=63))
        v = 0
        for x in self.d: v = v * 64 + x
        self.v = v
        c.require(And(LIMS[L - 2] <= v, v < LIMS[L - 1]))
    def enc(self, j): return self.d[0] if self.L == 1 else HDR[self.L] + self.d[0] if j == 0 else 0x80 + self.d[j]

@ut("u8_bytes")
def g(c):
    L = width(c); v = cp(c, L)
    c.run(v.v, post=lambda r: c.ensure("number of bytes", eq(r.n, L)))
@ut("u8_seq")
def g(c):
    L = width(c)
    b = c.num("b", 32, lo=HDR[L], hi=0x7F if L == 1 else HDR[L] + (1 << (7 - L)) - 1)
    c.peel = 8
    c.run(b, post=lambda r: c.ensure("bytes of the sequence", eq(r.n, L)))
@ut("u8_seq_ch")
def g(c):
    L = width(c)
    b = c.num("b", 8, lo=HDR[L], hi=0x7F if L == 1 else HDR[L] + (1 << (7 - L)) - 1)
    c.peel = 8
    c.run(b, post=lambda r: c.ensure("bytes of the sequence", eq(r.n, L)))
@ut("u8_seq_cont", "u8_seq")
def g(c):
    b = c.num("b", 32, lo=0x80, hi=0xBF); c.peel = 8
    c.run(b, post=lambda r: c.ensure("a stray continuation byte is one byte", eq(r.n, 1)))
def put(name):
    @ut(name)
    def g(c):
        L = width(c); v = cp(c, L)
        A = c.arr("buf", T=U8); c.require(A.n >= L); c.modifies(A)
        def post(r):
            c.ensure("bytes written", eq(r.idx(A), L))
            for j in range(L): c.ensure("byte %d" % j, eq(A[j], v.enc(j)))
            c.ensure("nothing beyond is written", forall(L, A.n, lambda j: eq(A[j], A.old(j))))
        c.run(A, v.v, post=post)
for n in ("u8_put", "u8_put_post", "u8_put_u"): put(n)
@ut("u8_put2")
def g(c):
    L, M = width(c), width(c, "len2"); v, w = cp(c, L), cp(c, M, "w")
    A = c.arr("buf", T=U8); c.require(A.n >= L + M); c.modifies(A)
    def post(r):
        c.ensure("bytes written", eq(r.idx(A), L + M))
        for j in range(L): c.ensure("byte %d" % j, eq(A[j], v.enc(j)))
        for j in range(M): c.ensure("second, byte %d" % j, eq(A[L + j], w.enc(j)))
    c.run(A, v.v, w.v, post=post)
def chars(c, A, at, v, L, n=None):
    """the L bytes from `at` on are the encoding of v"""
    for j in range(L): A.set(at + j, v.enc(j))
def get(name, kind="value"):
    @ut(name)
    def g(c):
        L = width(c); v = cp(c, L); c.peel = 8
        A = c.arr("text", T=U8); c.require(A.n >= L); chars(c, A, 0, v, L)
        if kind == "value": c.run(A, post=lambda r: c.ensure("decodes to the code point", eq(r.n, v.v)))
        else: c.run(A, post=lambda r: c.ensure("base is the first byte of the character", eq(r.idx(A), 0)))
for n in ("u8_get", "u8_get_f", "u8_get_u", "u8_get_copy"): get(n)
get("u8_base", "base")
def pos(c, v):          # code points inside a longer text: not the terminator
    c.require(v.v >= 1); return v
@ut("u8_round")
def g(c):
    L = width(c); v = pos(c, cp(c, L)) if L > 1 else cp(c, L); c.peel = 8
    A = c.arr("buf", T=U8); c.require(A.n >= L); c.modifies(A)
    def post(r):
        c.ensure("decoding the encoded bytes yields the code point", eq(r.n, v.v))
        c.ensure("nothing beyond is written", forall(L, A.n, lambda j: eq(A[j], A.old(j))))
    c.run(A, v.v, post=post)
def nxt(name, kind):
    @ut(name)
    def g(c):
        L, M = width(c), width(c, "len2"); v, w = pos(c, cp(c, L)), cp(c, M, "w"); c.peel = 8
        A = c.arr("text", T=U8); c.require(A.n >= L + M); chars(c, A, 0, v, L); chars(c, A, L, w, M)
        if kind == "value": c.run(A, post=lambda r: c.ensure("the next character", eq(r.n, w.v)))
        elif kind == "base": c.run(A, post=lambda r: c.ensure("advances by one whole character", eq(r.idx(A), L)))
        else:
            o = c.obj("out", 8); c.modifies(o)
            def post(r):
                c.ensure("returns the character before", eq(r.n, v.v))
                c.ensure("advances by one whole character", eq(c.index(c.ptr(o, 0), A), L))
            c.run(A, o.p, post=post)
nxt("u8_next", "value"); nxt("u8_nextasg", "value"); nxt("u8_next_base", "base"); nxt("u8_nextp", "post")

# ---- texts of any length
def lead(b):
    if not isz(b): return next(k for k, l in enumerate((0x80, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE, 1 << 32)) if b < l) + 1
    r = z3.IntVal(7)
    r = z3.IntVal(4)        # texts contain sequences of 1..4 bytes
    for k, l in reversed(list(enumerate((0x80, 0xE0, 0xF0)))): r = z3.If(b < l, z3.IntVal(k + 1), r)
    return r
def digits(get, p, L):
    """value of an L-byte sequence at p"""
    if L == 1: return get(p)
    v = get(p) - HDR[L]
    for j in range(1, L): v = v * 64 + (get(p + j) - 0x80)
    return v
def valat(get, p):
    b = get(p)
    if not isz(b) and not isz(p): return digits(get, p, lead(b))
    r = digits(get, p, 4)
    for L in range(3, 0, -1): r = z3.If(lead(b) == L, digits(get, p, L), r)
    return r
def wellformed(get, p, top=1 << 32, nul=False):
    """a shortest-form sequence begins at p"""
    b = get(p)
    cs = [And(b <= 0xF7, Or(b < 0x80, b >= 0xC2))] + ([] if nul else [b >= 1])
    for L in range(2, 5): cs.append(Imp(eq(lead(b), L), And(*[And(0x80 <= get(p + j), get(p + j) <= 0xBF) for j in range(1, L)], LIMS[L - 2] <= digits(get, p, L), digits(get, p, L) < LIMS[L - 1])))
    return And(*cs)
def rndcp(r):
    L = r.choice([1, 1, 2, 2, 3, 3, 4])
    return r.randint(LIMS[L - 2] if L > 1 else 1, LIMS[L - 1] - 1)
def encode(v):
    L = ulen(v)
    return [v] if L == 1 else [HDR[L] + (v >> 6 * (L - 1))] + [0x80 + ((v >> 6 * (L - 1 - j)) & 63) for j in range(1, L)]
def shape(get, p):
    """the bytes from p on have the form of a sequence"""
    b = get(p)
    return And(1 <= b, b <= 0xF7, Or(b < 0x80, b >= 0xC2), *[Imp(lead(b) > j, And(0x80 <= get(p + j), get(p + j) <= 0xBF)) for j in range(1, 4)])
class Text:
    """a well-formed text A of n bytes and nc characters, terminated; S(i) is where character i begins"""
    def __init__(self, c, mk=None):
        self.c = c
        if c.sym:
            self.nc = c.size("nc"); self.n = c.size("bytes", hi=LIM)
            self.A = A = mk(self.n) if mk else c.cstr("text", self.n)
            S = z3.Function(fresh_name("start"), z3.IntSort(), z3.IntSort()); self.S = lambda i: S(i if isz(i) else z3.IntVal(i))
            c.require(self.S(0) == 0)
            c.require(eq(self.S(self.nc), self.n))
            j = z3.Int(fresh_name("tj"))
            s = self.S(j)
            c.require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= self.nc + 1), z3.And(0 <= s, s <= self.n + 1, z3.Implies(j <= self.nc, s <= self.n), z3.Implies(j < self.nc, s < self.n))), patterns=[s]))
            c.require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= self.nc), self.S(j + 1) == s + lead(A.old(s))), patterns=[A.old(s)]))
            c.require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.nc), zb(wellformed(A.old, s))), patterns=[A.old(s)]))
            c.require(self.next_ok(0, 0))
        else:
            self.W = [rndcp(c.rng) for _ in range(c.size("nc"))]; self.nc = len(self.W)
            bs = [b for v in self.W for b in encode(v)]; self.n = len(bs)
            if mk: self.A = mk(self.n)
            else: self.A = c.arr("text", self.n + 1, T=U8)
            for k, b in enumerate(bs + [0]): self.A.set(k, b)
            st = [0]
            for v in self.W: st.append(st[-1] + ulen(v))
            st.append(self.n + 1)
            self.S = lambda i: st[i] if 0 <= i < len(st) else 0
    def next_ok(self, p, i): return And(Imp(i < self.nc, shape(self.A.old, p)), Imp(eq(i, self.nc), eq(self.A.old(p), 0)))
    def val(self, i): return valat(self.A.old, self.S(i))
def peels(c): c.peel = 8; c.peel_wide = 16; c.cuts = True; c.bsr_exact = True; c.inv_timeout = 6000
def it_inv(c, t, up=True):
    c.inv(lambda p, d: eq(p + 1, t.S(d + 1)), [("ref", t.A), "i"], "on the last byte of character d")
    c.inv(lambda p, d: Imp(eq(p + 1, t.S(d + 1)), t.next_ok(p + 1, d + 1)), [("ref", t.A), "i"], "a character follows character d")
    c.inv(lambda d: And(0 <= d, d <= t.nc), ["i"], "character count")
@ut("u8_dist")
def g(c):
    t = Text(c); peels(c); it_inv(c, t)
    c.run(t.A, t.A.at(t.n), post=lambda r: c.ensure("number of characters", eq(r.n, t.nc)))
@ut("u8_count")
def g(c):
    t = Text(c); peels(c); it_inv(c, t)
    c.run(t.A, t.A.at(t.n), post=lambda r: c.ensure("number of characters", eq(r.n, t.nc)))
@ut("u8_count_ne")
def g(c):
    t = Text(c); peels(c); it_inv(c, t)
    c.run(t.A, t.A.at(t.n), post=lambda r: c.ensure("number of characters", eq(r.n, t.nc)))
def rangechars(c, t, o, k):
    """o[0..k) are the code points of the first k characters"""
    if c.sym: return forall(0, k, lambda j: eq(o[j], t.val(j)))
    return all(o[j] == t.W[j] for j in range(k))
@ut("u8_decode")
def g(c):
    t = Text(c); peels(c); O = c.arr("out", T=U32); c.require(O.n >= t.nc); c.modifies(O)
    it_inv(c, t)
    c.inv(lambda p, q: eq(p + 1, t.S(q + 1)), [("ref", t.A), O], "on the last byte of character q")
    c.inv(lambda p, q: Imp(eq(p + 1, t.S(q + 1)), t.next_ok(p + 1, q + 1)), [("ref", t.A), O], "a character follows character q")
    c.inv(lambda q: And(0 <= q, q <= t.nc), [O], "output count")
    c.inv(lambda q, v: Imp(q < t.nc, eq(v, t.val(q))), [O, "i"], "holds character q")
    c.inv(lambda q: rangechars(c, t, O, q), [O], "characters written")
    def post(r):
        c.ensure("number of characters", eq(r.idx(O), t.nc))
        c.ensure("the code points", rangechars(c, t, O, t.nc))
        c.ensure("nothing beyond is written", forall(t.nc, O.n, lambda j: eq(O[j], O.old(j))))
    c.run(t.A, t.A.at(t.n), O, post=post)
def nth(name):
    @ut(name)
    def g(c):
        t = Text(c); peels(c); k = c.size("k", hi=t.nc); o = c.obj("out", 8); c.modifies(o); c.require(k < t.nc)
        c.inv(lambda p, d: eq(p + 1, t.S(k - d + 1)), [("ref", t.A), "i"], "on the last byte of character k-d")
        c.inv(lambda p, d: Imp(eq(p + 1, t.S(k - d + 1)), t.next_ok(p + 1, k - d + 1)), [("ref", t.A), "i"], "a character follows character k-d")
        c.inv(lambda d: And(0 <= d, d <= k), ["i"], "remaining steps")
        c.inv(lambda d, v: eq(v, t.val(k - d)), ["i", "i"], "holds character k-d")
        def post(r):
            c.ensure("the k-th character", eq(r.n, t.val(k)))
            c.ensure("base is where it begins", eq(c.index(c.ptr(o, 0), t.A), t.S(k)))
        c.run(t.A, k, o.p, post=post)
nth("u8_nth"); nth("u8_nth_plus")
class SText(Text):
    def __init__(self, c):
        h = {}
        def mk(n):
            h["b"] = Str(c, "s", kinds=("owned", "linked"), const=True) if c.sym else None
            if c.sym: c.require(eq(h["b"].n, n)); return h["b"].A
            k = c.case("s", ["owned", "linked"]); cap = n + 1 + c.size("spare", hi=8) if k == "owned" else 0
            A = c.arr("s_data", n=cap or n + 1, T=U8, heap=k == "owned")
            h["o"] = c.obj("s", 32, [(0, 8, c.vtable(VT["str"])), (8, 8, A.b), (16, 8, n), (24, 8, cap)])
            return A
        Text.__init__(self, c, mk); self.o = h["b"].o if c.sym else h["o"]
def slen(name):
    @ut(name)
    def g(c):
        t = SText(c); peels(c); it_inv(c, t)
        c.run(t.o, post=lambda r: c.ensure("number of characters", eq(r.n, t.nc)))
slen("u8_length"); slen("u8_range")
@ut("u8_wiat")
def g(c):
    t = SText(c); peels(c); k = c.size("k", hi=t.nc); c.require(k < t.nc)
    c.inv(lambda p, d: eq(p + 1, t.S(k - d + 1)), [("ref", t.A), "i"], "on the last byte of character k-d")
    c.inv(lambda p, d: Imp(eq(p + 1, t.S(k - d + 1)), t.next_ok(p + 1, k - d + 1)), [("ref", t.A), "i"], "a character follows character k-d")
    c.inv(lambda d: And(0 <= d, d <= k), ["i"], "remaining steps")
    c.inv(lambda d, v: eq(v, t.val(k - d)), ["i", "i"], "holds character k-d")
    c.run(t.o, k, post=lambda r: c.ensure("where character k begins", eq(r.idx(t.A), t.S(k))))

# ---- encoding sequences of code points (single code points: all lengths, above; here below 2^21)
class Wide:
    """code points W[0..m) whose encodings begin at S(0), S(1), ... S(m) in the output"""
    def __init__(self, c, zero=True, top=1 << 21):
        self.c = c
        self.W = W = c.arr("wide", T=U32, gen=lambda r, j: rndcp(r)); self.m = W.n
        if c.sym:
            S = z3.Function(fresh_name("start"), z3.IntSort(), z3.IntSort()); self.S = lambda i: S(i if isz(i) else z3.IntVal(i))
            j = z3.Int(fresh_name("tj"))
            c.require(self.S(0) == 0)
            c.require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.m), z3.And(self.S(j + 1) == self.S(j) + ulen(W.old(j)), W.old(j) < top, W.old(j) >= (0 if zero else 1))), patterns=[W.old(j)]))
            c.require(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= self.m), z3.And(0 <= self.S(j), self.S(j) + (self.m - j) <= self.S(self.m))), patterns=[self.S(j)]))
            i = z3.Int(fresh_name("ti"))
            c.require(self.S(self.m) <= 7 * self.m)
            c.require(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= self.m), self.S(i) + ulen(W.old(i)) <= self.S(j)), patterns=[z3.MultiPattern(self.S(i), self.S(j))]))
        else:
            if not all(W[j] < top for j in range(W.n)): raise SpecSkip()
            st = [0]
            for j in range(W.n): st.append(st[-1] + ulen(W[j]))
            self.S = lambda i: st[i] if 0 <= i < len(st) else 0
    @property
    def bytes(self): return self.S(self.m)
    def encoded(self, get, k, at=0, Ls=(1, 2, 3, 4)):
        """the bytes from `at` on encode the first k code points"""
        W = self.W
        if not self.c.sym: return all([get(at + self.S(j) + q) for q in range(ulen(W.old(j)))] == encode(W.old(j)) for j in range(k))
        def one(j):
            v, s = W.old(j), norm(at + self.S(j))
            cs = []
            for L in Ls:
                g = [get(s + q) for q in range(L)]
                f = [g[0] < 0x80] if L == 1 else [HDR[L] <= g[0], g[0] < HDR[L] + (1 << (7 - L))] + [And(0x80 <= x, x <= 0xBF) for x in g[1:]]
                cs.append(Imp(eq(ulen(v), L), And(*f, eq(digits(get, s, L), v))))
            return And(*cs)
        j = z3.Int(fresh_name("ej"))
        return z3.ForAll([j], z3.Implies(zb(And(0 <= j, j < k)), zb(one(j))), patterns=[self.S(j)])
@ut("u8_bytes_range")
def g(c):
    w = Wide(c); peels(c)
    c.inv(lambda p, d: And(0 <= p, p <= w.m, eq(d, w.S(p))), [w.W, "i"], "bytes so far")
    c.run(w.W, w.W.e, post=lambda r: c.ensure("total number of bytes", eq(r.n, w.bytes)))
@ut("u8_encode")
def g(c):
    w = Wide(c); peels(c); O = c.arr("out", T=U8); c.require(O.n >= w.bytes); c.modifies(O)
    c.inv(lambda p, q: And(0 <= p, p <= w.m, eq(q, w.S(p))), [w.W, O], "position")
    c.inv(lambda p: w.encoded(lambda j: O[j], p), [w.W], "encoded so far")
    c.inv(lambda q: forall(q, O.n, lambda j: eq(O[j], O.old(j))), [O], "the rest is untouched")
    def post(r):
        c.ensure("number of bytes", eq(r.idx(O), w.bytes))
        c.ensure("the encoding of each code point", w.encoded(lambda j: O[j], w.m))
        c.ensure("nothing beyond is written", forall(w.bytes, O.n, lambda j: eq(O[j], O.old(j))))
    c.run(w.W, w.W.e, O, post=post)
class Rep:
    """n copies of the encoding of v: byte q (from `at` on) is E(q), copy i begins at S(i) == at + L*i"""
    def __init__(self, c, v, L, n, at=0):
        if not c.sym: self.E = lambda q: v.enc((q - at) % L); self.S = lambda i: at + L * i; return
        E, S = z3.Function(fresh_name("rep"), z3.IntSort(), z3.IntSort()), z3.Function(fresh_name("copy"), z3.IntSort(), z3.IntSort())
        self.E = lambda q: E(zi(q)); self.S = lambda i: S(zi(i))
        i = z3.Int(fresh_name("ri"))
        c.require(z3.ForAll([i], z3.Implies(i >= 0, z3.And(S(i) == at + L * i, *[E(at + L * i + j) == v.enc(j) for j in range(L)])), patterns=[S(i)]))
def fillinv(c, A, R, n):
    c.inv(lambda p, d: eq(p, R.S(n - d)), [A, "i"], "pointer and remaining count")
    c.inv(lambda d: And(0 <= d, d <= n), ["i"], "remaining")
    c.inv(lambda p: forall(0, p, lambda q: eq(A[q], R.E(q))), [A], "copies written")
@ut("u8_fill")
def g(c):
    L = width(c); v = cp(c, L); n = c.size("n", hi=1 << 28)
    A = c.arr("buf", T=U8); c.require(A.n >= L * n); c.modifies(A)
    R = Rep(c, v, L, n); fillinv(c, A, R, n)
    def post(r):
        c.ensure("bytes written", eq(r.idx(A), L * n))
        c.ensure("n copies of the encoding", forall(0, L * n, lambda q: eq(A[q], R.E(q))))
        c.ensure("nothing beyond is written", forall(L * n, A.n, lambda j: eq(A[j], A.old(j))))
    c.run(A, n, v.v, post=post)
def sinserted(c, m, ip, k, get, label="string"):
    p, B = txt(c, m, m.n + k, None, label)
    if B is None: return
    c.ensure("text before it is unchanged", forall(0, ip, lambda j: eq(B[j], m.old(j))))
    c.ensure("text after it is moved", forall(ip, m.n, lambda j: eq(B[j + k], m.old(j))))
    get(B)
def copies(name, at=True, one=False):
    @ut(name)
    def g(c):
        m = Str(c, "m"); L = c.case("len", [1, 2, 3, 4] if at else [1, 2, 3, 4, 5, 6, 7]); v = cp(c, L); n = 1 if one else c.size("n", hi=1 << 24); peels(c)
        c.require(m.n <= 1 << 28)
        ip = c.size("ip", hi=m.n) if at else m.n
        R = Rep(c, v, L, n, ip)
        if not one:
            def inv(pB, d):
                p, B = pB
                return And(0 <= d, d <= n, eq(p, R.S(n - d)))
            def inv2(pB):
                p, B = pB
                return forall(ip, p, lambda q: eq(B[q], R.E(q)))
            def phase(p): return And(*[eq(R.E(p + j), v.enc(j)) for j in range(L)])
            c.inv(lambda pB, d: And(eq(pB[0], R.S(n - d)), phase(pB[0])), [("hx", U8), "i"], "a copy begins here")
            if m.A is not None: c.inv(lambda p, d: And(eq(p, R.S(n - d)), phase(p)), [m.A, "i"], "a copy begins here (in place)")
            c.inv(inv, [("hx", U8), "i"], "position"); c.inv(inv2, [("hx", U8)], "copies written")
            if m.A is not None:
                c.inv(lambda p, d: And(0 <= d, d <= n, eq(p, R.S(n - d))), [m.A, "i"], "position (in place)")
                c.inv(lambda p: forall(ip, p, lambda q: eq(m.A[q], R.E(q))), [m.A], "copies written (in place)")
        def post(r): sinserted(c, m, ip, n * L, lambda B: [c.ensure("byte %d" % j, eq(B[ip + j], v.enc(j))) for j in range(L)] if one else c.ensure("copies of the encoding", forall(ip, ip + n * L, lambda q: eq(B[q], R.E(q)))))
        args = ([ip] if at else []) + ([] if one else [n]) + [v.v]
        c.run(m.o, *args, post=post)
copies("u8_ins_c"); copies("u8_append_c", at=False); copies("u8_push", at=False, one=True); copies("u8_pluseq", at=False, one=True)
# sequences of wide characters into strings: sampled only (the loop over code points of symbolic length inside a string exceeds the solver's budget)
def wins(name, at=True, term=False, rep=False):
    @ut(name, bounded=True)
    def g(c):
        m = Str(c, "m"); w = Wide(c, zero=False); n = c.size("times", hi=4) if rep else 1
        ip = c.size("ip", hi=m.n) if at else m.n
        W = w.W
        if term:
            if W.n == 0: raise SpecSkip()
            W.set(W.n - 1, 0); w.m = W.n - 1
        def post(r):
            def chk(B):
                for k in range(n): c.ensure("the encoding of each code point", w.encoded(lambda j: B[j], w.m, ip + k * w.bytes))
            sinserted(c, m, ip, w.bytes * n, chk)
        c.run(m.o, *([ip] if at else []), W, *([] if term else [W.e]), *([n] if rep else []), post=post)
wins("u8_ins_r"); wins("u8_ins_rn", rep=True); wins("u8_append_r", at=False); wins("u8_append_cp", at=False, term=True); wins("u8_pluseq_cp", at=False, term=True)
@ut("u8_stream_size")
def g(c):
    m = Str(c, "m", const=True); c.bsr_exact = True
    c.run(m.o, post=lambda r: c.ensure("length prefix and text", eq(r.n, ulen(m.n) + m.n)))
