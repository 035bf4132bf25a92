"""C16 binary streams: position bookkeeping, bounds, and the bytes transferred"""
from vf.spec import *
from contracts.blk import *
from contracts.c03 import Str, txt, src, LIM
P_, G = "C16", "io"
VTI, VTO = "_ZTVN4ustl7istreamE", "_ZTVN4ustl7ostreamE"
SZ = (1 << 32) - 1
EOF_, FAIL = 2, 4
def io(name, func=None, **kw): return contract(P_, func or name, G, name, **kw)
class Stm:
    """a stream object in an arbitrary valid state: n bytes attached, position within them"""
    def __init__(self, c, name="m", out=False, kinds=("linked", "null"), const=False, align=None, lo=0):
        self.c, self.name, self.out = c, name, out
        self.kind = kinds[0] if len(kinds) == 1 else c.case(name, list(kinds))
        if self.kind == "null": self.n = 0; self.A = None; d = c.null
        else:
            self.n = c.size(name + "_size", hi=SZ, lo=lo); self.A = c.arr(name + "_data", n=self.n, T=U8, align=align); d = self.A.b
        self.pos = c.size(name + "_pos", hi=self.n) if self.A is not None else 0
        self.sb = [c.num("%s_s%d" % (name, k), 16, lo=0, hi=1) for k in range(3)]; self.eb = [c.num("%s_e%d" % (name, k), 16, lo=0, hi=1) for k in range(3)]
        c.cuts = True
        self.st0 = self.bits(self.sb); self.ex0 = self.bits(self.eb)
        self.o = c.obj(name, 40, [(0, 8, c.vtable(VTO if out else VTI)), (8, 8, d), (16, 8, self.n), (24, 2, self.st0), (26, 2, self.ex0), (32, 8, self.pos)])
        self.touched = False
        if not const:
            c.modifies(self.o)
            if out and self.A is not None: c.modifies(self.A)
    @staticmethod
    def bits(b): return b[0] + 2 * b[1] + 4 * b[2]
    @property
    def rem(self): return self.n - self.pos
    def at(self, j): return self.A.at(j) if self.A is not None else self.c.null
    def old(self, j): return self.A.old(j) if self.A is not None else 0
    # ---- afterwards
    def attached(self, pos, state=None, n=None, A="same"):
        """still on the same bytes, now at `pos`"""
        c = self.c; A = self.A if A == "same" else A
        c.ensure("%s: size" % self.name, eq(c.fld(self.o, 16), self.n if n is None else n))
        p = c.ptr(self.o, 8)
        if A is None: c.ensure("%s: attached to nothing" % self.name, c.isnull(p))
        else: c.ensure("%s: attached to the same bytes" % self.name, eq(c.index(p, A), 0))
        c.ensure("%s: position" % self.name, eq(c.fld(self.o, 32), pos))
        if state is not any: c.ensure("%s: state" % self.name, eq(c.fld(self.o, 24, 2), self.st0 if state is None else state))
        c.ensure("%s: exception mask" % self.name, eq(c.fld(self.o, 26, 2), self.ex0))
    def refused(self, threw):
        """nothing moved; the failure is on record and was thrown if asked for"""
        c = self.c
        self.attached(self.pos, state=any); self.same(); s = c.fld(self.o, 24, 2)
        c.ensure("%s: failure recorded" % self.name, Or(eq(s, self.sb[0] + 2 * self.sb[1] + 4), eq(s, self.sb[0] + 2 + 4)))
        c.ensure("%s: thrown as asked" % self.name, Or(eq(self.eb[2], 1), eq(self.eb[1], 1)) if threw else eq(self.eb[2], 0))
    def same(self, f=None, lo=0, hi=None):
        """contents: byte j is f(j)"""
        if self.A is None: return
        hi = self.n if hi is None else hi
        self.c.ensure("%s: contents" % self.name, forall(lo, hi, lambda j: eq(self.A[j], f(j) if f else self.A.old(j))))
def checked(c, m, fits, ok, *args, failres=None):
    """runs the function: ok(r) when `fits`; otherwise nothing moves, the failure is recorded and thrown if asked for"""
    def post(r):
        k = case_split(c, fits)
        if k is None: c.ensure("fits or is refused", False)
        elif k: ok(r)
        else:
            m.refused(False)
            if failres is not None: failres(r)
    def thr(r):
        c.ensure("only what does not fit is refused", Not(fits)); m.refused(True)
    c.run(*args, post=post, throws=thr)
def case_split(c, g):
    if not isz(g): return bool(g)
    if c.ex.light.valid(c.cur.qf, g): return True
    if c.ex.light.valid(c.cur.qf, Not(g)): return False
    return None
def IS(c, name="m", **kw): return Stm(c, name, **kw)
def OS(c, name="m", **kw): return Stm(c, name, out=True, **kw)
GR = [1, 2, 4, 8, 16]
def up(x, g): return divc(x + g - 1, g) * g
for pre, mk in (("i", IS), ("o", OS)):
    sfx = "g" if pre == "i" else "p"
    @io(pre + "_seek")
    def g(c, mk=mk):
        m = mk(c); n = c.num("to", 64); checked(c, m, n <= m.n, lambda r: m.attached(n), m.o, n)
    @io(pre + "_iseek")
    def g(c, mk=mk):
        m = mk(c, kinds=("linked",)); j = c.size("to", hi=m.n); c.run(m.o, m.at(j), post=lambda r: m.attached(j))
    @io(pre + "_skip")
    def g(c, mk=mk):
        m = mk(c); n = c.size("by", hi=1 << 62); checked(c, m, m.pos + n <= m.n, lambda r: m.attached(m.pos + n), m.o, n)
    for d in ("beg", "cur", "end"):
        @io("%s_seek%s_%s" % (pre, sfx, d))
        def g(c, mk=mk, d=d):
            m = mk(c); n = c.snum("to", 64); c.require(And(n > -(1 << 62), n < (1 << 62)))
            t = {"beg": n, "cur": m.pos + n, "end": m.n - n}[d]
            checked(c, m, And(0 <= t, t <= m.n), lambda r: m.attached(t), m.o, n if c.sym else n % (1 << 64))
    @io(pre + "_align")
    def g(c, mk=mk):
        gr = c.case("grain", GR); m = mk(c, align=16); t = up(m.pos, gr)
        def ok(r):
            m.attached(t)
            if m.out: m.same(lambda j: ite(And(m.pos <= j, j < t), 0, m.old(j)))
        checked(c, m, t <= m.n, ok, m.o, gr)
    @io(pre + "_align_size")
    def g(c, mk=mk):
        gr = c.case("grain", GR); m = mk(c, const=True); c.run(m.o, gr, post=lambda r: c.ensure("distance to the next multiple", eq(r.n, up(m.pos, gr) - m.pos)))
    @io(pre + "_aligned")
    def g(c, mk=mk):
        gr = c.case("grain", GR); m = mk(c, const=True); c.run(m.o, gr, post=lambda r: c.ensure("position is a multiple", Iff(r.n, eq(up(m.pos, gr), m.pos))))
    for nm, f in (("pos", lambda m: m.pos), ("tell" + sfx, lambda m: m.pos), ("remaining", lambda m: m.rem), ("stream_size", lambda m: m.rem if not m.out else m.pos)):
        @io("%s_%s" % (pre, nm))
        def g(c, mk=mk, f=f):
            m = mk(c, const=True); c.run(m.o, post=lambda r: c.ensure("value", eq(r.n, f(m))))
    for nm, f in (("ipos", lambda m: m.pos), ("end", lambda m: m.n)) + ((("wipos", lambda m: m.pos), ("wend", lambda m: m.n)) if pre == "o" else ()):
        @io("%s_%s" % (pre, nm))
        def g(c, mk=mk, f=f):
            m = mk(c, const=True)
            c.run(m.o, post=lambda r: c.ensure("pointer", eq(r.idx(m.A), f(m)) if m.A is not None else c.isnull(r.v)))
    @io(pre + "_verify")
    def g(c, mk=mk):
        m = mk(c); n = c.num("n", 64)
        checked(c, m, n <= m.rem, lambda r: (m.attached(m.pos), c.ensure("reports enough", r.n)), m.o, n, failres=lambda r: c.ensure("reports too few", Not(r.n)))
@io("i_ungetc")
def g(c):
    m = IS(c); checked(c, m, m.pos > 0, lambda r: m.attached(m.pos - 1), m.o)
@io("i_underflow")
def g(c):
    m = IS(c); n = c.num("n", 64)
    left = lambda r: c.ensure("what is left", eq(r.n, m.rem))
    checked(c, m, n <= m.rem, lambda r: (m.attached(m.pos), left(r)), m.o, n, failres=left)
@io("o_overflow")
def g(c):
    m = OS(c, const=True); n = c.num("n", 64); c.run(m.o, n, post=lambda r: c.ensure("what is left", eq(r.n, m.rem)))

# ---- attaching
def at_(c, m, A, n, pos=0):
    """attached to the n bytes of A (nothing when None)"""
    m.attached(pos, n=n, A=A, **{})
def fresh(c, size=40): return fresh_obj(c, "m", size)
def stream_is(c, o, A, n, pos, off=0):
    c.ensure("size", eq(c.fld(o, 16), n)); p = c.ptr(o, 8)
    c.ensure("position", eq(c.fld(o, 32), pos)); c.ensure("state", eq(c.fld(o, 24, 2), 0)); c.ensure("failures throw by default", eq(c.fld(o, 26, 2), 7))
    c.ensure("bytes", eq(c.index(p, A), off) if A is not None else c.isnull(p))
for pre, mk, lcls in (("i", IS, "cl"), ("o", OS, "ml")):
    @io(pre + "_ctor")
    def g(c):
        o = fresh(c); c.run(o, post=lambda r: stream_is(c, o, None, 0, 0))
    @io(pre + "_ctor_pn")
    def g(c):
        o = fresh(c); A = c.arr("p", T=U8); c.require(A.n <= SZ); c.run(o, A, A.n, post=lambda r: stream_is(c, o, A, A.n, 0))
    @io("%s_ctor_%s" % (pre, lcls))
    def g(c, lcls=lcls):
        o = fresh(c); l = Blk(c, "l", cls=lcls, kinds=("linked", "null"), const=True); c.run(o, l.o, post=lambda r: stream_is(c, o, l.A, l.n, 0))
    @io(pre + "_link")
    def g(c, mk=mk):
        m = mk(c); A = c.arr("p", T=U8); c.require(A.n <= SZ); c.run(m.o, A, A.n, post=lambda r: m.attached(0, n=A.n, A=A))
    variant(pre + "_link", pre + "_relink", G)
    @io(pre + "_link_ff")
    def g(c, mk=mk):
        m = mk(c); A = c.arr("p", T=U8); c.require(A.n <= SZ); c.run(m.o, A, A.at(A.n), post=lambda r: m.attached(0, n=A.n, A=A))
    @io("%s_link_%s" % (pre, lcls))
    def g(c, mk=mk, lcls=lcls):
        m = mk(c); l = Blk(c, "l", cls=lcls, kinds=("linked", "null"), const=True); c.run(m.o, l.o, post=lambda r: m.attached(0, n=l.n, A=l.A))
    variant("%s_link_%s" % (pre, lcls), "%s_relink_%s" % (pre, lcls), G)
    @io(pre + "_unlink")
    def g(c, mk=mk):
        m = mk(c); c.run(m.o, post=lambda r: m.attached(0, n=0, A=None))
    @io(pre + "_swap")
    def g(c, mk=mk):
        m = mk(c); o = mk(c, "o")
        def post(r): m.attached(o.pos, n=o.n, A=o.A); o.attached(m.pos, n=m.n, A=m.A)
        c.run(m.o, o.o, post=post)
@io("i_ctor_os")
def g(c):
    o = fresh(c); s = OS(c, "s", const=True); c.run(o, s.o, post=lambda r: stream_is(c, o, s.A, s.pos, 0))

# ---- reading
def moved(m, n): m.attached(m.pos + n)
@io("i_read")
def g(c):
    m = IS(c); B = c.arr("buf", T=U8); c.modifies(B); n = c.size("n", hi=1 << 40); c.require(Or(n <= B.n, n > m.rem))
    def ok(r): moved(m, n); c.ensure("the bytes at the position", forall(0, B.n, lambda j: eq(B[j], ite3(j < n, lambda: m.old(m.pos + j), lambda: B.old(j)))))
    checked(c, m, n <= m.rem, ok, m.o, B, n, failres=lambda r: untouched(c, B))
def untouched(c, B): c.ensure("buffer untouched", forall(0, B.n, lambda j: eq(B[j], B.old(j))))
@io("i_read_ml")
def g(c):
    m = IS(c); l = Blk(c, "l", cls="ml", kinds=("linked", "null"), const=True)
    if l.A is not None: c.modifies(l.A)
    def ok(r):
        moved(m, l.n)
        if l.A is not None: c.ensure("the bytes at the position", forall(0, l.n, lambda j: eq(l.A[j], m.old(m.pos + j))))
    checked(c, m, l.n <= m.rem, ok, m.o, l.o, failres=lambda r: untouched(c, l.A))
@io("i_readsome")
def g(c):
    m = IS(c); B = c.arr("buf", T=U8); c.modifies(B); n = c.size("n", hi=1 << 40); k = imin(n, m.rem); c.require(k <= B.n)
    def got(r): 
        c.ensure("number of bytes", eq(r.n, k)); c.ensure("the bytes at the position", forall(0, B.n, lambda j: eq(B[j], ite3(j < k, lambda: m.old(m.pos + j), lambda: B.old(j)))))
        c.ensure("m: position", eq(c.fld(m.o, 32), m.pos + k)); m.same()
    c.run(m.o, B, n, post=got, throws=lambda r: (c.ensure("only a short read is refused", n > m.rem), m.refused(True), untouched(c, B)))
@io("i_read_is")
def g(c):
    m = IS(c, const=True); o = IS(c, "o", const=True); c.run(m.o, o.o, post=lambda r: (m.attached(m.pos), o.attached(o.pos)))
def lev(get, at, w):
    return sum(get(at + k) * 256 ** k for k in range(w))
WD = dict(u8=1, u16=2, u32=4, u64=8, s32=4, c=1)
for k, w in WD.items():
    for nm in ("i_iread_", "i_get_"):
        @io(nm + k)
        def g(c, w=w):
            m = IS(c, align=16, lo=1); v0 = c.num("v0", 8 * w); v = c.obj("v", w, [(0, w, v0)]); c.modifies(v)
            if w > 1: c.require(eq(modc(m.pos, w), 0))
            def ok(r): moved(m, w); c.ensure("the value at the position", eq(c.fld(v, 0, w), lev(m.old, m.pos, w)))
            checked(c, m, m.rem >= w, ok, m.o, v, failres=lambda r: c.ensure("variable untouched", eq(c.fld(v, 0, w), v0)))
    for nm in ("o_iwrite_", "o_put_"):
        @io(nm + k)
        def g(c, w=w):
            m = OS(c, align=16); v = c.num("v", 8 * w)
            if w > 1: c.require(eq(modc(m.pos, w), 0))
            def ok(r):
                moved(m, w); c.ensure("the value at the position", eq(lev(lambda j: m.A[j], m.pos, w), v))
                c.ensure("nothing else changes", forall(0, m.n, lambda j: Or(And(m.pos <= j, j < m.pos + w), eq(m.A[j], m.old(j)))))
            checked(c, m, m.rem >= w, ok, m.o, v)
@io("i_get_bool")
def g(c):
    m = IS(c); v = c.obj("v", 1, [(0, 1, 0)]); c.modifies(v)
    checked(c, m, m.rem >= 1, lambda r: (moved(m, 1), c.ensure("true iff not zero", Iff(eq(c.fld(v, 0, 1), 1), Not(eq(m.old(m.pos), 0)))), c.ensure("a bool", c.fld(v, 0, 1) <= 1)), m.o, v)
@io("o_put_bool")
def g(c):
    m = OS(c); v = c.bool("v")
    checked(c, m, m.rem >= 1, lambda r: (moved(m, 1), m.same(lambda j: ite(eq(j, m.pos), ite(v, 1, 0), m.old(j)))), m.o, v)
@io("i_read_strz")
def g(c):
    m = IS(c); s = Str(c, "s"); z = c.first(m.pos, m.n, lambda j: eq(m.old(j), 0), "z")
    same = lambda: check(c, s.o, U8, "string", s.n, s.old, cls="str", term=1 if s.A is not None else 0)
    if m.A is not None: c.inv(lambda x: forall(m.pos, x, lambda j: Or(j >= m.n, Not(eq(m.old(j), 0)))), [m.A], "no terminator before")
    def post(r):
        k = case_split(c, c.fld(m.o, 32) > m.pos)
        if k is None: c.ensure("terminated or refused", False)
        elif k: c.ensure("terminated", z < m.n); m.attached(z + 1); txt(c, s, z - m.pos, lambda j: m.old(m.pos + j))
        else: c.ensure("refused because not terminated", eq(z, m.n)); m.refused(False); same()
    c.run(m.o, s.o, post=post, throws=lambda r: (c.ensure("only what is not terminated is refused", eq(z, m.n)), m.refused(True), same()))
# ---- writing
def put(m, n, f): moved(m, n); m.same(lambda j: ite3(And(m.pos <= j, j < m.pos + n), lambda: f(j - m.pos), lambda: m.old(j)))
@io("i_write")
def g(c):
    m = IS(c, const=True); o = OS(c, "o"); checked(c, o, m.rem <= o.rem, lambda r: (m.attached(m.pos), put(o, m.rem, lambda j: m.old(m.pos + j))), m.o, o.o)
@io("o_write")
def g(c):
    m = OS(c); B = c.arr("buf", T=U8); c.require(B.n <= SZ); checked(c, m, B.n <= m.rem, lambda r: put(m, B.n, B.old), m.o, B, B.n)
@io("o_write_cl")
def g(c):
    m = OS(c); l = Blk(c, "l", cls="cl", kinds=("linked", "null"), const=True); checked(c, m, l.n <= m.rem, lambda r: put(m, l.n, l.old), m.o, l.o)
@io("o_write_os")
def g(c):
    m = OS(c, const=True); o = OS(c, "o"); checked(c, o, m.pos <= o.rem, lambda r: (m.attached(m.pos), put(o, m.pos, m.old)), m.o, o.o)
@io("o_write_strz")
def g(c):
    m = OS(c); s = c.cstr("s"); checked(c, m, s.len + 1 <= m.rem, lambda r: put(m, s.len + 1, s.old), m.o, s)
@io("o_read")
def g(c):
    m = OS(c); i = IS(c, "i"); c.require(i.rem <= m.rem)
    c.run(m.o, i.o, post=lambda r: (put(m, i.rem, lambda j: i.old(i.pos + j)), i.attached(i.n)))
@io("o_insert")
def g(c):
    m = OS(c, kinds=("linked",)); at, n = c.size("at", hi=m.n), c.size("n", hi=m.n); c.require(And(at <= m.pos, m.pos + n <= m.n))
    def post(r):
        moved(m, n); c.ensure("bytes before the gap", forall(0, at, lambda j: eq(m.A[j], m.old(j)))); c.ensure("bytes behind the gap", forall(at + n, m.n, lambda j: eq(m.A[j], m.old(j - n))))
    c.run(m.o, m.at(at), n, post=post)
@io("o_erase")
def g(c):
    m = OS(c, kinds=("linked",)); at, n = c.size("at", hi=m.n), c.size("n", hi=m.n); c.require(at + n <= m.pos)
    def post(r):
        m.attached(m.pos - n); c.ensure("bytes before the cut", forall(0, at, lambda j: eq(m.A[j], m.old(j)))); c.ensure("bytes behind the cut", forall(at, m.n - n, lambda j: eq(m.A[j], m.old(j + n))))
    c.run(m.o, m.at(at), n, post=post)
# ---- blocks, strings and vectors: a record is the length, the bytes and the padding
from contracts.c05 import cp, ulen
from contracts.c17 import holds
def pad4(n): return up(n, 4)
def enc32(v, k): return modc(divc(v, 256 ** k), 256)
def rec_at(c, m, A, p, n, f, hdr=4, w=1):
    """the record of n elements f(0..n-1) of w bytes begins at p"""
    if hdr == 4: c.ensure("length", eq(lev(lambda j: A[j], p, 4), n))
    c.ensure("contents", forall(0, n, lambda j: eq(lev(lambda q: A[q], p + hdr + w * j, w), f(j))))
def blkrec(name, piece):
    @io(name)
    def g(c):
        l = piece(c); m = OS(c, align=16, kinds=("linked",)); n = l.n; e = m.pos + 4 + pad4(n)
        c.require(eq(modc(m.pos, 4), 0)); c.require(e <= m.n)
        def post(r):
            m.attached(e); c.ensure("length", eq(lev(lambda j: m.A[j], m.pos, 4), n))
            c.ensure("contents and padding", forall(m.pos + 4, e, lambda j: eq(m.A[j], ite3(j < m.pos + 4 + n, lambda: l.old(j - m.pos - 4), lambda: 0))))
            c.ensure("nothing else changes", forall(0, m.n, lambda j: Or(And(m.pos <= j, j < e), eq(m.A[j], m.old(j)))))
        c.run(l.o, m.o, post=post)
    @io(name + "_short", name)
    def g(c):
        l = piece(c); m = OS(c, align=16); n = l.n; c.require(eq(modc(m.pos, 4), 0)); c.require(m.pos + 4 + pad4(n) > m.n)
        c.run(l.o, m.o, post=lambda r: partial(m, False), throws=lambda r: partial(m, True))
def partial(m, threw):
    """an incomplete transfer: on record, thrown if asked for, nothing outside the stream or before the position was touched"""
    c = m.c; p = c.fld(m.o, 32); s = c.fld(m.o, 24, 2)
    c.ensure("position within the stream", And(m.pos <= p, p <= m.n)); m.attached(p, state=any)
    c.ensure("failure recorded", Or(eq(s, m.sb[0] + 2 * m.sb[1] + 4), eq(s, m.sb[0] + 2 + 4)))
    c.ensure("thrown as asked", Or(eq(m.eb[2], 1), eq(m.eb[1], 1)) if threw else eq(m.eb[2], 0))
    if m.out: m.same(hi=m.pos)
    else: m.same()
def cblk(c):
    l = Blk(c, "l", cls="cl", kinds=("linked", "null"), const=True); c.require(l.n <= SZ); return l
blkrec("cl_write", cblk)
@io("cl_stream_size")
def g(c):
    l = cblk(c); c.run(l.o, post=lambda r: c.ensure("size of the record", eq(r.n, 4 + pad4(l.n))))
def instream(c, L, w=1, grain=4, hdr=4):
    """a stream at whose position a complete record of L elements begins"""
    m = IS(c, align=16, kinds=("linked",)); c.require(eq(modc(m.pos, grain), 0)); return m
@io("ml_read")
def g(c):
    m = IS(c, align=16, kinds=("linked",)); l = Blk(c, "l", cls="ml", kinds=("linked",)); c.require(eq(modc(m.pos, 4), 0)); c.require(m.rem >= 4)
    L = lev(m.old, m.pos, 4); e = m.pos + 4 + pad4(L); c.require(Or(e <= m.n, L > m.rem - 4)); c.require(Or(L <= l.n, L > m.rem - 4))
    c.modifies(l.o, l.A)
    def post(r):
        k = case_split(c, c.fld(m.o, 32) >= e)
        if k is None: c.ensure("read or refused", False)
        elif k:
            m.attached(e); c.ensure("size", eq(c.fld(l.o, 16), L)); c.ensure("same storage", eq(c.index(c.ptr(l.o, 8), l.A), 0))
            c.ensure("contents", forall(0, l.n, lambda j: eq(l.A[j], ite3(j < L, lambda: m.old(m.pos + 4 + j), lambda: l.old(j)))))
        else: partial(m, False); c.ensure("block unchanged", And(eq(c.fld(l.o, 16), l.n), forall(0, l.n, lambda j: eq(l.A[j], l.old(j)))))
    c.run(l.o, m.o, post=post, throws=lambda r: (c.ensure("only an incomplete record is refused", e > m.n), partial(m, True)))
@io("mb_read")
def g(c):
    m = IS(c, align=16, kinds=("linked",)); l = Blk(c, "l", cls="mb"); c.require(eq(modc(m.pos, 4), 0)); c.require(m.rem >= 4)
    L = lev(m.old, m.pos, 4); e = m.pos + 4 + pad4(L); c.require(Or(e <= m.n, L > m.rem - 4)); c.require(Or(L < 1 << 31, L > m.rem - 4))
    def post(r):
        k = case_split(c, c.fld(m.o, 32) >= e)
        if k is None: c.ensure("read or refused", False)
        elif k: m.attached(e); check(c, l.o, U8, "block", L, lambda j: m.old(m.pos + 4 + j))
        else: partial(m, False); check(c, l.o, U8, "block", l.n, l.old)
    c.run(l.o, m.o, post=post, throws=lambda r: (c.ensure("only an incomplete record is refused", e > m.n), partial(m, True), check(c, l.o, U8, "block", l.n, l.old)))
def slen_(c, hi=6):
    L = c.case("len", list(range(1, hi + 1))); return cp(c, L)
@io("s_write")
def g(c):
    v = slen_(c); k = v.L; s = src(c, "s", kinds=("owned", "linked", "null") if k == 1 else ("owned", "linked")); c.require(eq(s.n, v.v)); m = OS(c, kinds=("linked",))
    checked(c, m, k + s.n <= m.rem, lambda r: put_str(c, m, v, s), s.o, m.o)
def put_str(c, m, v, s):
    k = v.L; m.attached(m.pos + k + s.n)
    for j in range(k): c.ensure("length, byte %d" % j, eq(m.A[m.pos + j], v.enc(j)))
    c.ensure("contents", forall(0, s.n, lambda j: eq(m.A[m.pos + k + j], s.old(j))))
    c.ensure("nothing else changes", forall(0, m.n, lambda j: Or(And(m.pos <= j, j < m.pos + k + s.n), eq(m.A[j], m.old(j)))))
@io("s_stream_size")
def g(c):
    v = slen_(c); s = src(c, "s", kinds=("owned", "linked", "null") if v.L == 1 else ("owned", "linked")); c.require(eq(s.n, v.v))
    c.run(s.o, post=lambda r: c.ensure("size of the record", eq(r.n, v.L + s.n)))
@io("s_read")
def g(c):
    v = slen_(c); k = v.L; m = IS(c, kinds=("linked",)); s = Str(c, "s"); c.require(v.v <= LIM); c.require(m.rem >= k); c.peel = 8
    for j in range(k): m.A.set(m.pos + j, v.enc(j))
    def ok(r): m.attached(m.pos + k + v.v); txt(c, s, v.v, lambda j: m.old(m.pos + k + j))
    def bad(threw): m.refused_at(m.pos + k, threw)
    def post(r):
        g = case_split(c, v.v <= m.rem - k)
        if g is None: c.ensure("read or refused", False)
        elif g: ok(r)
        else: partial(m, False); check(c, s.o, U8, "string", s.n, s.old, cls="str", term=1 if s.A is not None else 0)
    c.run(s.o, m.o, post=post, throws=lambda r: (c.ensure("only an incomplete record is refused", v.v > m.rem - k), partial(m, True), check(c, s.o, U8, "string", s.n, s.old, cls="str", term=1 if s.A is not None else 0)))
@io("s_read_cut", "s_read")
def g(c):
    """the record ends within the encoded length"""
    v = slen_(c); k = v.L; m = IS(c); s = Str(c, "s"); c.require(m.rem < k); c.peel = 8
    if k > 1 and m.A is not None: c.require(Or(eq(m.rem, 0), eq(m.old(m.pos), v.enc(0))))
    same = lambda: check(c, s.o, U8, "string", s.n, s.old, cls="str", term=1 if s.A is not None else 0)
    c.run(s.o, m.o, post=lambda r: (partial(m, False), same()), throws=lambda r: (partial(m, True), same()))
def hint(c, *xs):
    """values loops may be compared against"""
    if c.sym: c.refs += [(x[0].r, x[1]) if isinstance(x, tuple) else x for x in xs]
class Vec:
    def __init__(self, c, T, name="v", kinds=("owned", "linked", "null"), const=False):
        c.heap_elem = (T.size, T.fields); self.c, self.T = c, T
        self.b = b = Blk(c, name, T=T, cls="mb", kinds=kinds, hi=1 << 29, const=const); self.o, self.n, self.A = b.o, b.n, b.A
    def old(self, j): return self.b.old(j)
for k, T in (("vb", U8), ("vw", U32)):
    w = T.size
    @io(k + "_write")
    def g(c, T=T, w=w):
        v = Vec(c, T, const=True); m = OS(c, align=16, kinds=("linked",)); e = m.pos + 4 + pad4(w * v.n)
        c.require(eq(modc(m.pos, 4), 0)); c.require(e <= m.n)
        # while writing: i elements are in place
        hint(c, m.st0, *([(v.A, v.n)] if v.A is not None else []), (m.A, m.pos + 4))
        if v.A is not None: 
            c.inv(lambda i, p: eq(p, m.pos + 4 + w * i), [v.A, "i"], "position", q=False)
            c.inv(lambda i: forall(0, i, lambda j: Or(j >= v.n, eq(lev(lambda q: m.A[q], m.pos + 4 + w * j, w), v.old(j)))), [v.A], "elements written")
            c.inv(lambda i: forall(m.pos + 4 + w * i, m.n, lambda j: eq(m.A[j], m.old(j))), [v.A], "nothing written beyond")
        def post(r):
            m.attached(e); c.ensure("length", eq(lev(lambda j: m.A[j], m.pos, 4), v.n))
            c.ensure("elements", forall(0, v.n, lambda j: eq(lev(lambda q: m.A[q], m.pos + 4 + w * j, w), v.old(j))))
            c.ensure("padding", forall(m.pos + 4 + w * v.n, e, lambda j: eq(m.A[j], 0)))
            c.ensure("nothing else changes", forall(0, m.n, lambda j: Or(And(m.pos <= j, j < e), eq(m.A[j], m.old(j)))))
        c.run(v.o, m.o, post=post)
    @io(k + "_stream_size")
    def g(c, T=T, w=w):
        v = Vec(c, T, const=True); c.inv(lambda x, s: eq(s, w * x), [v.A, "i"], "bytes counted", q=False) if v.A is not None else None
        c.run(v.o, post=lambda r: c.ensure("size of the record", eq(r.n, 4 + pad4(w * v.n))))
    @io(k + "_read")
    def g(c, T=T, w=w):
        m = IS(c, align=16, kinds=("linked",)); v = Vec(c, T); c.require(eq(modc(m.pos, 4), 0)); c.require(m.rem >= 4)
        L = lev(m.old, m.pos, 4); e = m.pos + 4 + pad4(w * L); c.require(Or(e <= m.n, w * L > m.rem - 4)); c.require(Or(L < 1 << 29, w * L > m.rem - 4))
        el = lambda j: lev(m.old, m.pos + 4 + w * j, w)
        hint(c, m.st0)
        c.inv(lambda x, p: eq(p, m.pos + 4 + w * x[0]), [("hx", T), "i"], "position", q=False)
        c.inv(lambda x: x[0] <= L, [("hx", T)], "within the new size", q=False)
        c.inv(lambda x: forall(0, x[0], lambda j: Or(j >= x[1].n, eq(x[1][j], el(j)))), [("hx", T)], "elements read")
        def post(r):
            k = case_split(c, c.fld(m.o, 32) >= e)
            if k is None: c.ensure("read or refused", False)
            elif k: m.attached(e); check(c, v.o, T, "vector", L, el)
            else: partial(m, False); check(c, v.o, T, "vector", v.n, v.old)
        c.run(v.o, m.o, post=post, throws=lambda r: (c.ensure("only an incomplete record is refused", e > m.n), partial(m, True), check(c, v.o, T, "vector", v.n, v.old)))
# ---- iterators: a stream position plus the value read there
class It:
    """an iterator holding value `v` over stream m (or at the end: no stream)"""
    def __init__(self, c, m, w, name="it", kinds=("on", "end")):
        self.c, self.m, self.w = c, m, w; self.kind = kinds[0] if len(kinds) == 1 else c.case(name, list(kinds))
        self.v = c.num(name + "_v", 8 * w); self.on = self.kind == "on"
        self.o = c.obj(name, 16, [(0, 8, m.o.p if self.on else c.null), (8, w, self.v)]); c.modifies(self.o)
    def is_(self, m, v=None):
        iter_is(self.c, self.o, m, self.w, v)
def iter_is(c, o, m, w, v):
    c.ensure("reads the stream" if m is not None else "at the end", holds(c, c.ptr(o, 0), m.o) if m is not None else c.isnull(c.ptr(o, 0)))
    if v is not None: c.ensure("current value", eq(c.fld(o, 8, w), v))
def steps(c, m, o, w, n, *args, v0=None):
    """reads n values (0 or 1); the iterator ends when the data does"""
    def post(r):
        if not n: m.attached(m.pos); iter_is(c, o, None, w, v0); return
        k = case_split(c, m.rem >= w)
        if k is None: c.ensure("read or ended", False)
        elif k: m.attached(m.pos + w); iter_is(c, o, m, w, lev(m.old, m.pos, w))
        else: m.refused(False); iter_is(c, o, None, w, v0)
    c.run(*args, post=post, throws=lambda r: (c.ensure("only what does not fit is refused", m.rem < w), m.refused(True)))
for k, w in (("ii8", 1), ("ii32", 4)):
    def al(c, m, w=w):
        if w > 1: c.require(eq(modc(m.pos, w), 0)); c.require(eq(modc(m.n, w), 0))
    @io(k + "_ctor")
    def g(c, w=w, al=al):
        m = IS(c, align=16); al(c, m); o = fresh_obj(c, "it", 16)
        steps(c, m, o, w, 1, o, m.o)
    @io(k + "_inc")
    def g(c, w=w, al=al):
        m = IS(c, align=16); al(c, m); i = It(c, m, w); steps(c, m, i.o, w, 1 if i.on else 0, i.o, v0=i.v)
    @io(k + "_deref")
    def g(c, w=w):
        m = IS(c, const=True); i = It(c, m, w); c.run(i.o, post=lambda r: c.ensure("the value read", eq(r.n, i.v)))
    for nm, f in (("eq", lambda a, b, x, y: (eq(x, y) if a and b else a == b)), ("lt", lambda a, b, x, y: (x < y) if a and b else not b)):
        @io("%s_%s" % (k, nm))
        def g(c, w=w, f=f):
            m, o = IS(c, const=True), IS(c, "o", const=True); i, j = It(c, m, w), It(c, o, w, "jt")
            c.run(i.o, j.o, post=lambda r: c.ensure("compares positions", Iff(r.n, f(i.on, j.on, m.pos, o.pos))))
    @io(k + "_post")
    def g(c, w=w, al=al):
        m = IS(c, align=16, kinds=("linked",)); al(c, m); i = It(c, m, w, kinds=("on",)); r_ = fresh_obj(c, "old", 16)
        c.require(m.rem >= w)
        c.run(r_, i.o, post=lambda r: (m.attached(m.pos + w), iter_is(c, i.o, m, w, lev(m.old, m.pos, w)), iter_is(c, r_, m, w, i.v)))
    @io(k + "_dec")
    def g(c, w=w, al=al):
        m = IS(c, align=16, kinds=("linked",)); al(c, m); i = It(c, m, w, kinds=("on",)); c.require(m.pos >= 2 * w)
        c.run(i.o, post=lambda r: (m.attached(m.pos - w), iter_is(c, i.o, m, w, lev(m.old, m.pos - 2 * w, w))))
    @io(k + "_add")
    def g(c, w=w, al=al):
        m = IS(c, align=16, kinds=("linked",)); al(c, m); i = It(c, m, w, kinds=("on",)); n = c.size("n", hi=1 << 32); c.require(w * n <= m.rem); hint(c, m.st0)
        c.inv(lambda x, p: eq(p, m.pos + w * (n - x)), ["i", "i"], "position", q=False)
        c.inv(lambda p, y: ite3(eq(p, m.pos), lambda: eq(y, i.v), lambda: eq(y, lev(m.old, p - w, w))), ["i", "i"], "current value", q=False)
        c.run(i.o, n, post=lambda r: (m.attached(m.pos + w * n), iter_is(c, i.o, m, w, ite3(eq(n, 0), lambda: i.v, lambda: lev(m.old, m.pos + w * (n - 1), w)))))
    @io(k + "_sub")
    def g(c, w=w, al=al):
        m = IS(c, align=16, kinds=("linked",)); al(c, m); i = It(c, m, w, kinds=("on",)); n = c.size("n", hi=1 << 32); c.require(m.pos >= w * (n + 1))
        c.run(i.o, n, post=lambda r: (m.attached(m.pos - w * n), iter_is(c, i.o, m, w, lev(m.old, m.pos - w * (n + 1), w))))
    @io(k + "_minus")
    def g(c, w=w, al=al):
        m = IS(c, align=16, kinds=("linked",)); al(c, m); i = It(c, m, w, kinds=("on",)); n = c.size("n", hi=1 << 32); c.require(m.pos >= w * (n + 1)); o = fresh_obj(c, "res", 16)
        c.run(o, i.o, n, post=lambda r: (m.attached(m.pos - w * n), iter_is(c, o, m, w, lev(m.old, m.pos - w * (n + 1), w)), iter_is(c, i.o, m, w, i.v)))
for k, w in (("oi8_put", 1), ("oi32_put", 4)): 
    @io(k)
    def g(c, w=w):
        m = OS(c, align=16); v = c.num("v", 8 * w)
        if w > 1: c.require(eq(modc(m.pos, w), 0))
        def ok(r):
            moved(m, w); c.ensure("the value at the position", eq(lev(lambda j: m.A[j], m.pos, w), v))
            c.ensure("nothing else changes", forall(0, m.n, lambda j: Or(And(m.pos <= j, j < m.pos + w), eq(m.A[j], m.old(j)))))
        checked(c, m, m.rem >= w, ok, m.o, v)
@io("oi8_add")
def g(c):
    m = OS(c); n = c.size("by", hi=1 << 62); checked(c, m, m.pos + n <= m.n, lambda r: m.attached(m.pos + n), m.o, n)
# ---- what was written is read back
def room(c, need):
    A = c.arr("p", T=U8, align=16); c.modifies(A); c.require(And(A.n >= need, A.n <= SZ)); return A
@io("rt_mix")
def g(c):
    A = room(c, 24); ws = [1, 2, 4, 8]; vs = [c.num("v%d" % w, 8 * w) for w in ws]; rs = [c.obj("r%d" % w, w, [(0, w, 0)]) for w in ws]; c.modifies(*rs); c.cuts = True
    def post(r):
        for w, v, o in zip(ws, vs, rs): c.ensure("%d-byte value" % w, eq(c.fld(o, 0, w), v))
    c.run(A, A.n, *vs, *rs, post=post)
@io("rt_pair")
def g(c):
    A = room(c, 12); ws = [1, 4]; vs = [c.num("v%d" % w, 8 * w) for w in ws]; rs = [c.obj("r%d" % w, w, [(0, w, 0)]) for w in ws]; c.modifies(*rs); c.cuts = True
    def post(r):
        for w, v, o in zip(ws, vs, rs): c.ensure("%d-byte value" % w, eq(c.fld(o, 0, w), v))
    c.run(A, A.n, *vs, *rs, post=post)
@io("rt_string")
def g(c):
    v = slen_(c); s = src(c, "s", kinds=("owned", "linked", "null") if v.L == 1 else ("owned", "linked")); c.require(eq(s.n, v.v)); t = Str(c, "t"); c.peel = 8; c.cuts = True
    A = room(c, v.L + s.n); c.run(A, A.n, s.o, t.o, post=lambda r: txt(c, t, s.n, s.old))
@io("rt_strz")
def g(c):
    s = c.cstr("s"); t = Str(c, "t"); A = room(c, s.len + 1); c.cuts = True
    c.inv(lambda x: forall(0, x, lambda j: Or(j >= s.len, Not(eq(A[j], 0)))), [A], "no terminator before")
    c.run(A, A.n, s, t.o, post=lambda r: txt(c, t, s.len, s.old))
@io("rt_block")
def g(c):
    s = Blk(c, "s", cls="mb", const=True); c.require(s.n <= (1 << 31) - 1); t = Blk(c, "t", cls="mb"); A = room(c, 4 + pad4(s.n)); c.cuts = True
    c.run(A, A.n, s.o, t.o, post=lambda r: check(c, t.o, U8, "block", s.n, s.old))
@io("rt_vb")
def g(c):
    s = Vec(c, U8, "s", const=True); t = Vec(c, U8, "t"); A = room(c, 4 + pad4(s.n)); c.cuts = True; hint(c, *([(s.A, s.n)] if s.A is not None else []), (A, 4))
    if s.A is not None:
        c.inv(lambda i, p: eq(p, 4 + i), [s.A, "i"], "position", q=False)
        c.inv(lambda i: forall(0, i, lambda j: Or(j >= s.n, eq(A[4 + j], s.old(j)))), [s.A], "elements written")
    c.inv(lambda x, p: eq(p, 4 + x[0]), [("hx", U8), "i"], "position", q=False)
    c.inv(lambda x: x[0] <= s.n, [("hx", U8)], "within the new size", q=False)
    c.inv(lambda x: forall(0, x[0], lambda j: Or(j >= x[1].n, eq(x[1][j], s.old(j)))), [("hx", U8)], "elements read")
    c.run(A, A.n, s.o, t.o, post=lambda r: check(c, t.o, U8, "vector", s.n, s.old))
