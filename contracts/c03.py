"""C03 string construction and editing"""
from vf.spec import *
from contracts.blk import *
from contracts.c01 import same_storage, idx_in
G = "str"
P_ = "C03"
NPOS = (1 << 31) - 1
LIM = NPOS - 1          # strings are shorter than npos
def st(name, **kw): return contract(P_, name, G, name, **kw)
def Str(c, name="m", kinds=("owned", "linked", "null"), const=False, lo=0): 
    b = Blk(c, name, cls="str", kinds=kinds, mfc=1, hi=LIM, const=const)
    if lo: c.require(b.n >= lo)
    return b
def src(c, name="s", kinds=("owned", "linked", "null")): return Str(c, name, kinds, const=True)
def txt(c, m, n, val, label="string", term=1):
    """the string now is the n characters val(0..n-1), terminated, and c_str() is not null"""
    p, B = check(c, m.o if isinstance(m, Blk) else m, U8, label, n, val, cls="str", term=1)
    if B is None: c.ensure("%s: c_str() exposes a terminated text" % label, False)
    return p, B
class Piece:
    """a source of characters: n of them, ch(j) the j-th (state before the call)"""
    def __init__(self, n, ch, *args): self.n, self.ch, self.args = n, ch, list(args)
def clampi(x, n): return imin(x, n)
def p_pp(c):
    A = c.arr("p", T=U8); a, b = c.size("a", hi=A.n), c.size("b", hi=A.n); c.require(a <= b); return Piece(b - a, lambda j: A.old(a + j), A.at(a), A.at(b))
def p_pn(c):
    A = c.arr("p", T=U8); return Piece(A.n, lambda j: A.old(j), A, A.n)
def p_cp(c):
    if c.case("null", [False, True]): return Piece(0, lambda j: 0, c.null)
    A = c.cstr("p"); return Piece(A.len, lambda j: A.old(j), A)
def p_cpnn(c):
    A = c.cstr("p"); return Piece(A.len, lambda j: A.old(j), A)
def p_nc(c):
    n = c.size("n", hi=LIM); x = c.num("x", 8); return Piece(n, lambda j: x, n, x)
def p_c(c):
    x = c.num("x", 8); return Piece(1, lambda j: x, x)
def p_s(c):
    s = src(c); return Piece(s.n, s.old, s.o)
def p_sub(c):
    s = src(c); o, k = c.size("o", hi=NPOS), c.size("k", hi=NPOS)
    a = imin(o, s.n); b = imin(o + k, s.n)
    return Piece(b - a, lambda j: s.old(a + j), s.o, o, k)

def ctor(name, piece):
    @st(name)
    def g(c):
        o = fresh_obj(c); p = piece(c) if piece else Piece(0, lambda j: 0)
        c.run(o, *p.args, post=lambda r: txt(c, o, p.n, p.ch))
ctor("s_ctor", None); ctor("s_ctor_sub", p_sub); ctor("s_ctor_cp", p_cp); ctor("s_ctor_pn", p_pn); ctor("s_ctor_pp", p_pp); ctor("s_ctor_nc", p_nc)
def p_snn(c):
    s = src(c, kinds=("owned", "linked")); return Piece(s.n, s.old, s.o)
ctor("s_copy", p_snn)
def p_cl(c):
    s = Blk(c, "l", cls="cl", kinds=("linked", "null"), const=True); return Piece(s.n, s.old, s.o)
ctor("s_ctor_cl", p_cl)
@st("s_dtor")
def g(c):
    m = Str(c); c.run(m.o)
def sized(name, fillc):
    @st(name)
    def g(c):
        m = Str(c); n = c.size("n", hi=LIM); x = c.num("x", 8) if fillc else None
        def post(r):
            p, B = txt(c, m, n, None)
            if B is None: return
            c.ensure("common prefix preserved", forall(0, imin(n, m.n), lambda j: eq(B[j], m.old(j))))
            if fillc: c.ensure("new characters", forall(m.n, n, lambda j: eq(B[j], x)))
        c.run(m.o, n, *([x] if fillc else []), post=post)
sized("s_resize", False); sized("s_resize_c", True)
@st("s_clear")
def g(c):
    m = Str(c); c.run(m.o, post=lambda r: txt(c, m, 0, None))
@st("s_reserve")
def g(c):
    m = Str(c, kinds=("owned", "linked")); n = c.size("n", hi=LIM); x = c.bool("exact")
    def post(r):
        txt(c, m, m.n, m.old); cap = c.fld(m.o, 24)
        c.ensure("capacity", n + 1 <= cap); c.ensure("capacity is never reduced", m.cap <= cap)
    c.run(m.o, n, x, post=post)
@st("s_shrink")
def g(c):
    m = Str(c, kinds=("owned", "linked"))
    c.run(m.o, post=lambda r: (txt(c, m, m.n, m.old), c.ensure("capacity", c.fld(m.o, 24) <= m.n + 1)))
@st("s_copy_link")
def g(c):
    m = Str(c, kinds=("owned", "linked")); c.run(m.o, post=lambda r: (txt(c, m, m.n, m.old), c.ensure("owns its text", c.fld(m.o, 24) > 0)))
# ---- append / assign
def app(name, piece):
    @st(name)
    def g(c):
        m = Str(c); p = piece(c)
        c.run(m.o, *p.args, post=lambda r: txt(c, m, m.n + p.n, ins(m.old, m.n, p.n, p.ch)))
def asg(name, piece):
    @st(name)
    def g(c):
        m = Str(c); p = piece(c)
        c.run(m.o, *p.args, post=lambda r: txt(c, m, p.n, p.ch))
for n, p in (("append_pp", p_pp), ("append_pn", p_pn), ("append_cp", p_cp), ("append_nc", p_nc), ("append_s", p_s), ("append_sub", p_sub), ("push_back", p_c), ("pluseq_s", p_s), ("pluseq_c", p_c), ("pluseq_u", p_c), ("pluseq_cp", p_cp)): app("s_" + n, p)
for n, p in (("assign_pp", p_pp), ("assign_pn", p_pn), ("assign_cp", p_cp), ("assign_s", p_s), ("assign_sub", p_sub), ("assign_nc", p_nc), ("eq_s", p_s), ("eq_c", p_c), ("eq_cp", p_cp)): asg("s_" + n, p)
def selfasg(func):
    @contract(P_, func, G, func + "_self")
    def g(c):
        m = Str(c); c.run(m.o, m.o, post=lambda r: txt(c, m, m.n, m.old))
selfasg("s_eq_s"); selfasg("s_assign_s")
@st("s_pop_back")
def g(c):
    m = Str(c, lo=1, kinds=("owned", "linked")); c.run(m.o, post=lambda r: txt(c, m, m.n - 1, m.old))
@st("s_plus")
def g(c):
    o = fresh_obj(c, "r"); a, b = src(c, "a"), src(c, "b")
    c.run(o, a.o, b.o, post=lambda r: txt(c, o, a.n + b.n, ins(a.old, a.n, b.n, b.old)))
@st("s_plus_cp")
def g(c):
    o = fresh_obj(c, "r"); a = p_cpnn(c); b = src(c, "b")
    c.run(o, *a.args, b.o, post=lambda r: txt(c, o, a.n + b.n, ins(a.ch, a.n, b.n, b.old)))
@st("s_substr")
def g(c):
    o = fresh_obj(c, "r"); p = p_sub(c); c.run(o, *p.args, post=lambda r: txt(c, o, p.n, p.ch))
# ---- moves and swaps
def taken(c, o, s, label):
    p, B = check(c, o, U8, label, s.n, s.old, cls="str", term=1 if s.A is not None else 0)
    c.ensure("%s: same storage" % label, same_storage(c, p, s)); c.ensure("%s: same capacity" % label, eq(c.fld(o, 24), s.cap))
@st("s_ctor_move")
def g(c):
    o = fresh_obj(c); s = Str(c, "s")
    c.run(o, s.o, post=lambda r: (taken(c, o, s, "target"), check(c, s.o, U8, "source", None, None, cls="str")))
def mv(name, strong):
    @st(name)
    def g(c):
        m, s = Str(c, "m"), Str(c, "s")
        def post(r):
            taken(c, m.o, s, "target")
            if strong: taken(c, s.o, m, "source")
            else: check(c, s.o, U8, "source", None, None, cls="str")
        c.run(m.o, s.o, post=post)
mv("s_eq_move", False); mv("s_assign_move", False); mv("s_swap", True); mv("s_uswap", True)
# ---- copying out
def out(func, nul):
    @st(func)
    def g(c):
        m = src(c, "m"); n = c.size("n", lo=2 if nul else 1, hi=LIM); pos = c.size("pos", hi=m.n)
        B = c.arr("out", n=n, T=U8); c.modifies(B); k = imin(n - (1 if nul else 0), m.n - pos)
        def post(r):
            c.ensure("number of characters copied", eq(r.n, k))
            c.ensure("copied characters", forall(0, k, lambda j: eq(B[j], m.old(pos + j))))
            if nul: c.ensure("terminated", eq(B[k], 0))
            c.ensure("rest untouched", forall(k + (1 if nul else 0), n, lambda j: eq(B[j], B.old(j))))
        c.run(m.o, B, n, pos, post=post)
out("s_copy_out", False); out("s_copyto", True)
# ---- insertion: piece p inserted at position ip
def insp(name, piece, it=False, ret=False, lim=None):
    @st(name)
    def g(c):
        m = Str(c, kinds=("owned", "linked") if it else ("owned", "linked", "null"))
        q = c.size("ip", hi=m.n if it else lim or NPOS); ip = q if it else imin(q, m.n); p = piece(c)
        def post(r):
            _, B = txt(c, m, m.n + p.n, ins(m.old, ip, p.n, p.ch))
            if ret and B is not None: c.ensure("returns the inserted text", eq(idx_in(c, r.v, B), ip))
        c.run(m.o, m.at(ip) if it else q, *p.args, post=post)
insp("s_ins_pnc", p_nc); insp("s_ins_pcp", p_cpnn); insp("s_ins_ppn", p_pn); insp("s_ins_ps", p_s); insp("s_ins_psub", p_sub); insp("s_ins_ipn", p_pn); insp("s_ins_inc", p_nc)
insp("s_ins_itnc", p_nc, True, True); insp("s_ins_itc", p_c, True, True); insp("s_ins_itpp", p_pp, True, True)
# ---- erasure
def ers(name, args, ret):
    @st(name)
    def g(c):
        m = Str(c, kinds=("owned", "linked", "null")); a, ep, k = args(c, m)
        def post(r):
            _, B = txt(c, m, m.n - k, era(m.old, ep, k))
            if ret and B is not None: c.ensure("returns the position", eq(idx_in(c, r.v, B), ep))
        c.run(m.o, *a, post=post)
def e_itn(c, m):
    ep, k = c.size("ep", hi=m.n), c.size("k", hi=m.n); c.require(ep + k <= m.n); return (m.at(ep), k), ep, k
def e_it(c, m):
    if m.kind == "null": raise SpecSkip()
    ep = c.size("ep", hi=m.n); c.require(ep + 1 <= m.n); return (m.at(ep),), ep, 1
def e_pn(c, m):
    ep, k = c.size("ep", hi=m.n), c.size("k", hi=NPOS); return (ep, k), ep, imin(k, m.n - ep)
def e_p(c, m):
    ep = c.size("ep", hi=m.n); return (ep,), ep, m.n - ep
def e_itit(c, m):
    a, b = c.size("a", hi=m.n), c.size("b", hi=m.n); c.require(a <= b); return (m.at(a), m.at(b)), a, b - a
def e_pp(c, m):
    a, b = c.size("a", hi=NPOS), c.size("b", hi=NPOS); c.require(a <= b); return (a, b), imin(a, m.n), imin(b, m.n) - imin(a, m.n)
ers("s_er_itn", e_itn, True); ers("s_er_it", e_it, True); ers("s_er_pn", e_pn, False); ers("s_er_p", e_p, False); ers("s_er_in", e_pn, False); ers("s_er_itit", e_itit, True); ers("s_eraser", e_pp, True)
# ---- replacement of [a,b) by a piece
def rep(name, piece, it):
    @st(name)
    def g(c):
        m = Str(c, kinds=("owned", "linked"))
        if it:
            a, b = c.size("a", hi=m.n), c.size("b", hi=m.n); c.require(a <= b); A = [m.at(a), m.at(b)]
        else:
            q, k = c.size("rp", hi=NPOS), c.size("k", hi=NPOS); A = [q, k]; a, b = imin(q, m.n), imin(q + k, m.n)
        p = piece(c)
        def post(r):
            txt(c, m, m.n - (b - a) + p.n, lambda j: ite3(j < a, lambda: m.old(j), lambda: ite3(j < a + p.n, lambda: p.ch(j - a), lambda: m.old(j - p.n + (b - a)))))
        c.run(m.o, *A, *p.args, post=post)
rep("s_rep_pp", p_pp, True); rep("s_rep_s", p_s, True); rep("s_rep_cp", p_cp, True); rep("s_rep_pn", p_pn, True)
rep("s_rep_ns", p_s, False); rep("s_rep_nsub", p_sub, False); rep("s_rep_npn", p_pn, False); rep("s_rep_ncp", p_cpnn, False)
# ---- observers
def ob(func, want, kinds=("owned", "linked"), lo=0, arg=None):
    @st(func)
    def g(c):
        m = Str(c, kinds=kinds, const=True, lo=lo); i = arg(c, m) if arg else None
        c.run(m.o, *([i] if arg else []), post=lambda r: c.ensure("value", want(c, r, m, i)))
all_ = ("owned", "linked", "null")
pt = lambda c, r, m, i: (c.isnull(r.v) if m.A is None else eq(idx_in(c, r.v, m.A), i))
ob("s_size", lambda c, r, m, i: eq(r.n, m.n), all_); ob("s_empty", lambda c, r, m, i: Iff(r.n, eq(m.n, 0)), all_)
ob("s_capacity", lambda c, r, m, i: eq(r.n, m.cap - 1 if m.kind == "owned" else 0), all_)
ob("s_max_size", lambda c, r, m, i: Or(r.n >= m.n, m.kind != "owned"), all_)
for f in ("c_str", "data", "wdata", "begin", "wbegin", "cbegin", "rend", "conv"): ob("s_" + f, lambda c, r, m, i: pt(c, r, m, 0))
for f in ("end", "wend", "cend", "rbegin"): ob("s_" + f, lambda c, r, m, i: pt(c, r, m, m.n))
pos = lambda c, m: c.size("i", hi=NPOS)
idx = lambda c, m: c.size("i", hi=m.n)
for f in ("iat", "wiat"): ob("s_" + f, lambda c, r, m, i: pt(c, r, m, imin(i, m.n)), arg=pos)
for f in ("at", "index"): ob("s_" + f, lambda c, r, m, i: eq(r.n, m.A.old(i)), arg=idx)
ob("s_wat", lambda c, r, m, i: pt(c, r, m, i), arg=idx)
ob("s_front", lambda c, r, m, i: eq(r.n, m.old(0)), lo=1); ob("s_back", lambda c, r, m, i: eq(r.n, m.old(m.n - 1)), lo=1)
ob("s_wfront", lambda c, r, m, i: pt(c, r, m, 0), lo=1); ob("s_wback", lambda c, r, m, i: pt(c, r, m, m.n - 1), lo=1)
# ---- repeated pieces: any number of repetitions of short texts, any text repeated a few times
def rep_piece(c, cp=False, lens=(1,)):
    if c.case("shape", ["short", "few"]) == "short":
        L = c.case("length", list(lens)); n = c.size("times", hi=LIM)
    else: L = None; n = c.case("times", [0, 1, 2, 3])
    A = c.cstr("p", L) if cp else c.arr("p", n=L, T=U8)
    l = A.len if cp else A.n
    if L is None: ch = (lambda j: ite3(j < l, lambda: A.old(j), lambda: ite3(j < 2 * l, lambda: A.old(j - l), lambda: A.old(j - 2 * l))))
    else: ch = lambda j: pick(A, modc(j, L), L)
    p = Piece(l * n, ch, *([A, n] if cp else [A.b, A.at(l), n])); p.L = L
    return p
from contracts.c01 import pick
def pattern_inv(c, start, p, L):
    """the heap block holds the pattern from `start` up to the running position"""
    if L is None: return
    c.inv(lambda x: forall(start, x[0], lambda j: eq(x[1][j], p.ch(j - start))), [("hx", U8)], "pattern written")
    c.inv(lambda x: eq(modc(x - start, L), 0), ["heap"], "whole repetitions", q=False)
def insn(name, cp):
    @st(name, cost=5)
    def g(c):
        m = Str(c, kinds=("owned", "linked")); ip = c.size("ip", hi=m.n); p = rep_piece(c, cp)
        pattern_inv(c, ip, p, p.L)
        def post(r):
            _, B = txt(c, m, m.n + p.n, ins(m.old, ip, p.n, p.ch))
            if B is not None: c.ensure("returns the inserted text", eq(idx_in(c, r.v, B), ip))
        c.run(m.o, m.at(ip), *p.args, post=post)
insn("s_ins_itppn", False); insn("s_ins_itcpn", True)
def repn(name, piece, it):
    @st(name, cost=5)
    def g(c):
        m = Str(c, kinds=("owned", "linked"))
        if it:
            a, b = c.size("a", hi=m.n), c.size("b", hi=m.n); c.require(a <= b); A = [m.at(a), m.at(b)]
        else:
            q, k = c.size("rp", hi=NPOS), c.size("k", hi=NPOS); A = [q, k]; a, b = imin(q, m.n), imin(q + k, m.n)
        p = piece(c); pattern_inv(c, a, p, p.L)
        def post(r):
            txt(c, m, m.n - (b - a) + p.n, lambda j: ite3(j < a, lambda: m.old(j), lambda: ite3(j < a + p.n, lambda: p.ch(j - a), lambda: m.old(j - p.n + (b - a)))))
        c.run(m.o, *A, *p.args, post=post)
def p_nc1(c):
    p = p_nc(c); p.L = 1; return p
repn("s_rep_ppn", lambda c: rep_piece(c, lens=(1,)), True); repn("s_rep_nc", p_nc1, True); repn("s_rep_nnc", p_nc1, False)
# ---- formatting (the C library's vsnprintf is assumed to produce its text)
@st("s_format")
def g(c):
    m = Str(c); A = c.cstr("text"); c.formats = A; c.peel = 3
    def post(r):
        txt(c, m, A.len, A.old); c.ensure("returns the length", eq(sgn(r.n), A.len))
    c.run(m.o, A, post=post)
