"""C02 raw memory primitives"""
from vf.spec import *
G = "prim"
P_ = "C02"
def done_inv(c, D, d, n, val, old):
    """the first/last part of D[d,d+n) is written, the rest is as before"""
    N_ = D.n
    c.inv(lambda x: forall(d, x, lambda j: Or(j >= d + n, eq(D[j], val(j - d)))), [D], "written before")
    c.inv(lambda x: forall(x, d + n, lambda j: Or(j < d, eq(D[j], val(j - d)))), [D], "written after")
    c.inv(lambda x: forall(x, N_, lambda j: eq(D[j], old(j))), [D], "unwritten after")
    c.inv(lambda x: forall(0, x, lambda j: eq(D[j], old(j))), [D], "unwritten before")

def layouts(c, up, T=U8):
    """(S, s, D, d, n): n elements at S[s..] and D[d..]; disjoint blocks or one block in the direction that is allowed"""
    if c.case("overlap", [False, True]):
        D = c.arr("D", T=T); n = c.size("len", hi=D.n)
        s, d = c.size("s", hi=D.n), c.size("d", hi=D.n)
        c.require(And(s + n <= D.n, d + n <= D.n))
        c.require(d <= s if up else s <= d)
        return D, s, D, d, n
    S = c.arr("S", T=T); D = c.arr("D", T=T); n = c.size("len", hi=D.n)
    s, d = c.size("s", hi=S.n), c.size("d", hi=D.n)
    c.require(And(s + n <= S.n, d + n <= D.n))
    return S, s, D, d, n
def copied(c, S, s, D, d, n):
    def post():
        c.ensure("destination holds the source bytes", forall(0, n, lambda j: eq(D[d + j], S.old(s + j))))
        c.ensure("bytes before the destination untouched", forall(0, d, lambda j: eq(D[j], D.old(j))))
        c.ensure("bytes after the destination untouched", forall(d + n, D.n, lambda j: eq(D[j], D.old(j))))
    return post
def cpy(name, func, up, mk, ret=None, T=U8, **kw):
    @contract(P_, func, G, name, **kw)
    def g(c):
        S, s, D, d, n = layouts(c, up, T)
        c.modifies(D)
        done_inv(c, D, d, n, lambda k: S.old(s + k), lambda j: D.old(j))
        p = copied(c, S, s, D, d, n)
        def post(r):
            p()
            if ret == "end": c.ensure("returns the end of the output", eq(r.idx(D), d + n))
            if ret == "begin": c.ensure("returns the begin of the output", eq(r.idx(D), d))
        c.run(*mk(S, s, D, d, n), post=post)
cpy("copy_n_fast", "copy_n_fast", True, lambda S, s, D, d, n: (S.at(s), n, D.at(d)), inline=["copy_n_fast"], cost=5)
cpy("copy_backward_fast", "copy_backward_fast", False, lambda S, s, D, d, n: (S.at(s), S.at(s + n), D.at(d + n)), inline=["copy_backward_fast"], cost=5)
def fills(name, func, T, mk, val=None, ret=None, **kw):
    @contract(P_, func, G, name, **kw)
    def g(c):
        D = c.arr("D", T=T); n = c.size("len", hi=D.n); d = c.size("d", hi=D.n); c.require(d + n <= D.n)
        if val == "ref": e = c.elem("v", T); v, a = e.old(0), e.p
        else: v = a = c.num("v", 8 * T.size)
        vv = v
        c.modifies(D)
        done_inv(c, D, d, n, lambda k: vv, lambda j: D.old(j))
        def post(r):
            c.ensure("every element has the value", forall(d, d + n, lambda j: eq(D[j], vv)))
            c.ensure("elements before untouched", forall(0, d, lambda j: eq(D[j], D.old(j))))
            c.ensure("elements after untouched", forall(d + n, D.n, lambda j: eq(D[j], D.old(j))))
            if ret: c.ensure("returns the end", eq(r.idx(D), d + n))
        c.run(*mk(D, d, n, a), post=post)
for w, T in ((8, U8), (16, U16), (32, U32)):
    fills("fill_n%d_fast" % w, "fill_n%d_fast" % w, T, lambda D, d, n, v: (D.at(d), n, v), inline=["fill_n%d_fast" % w], cost=5)
def rot(name, func, T, **kw):
    @contract(P_, func, G, name, **kw)
    def g(c):
        A = c.arr("A", T=T); lo, m, hi = c.size("lo", hi=A.n), c.size("m", hi=A.n), c.size("hi", hi=A.n)
        c.require(And(lo <= m, m <= hi)); c.modifies(A)
        def post(r):
            c.ensure("second part moved to the front", forall(0, hi - m, lambda j: eq(A[lo + j], A.old(m + j))))
            c.ensure("first part moved behind it", forall(0, m - lo, lambda j: eq(A[lo + (hi - m) + j], A.old(lo + j))))
            c.ensure("elements before untouched", forall(0, lo, lambda j: eq(A[j], A.old(j))))
            c.ensure("elements after untouched", forall(hi, A.n, lambda j: eq(A[j], A.old(j))))
        c.run(A.at(lo), A.at(m), A.at(hi), post=post)
rot("rotate_fast", "rotate_fast", U8, inline=["rotate_fast"])
TY = dict(uint8_t=U8, uint16_t=U16, uint32_t=U32, int8_t=U8, int16_t=U16, int32_t=U32, char=U8, K=K)
for t, T in TY.items():
    A3 = lambda S, s, D, d, n: (S.at(s), S.at(s + n), D.at(d))
    cpy("copy_" + t, "h_copy_" + t, True, A3, "end", T)
    cpy("mcopy_" + t, "h_mcopy_" + t, True, A3, "end", T)
    cpy("copy_n_" + t, "h_copy_n_" + t, True, lambda S, s, D, d, n: (S.at(s), n, D.at(d)), "end", T)
    cpy("copy_backward_" + t, "h_copy_backward_" + t, False, lambda S, s, D, d, n: (S.at(s), S.at(s + n), D.at(d + n)), None if t in () else None, T)
    cpy("mcopy_backward_" + t, "h_mcopy_backward_" + t, False, lambda S, s, D, d, n: (S.at(s), S.at(s + n), D.at(d + n)), None, T)
    fills("fill_" + t, "h_fill_" + t, T, lambda D, d, n, v: (D.at(d), D.at(d + n), v), "ref")
    fills("fill_nn_" + t, "h_fill_n_" + t, T, lambda D, d, n, v: (D.at(d), n, v), "ref", True)
    rot("rotate_" + t, "h_rotate_" + t, T)
cpy("copy_void", "h_copy_void", True, lambda S, s, D, d, n: (S.at(s), S.at(s + n), D.at(d)), "end")
cpy("copy_n_void", "h_copy_n_void", True, lambda S, s, D, d, n: (S.at(s), n, D.at(d)), "end")
cpy("copy_backward_void", "h_copy_backward_void", False, lambda S, s, D, d, n: (S.at(s), S.at(s + n), D.at(d + n)), None)
for q in ("void", "voidc"):
    fills("fill_" + q, "h_fill_" + q, U8, lambda D, d, n, v: (D.at(d), D.at(d + n), v), "ref")
    fills("fill_nn_" + q, "h_fill_n_" + q, U8, lambda D, d, n, v: (D.at(d), n, v), "ref", True)
