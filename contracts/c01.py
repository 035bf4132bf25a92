"""C01 memory blocks"""
from vf.spec import *
from contracts.blk import *
G = "mem"
P_ = "C01"
def mb(name, **kw): return contract(P_, name, G, name, **kw)
def buf(c, name="p", n=None):
    A = c.arr(name, T=U8, n=n)
    return A, A.n

def link_src(c, name, cls, hi=1 << 32):
    """an object of the given class to copy from"""
    return Blk(c, name, cls=cls, kinds=("owned", "linked", "null") if cls == "mb" else ("linked", "null"), const=True, hi=hi)

# ---- construction
@mb("mb_ctor")
def g(c):
    o = fresh_obj(c); c.run(o, post=lambda r: check(c, o, U8, "block", 0, None, linked=True))
@mb("mb_ctor_pn")
def g(c):
    o = fresh_obj(c); A, n = buf(c)
    c.run(o, A, n, post=lambda r: check(c, o, U8, "block", n, A.old, cap_min=n))
@mb("mb_ctor_n")
def g(c):
    o = fresh_obj(c); n = c.size("n"); c.run(o, n, post=lambda r: check(c, o, U8, "block", n, None, cap_min=n))
def ctor_from(fname, cls):
    @mb(fname)
    def g(c):
        o = fresh_obj(c); s = link_src(c, "src", cls)
        c.run(o, s.o, post=lambda r: check(c, o, U8, "copy", s.n, s.old, cap_min=s.n))
ctor_from("mb_ctor_cl", "cl"); ctor_from("mb_ctor_l", "ml"); ctor_from("mb_ctor_mb", "mb")
def taken(c, o, s):
    """o now holds exactly the storage s held"""
    p, B = check(c, o, U8, "target", s.n, s.old)
    c.ensure("target: same storage", same_storage(c, p, s)); c.ensure("target: same capacity", eq(c.fld(o, 24), s.cap))
def same_storage(c, p, s):
    if s.A is None: return c.isnull(p)
    if not c.sym: return p == s.A.addr
    return isinstance(p, P) and p.r is s.A.r and eq(p.i, 0)
@mb("mb_ctor_move")
def g(c):
    o = fresh_obj(c); s = Blk(c, "src")
    def post(r):
        taken(c, o, s); check(c, s.o, U8, "source", 0, None, linked=True)
    c.run(o, s.o, post=post)
def dtor(name):
    @mb(name)
    def g(c):
        m = Blk(c, "m")
        c.run(m.o)          # everything it owned must have been freed, and nothing else
dtor("mb_dtor"); dtor("mb_vdtor")
# ---- storage
@mb("mb_unlink")
def g(c):
    m = Blk(c, "m")
    def post(r):
        check(c, m.o, U8, "m", 0, None, linked=True)
        if m.kind == "owned": c.owns(m.A.r)        # unlink forgets the block without freeing it
    c.run(m.o, post=post)
def exactly(c, m, n, exact, mfc=0):
    """capacity rule: never reduced, at least what was asked; exact when asked and reallocated"""
    cap = c.fld(m.o, 24)
    c.ensure("capacity is sufficient", Or(n + mfc <= cap, And(eq(n, 0), eq(m.cap, 0))))
    c.ensure("capacity is never reduced", m.cap <= cap)
    c.ensure("sufficient capacity is left alone", Imp(n + mfc <= m.cap, eq(cap, m.cap)))
    c.ensure("exact capacity when asked for", Imp(And(exact, m.cap < n + mfc), eq(cap, (n if m.kind == "owned" else imax(n, m.n)) + mfc)))
def resize(name, nargs):
    @mb(name)
    def g(c):
        m = Blk(c, "m"); n = c.size("n"); x = c.bool("exact") if nargs == 3 else True
        def post(r):
            k = imin(n, m.n)
            p, B = check(c, m.o, U8, "m", n, None)
            if B is not None: c.ensure("common prefix preserved", forall(0, k, lambda j: eq(B[j], m.old(j))))
            exactly(c, m, n, x)
            if m.kind != "owned": c.ensure("linked data is copied unless empty", Or(eq(n, 0), c.fld(m.o, 24) > 0))
        c.run(m.o, n, *([x] if nargs == 3 else []), post=post)
resize("mb_resize", 3); resize("mb_resize1", 2)
@mb("mb_reserve")
def g(c):
    m = Blk(c, "m"); n = c.size("n"); x = c.bool("exact")
    def post(r):
        check(c, m.o, U8, "m", m.n, m.old); exactly(c, m, n, x)
    c.run(m.o, n, x, post=post)
@mb("mb_clear")
def g(c):
    m = Blk(c, "m")
    def post(r):
        check(c, m.o, U8, "m", 0, None); c.ensure("capacity kept", eq(c.fld(m.o, 24), m.cap))
    c.run(m.o, post=post)
@mb("mb_deallocate")
def g(c):
    m = Blk(c, "m"); c.run(m.o, post=lambda r: check(c, m.o, U8, "m", 0, None, linked=True))
@mb("mb_shrink")
def g(c):
    m = Blk(c, "m")
    def post(r):
        check(c, m.o, U8, "m", m.n, m.old); c.ensure("capacity is the size", eq(c.fld(m.o, 24), m.n if m.kind == "owned" else 0))
    c.run(m.o, post=post)
@mb("mb_manage")
def g(c):
    m = Blk(c, "m", kinds=("null", "linked")); A = c.arr("p", T=U8, heap=True, n=c.size("n", lo=1)); c.modifies(A)
    c.run(m.o, A, A.n, post=lambda r: (check(c, m.o, U8, "m", A.n, A.old, cap_min=A.n), c.ensure("that block", same_storage(c, c.ptr(m.o, 8), type("S", (), dict(A=A))))))
@mb("mb_managel")
def g(c):
    m = Blk(c, "m", kinds=("null", "linked")); A = c.arr("p", T=U8, heap=True, n=c.size("n", lo=1)); c.modifies(A)
    l = c.obj("l", 24, [(0, 8, c.vtable(VT["ml"])), (8, 8, A.b), (16, 8, A.n)])
    c.run(m.o, l, post=lambda r: check(c, m.o, U8, "m", A.n, A.old, cap_min=A.n))
@mb("mb_copy_link")
def g(c):
    m = Blk(c, "m"); c.run(m.o, post=lambda r: (check(c, m.o, U8, "m", m.n, m.old), c.ensure("owns its content", Or(eq(m.n, 0), c.fld(m.o, 24) > 0))))
@mb("mb_assign_pn")
def g(c):
    m = Blk(c, "m"); A, n = buf(c)
    c.run(m.o, A, n, post=lambda r: check(c, m.o, U8, "m", n, A.old, cap_min=n))
def assign_from(fname, cls):
    @mb(fname)
    def g(c):
        m = Blk(c, "m"); s = link_src(c, "src", cls)
        c.run(m.o, s.o, post=lambda r: check(c, m.o, U8, "m", s.n, s.old, cap_min=s.n))
assign_from("mb_assign_cl", "cl"); assign_from("mb_eq_cl", "cl"); assign_from("mb_eq_l", "ml"); assign_from("mb_eq_mb", "mb")
@contract(P_, "mb_eq_mb", G, "mb_eq_self")
def g(c):
    m = Blk(c, "m"); c.run(m.o, m.o, post=lambda r: check(c, m.o, U8, "m", m.n, m.old))
def swaps(name, func):
    @contract(P_, func, G, name)
    def g(c):
        m, s = Blk(c, "m"), Blk(c, "s")
        c.run(m.o, s.o, post=lambda r: (taken(c, m.o, s), taken(c, s.o, m)))
swaps("mb_swap", "mb_swap")
@mb("mb_eq_move")
def g(c):
    m, s = Blk(c, "m"), Blk(c, "s")
    def post(r):
        taken(c, m.o, s)
        p = c.ptr(s.o, 8); q = c.fld(s.o, 24)
        check(c, s.o, U8, "source", None, None)      # valid, unspecified content
    c.run(m.o, s.o, post=post)
@mb("mb_insert")
def g(c):
    m = Blk(c, "m"); ip = c.size("ip", hi=m.n); n = c.size("n")
    def post(r):
        p, B = check(c, m.o, U8, "m", m.n + n, None)
        if B is None: return
        c.ensure("bytes before the gap", forall(0, ip, lambda j: eq(B[j], m.old(j))))
        c.ensure("bytes after the gap", forall(ip, m.n, lambda j: eq(B[j + n], m.old(j))))
        c.ensure("returns the gap", eq(idx_in(c, r.v, B), ip))
    c.run(m.o, m.at(ip), n, post=post)
def idx_in(c, v, B):
    """index of pointer v in the block B"""
    if not c.sym: return (v - B.addr) // B.T.size if (v - B.addr) % B.T.size == 0 else -1
    if not isinstance(v, P) or v.r is not B.r: return -1
    return norm(v.i - B.off) if isz(v.i) or isz(B.off) else v.i - B.off
@mb("mb_erase")
def g(c):
    m = Blk(c, "m"); n = c.size("n", hi=m.n); ep = c.size("ep", hi=m.n); c.require(ep + n <= m.n)
    def post(r):
        p, B = check(c, m.o, U8, "m", m.n - n, era(m.old, ep, n))
        if B is not None: c.ensure("returns the position", eq(idx_in(c, r.v, B), ep))
    c.run(m.o, m.at(ep), n, post=post)
# ---- observers
def obs(func, cls, want, kinds=None):
    @mb(func)
    def g(c):
        m = Blk(c, "m", cls=cls, kinds=kinds or (("owned", "linked", "null") if cls == "mb" else ("linked", "null")), const=True)
        c.run(m.o, post=lambda r: c.ensure("value", want(c, r, m)))
ptr_at = lambda c, r, m, i: (c.isnull(r.v) if m.A is None else eq(idx_in(c, r.v, m.A), i))
obs("mb_capacity", "mb", lambda c, r, m: eq(r.n, m.cap)); obs("mb_is_linked", "mb", lambda c, r, m: Iff(r.n, eq(m.cap, 0)))
obs("mb_max_size", "mb", lambda c, r, m: eq(r.n, ite(eq(m.cap, 0), m.n, (1 << 64) - 1) if c.sym else (m.n if m.cap == 0 else (1 << 64) - 1)))
for f in ("cl_size", "cl_rsize", "cl_max_size"): obs(f, "cl", lambda c, r, m: eq(r.n, m.n))
obs("ml_wsize", "ml", lambda c, r, m: eq(r.n, m.n))
obs("cl_empty", "cl", lambda c, r, m: Iff(r.n, eq(m.n, 0)))
for f in ("cl_data", "cl_cdata", "cl_begin"): obs(f, "cl", lambda c, r, m: ptr_at(c, r, m, 0))
for f in ("ml_data", "ml_begin"): obs(f, "ml", lambda c, r, m: ptr_at(c, r, m, 0))
obs("cl_end", "cl", lambda c, r, m: ptr_at(c, r, m, m.n)); obs("ml_end", "ml", lambda c, r, m: ptr_at(c, r, m, m.n))
def iat(func, cls):
    @mb(func)
    def g(c):
        m = Blk(c, "m", cls=cls, kinds=("linked",), const=True); i = c.size("i", hi=m.n)
        c.run(m.o, i, post=lambda r: c.ensure("element i", eq(idx_in(c, r.v, m.A), i)))
iat("cl_iat", "cl"); iat("ml_iat", "ml")
# ---- links
def linked_to(c, o, A, n, cls, i=0):
    p = c.ptr(o, 8)
    c.ensure("size", eq(c.fld(o, 16), n))
    c.ensure("that storage", c.isnull(p) if A is None else eq(idx_in(c, p, A), i))
def link_pn(func, cls):
    @mb(func)
    def g(c):
        m = Blk(c, "m", cls=cls, kinds=("linked", "null"))
        if c.case("null pointer", [False, True]):
            n = c.size("n")
            def thr(r):
                c.ensure("only a null pointer with a size is refused", n > 0); linked_to(c, m.o, m.A, m.n, cls)
            c.run(m.o, c.null, n, post=lambda r: (c.ensure("null with a size is refused", eq(n, 0)), linked_to(c, m.o, None, 0, cls)), throws=thr)
        else:
            A, n = buf(c); c.run(m.o, A, n, post=lambda r: linked_to(c, m.o, A, n, cls))
link_pn("ml_link_cp", "ml"); link_pn("ml_link_p", "ml"); link_pn("cl_link", "cl")
def link_from(func, cls, scls):
    @mb(func)
    def g(c):
        m = Blk(c, "m", cls=cls, kinds=("linked", "null")); s = link_src(c, "src", scls)
        c.run(m.o, s.o, post=lambda r: linked_to(c, m.o, s.A, s.n, cls))
for f, a, b in (("ml_link_cl", "ml", "cl"), ("ml_link_l", "ml", "ml"), ("cl_link_cl", "cl", "cl"), ("ml_eq_cl", "ml", "cl"), ("ml_eq_l", "ml", "ml"), ("cl_eq", "cl", "cl")): link_from(f, a, b)
def link_range(func, cls):
    @mb(func)
    def g(c):
        m = Blk(c, "m", cls=cls, kinds=("linked", "null")); A, n = buf(c); a, b = c.size("a", hi=n), c.size("b", hi=n); c.require(a <= b)
        c.run(m.o, A.at(a), A.at(b), post=lambda r: linked_to(c, m.o, A, b - a, cls, a))
link_range("ml_link_cc", "ml"); link_range("ml_link_vv", "ml"); link_range("cl_link_cc", "cl")
@mb("ml_relink")
def g(c):
    m = Blk(c, "m", cls="ml", kinds=("linked", "null")); A, n = buf(c); c.run(m.o, A, n, post=lambda r: linked_to(c, m.o, A, n, "ml"))
def unl(func, cls):
    @mb(func)
    def g(c):
        m = Blk(c, "m", cls=cls, kinds=("linked", "null")); c.run(m.o, post=lambda r: linked_to(c, m.o, None, 0, cls))
unl("ml_unlink", "ml"); unl("cl_unlink", "cl")
@mb("ml_resize")
def g(c):
    m = Blk(c, "m", cls="ml", kinds=("linked",)); n = c.size("n", hi=m.n); c.run(m.o, n, post=lambda r: linked_to(c, m.o, m.A, n, "ml"))
def lswap(func, cls):
    @mb(func)
    def g(c):
        m, s = Blk(c, "m", cls=cls, kinds=("linked", "null")), Blk(c, "s", cls=cls, kinds=("linked", "null"))
        c.run(m.o, s.o, post=lambda r: (linked_to(c, m.o, s.A, s.n, cls), linked_to(c, s.o, m.A, m.n, cls)))
lswap("ml_swap", "ml"); lswap("cl_swap", "cl")
def lctor(func, cls, src):
    @mb(func)
    def g(c):
        o = c.obj("m", 24); c.modifies(o)
        if src is None:
            A, n = buf(c); c.run(o, A, n, post=lambda r: linked_to(c, o, A, n, cls))
        else:
            s = link_src(c, "src", src); c.run(o, s.o, post=lambda r: linked_to(c, o, s.A, s.n, cls))
lctor("ml_ctor_pn", "ml", None); lctor("ml_ctor_cpn", "ml", None); lctor("cl_ctor_pn", "cl", None)
lctor("ml_ctor_l", "ml", "ml"); lctor("ml_ctor_cl", "ml", "cl"); lctor("cl_ctor_cl", "cl", "cl")
@mb("cl_equal")
def g(c):
    a = Blk(c, "a", cls="cl", kinds=("linked", "null"), const=True)
    if c.case("same storage", [False, True]):
        n = c.size("n", hi=a.n); b = type("S", (), {})(); b.n = n
        b.o = c.obj("b", 24, [(0, 8, c.vtable(VT["cl"])), (8, 8, a.b), (16, 8, n)]); b.old = a.old
    else: b = Blk(c, "b", cls="cl", kinds=("linked", "null"), const=True)
    def post(r):
        same = And(eq(a.n, b.n), forall(0, a.n, lambda j: eq(a.old(j), b.old(j))))
        c.ensure("equal means equal bytes", Imp(r.n, same)); c.ensure("equal bytes mean equal", Imp(same, r.n))
    c.run(a.o, b.o, post=post)
@mb("ml_insert")
def g(c):
    m = Blk(c, "m", cls="ml", kinds=("linked",)); c.modifies(m.A); ip = c.size("ip", hi=m.n); n = c.size("n", hi=m.n); c.require(ip + n <= m.n)
    def post(r):
        linked_to(c, m.o, m.A, m.n, "ml")
        c.ensure("bytes before the gap", forall(0, ip, lambda j: eq(m.A[j], m.old(j))))
        c.ensure("bytes moved behind the gap", forall(ip, m.n - n, lambda j: eq(m.A[j + n], m.old(j))))
    c.run(m.o, m.at(ip), n, post=post)
@mb("ml_erase")
def g(c):
    m = Blk(c, "m", cls="ml", kinds=("linked",)); c.modifies(m.A); ip = c.size("ip", hi=m.n); n = c.size("n", hi=m.n); c.require(ip + n <= m.n)
    def post(r):
        linked_to(c, m.o, m.A, m.n, "ml")
        c.ensure("bytes before the hole", forall(0, ip, lambda j: eq(m.A[j], m.old(j))))
        c.ensure("bytes moved over the hole", forall(ip, m.n - n, lambda j: eq(m.A[j], m.old(j + n))))
    c.run(m.o, m.at(ip), n, post=post)
def fill(func, many):
    @mb(func)
    def g(c):
        m = Blk(c, "m", cls="ml", kinds=("linked",)); c.modifies(m.A)
        es = c.case("element size", [1, 2, 3, 4, 8]) ; cnt = c.size("cnt") if many else 1
        s = c.size("s", hi=m.n); c.require(s + es * cnt <= m.n); V = c.arr("v", n=es, T=U8)
        # byte j of the range comes from byte (j-s) mod es of the pattern
        c.inv(lambda x: forall(s, x, lambda j: eq(m.A[j], pick(V, modc(j - s, es), es))), [m.A], "written")
        c.inv(lambda x: eq(modc(x - s, es), 0), [m.A], "whole elements", q=False)
        def post(r):
            linked_to(c, m.o, m.A, m.n, "ml")
            c.ensure("range filled with the pattern", forall(s, s + es * cnt, lambda j: eq(m.A[j], pick(V, modc(j - s, es), es))))
            c.ensure("bytes before untouched", forall(0, s, lambda j: eq(m.A[j], m.old(j))))
            c.ensure("bytes after untouched", forall(s + es * cnt, m.n, lambda j: eq(m.A[j], m.old(j))))
        c.run(m.o, m.at(s), V, es, *([cnt] if many else []), post=post)
def pick(V, k, es):
    if not isz(k): return V.old(k)
    e = V.old(es - 1)
    for q in reversed(range(es - 1)): e = ite(eq(k, q), V.old(q), e)
    return e
fill("ml_fill", True); fill("ml_fill1", False)

# ---- allocation failure: std::bad_alloc, and the block is exactly as it was
def oom(func, args):
    @contract(P_, func, G, func + "_oom")
    def g(c):
        c.no_oom = False
        m = Blk(c, "m"); a = args(c, m)
        def thr(r):
            check(c, m.o, U8, "unchanged", m.n, m.old)
            c.ensure("unchanged: same storage and capacity", And(same_storage(c, c.ptr(m.o, 8), m), eq(c.fld(m.o, 24), m.cap)))
        c.run(m.o, *a, post=lambda r: check(c, m.o, U8, "m", None, None), throws=thr)
oom("mb_resize", lambda c, m: (c.size("n"), c.bool("exact"))); oom("mb_reserve", lambda c, m: (c.size("n"), c.bool("exact")))
oom("mb_shrink", lambda c, m: ()); oom("mb_copy_link", lambda c, m: ())
def gap(c, m):
    ip = c.size("ip", hi=m.n); return m.at(ip), c.size("n")
oom("mb_insert", gap)
def hole(c, m):
    n = c.size("n", hi=m.n); ep = c.size("ep", hi=m.n); c.require(ep + n <= m.n); return m.at(ep), n
oom("mb_erase", hole)
oom("mb_assign_pn", lambda c, m: (lambda A: (A, A.n))(c.arr("p", T=U8)))
def ctor_oom(func, args):
    @contract(P_, func, G, func + "_oom")
    def g(c):
        c.no_oom = False
        o = fresh_obj(c); a = args(c)
        c.run(o, *a, post=lambda r: check(c, o, U8, "m", None, None), throws=lambda r: None)     # nothing leaked
ctor_oom("mb_ctor_n", lambda c: (c.size("n"),)); ctor_oom("mb_ctor_pn", lambda c: (lambda A: (A, A.n))(c.arr("p", T=U8))); ctor_oom("mb_ctor_mb", lambda c: (link_src(c, "src", "mb").o,))
