"""C20 raw storage: every element of the range is constructed (destroyed) exactly once, nothing else is touched"""
from vf.spec import *
from contracts.c06 import Q, Q_LIVE
Q_DEAD = 0x11111111
P_, G = "C20", "umem"
LIM = 1 << 29
def um(name, kinds="kq"):
    def d(f):
        for t in kinds: contract(P_, "%s_%s" % (t, name), G, "um_%s_%s" % (t, name))(lambda c, t=t: f(c, t))
        return f
    return d
def T_(t): return K if t == "k" else Q
def raw(c, t, n=None, name="R"):
    """raw storage: no element in it is alive"""
    R = c.arr(name, n, T=T_(t)); c.require(R.n <= LIM); c.modifies(R)
    if t == "q":
        if c.sym: c.require(forall(0, R.n, lambda j: Not(eq(R.f(j, 1), Q_LIVE))))
        else:
            for j in range(R.n): R.set(j, 0x33333333, 1)
    return R
def live(c, t, n=None, name="A"):
    A = c.arr(name, n, T=T_(t)); c.require(A.n <= LIM)
    if t == "q":
        if c.sym: c.require(forall(0, A.n, lambda j: eq(A.f(j, 1), Q_LIVE)))
        else:
            for j in range(A.n): A.set(j, Q_LIVE, 1)
    return A
def counts(c, born, gone):
    c.ensure("constructor calls", eq(c.ghost("born"), born)); c.ensure("destructor calls", eq(c.ghost("gone"), gone))
def built(c, t, R, n, val):
    ok = lambda j: And(eq(R.f(j, 0), val(j)), True if t == "k" else eq(R.f(j, 1), Q_LIVE))
    c.inv(lambda x: forall(0, x, lambda j: Or(j >= R.n, ok(j))), [R], "constructed so far")
    if t == "q": c.inv(lambda x: eq(c.ghost("born"), c.ghost("gone") + x), [R], "calls so far", q=False)
    def post(r, ret=False):
        c.ensure("every element has its value", forall(0, n, lambda j: eq(R.f(j, 0), val(j))))
        if t == "q":
            c.ensure("every element is alive", forall(0, n, lambda j: eq(R.f(j, 1), Q_LIVE)))
            c.ensure("one more construction than destruction per element", eq(c.ghost("born"), c.ghost("gone") + n))
        if ret: c.ensure("returns the end of the output", eq(r.idx(R), n))
    return post
zero = lambda j: 0
for nm, cnt in (("dc", 0), ("dcn", 1), ("con", 0), ("vc", 0), ("vcn", 1)):
    @um(nm)
    def g(c, t, cnt=cnt):
        R = raw(c, t); c.run(R.b, R.n if cnt else R.e, post=built(c, t, R, R.n, zero))
for nm, cnt in (("copy", 0), ("copy_n", 1), ("move", 0), ("move_n", 1)):
    @um(nm)
    def g(c, t, cnt=cnt):
        A = live(c, t); R = raw(c, t, A.n); p = built(c, t, R, R.n, A.old if t == "k" else lambda j: A.old(j, 0))
        c.run(A.b, A.n if cnt else A.e, R.b, post=lambda r: p(r, True))
for nm, cnt in (("fill", 0), ("fill_n", 1)):
    @um(nm)
    def g(c, t, cnt=cnt):
        R = raw(c, t); v = live(c, t, 1, "v"); x = v.old(0) if t == "k" else v.old(0, 0); p = built(c, t, R, R.n, lambda j: x)
        c.run(R.b, R.n if cnt else R.e, v.p, post=lambda r: p(r, bool(cnt)))
for nm, cnt in (("destroy", 0), ("destroy_n", 1)):
    @um(nm)
    def g(c, t, cnt=cnt):
        A = live(c, t); c.modifies(A)
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, eq(A.f(j, 1), Q_DEAD))), [A], "destroyed so far") if t == "q" else None
        c.inv(lambda x: forall(x, A.n, lambda j: Or(j < 0, eq(A.f(j, 1), Q_LIVE))), [A], "still alive") if t == "q" else None
        c.inv(lambda x: eq(c.ghost("gone"), x), [A], "calls so far", q=False)
        def post(r):
            if t == "q": counts(c, 0, A.n); c.ensure("every element is destroyed", forall(0, A.n, lambda j: eq(A.f(j, 1), Q_DEAD)))
            else: c.ensure("plain elements are left as they are", forall(0, A.n, lambda j: eq(A[j], A.old(j))))
        c.run(A.b, A.n if cnt else A.e, post=post)
def single(nm, mk, kinds="kq"):
    @um(nm, kinds)
    def g(c, t):
        R = raw(c, t, 1); args, val = mk(c, t, R)
        def post(r):
            if val is not None: c.ensure("the value", eq(R.f(0, 0), val))
            if t == "q": c.ensure("alive", eq(R.f(0, 1), Q_LIVE)); counts(c, 1, 0)
        c.run(*args, post=post)
def s0(c, t, R): return [R.b], 0 if t == "q" else None
def s1(c, t, R): v = live(c, t, 1, "v"); return [R.b, v.b], v.old(0) if t == "k" else v.old(0, 0)
single("cat", s0, "q"); single("cone", s0, "q"); single("catv", s1); single("catm", s1)
for nm in ("dat", "done"):
    @um(nm)
    def g(c, t):
        A = live(c, t, 1); c.modifies(A)
        c.run(A.b, post=lambda r: (counts(c, 0, 1), c.ensure("destroyed", eq(A.f(0, 1), Q_DEAD))) if t == "q" else c.ensure("left as it is", eq(A[0], A.old(0))))
@um("tmp")
def g(c, t):
    A = c.arr("buf", T=U8); z = c.case("buffer", ["null", "given"]); n = c.size("n", hi=1 << 40); o = c.obj("out", 8); c.modifies(o)
    def post(r):
        v = c.ptr(o, 0)
        if z == "null": c.ensure("no buffer: null and size 0", c.isnull(v) and eq(r.n, 0)) if not c.sym else (c.ensure("no buffer: null", c.isnull(v)), c.ensure("size 0", eq(r.n, 0)))
        else: c.ensure("the buffer", v.r is A.r if c.sym else v == A.b); c.ensure("its size", eq(r.n, n))
    c.run(c.null if z == "null" else A.b, n, o, post=post)
