"""C07 set, multiset, map, multimap: sorted content, exact lookups, insertion and erasure of exactly the named keys"""
from vf.spec import *
from contracts.blk import *
from contracts.c01 import same_storage
from contracts.c06 import LIM, index_in, fillinv
G = "assoc"
P_ = "C07"
SETS, MAPS = ("s", "sg", "u", "ug"), ("m", "mg", "w", "wg")
ALL = SETS + MAPS
class Kind:
    def __init__(self, x):
        self.x, self.unique, self.map, self.gt = x, x[0] in "sm", x[0] in "mw", x.endswith("g")
        self.T = KV if self.map else K
    def key(self, v): return -key(v) if self.gt else key(v)
    def lt(self, a, b): return self.key(a) < self.key(b) if self.unique else self.key(a) <= self.key(b)
def sort_content(c, t, A, n):
    if c.sym: c.require(c.pairwise(0, n, t.lt, lambda j: A.f(j, 0)))
    else:
        k = 0; ks = []
        for j in range(n): k += c.rng.randint(1 if t.unique else 0, 2); ks.append(k * 4 + c.rng.randint(0, 3))
        if t.gt: ks.reverse()
        for j, v in enumerate(ks): A.set(j, v, 0)
class S:
    """a container argument in an arbitrary valid state"""
    def __init__(self, c, t, name="m", kinds=("owned", "linked", "null"), const=False, lo=0):
        self.c, self.t, self.T = c, t, t.T
        c.heap_elem = (t.T.size, t.T.fields)
        self.b = b = Blk(c, name, T=t.T, cls="mb", kinds=kinds, hi=LIM, const=const)
        self.o, self.n, self.A, self.cap, self.kind = b.o, b.n, b.A, b.cap, b.kind
        if lo: c.require(b.n >= lo)
        if b.A is not None: sort_content(c, t, b.A, b.n)
    def old(self, j, f=0): return self.A.old(j, f) if self.A is not None else 0
    def key(self, j): return self.t.key(self.old(j))
    def at(self, j): return self.A.at(j) if self.A is not None else self.c.null
    def has(self, k):
        k = self.t.key(k); return exists(0, self.n, lambda j: eq(self.key(j), k))
    def search(self, v):
        """invariants of a binary search for the key v"""
        c, A, n, k = self.c, self.A, self.n, self.t.key(v)
        self.lo = self.hi = 0
        if A is None: return self
        g = self.t.key
        self.lo = c.first(0, n, lambda j: g(A[j]) >= k, "lo")
        self.hi = self.lo + ite(And(self.lo < n, eq(g(A.old(self.lo)), k)), 1, 0) if self.t.unique else c.first(0, n, lambda j: g(A[j]) > k, "hi")
        for s, b in (("lower", self.lo), ("upper", self.hi)): c.inv(lambda x, b=b: x <= b, [A], "at most the %s bound" % s); c.inv(lambda x, b=b: x >= b, [A], "at least the %s bound" % s)
        c.inv(lambda x: forall(0, x, lambda j: Or(x > n, g(A[j]) < k)), [A], "left<v")
        c.inv(lambda x: forall(x, n, lambda j: Or(x < 0, g(A[j]) >= k)), [A], "right>=v")
        c.inv(lambda x: forall(0, x, lambda j: Or(x > n, g(A[j]) <= k)), [A], "left<=v")
        c.inv(lambda x: forall(x, n, lambda j: Or(x < 0, g(A[j]) > k)), [A], "right>v")
        return self
    def pos(self, r, v=None):
        """index of an iterator into the unchanged content"""
        v = r.v if v is None else v
        if self.A is None: self.c.ensure("null for no data", self.c.isnull(v)); return 0
        i = self.c.index(v, self.A); self.c.ensure("0 <= position <= size", And(0 <= i, i <= self.n)); return i
def ak(name, xs=ALL):
    def d(f):
        for x in xs:
            fn = "a%s_%s" % (x, name)
            contract(P_, fn, G, fn)(lambda c, t=Kind(x): f(c, t))
        return f
    return d
def fields(t): return range(2) if t.map else range(1)
def sorted_now(c, t, B, n, label): c.ensure("%s: sorted%s" % (label, ", keys unique" if t.unique else ""), forall(0, n - 1, lambda j: t.lt(B.f(j, 0), B.f(j + 1, 0))))
def chk(c, o, t, n, val, label="container", linked=None):
    """valid block with n elements; val(j, field)"""
    p, B = check(c, o, t.T, label, n, None, cls="mb", linked=linked)
    if B is None: return p, B
    if val is not None:
        for f in fields(t): c.ensure("%s: elements%s" % (label, " (mapped)" if f else ""), forall(0, n, lambda j: eq(B.f(j, f), val(j, f))))
    sorted_now(c, t, B, n, label)
    return p, B
def insf(old, ip, k, new): return lambda j, f: ite3(j < ip, lambda: old(j, f), lambda: ite3(j < ip + k, lambda: new(j - ip, f), lambda: old(j - k, f)))
def eraf(old, ep, k): return lambda j, f: ite3(j < ep, lambda: old(j, f), lambda: old(j + k, f))
def low(c, m, k, i, what="lower bound"):
    k = m.t.key(k)
    if m.A is None: return
    c.ensure(what + ": everything before is less", forall(0, i, lambda j: m.key(j) < k)); c.ensure(what + ": nothing from there on is less", forall(i, m.n, lambda j: m.key(j) >= k))
def upp(c, m, k, i, what="upper bound"):
    k = m.t.key(k)
    if m.A is None: return
    c.ensure(what + ": nothing before is greater", forall(0, i, lambda j: m.key(j) <= k)); c.ensure(what + ": everything from there on is greater", forall(i, m.n, lambda j: m.key(j) > k))
# ---- whole container
def copied(c, t, v):
    for f in fields(t): c.inv(lambda x, f=f: forall(0, x[0], lambda j: Or(j >= x[1].n, eq(x[1].f(j, f), v.old(j, f)))), [("hx", t.T)], "assigned")
@ak("ctor")
def g(c, t):
    c.heap_elem = (t.T.size, t.T.fields); o = fresh_obj(c); c.run(o, post=lambda r: chk(c, o, t, 0, None))
@ak("ctor_v")
def g(c, t):
    v = S(c, t, "v", const=True); o = fresh_obj(c); copied(c, t, v); c.run(o, v.o, post=lambda r: chk(c, o, t, v.n, v.old))
def taken(c, o, s, label):
    p, B = chk(c, o, s.t, s.n, s.old, label); c.ensure("%s: same storage" % label, same_storage(c, p, s.b))
@ak("ctor_move")
def g(c, t):
    v = S(c, t, "v"); o = fresh_obj(c); c.run(o, v.o, post=lambda r: (taken(c, o, v, "target"), chk(c, v.o, t, 0, None, "source")))
@ak("dtor")
def g(c, t):
    m = S(c, t); c.run(m.o, post=lambda r: None)
@ak("eq")
def g(c, t):
    m, v = S(c, t), S(c, t, "v", const=True)
    copied(c, t, v)
    c.run(m.o, v.o, post=lambda r: chk(c, m.o, t, v.n, v.old))
for q in ("eq_move", "swap"):
    @ak(q)
    def g(c, t):
        m, v = S(c, t), S(c, t, "v"); c.run(m.o, v.o, post=lambda r: (taken(c, m.o, v, "target"), taken(c, v.o, m, "source")))
@ak("clear")
def g(c, t):
    m = S(c, t); c.run(m.o, post=lambda r: chk(c, m.o, t, 0, None))
@ak("size")
def g(c, t):
    m = S(c, t, const=True); c.run(m.o, post=lambda r: c.ensure("value", eq(r.n, m.n)))
for q, e in (("begin", 0), ("end", 1), ("cbegin", 0), ("cend", 1)):
    @ak(q)
    def g(c, t, e=e):
        m = S(c, t, const=True); c.run(m.o, post=lambda r: c.ensure("position", eq(m.pos(r), m.n if e else 0)))
# ---- lookup
def kelem(c, name="k"): return c.elem(name)
for q in ("find", "cfind"):
    @ak(q)
    def g(c, t):
        m, k = S(c, t, const=True), kelem(c); m.search(k.v); x = k.old(0)
        def post(r):
            i = m.pos(r); h = m.has(x)
            c.ensure("found if present", Imp(h, i < m.n)); c.ensure("the key asked for", Imp(i < m.n, eq(m.key(i), t.key(x))))
        c.run(m.o, k.p, post=post)
for q, f in (("lower", low), ("clower", low), ("upper", upp), ("cupper", upp)):
    @ak(q)
    def g(c, t, f=f):
        m, k = S(c, t, const=True), kelem(c); m.search(k.v); x = k.old(0)
        c.run(m.o, k.p, post=lambda r: f(c, m, x, m.pos(r)))
for q in ("range", "crange"):
    @ak(q)
    def g(c, t):
        m, k = S(c, t, const=True), kelem(c); m.search(k.v); x = k.old(0); a, b = c.obj("oa", 8), c.obj("ob", 8); c.modifies(a, b)
        c.run(m.o, k.p, a.p, b.p, post=lambda r: (low(c, m, x, m.pos(r, c.ptr(a, 0)), "first"), upp(c, m, x, m.pos(r, c.ptr(b, 0)), "second")))
@ak("count")
def g(c, t):
    m, k = S(c, t, const=True), kelem(c); m.search(k.v); x = k.old(0)
    lo, hi = m.lo, m.hi
    def post(r):
        c.ensure("number of elements with the key", eq(r.n, hi - lo))
        if t.unique: c.ensure("at most one", r.n <= 1)
    c.run(m.o, k.p, post=post)
for q in ("comp", "vcomp"):
    @ak(q)
    def g(c, t, q=q):
        m = S(c, t, const=True); E = t.T if q == "vcomp" else K; a, b = c.elem("a", T=E), c.elem("b", T=E)
        c.run(m.o, a.p, b.p, post=lambda r: c.ensure("the ordering", Iff(r.n, t.key(a.old(0)) < t.key(b.old(0)))))
# ---- insertion
def elt(c, t, name="v"): return c.elem(name, T=t.T)
def inserted(c, m, v, ret=None, flag=None):
    """postcondition of inserting the element v; ret: returned iterator"""
    t = m.t; x = lambda j, f: v.old(0, f); k = t.key(v.old(0)); had = m.has(v.old(0)) if t.unique else None
    sz = c.fld(m.o, 16); n = divc(sz, t.T.size)
    p, B = check(c, m.o, t.T, "container", None, None, cls="mb")
    if t.unique: c.ensure("inserted unless the key is present", Iff(eq(n, m.n), had)); c.ensure("at most one element more", Or(eq(n, m.n), eq(n, m.n + 1)))
    else: c.ensure("one element more", eq(n, m.n + 1))
    if flag is not None: c.ensure("reports whether it was inserted", Iff(eq(c.fld(flag, 0, 1), 1), eq(n, m.n + 1)))
    if B is None: c.ensure("has data", False); return
    if ret is not None:
        i = index_in(c, ret, B)
        c.ensure("the iterator points at the key", And(0 <= i, i < n)); c.ensure("the iterator's key", eq(t.key(B.f(i, 0)), k))
    else:
        i = m.lo if t.unique else m.hi
    new = n > m.n
    for f in fields(t):
        c.ensure("new element%s" % (" (mapped)" if f else ""), Imp(new, eq(B.f(i, f), x(0, f))))
        c.ensure("elements before%s" % (" (mapped)" if f else ""), forall(0, i, lambda j: eq(B.f(j, f), m.old(j, f))))
        c.ensure("elements behind%s" % (" (mapped)" if f else ""), forall(i, m.n, lambda j: eq(B.f(j + ite(new, 1, 0), f), m.old(j, f))))
    if not t.unique: c.ensure("behind its equals", forall(0, m.n, lambda j: Or(j >= i, m.key(j) <= k))); c.ensure("before anything greater", forall(i, m.n, lambda j: m.key(j) > k))
    sorted_now(c, t, B, n, "container")
for q in ("insert", "insertm", "emplace", "emplace_back"):
    @ak(q)
    def g(c, t, q=q):
        m = S(c, t); v = elt(c, t); m.search(v.old(0))
        if q == "insertm": c.modifies(v)
        if t.unique:
            b = c.obj("ins", 1); c.modifies(b)
            c.run(m.o, v.p, b.p, post=lambda r: inserted(c, m, v, r.v, b))
        else: c.run(m.o, v.p, post=lambda r: inserted(c, m, v, r.v))
for q, xs in (("hint", ("s", "sg", "u", "ug", "m", "mg")), ("hintm", ALL), ("ehint", ALL)):
    @ak(q, xs)
    def g(c, t, q=q):
        m = S(c, t); h = c.size("hp", hi=m.n); v = elt(c, t); m.search(v.old(0))
        if q == "hintm": c.modifies(v)
        c.run(m.o, m.at(h), v.p, post=lambda r: inserted(c, m, v, r.v))
@ak("push")
def g(c, t):
    m = S(c, t); v = elt(c, t); m.search(v.old(0))
    c.run(m.o, v.p, post=lambda r: inserted(c, m, v))
# ---- erasure
KO = ("owned", "linked")
for q, xs in (("erase_k", ALL), ("erase_n", ("u", "ug"))):
    @ak(q, xs)
    def g(c, t, q=q):
        m = S(c, t); k = kelem(c); m.search(k.v); x = k.old(0)
        lo, hi = m.lo, m.hi
        def post(r):
            chk(c, m.o, t, m.n - (hi - lo), eraf(m.old, lo, hi - lo))
            if q == "erase_n": c.ensure("number of elements erased", eq(r.n, hi - lo))
        c.run(m.o, k.p, post=post)
for q in ("erase", "erase_ii"):
    @ak(q)
    def g(c, t, q=q):
        m = S(c, t, lo=1 if q == "erase" else 0, kinds=KO if q == "erase" else ("owned", "linked", "null")); e = c.size("ep", hi=m.n); n = 1 if q == "erase" else c.size("n", hi=m.n); c.require(e + n <= m.n)
        def post(r):
            p, B = chk(c, m.o, t, m.n - n, eraf(m.old, e, n))
            if B is not None: c.ensure("returns the element that followed", eq(index_in(c, r.v, B), e))
        c.run(m.o, m.at(e), *([m.at(e + n)] if q == "erase_ii" else []), post=post)
# ---- maps
for q in ("cindex", "at", "cat"):
    @ak(q, ("m", "mg"))
    def g(c, t):
        m, k = S(c, t, const=True, kinds=KO), kelem(c); m.search(k.v); x = k.old(0); i = c.size("ix", hi=m.n); c.require(i < m.n); c.require(eq(m.key(i), t.key(x)))
        def post(r):
            if not c.sym: return c.ensure("the mapped value", r.v == m.A.addr + 8 * i + 4)
            ok = isinstance(r.v, P) and r.v.r is m.A.r
            c.ensure("the mapped value", And(eq(r.v.i, i), eq(r.v.o, 4)) if ok else False)
        c.run(m.o, k.p, post=post)
@ak("index", ("m", "mg"))
def g(c, t):
    m, k = S(c, t), kelem(c); m.search(k.v); x = k.old(0); lo, hi = m.lo, m.hi
    def post(r):
        had = hi > lo; n = m.n + ite(had, 0, 1)
        p, B = chk(c, m.o, t, n, None)
        if B is None: return c.ensure("has data", False)
        for f in fields(t):
            c.ensure("elements before (field %d)" % f, forall(0, lo, lambda j: eq(B.f(j, f), m.old(j, f))))
            c.ensure("elements from there on (field %d)" % f, forall(lo, m.n, lambda j: eq(B.f(j + ite(had, 0, 1), f), m.old(j, f))))
        c.ensure("a missing key is added with a default value", Imp(Not(had), And(eq(B.f(lo, 0), x), eq(B.f(lo, 1), 0))))
        if c.sym: c.ensure("refers to the key's value", And(eq(r.v.i - B.off, lo), eq(r.v.o, 4)) if isinstance(r.v, P) and r.v.r is B.r else False)
        else: c.ensure("refers to the key's value", r.v == B.addr + 8 * lo + 4)
    c.run(m.o, k.p, post=post)
for q in ("data", "wdata", "data_ii"):
    @ak(q, ("m", "mg"))
    def g(c, t, q=q):
        m, v = S(c, t, const=True, kinds=KO if q == "data_ii" else ("owned", "linked", "null")), kelem(c, "v"); x = v.old(0)
        a, b = (c.size("a", hi=m.n), c.size("b", hi=m.n)) if q == "data_ii" else (0, m.n); c.require(a <= b)
        if m.A is not None: c.inv(lambda i: forall(a, i, lambda j: Not(keq(m.A.f(j, 1), x))), [m.A], "none so far")
        def post(r):
            i = m.pos(r)
            c.ensure("in the range", And(a <= i, i <= b)); c.ensure("nothing before", forall(a, i, lambda j: Not(keq(m.old(j, 1), x)))); c.ensure("has the value", Or(eq(i, b), keq(m.old(i, 1), x)))
        c.run(m.o, v.p, *([m.at(a), m.at(b)] if q == "data_ii" else []), post=post)
# ---- ranges: the proof covers ranges of at most one element; longer ones are sampled on the compiled code
@ak("insert_ii")
def g(c, t):
    m = S(c, t); A = c.arr("p", n=c.case("range", [0, 1]), T=t.T); c.peel_wide = 20
    if A.n == 0: return c.run(m.o, A.b, A.e, post=lambda r: chk(c, m.o, t, m.n, m.old))
    m.search(A.old(0)); c.run(m.o, A.b, A.e, post=lambda r: inserted(c, m, A))
@ak("assign")
def g(c, t):
    m = S(c, t); A = c.arr("p", n=c.case("range", [0, 1]), T=t.T); c.peel_wide = 20
    c.run(m.o, A.b, A.e, post=lambda r: chk(c, m.o, t, A.n, A.old))
@ak("ctor_ii")
def g(c, t):
    c.heap_elem = (t.T.size, t.T.fields); o = fresh_obj(c); A = c.arr("p", n=c.case("range", [0, 1]), T=t.T); c.peel_wide = 20
    c.run(o, A.b, A.e, post=lambda r: chk(c, o, t, A.n, A.old))
def sampled(q):
    def reg(x):
        @contract(P_, "a%s_%s" % (x, q), G, "a%s_%s_sampled" % (x, q), bounded=True)
        def g(c, t=Kind(x)):
            cur = []
            if q[0] == "c": c.heap_elem = (t.T.size, t.T.fields); o = fresh_obj(c)
            else:
                m = S(c, t); o = m.o
                if q != "assign": cur = [[m.old(j, f) for f in fields(t)] for j in range(m.n)]
            if q.endswith("il"): a, b = c.elem("a", T=t.T), c.elem("b", T=t.T); new = [[x_.old(0, f) for f in fields(t)] for x_ in (a, b)]; args = [a.p, b.p]
            else: A = c.arr("p", T=t.T); new = [[A.old(j, f) for f in fields(t)] for j in range(A.n)]; args = [A.b, A.e]
            for e in new:
                k = t.key(e[0]); i = 0
                while i < len(cur) and (t.key(cur[i][0]) < k if t.unique else t.key(cur[i][0]) <= k): i += 1
                if not (t.unique and i < len(cur) and t.key(cur[i][0]) == k): cur.insert(i, e)
            c.run(o, *args, post=lambda r: chk(c, o, t, len(cur), lambda j, f: cur[j][f]))
    for x in ALL: reg(x)
for q_ in ("insert_ii", "assign", "ctor_ii", "insert_il", "ctor_il"): sampled(q_)
@ak("ctor_n")
def g(c, t):
    """n default elements: for a set or map with n > 1 they are duplicates (known finding)"""
    c.heap_elem = (t.T.size, t.T.fields); o = fresh_obj(c); n = c.size("n", hi=LIM)
    for f in fields(t): c.inv(lambda x, f=f: forall(0, x[0], lambda j: Or(j >= x[1].n, eq(x[1].f(j, f), 0))), [("hx", t.T)], "constructed %d" % f)
    c.run(o, n, post=lambda r: chk(c, o, t, n, lambda j, f: 0))
