"""C04 string search and comparison"""
from vf.spec import *
from contracts.blk import *
from contracts.c03 import st as st3, Str, src, p_cpnn, NPOS, LIM
from contracts.c09 import forall_m
G = "str"
P_ = "C04"
def st(name, **kw): return contract(P_, name, G, name, **kw)
KN = ("owned", "linked", "null")
def empty_str(c, name="s"): return Blk(c, name, cls="str", kinds=("null",), mfc=1, hi=LIM, const=True)
# ---- single characters
def fc(name, last):
    @st(name)
    def g(c):
        m = src(c, "m"); ch = c.num("ch", 8); pos = c.size("pos", hi=NPOS)
        hit = lambda j: eq(m.old(j), ch)
        if last: lo, hi = 0, imin(pos + 1, m.n)
        else: lo, hi = imin(pos, m.n), m.n
        if m.A is None: return c.run(m.o, ch, pos, post=lambda r: c.ensure("npos", eq(r.n, NPOS)))
        if last: c.inv(lambda x: forall(x, hi, lambda j: Or(j < 0, j >= m.n, Not(hit(j)))), ["i"], "none after")
        else: c.inv(lambda x: forall(lo, x, lambda j: Or(j >= m.n, Not(hit(j)))), [m.A], "none before")
        def post(r):
            if last:
                c.ensure("in range", Or(eq(r.n, NPOS), r.n < hi))
                c.ensure("character at the position", Imp(r.n < hi, hit(r.n)))
                c.ensure("no later occurrence", forall(ite(eq(r.n, NPOS), 0, r.n + 1), hi, lambda j: Not(hit(j))))
            else:
                c.ensure("in range", Or(eq(r.n, NPOS), And(lo <= r.n, r.n < m.n)))
                c.ensure("character at the position", Imp(r.n < m.n, hit(r.n)))
                c.ensure("no earlier occurrence", forall(lo, imin(r.n, m.n), lambda j: Not(hit(j))))
        c.run(m.o, ch, pos, post=post)
for n in ("s_find_c", "s_find_u"): fc(n, False)
for n in ("s_rfind_c", "s_rfind_u"): fc(n, True)
# ---- substrings
def needle_s(c):
    s = src(c, "s", kinds=("owned", "linked")); c.require(s.n >= 1); return s.n, s.A, lambda pos: [s.o, pos]
def needle_p(c):
    A = c.arr("p", T=U8); c.require(A.n >= 1); c.require(A.n <= LIM); return A.n, A, lambda pos: [A, pos, A.n]
def sub(name, needle, last):
    @st(name)
    def g(c):
        m = src(c, "m", kinds=("owned", "linked")); n, B, args = needle(c); pos = c.size("pos", hi=NPOS)
        A = m.A
        M = c.defall("match", 0, n, lambda j, k: eq(A.old(j + k), B.old(k)), lambda k: B.old(k), at=lambda t: A.old(t))
        room = m.n - n + 1                      # positions with room for the text
        if last:
            # a match must end at or before pos
            hi = imin(pos, m.n) - n + 1
            c.inv(lambda x: forall_m(c, x - n, hi, M, hi), ["i"], "no match after")
            c.inv(lambda x: forall_m(c, x - n + 1, hi, M, hi), ["i"], "no match after'")
        else:
            c.inv(lambda x: forall_m(c, pos, x - n + 1, M, room), [A], "no match before")
            c.inv(lambda x, y, v: forall(y, x, lambda j: Or(j < 0, j >= m.n, Not(eq(A.old(j), v)))), [A, ("ref", A), "iref"], "no such character before")
            c.inv(lambda x: forall(x, n - 1, lambda k: Or(k < 0, k >= n, Not(eq(B.old(k), B.old(n - 1))))), ["i"], "final character not repeated")
            c.inv(lambda x: forall(x + 1, n - 1, lambda k: Or(k < 0, k >= n, Not(eq(B.old(k), B.old(n - 1))))), ["i"], "final character not repeated'")
        def post(r):
            if last:
                c.ensure("in range", Or(eq(r.n, NPOS), r.n + n <= imin(pos, m.n)))
                c.ensure("match at the position", Imp(r.n + n <= m.n, M(r.n)))
                c.ensure("no later match", forall_m(c, ite(eq(r.n, NPOS), 0, r.n + 1), hi, M, hi))
            else:
                c.ensure("in range", Or(eq(r.n, NPOS), And(pos <= r.n, r.n + n <= m.n)))
                c.ensure("match at the position", Imp(r.n + n <= m.n, M(r.n)))
                c.ensure("no earlier match", forall_m(c, pos, r.n, M, room))
        a = args(pos)
        c.run(m.o, *a, post=post)
sub("s_find_s", needle_s, False); sub("s_find_p", needle_p, False); sub("s_rfind_s", needle_s, True); sub("s_rfind_p", needle_p, True)
# ---- sets of characters
def set_s(c):
    s = src(c, "s"); return s.n, s.old, lambda pos: [s.o, pos], s.A
def set_c(c):
    x = c.num("ch", 8); return 1, lambda k: x, lambda pos: [x, pos], None
def set_p(c):
    A = c.arr("p", T=U8); c.require(A.n <= LIM); return A.n, lambda k: A.old(k), lambda pos: [A, pos, A.n], A
def fof(name, sett, last, neg):
    @st(name)
    def g(c):
        m = src(c, "m"); n, ch, args, B = sett(c); pos = c.size("pos", hi=NPOS)
        a = args(pos)
        if m.A is None: return c.run(m.o, *a, post=lambda r: c.ensure("npos", eq(r.n, NPOS)))
        A = m.A
        if B is None: c.peel = 2
        if B is None and not isz(n) and n == 0:      # no character qualifies / every character does
            lo, hi = (0, imin(pos + 1, m.n)) if last else (imin(pos, m.n), m.n)
            want = ite(lo < hi, hi - 1 if last else lo, NPOS) if neg else NPOS
            return c.run(m.o, *a, post=lambda r: c.ensure("value for an empty set", eq(r.n, want)))
        if B is None: M = lambda j: Not(eq(A.old(j), ch(0)))
        else: M = c.defall("none", 0, n, lambda j, k: Not(eq(A.old(j), ch(k))), lambda k: ch(k))
        hit = (lambda j: M(j)) if neg else (lambda j: Not(M(j)))
        lo, hi = (0, imin(pos + 1, m.n)) if last else (imin(pos, m.n), m.n)
        qf = (lambda a, b: forall(a, b, lambda j: Or(j < 0, j >= m.n, Not(hit(j))))) if B is None else (lambda a, b: forall_h(a, b, M, not neg, m.n))
        if last: c.inv(lambda x: qf(x, hi), ["i"], "none after")
        else: c.inv(lambda x: qf(lo, x), ["i"], "none before")
        if B is not None: c.inv(lambda y, v: forall(0, y, lambda k: Or(k >= n, Not(eq(v, ch(k))))), [B, "iref"], "not in the set so far")
        def post(r):
            c.ensure("in range", Or(eq(r.n, NPOS), And(lo <= r.n, r.n < hi)))
            c.ensure("the character qualifies", Imp(r.n < m.n, hit(r.n)))
            if last: c.ensure("no later one does", qf(ite(eq(r.n, NPOS), 0, r.n + 1), hi))
            else: c.ensure("no earlier one does", qf(lo, imin(r.n, m.n)))
        c.run(m.o, *a, post=post)
def forall_h(lo, hi, M, val, lim):
    """M(j) == val for all lo<=j<hi inside [0,lim)"""
    if not SYMBOLIC[0]: return all(bool(M(j)) == val for j in range(max(lo, 0), min(hi, lim)))
    j = z3.Int(fresh_name("mj"))
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi, 0 <= j, j < lim), M(j) if val else z3.Not(M(j))), patterns=[M(j)])
for f in ("find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
    for sfx, sett in (("s", set_s), ("c", set_c), ("u", set_c), ("p", set_p)): fof("s_%s_%s" % (f, sfx), sett, "last" in f, "not" in f)
# ---- comparison
class Seq:
    def __init__(self, n, ch, *args): self.n, self.ch, self.args = n, ch, list(args)
def q_m(c, name="m"): m = src(c, name); return Seq(m.n, m.old, m.o)
def q_mr(c, name="m"):
    m = src(c, name, kinds=("owned", "linked")); a, k = c.size(name + "_p", hi=NPOS), c.size(name + "_k", hi=NPOS)
    lo, hi = imin(a, m.n), imin(a + k, m.n)
    return Seq(hi - lo, lambda j: m.old(lo + j), m.o, a, k)
def q_cp(c, name="p"): A = c.cstr(name); return Seq(A.len, lambda j: A.old(j), A)
def q_cpz(c, name="p"):
    if c.case("null", [False, True]): return Seq(0, lambda j: 0, c.null)
    return q_cp(c, name)
def q_c(c, name="x"): x = c.num(name, 8); return Seq(1, lambda j: x, x)
def q_pn(c, name="p"): A = c.arr(name, T=U8); return Seq(A.n, lambda j: A.old(j), A, A.n)
def q_rng(c, name): A = c.arr(name, T=U8); return Seq(A.n, lambda j: A.old(j), A.b, A.e)
def order(c, a, b):
    """(first difference p, shorter length m)"""
    m = imin(a.n, b.n)
    if c.sym:
        mm = z3.Int(fresh_name("minlen")); c.require(eq(mm, m)); m = mm
    p = c.first(0, m, lambda j: Not(eq(a.ch(j), b.ch(j))))
    less = ite_b(p < m, lambda: a.ch(p) < b.ch(p), lambda: a.n < b.n)
    same = And(eq(a.n, b.n), eq(p, m))
    return less, same
def rel(name, qa, qb, test, swap=False):
    @st(name)
    def g(c):
        a, b = qa(c, "a"), qb(c, "b"); less, same = order(c, a, b)
        args = a.args + b.args
        c.run(*(b.args + a.args if swap else args), post=lambda r: test(c, r, less, same))
def three(c, r, less, same):
    s = sgn(r.n)
    c.ensure("zero iff equal", Iff(eq(s, 0), same)); c.ensure("negative iff less", Iff(s < 0, less))
def tf(f): return lambda c, r, less, same: c.ensure("value", Iff(r.n, f(less, same)))
EQ, NE, LT = tf(lambda l, s: s), tf(lambda l, s: Not(s)), tf(lambda l, s: l)
GT, LE, GE = tf(lambda l, s: And(Not(l), Not(s))), tf(lambda l, s: Or(l, s)), tf(lambda l, s: Not(l))
rel("s_cmp4", q_rng, q_rng, three); rel("s_cmp_s", q_m, q_m, three); rel("s_cmp_nns", q_mr, q_m, three); rel("s_cmp_nnsnn", q_mr, q_mr, three)
rel("s_cmp_cp", q_m, q_cp, three); rel("s_cmp_nnpn", q_mr, q_pn, three); rel("s_cmp_nncp", q_mr, q_cp, three)
for sfx, q in (("s", q_m), ("cp", q_cpz), ("c", q_c), ("u", q_c)):
    rel("s_opeq_" + sfx, q_m, q, EQ); rel("s_opne_" + sfx, q_m, q, NE); rel("s_oplt_" + sfx, q_m, q_cp if sfx == "cp" else q, LT)
rel("s_opgt_s", q_m, q_m, GT); rel("s_ople_s", q_m, q_m, LE); rel("s_opge_s", q_m, q_m, GE); rel("s_opgt_cp", q_m, q_cp, GT)
rel("s_cp_eq", q_m, q_cpz, EQ); rel("s_cp_ne", q_m, q_cpz, NE)
rel("s_cp_lt", q_m, q_cp, GT); rel("s_cp_gt", q_m, q_cp, LT)
