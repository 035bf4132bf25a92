"""C10 modifying sequence algorithms"""
from vf.spec import *
G = "algo"
P_ = "C10"
# ---- element-wise: R[j] = f(inputs at j)
def mapped(name, func, mk, result=True, group=G, prop=P_):
    """mk(c) -> (source arr or None, target arr, args, f(j) new value at j)"""
    @contract(prop, func, group, name)
    def g(c):
        A, R, args, f = mk(c)
        c.modifies(R)
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= R.n, eq(R[j], f(j)))), [R], "done before")
        c.inv(lambda x: forall(x, R.n, lambda j: Or(j < 0, eq(R[j], f(j)))), [R], "done after")
        c.inv(lambda x: forall(x, R.n, lambda j: Or(j < 0, eq(R[j], R.old(j)))), [R], "not yet")
        def post(r):
            c.ensure("every element has its value", forall(0, R.n, lambda j: eq(R[j], f(j))))
            if result == "begin": c.ensure("returns the begin of the output", eq(r.idx(R), 0))
            elif result: c.ensure("returns the end of the output", eq(r.idx(R), R.n))
        c.run(*args, post=post)
def src(c):
    A = c.arr("A"); R = c.arr("R", A.n)
    return A, R
def m_copy(c): A, R = src(c); return A, R, [A.b, A.e, R.b], lambda j: A.old(j)
def m_copy_n(c): A, R = src(c); return A, R, [A.b, A.n, R.b], lambda j: A.old(j)
def m_copy_b(c): A, R = src(c); return A, R, [A.b, A.e, R.e], lambda j: A.old(j)
mapped("copy", "h_copy", m_copy); mapped("copy_n", "h_copy_n", m_copy_n); mapped("copy_backward", "h_copy_backward", m_copy_b, "begin")
def m_fill(c): R = c.arr("R"); v = c.elem("v"); return None, R, [R.b, R.e, v.p], lambda j: v.old(0)
def m_fill_n(c): R = c.arr("R"); v = c.elem("v"); return None, R, [R.b, R.n, v.p], lambda j: v.old(0)
mapped("fill", "h_fill", m_fill, False); mapped("fill_n", "h_fill_n", m_fill_n)
def m_t1(c): A, R = src(c); return A, R, [A.b, A.e, R.b], lambda j: fn1(A.old(j))
def m_t2(c):
    A, R = src(c); B = c.arr("B", A.n)
    return A, R, [A.b, A.e, B.b, R.b], lambda j: fn2(A.old(j), B.old(j))
mapped("transform", "h_transform1", m_t1); mapped("transform2", "h_transform2", m_t2)
def m_t1i(c): R = c.arr("R"); return R, R, [R.b, R.e, R.b], lambda j: fn1(R.old(j))
mapped("transform_in_place", "h_transform1", m_t1i)
def m_repl(c): R = c.arr("R"); a, b = c.elem("a"), c.elem("b"); return R, R, [R.b, R.e, a.p, b.p], lambda j: ite(keq(R.old(j), a.old(0)), b.old(0), R.old(j))
def m_repl_if(c): R = c.arr("R"); b = c.elem("b"); return R, R, [R.b, R.e, b.p], lambda j: ite(pred(R.old(j)), b.old(0), R.old(j))
def m_replc(c): A, R = src(c); a, b = c.elem("a"), c.elem("b"); return A, R, [A.b, A.e, R.b, a.p, b.p], lambda j: ite(keq(A.old(j), a.old(0)), b.old(0), A.old(j))
def m_replc_if(c): A, R = src(c); b = c.elem("b"); return A, R, [A.b, A.e, R.b, b.p], lambda j: ite(pred(A.old(j)), b.old(0), A.old(j))
mapped("replace", "h_replace", m_repl, False); mapped("replace_if", "h_replace_if", m_repl_if, False)
mapped("replace_copy", "h_replace_copy", m_replc); mapped("replace_copy_if", "h_replace_copy_if", m_replc_if)
def m_rotc(c):
    A, R = src(c); m = c.size("m", hi=A.n)
    return A, R, [A.b, A.at(m), A.e, R.b], lambda j: ite_b_v(j < A.n - m, lambda: A.old(j + m), lambda: A.old(j - (A.n - m)))
def ite_b_v(c, a, b):
    if c is True: return a()
    if c is False: return b()
    return ite(c, a(), b())
def m_revc(c): A, R = src(c); return A, R, [A.b, A.e, R.b], lambda j: A.old(A.n - 1 - j)
mapped("rotate_copy", "h_rotate_copy", m_rotc); mapped("reverse_copy", "h_reverse_copy", m_revc)

def gens(name, func, n_arg):
    @contract(P_, func, G, name)
    def g(c):
        R = c.arr("R"); c.modifies(R)
        c.inv(lambda x, k: And(eq(k, x), forall(0, x, lambda j: Or(j >= R.n, eq(R[j], gen(j))))), [R, "i"], "generated in order")
        def post(r):
            c.ensure("element j is the j-th generated value", forall(0, R.n, lambda j: eq(R[j], gen(j))))
            if n_arg: c.ensure("returns the end", eq(r.idx(R), R.n))
        c.run(R.b, R.n if n_arg else R.e, post=post)
gens("generate", "h_generate", False); gens("generate_n", "h_generate_n", True)

@contract(P_, "h_swap_ranges", G, "swap_ranges")
def swr(c):
    A, B = c.arr("A"), None
    B = c.arr("B", A.n); c.modifies(A, B)
    c.inv(lambda x: forall(0, x, lambda j: Or(j >= A.n, And(eq(A[j], B.old(j)), eq(B[j], A.old(j))))), [A], "swapped before")
    def post(r):
        c.ensure("contents exchanged", forall(0, A.n, lambda j: And(eq(A[j], B.old(j)), eq(B[j], A.old(j)))))
        c.ensure("returns the end of the second range", eq(r.idx(B), A.n))
    c.run(A.b, A.e, B.b, post=post)

@contract(P_, "h_reverse", G, "reverse")
def rev(c):
    A = c.arr("A"); c.modifies(A)
    n = A.n
    reverse_inv(c, A, 0, n)
    c.run(A.b, A.e, post=lambda r: c.ensure("element j is the old element n-1-j", forall(0, n, lambda j: eq(A[j], A.old(n - 1 - j)))))
def reverse_inv(c, A, lo, hi):
    s = lo + hi - 1
    c.inv(lambda x: forall(lo, x, lambda j: Or(j >= hi, eq(A[j], A.old(s - j)))), [A], "front reversed")
    c.inv(lambda x: forall(x, hi, lambda j: Or(j < lo, eq(A[j], A.old(s - j)))), [A], "back reversed")
    c.inv(lambda x, y: And(eq(x + y, lo + hi), forall(x, y, lambda j: eq(A[j], A.old(j)))), [A, A], "middle untouched")
    c.inv(lambda x, y: And(eq(x + y, lo + hi - 1), forall(x, y + 1, lambda j: eq(A[j], A.old(j)))), [A, A], "middle untouched'")

# ---- filtered copies: R is the subsequence of kept elements, in order
def filtered(name, func, keep, extra, inplace):
    @contract(P_, func, G, name)
    def g(c):
        A = c.arr("A"); R = A if inplace else c.arr("R", A.n)
        v = c.elem("v") if extra else None
        k = lambda j: keep(A.old(j) if c.pre else A[j], v)
        cnt = c.ghost_uf("cnt", 0, A.n, lambda i, x: x + ite(k(i), 1, 0), trig=lambda j: A[j])
        c.modifies(R)
        c.inv(lambda x, y: And(eq(y, cnt(x)), y <= x, y >= 0), [A, R], "written = kept so far")
        c.inv(lambda x, y: forall(0, x, lambda j: Or(j >= A.n, Not(k(j)), And(cnt(j) >= 0, cnt(j) < y, eq_at(R, cnt(j), A.old(j))))), [A, R], "kept elements in place")
        def post(r):
            i = r.idx(R)
            c.ensure("length is the number of kept elements", eq(i, cnt(A.n)))
            c.ensure("kept elements in order", forall(0, A.n, lambda j: Imp(k(j), And(0 <= cnt(j), cnt(j) < i, eq_at(R, cnt(j), A.old(j))))))
        c.run(A.b, A.e, *([] if inplace else [R.b]), *([v.p] if extra else []), post=post)
def eq_at(R, i, x): return eq(R[i], x)
filtered("copy_if", "h_copy_if", lambda x, v: pred(x), False, False)
filtered("remove_copy", "h_remove_copy", lambda x, v: Not(keq(x, v.old(0))), True, False)
filtered("remove_copy_if", "h_remove_copy_if", lambda x, v: Not(pred(x)), False, False)
filtered("remove", "h_remove", lambda x, v: Not(keq(x, v.old(0))), True, True)
filtered("remove_if", "h_remove_if", lambda x, v: Not(pred(x)), False, True)

def uniq(name, func, same, inplace):
    @contract(P_, func, G, name)
    def g(c):
        A = c.arr("A"); R = A if inplace else c.arr("R", A.n)
        a = lambda j: A.old(j) if c.pre else A[j]
        # last(j): index of the last element kept among the first j; keep(j): j starts a new group
        last = c.ghost_uf("last", 0, A.n, lambda i, x: ite(Or(eq(i, 0), same(a(i), a(x))), x, i), trig=lambda j: A[j])
        k = lambda j: Or(eq(j, 0), Not(same(a(j), a(last(j)))))
        cnt = c.ghost_uf("cnt", 0, A.n, lambda i, x: x + ite(k(i), 1, 0), trig=lambda j: A[j])
        c.modifies(R)
        c.inv(lambda x, y: And(x >= 1, eq(y + 1, cnt(x)), y < x, y >= 0, last(x) >= 0, last(x) < x, eq(R[y], A.old(last(x)))), [A, R], "write position")
        c.inv(lambda x, y: And(x >= 0, eq(y + 1, cnt(x + 1)), y <= x, y >= 0, last(x + 1) >= 0, last(x + 1) <= x, eq(R[y], A.old(last(x + 1)))), [A, R], "write position'")
        c.inv(lambda x, y: forall(0, x, lambda j: Or(j >= A.n, Not(k(j)), And(cnt(j) >= 0, cnt(j) <= y, eq_at(R, cnt(j), A.old(j))))), [A, R], "kept elements in place")
        c.inv(lambda x, y: forall(0, x + 1, lambda j: Or(j >= A.n, Not(k(j)), And(cnt(j) >= 0, cnt(j) <= y, eq_at(R, cnt(j), A.old(j))))), [A, R], "kept elements in place'")
        def post(r):
            i = r.idx(R)
            c.ensure("length is the number of groups", eq(i, cnt(A.n)))
            c.ensure("first element of every group, in order", forall(0, A.n, lambda j: Imp(k(j), And(0 <= cnt(j), cnt(j) < i, eq_at(R, cnt(j), A.old(j))))))
        c.run(A.b, A.e, *([] if inplace else [R.b]), post=post)
uniq("unique_copy", "h_unique_copy", lambda x, l: keq(x, l), False)
uniq("unique_copy_p", "h_unique_copy_p", lambda x, l: bp(x, l), False)
uniq("unique", "h_unique", lambda x, l: keq(x, l), True)
uniq("unique_p", "h_unique_p", lambda x, l: bp(x, l), True)

# ---- rotation
def rot10(name, func, group=G):
    @contract(P_, func, group, name)
    def g(c):
        A = c.arr("A"); n = A.n; m = c.size("m", hi=n); c.modifies(A)
        B = lambda j: ite(j < m, A.old(m - 1 - j), A.old(m + (n - 1 - j)))
        C = lambda j: ite(j < n - m, A.old(m + j), A.old(j - (n - m)))
        reverse_inv(c, A, 0, m); reverse_inv(c, A, m, n)
        c.inv(lambda x: forall(m, n, lambda j: eq(A[j], A.old(j))), ["p"], "second part as before")
        c.inv(lambda x: forall(0, m, lambda j: eq(A[j], A.old(m - 1 - j))), ["p"], "first part reversed")
        c.inv(lambda x: forall(0, x, lambda j: Or(j >= n, eq(A[j], C(j)))), [A], "front final")
        c.inv(lambda x: forall(x, n, lambda j: Or(j < 0, eq(A[j], C(j)))), [A], "back final")
        c.inv(lambda x, y: And(eq(x + y, n), forall(x, y, lambda j: eq(A[j], B(j)))), [A, A], "middle reversed")
        c.inv(lambda x, y: And(eq(x + y, n - 1), forall(x, y + 1, lambda j: eq(A[j], B(j)))), [A, A], "middle reversed'")
        def post(r):
            c.ensure("second part moved to the front", forall(0, n - m, lambda j: eq(A[j], A.old(m + j))))
            c.ensure("first part moved behind it", forall(0, m, lambda j: eq(A[(n - m) + j], A.old(j))))
        c.run(A.b, A.at(m), A.e, post=post)
rot10("rotate", "h_rotate"); rot10("hi_rotate", "hi_rotate", "ctr")
@contract(P_, "hc_rotate", "ctr", "hc_rotate")
def hc_rot(c):
    """rotate(ctr, n): to the right by n, to the left by -n"""
    A = c.arr("A"); n = A.n; c.modifies(A)
    m = c.size("m", hi=n)
    right = c.case("right", [True, False])
    c.require(Or(m < n, eq(n, 0)) if False else m < n)
    off = m if right else (-m if not sym_(m) else norm(-m))
    k = n - m if right else m           # the split point
    def post(r):
        c.ensure("part behind the split moved to the front", forall(0, n - k, lambda j: eq(A[j], A.old(k + j))))
        c.ensure("part before the split moved behind it", forall(0, k, lambda j: eq(A[(n - k) + j], A.old(j))))
    c.run(A.b, A.e, off, post=post)
def sym_(x): return not isinstance(x, int)
def perm10(name, func, group):
    @contract(P_, func, group, name)
    def g(c):
        A = c.arr("A"); c.modifies(A)
        cg = c.count_ghost(A)
        c.run(A.b, A.e, post=lambda r: c.ensure("the elements are a permutation of the old ones", c.perm_ok(cg)))
perm10("hi_random_shuffle", "hi_random_shuffle", "ctr"); perm10("hc_random_shuffle", "hc_random_shuffle", "ctr")
def fe(name):
    @contract(P_, name, "ctr", name)
    def g(c):
        A = c.arr("A"); R = c.arr("R", A.n); c.modifies(R)
        c.inv(lambda x, k: And(eq(k, x), forall(0, x, lambda j: Or(j >= A.n, eq(R[j], A[j])))), [A, "i"], "visited in order")
        def post(r):
            c.ensure("the function is called once per element", eq(r.n, A.n))
            c.ensure("in order", forall(0, A.n, lambda j: eq(R[j], A[j])))
        c.run(A.b, A.e, R.b, post=post)
fe("hi_for_each"); fe("hc_for_each"); fe("hc_for_eachc")
for n in "copy_if replace replace_if replace_copy replace_copy_if fill generate remove_copy remove_copy_if remove remove_if unique_copy unique unique_p reverse transform1 transform2".split():
    variant(dict(transform1="transform", transform2="transform2").get(n, n), "hc_" + n, "ctr")
mapped("hc_transform_ip", "hc_transform_ip", lambda c: (lambda R: (R, R, [R.b, R.e], lambda j: fn1(R.old(j))))(c.arr("R")), "end", "ctr")
for n in "reverse copy copy_backward fill rotate_copy".split(): variant(n, "hi_" + n, "ctr")
