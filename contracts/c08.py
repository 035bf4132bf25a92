"""C08 binary search on sorted ranges"""
from vf.spec import *
G = "algo"
def setup(c, rel=klt):
    A = c.arr("A"); c.require_sorted(A, klt); v = c.elem("v")
    return A, v, v.v
def inv(c, A, k):
    c.inv(lambda x: forall(0, x, lambda j: Or(x > A.n, key(A[j]) < key(k))), [A], "left<v")
    c.inv(lambda x: forall(x, A.n, lambda j: Or(x < 0, key(A[j]) >= key(k))), [A], "right>=v")
    c.inv(lambda x: forall(0, x, lambda j: Or(x > A.n, key(A[j]) <= key(k))), [A], "left<=v")
    c.inv(lambda x: forall(x, A.n, lambda j: Or(x < 0, key(A[j]) > key(k))), [A], "right>v")
def lower(c, A, k, i):
    c.ensure("0 <= i <= n", And(0 <= i, i <= A.n))
    c.ensure("everything before is less", forall(0, i, lambda j: key(A[j]) < key(k)))
    c.ensure("nothing from there on is less", forall(i, A.n, lambda j: key(A[j]) >= key(k)))
def upper(c, A, k, i):
    c.ensure("0 <= i <= n", And(0 <= i, i <= A.n))
    c.ensure("nothing before is greater", forall(0, i, lambda j: key(A[j]) <= key(k)))
    c.ensure("everything from there on is greater", forall(i, A.n, lambda j: key(A[j]) > key(k)))
for sfx in ("", "_c"):
    @contract("C08", "h_lower_bound" + sfx, G, "lower_bound" + sfx)
    def lb(c):
        A, v, k = setup(c); inv(c, A, k)
        c.run(A.b, A.e, v.p, post=lambda r: lower(c, A, k, r.idx(A)))
    @contract("C08", "h_upper_bound" + sfx, G, "upper_bound" + sfx)
    def ub(c):
        A, v, k = setup(c); inv(c, A, k)
        c.run(A.b, A.e, v.p, post=lambda r: upper(c, A, k, r.idx(A)))
    @contract("C08", "h_binary_search" + sfx, G, "binary_search" + sfx)
    def bs(c):
        A, v, k = setup(c); inv(c, A, k)
        c.run(A.b, A.e, v.p, post=lambda r: c.ensure("true iff an equivalent element exists", Iff(r.n, exists(0, A.n, lambda j: key(A[j]) == key(k)))))
    @contract("C08", "h_equal_range" + sfx, G, "equal_range" + sfx)
    def er(c):
        A, v, k = setup(c); inv(c, A, k)
        a, b = c.obj("oa", 8), c.obj("ob", 8)
        c.modifies(a, b)
        def post(r):
            lower(c, A, k, c.index(c.ptr(a, 0), A)); upper(c, A, k, c.index(c.ptr(b, 0), A))
        c.run(A.b, A.e, v.p, a.p, b.p, post=post)

for n in "lower_bound upper_bound binary_search equal_range".split():
    for m in ("", "m"): variant(n, "hc_%s%s" % (n, m), "ctr")
