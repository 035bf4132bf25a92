"""C14 next_permutation / prev_permutation: the neighbour in lexicographic order of arrangements"""
from vf.spec import *
from contracts.c10 import reverse_inv
G = "sort"
P_ = "C14"
R3 = "_ZN4ustl7reverseIP1KEEvT_S3_"
def c_reverse(prop, name):
    @contract(prop, "h_reverse", G, name, inline=[R3])
    def rev(c):
        """proves the contract assumed at calls of reverse (vf/callees.py)"""
        A = c.arr("A"); n = A.n; f = c.size("f", hi=n); l = c.size("l", hi=n); c.require(f <= l)
        c.modifies(A); reverse_inv(c, A, f, l)
        g = c.count_ghost(A)
        def post(r):
            c.ensure("range reversed", forall(f, l, lambda j: eq(A[j], A.old(f + l - 1 - j))))
            c.ensure("rest untouched", And(forall(0, f, lambda j: eq(A[j], A.old(j))), forall(l, n, lambda j: eq(A[j], A.old(j)))))
            c.ensure("same elements", c.perm_ok(g))
        c.run(A.at(f), A.at(l), post=post)
c_reverse(P_, "c_reverse")
def perm(name, up):
    for sfx in ("", "_c"):
        @contract(P_, "h_%s_permutation%s" % (name, sfx), G, name + "_permutation" + sfx)
        def f(c):
            A = c.arr("A"); n = A.n; c.modifies(A)
            lt = (lambda a, b: klt(a, b)) if up else (lambda a, b: klt(b, a))
            p = c.last(0, imax(n - 1, 0), lambda t: lt(A[t], A[t + 1]))
            has = p < n - 1
            g = c.count_ghost(A)
            c.mention = True
            c.inv(lambda x: Or(x < 0, x >= n, c.pairwise(x, n, lambda a, b: Not(lt(a, b)), lambda j: A[j])), [A], "no ascent behind")
            c.inv(lambda x, i: forall(x, n, lambda t: Not(lt(A[i], A[t]))), [A, ("ref", A)], "none above the pivot behind")
            c.inv(lambda x, i: forall(x + 1, n, lambda t: Not(lt(A[i], A[t]))), [A, ("ref", A)], "none above the pivot behind'")
            c.inv(lambda x: p < x, [A], "ascent ahead", False)
            c.inv(lambda x: Or(p <= x, p >= n - 1), [A], "ascent ahead'", False)
            def post(r):
                c.ensure("true iff there is a neighbour", Iff(r.n, has))
                c.ensure("same elements", c.perm_ok(g))
                c.ensure("prefix before the last ascent unchanged", Imp(has, forall(0, p, lambda j: eq(A[j], A.old(j)))))
                if c.sym or has:
                    c.ensure("pivot changes in the right direction", Imp(has, lt(A.old(p), A[p])))
                    c.ensure("pivot becomes the nearest such element", Imp(has, forall(p + 1, n, lambda t: Or(Not(lt(A.old(p), A.old(t))), Not(lt(A.old(t), A[p]))))))
                    c.ensure("suffix is the first arrangement", Imp(has, c.pairwise(p + 1, n, lambda a, b: Not(lt(b, a)), lambda j: A[j])))
                c.ensure("wraps to the first arrangement", Or(has, c.pairwise(0, n, lambda a, b: Not(lt(b, a)), lambda j: A[j])))
            c.run(A.b, A.e, post=post)
perm("next", True); perm("prev", False)
