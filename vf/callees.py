"""Contracts used at call sites.  Every entry is verified against the function's own body by a contract of the same
content in contracts/ (named in `by`); here it is only *assumed* after its precondition has been obliged."""
from .sym import *
from . import ex as X, lib as L
from .ir import IntTy
class Callee:
    def __init__(self, fn, by, group): self.call, self.by, self.group = fn, by, group
TABLE = {}
def callee(name, by, group=None):
    """group: the instantiation group in which calls of this function are kept (None: everywhere)"""
    def d(f): TABLE[name] = Callee(f, by, group); return f
    return d
def table(group): return {k: v for k, v in TABLE.items() if v.group in (None, group)}
def R(st, v=None): return [(st, "ret", v)]

@callee("copy_n_fast", ["copy_n_fast"])
def copy_n_fast(ex, st, v, i):
    s, n, d = v[0], ex.D.u(st, v[1]), v[2]
    if isinstance(s, P) and isinstance(d, P) and s.r is d.r and s.r is not None:
        e = L.elems(ex, st, s, n)
        if e is None: raise VError("copy granularity")
        ex.oblige(st, "pre", bOr(eq(n, 0), le(d.i, s.i), le(norm(s.i + e), d.i)), "copy_n_fast: forward copy does not overwrite its source ahead")
    L.copy_mem(ex, st, d, s, n, "memmove")
    return R(st)

@callee("copy_backward_fast", ["copy_backward_fast"])
def copy_backward_fast(ex, st, v, i):
    f, l, r = v
    n = ex.D.u(st, ex.D.binop(st, "sub", ex.addr(st, l), ex.addr(st, f)))
    d = ex.padd(st, r, norm(-n) if isz(n) else -n)
    if f.r is r.r and f.r is not None: ex.oblige(st, "pre", bOr(eq(n, 0), le(f.i, d.i), le(r.i, f.i)), "copy_backward_fast: backward copy does not overwrite its source behind")
    L.copy_mem(ex, st, d, f, n, "memmove")
    return R(st)

def fill_nx(w):
    def f(ex, st, v, i):
        d, c, x = v[0], ex.D.u(st, v[1]), v[2]
        if x.w > 8 * w: x = ex.D.trunc(st, x, 8 * w)
        if w == 1: L.fill_mem(ex, st, d, x, c)
        elif d is UNDEF or d.r is None: ex.oblige(st, "null", eq(c, 0), "fill through null pointer")
        elif d.r.kind == "arr" and d.r.S == w and len(d.r.fields) == 1 and d.o == 0:
            ex.oblige(st, "bounds", bOr(eq(c, 0), bAnd(le(0, d.i), le(norm(d.i + c), d.r.n))), "fill inside %s" % d.r.name)
            rs = st.wrs(d.r); st.writes.add((d.r.id, None))
            if rs.occ: rs.occ = {q: z3.Int(fresh_name("occ")) for q in rs.occ}
            rs.arrs[0] = FillA(rs.arrs[0], d.i, c, ex.D.u(st, x))
        elif d.r.kind == "obj" and not isz(c):
            for k in range(c): ex.store(st, ex.padd(st, d, k * w), x, IntTy(8 * w))
        else: raise VError("fill granularity")
        return R(st)
    return f
for w, n in ((1, "fill_n8_fast"), (2, "fill_n16_fast"), (4, "fill_n32_fast")): callee(n, [n])(fill_nx(w))

@callee("rotate_fast", ["rotate_fast"])
def rotate_fast(ex, st, v, i):
    f, m, l = v
    D = ex.D
    if f.r is None or f.r is not m.r or m.r is not l.r:
        if f.r is None and m.r is None and l.r is None: return R(st)
        raise VError("rotate_fast of different blocks")
    ex.oblige(st, "pre", bAnd(le(f.i, m.i), le(m.i, l.i)), "rotate_fast: middle lies between first and last")
    if f.o or m.o or l.o: raise VError("rotate_fast granularity")
    n = norm(l.i - f.i); h1 = norm(m.i - f.i); h2 = norm(l.i - m.i)
    if f.r.kind != "arr": raise VError("rotate_fast of an object")
    ex.oblige(st, "bounds", bOr(eq(n, 0), bAnd(le(0, f.i), le(l.i, f.r.n))), "rotate_fast inside %s" % f.r.name)
    rs = st.wrs(f.r); st.writes.add((f.r.id, None))
    if rs.occ:
        # a rotation is a permutation of [f,l): a tracked count survives when its window contains the range
        for kid in list(rs.occ):
            lo, hi, w = ex.occ_keys[kid]
            if not ex.light.valid(st.qf, bOr(eq(n, 0), bAnd(le(lo, f.i), le(l.i, hi)))): rs.occ[kid] = z3.Int(fresh_name("occ"))
    for k in range(len(f.r.fields)):
        old = rs.arrs[k]
        rs.arrs[k] = Copy(Copy(old, f.i, old, m.i, h2), norm(f.i + h2), old, f.i, h1)
    return R(st)

def keep_occ(ex, st, rs, n, a, b):
    """a permutation of [a,b): a tracked count survives when its window contains the range"""
    if not rs.occ: return
    for kid in list(rs.occ):
        lo, hi, w = ex.occ_keys[kid]
        if not ex.light.valid(st.qf, bOr(le(n, 0), bAnd(le(lo, a), le(b, hi)))): rs.occ[kid] = z3.Int(fresh_name("occ"))

@callee("_ZN4ustl7reverseIP1KEEvT_S3_", ["c_reverse"], "sort")
def reverse(ex, st, v, i):
    f, l = v
    if not (isinstance(f, P) and isinstance(l, P)) or f.r is None or f.r is not l.r or f.r.kind != "arr" or f.o or l.o: raise VError("reverse of different blocks")
    n = norm(l.i - f.i)
    ex.oblige(st, "pre", le(0, n), "reverse: first is not behind last")
    ex.oblige(st, "bounds", bOr(eq(n, 0), bAnd(le(0, f.i), le(l.i, f.r.n))), "reverse inside %s" % f.r.name)
    rs = st.wrs(f.r); st.writes.add((f.r.id, None))
    keep_occ(ex, st, rs, n, f.i, l.i)
    for k in range(len(f.r.fields)): rs.arrs[k] = Rev(rs.arrs[k], f.i, l.i)
    return R(st)

@callee("_ZN4ustl16stable_partitionIP1K2PrEET_S4_S4_T0_", ["c_stable_partition"], "sort")
def stable_partition(ex, st, v, i):
    """C = ex.spec.part_count is any function that counts the matching elements of the range, C(j+1) = C(j) + [pred(A[j])]:
    every matching element moves to first + C(j)-C(first), every other to ret + (j-first) - (C(j)-C(first))"""
    f, l = v[:2]
    if not (isinstance(f, P) and isinstance(l, P)) or f.r is None or f.r is not l.r or f.r.kind != "arr" or f.o or l.o or len(f.r.fields) != 1: raise VError("stable_partition of different blocks")
    C = getattr(ex.spec, "part_count", None)
    if C is None: raise VError("stable_partition without a counting function")
    n = norm(l.i - f.i)
    ex.oblige(st, "pre", le(0, n), "stable_partition: first is not behind last")
    ex.oblige(st, "bounds", bOr(eq(n, 0), bAnd(le(0, f.i), le(l.i, f.r.n))), "stable_partition inside %s" % f.r.name)
    m = getattr(ex.spec, "part_measure", None)
    if m is not None: ex.oblige(st, "termination", n < m, "recursive call of stable_partition on a shorter range")
    rs = st.wrs(f.r); old = rs.arrs[0]
    ex.oblige(st, "pre", forall(f.i, l.i, lambda j: bAnd(eq(C(j + 1), C(j) + ite(L.PRED(old.sel(j)), 1, 0)))), "stable_partition: counting function")
    st.writes.add((f.r.id, None)); keep_occ(ex, st, rs, n, f.i, l.i)
    new = ex.fresh_arr(f.r, 0); rs.arrs = [Copy(old, f.i, new, f.i, n)]
    p = norm(f.i + C(l.i) - C(f.i))
    st.assume(bAnd(f.i <= p, p <= l.i))
    st.assume(forall(f.i, p, lambda j: L.PRED(new.sel(j)))); st.assume(forall(p, l.i, lambda j: bNot(L.PRED(new.sel(j)))))
    st.assume(forall(f.i, l.i, lambda j: ite(L.PRED(old.sel(j)), eq(new.sel(f.i + C(j) - C(f.i)), old.sel(j)), eq(new.sel(p + (j - f.i) - (C(j) - C(f.i))), old.sel(j)))))
    return R(st, P(f.r, p, 0))

def heap_fn(kind):
    """make_heap, push_heap and pop_heap of K* with the comparator Ld.  Every call is recorded in the ghost variable `heaps`
    as (block, first, number, elements before, content after): the content after is a permutation of the elements before"""
    def f(ex, st, v, i):
        from contracts import c11
        f, l, d = v[:3]
        if not (isinstance(f, P) and isinstance(l, P)): raise VError("%s_heap of unknown ranges" % kind)
        if f.r is None and l.r is None and kind != "pop": return R(st)
        if f.r is None or f.r is not l.r or f.r.kind != "arr" or f.o or l.o or len(f.r.fields) != 1: raise VError("%s_heap of different blocks" % kind)
        d = ex.D.u(st, d)
        if isz(d): raise VError("%s_heap with unknown order" % kind)
        K_ = L.KEY
        le_ = (lambda x, y: le(K_(y), K_(x))) if d else (lambda x, y: le(K_(x), K_(y)))
        n = norm(l.i - f.i)
        ex.oblige(st, "pre", lt(0, n) if kind == "pop" else le(0, n), "%s_heap: %s" % (kind, "the range is not empty" if kind == "pop" else "first is not behind last"))
        ex.oblige(st, "bounds", bOr(eq(n, 0), bAnd(le(0, f.i), le(l.i, f.r.n))), "%s_heap inside %s" % (kind, f.r.name))
        rs = st.wrs(f.r); st.writes.add((f.r.id, None)); old = rs.arrs[0]
        at = lambda a: (lambda k: a.sel(norm(f.i + k) if isz(f.i) or isz(k) else f.i + k))
        hp = lambda a, m: c11.nodes(1, m, lambda k: le_(at(a)(k), at(a)(c11.par(k))))
        if kind != "make": ex.oblige(st, "pre", hp(old, n - 1 if kind == "push" else n), "%s_heap: the range is a heap" % kind)
        keep_occ(ex, st, rs, n, f.i, l.i)
        new = ex.fresh_arr(f.r, 0); rs.arrs = [Copy(old, f.i, new, f.i, n)]
        st.assume(hp(new, n - 1 if kind == "pop" else n))
        if kind == "pop":
            st.assume(eq(at(new)(n - 1), at(old)(0)))
            st.assume(forall(f.i, l.i, lambda j: le_(new.sel(j), at(new)(n - 1))))
        st.ghost["heaps"] = st.ghost.get("heaps", ()) + ((f.r, f.i, n, at(old), rs.arrs[0]),)
        return R(st)
    return f
for k in ("make", "push", "pop"): callee("_ZN4ustl%d%s_heapIP1K2LdEEvT_S4_T0_" % (len(k) + 5, k), [k + "_heap_d"], "adp")(heap_fn(k))

@callee("_ZN4ustl5mergeIP1KS2_S2_EET1_T_S4_T0_S5_S3_", ["merge_into_gap"], "adp")
def merge(ex, st, v, i):
    """first range: the end of the output; second: another block.  Recorded in `heaps` as a permutation of both"""
    f1, l1, f2, l2, d = v
    if not all(isinstance(x, P) for x in v) or f1.r is not l1.r or f2.r is not l2.r or d.r is not f1.r or any(x.o for x in v): raise VError("merge of unknown ranges")
    if d.r is None:
        ex.oblige(st, "null", eq(f2.i, l2.i), "merge into nothing"); return R(st, d)
    n1, n2 = norm(l1.i - f1.i), (norm(l2.i - f2.i) if f2.r is not None else 0)
    if f2.r is d.r or d.r.kind != "arr" or len(d.r.fields) != 1 or (f2.r is not None and f2.r.kind != "arr"): raise VError("merge with itself")
    ex.oblige(st, "pre", bAnd(le(0, n1), le(0, n2), eq(f1.i, norm(d.i + n2))), "merge: the output ends where the first range ends")
    ex.oblige(st, "bounds", bOr(eq(n1 + n2, 0), bAnd(le(0, d.i), le(l1.i, d.r.n))), "merge inside %s" % d.r.name)
    rs = st.wrs(d.r); st.writes.add((d.r.id, None)); old = rs.arrs[0]
    pw = lambda A, lo, hi: ex.spec.pairwise(lo, hi, lambda x, y: le(L.KEY(x), L.KEY(y)), lambda j: A.sel(j))
    ex.oblige(st, "pre", pw(old, f1.i, l1.i), "merge: first range is sorted")
    B = None
    if f2.r is not None:
        ex.oblige(st, "bounds", bOr(eq(n2, 0), bAnd(le(0, f2.i), le(l2.i, f2.r.n))), "merge inside %s" % f2.r.name)
        B = st.rs(f2.r).arrs[0]; ex.oblige(st, "pre", pw(B, f2.i, l2.i), "merge: second range is sorted")
    n = norm(n1 + n2)
    keep_occ(ex, st, rs, n, d.i, l1.i)
    new = ex.fresh_arr(d.r, 0); rs.arrs = [Copy(old, d.i, new, d.i, n)]
    st.assume(pw(new, d.i, l1.i))
    before = (lambda j: old.sel(norm(f1.i + j))) if B is None else (lambda j: ite(j < n1, old.sel(norm(f1.i + j)), B.sel(norm(f2.i + j - n1))))
    st.ghost["heaps"] = st.ghost.get("heaps", ()) + ((d.r, d.i, n, before, rs.arrs[0]),)
    return R(st, l1)
