"""Trusted models of the external world: libc memory functions, C++ runtime, opaque element operations."""
import z3, re
from .sym import *
from . import ex as X
from .ir import IntTy, PTR

# ----------------------------------------------------------------- opaque element operations (uninterpreted)
I = z3.IntSort()
KEY = z3.Function("key", I, I)          # strict weak order: a<b  iff key(a)<key(b)
EKEY = z3.Function("ekey", I, I)        # equality: a==b iff ekey(a)==ekey(b)
PRED = z3.Function("pred", I, z3.BoolSort())
BP = z3.Function("bpred", I, I, z3.BoolSort())
FN1 = z3.Function("fn1", I, I)
FN2 = z3.Function("fn2", I, I, I)
ADD, MUL, SUB = [z3.Function("k_" + n, I, I, I) for n in ("add", "mul", "sub")]
GEN = z3.Function("gen", I, I)
for f in (FN1, FN2, GEN, ADD, MUL, SUB): ARRB[f.get_id()] = (f, 0, (1 << 32) - 1)

def copy_mem(ex, st, d, s, n, kind):
    """copy n bytes (idx expr) from s to d; memcpy requires non-overlap"""
    D = ex.D
    if not isz(n) and n == 0: return
    if (isinstance(d, P) and d.r is not None and d.r.kind == "obj") or (isinstance(s, P) and s.r is not None and s.r.kind == "obj"):
        if isz(n): raise VError("symbolic-size copy of an object")
        return copy_small(ex, st, d, s, n)
    # zero-length copies may use any pointer
    for p, what in ((s, "read"), (d, "write")):
        if p is UNDEF or p.r is None:
            ex.oblige(st, "null", eq(n, 0), "copy (%s) through null/invalid pointer only with zero length" % what)
            return
        if not st.rs(p.r).alive:
            ex.oblige(st, "dangling", eq(n, 0), "copy (%s) of freed memory %s" % (what, p.r.name)); return
    ex.oblige(st, "bounds", bOr(eq(n, 0), inside(ex, st, s, n)), "copy source inside %s" % s.r.name)
    ex.oblige(st, "bounds", bOr(eq(n, 0), inside(ex, st, d, n)), "copy destination inside %s" % d.r.name)
    if d.r.const: ex.oblige(st, "const", eq(n, 0), "write to constant memory")
    dn, sn = elems(ex, st, d, n), elems(ex, st, s, n)
    if dn is None or sn is None or d.r.S != s.r.S or d.o or s.o:
        if not isz(n) and n <= 64: return copy_small(ex, st, d, s, n)
        raise VError("copy with mixed granularity %s <- %s, %s bytes" % (d, s, n))
    if kind == "memcpy" and d.r is s.r:
        ex.oblige(st, "overlap", bOr(eq(n, 0), same_ptr(d, s), le(d.i + dn, s.i), le(s.i + dn, d.i)), "memcpy ranges disjoint")
    raw_copy(ex, st, d.r, d.i, s.r, s.i, dn)

def same_ptr(d, s): return eq(d.i, s.i)
def inside(ex, st, p, n):
    r = p.r
    if r.kind == "obj": return bAnd(le(0, p.o), le(p.o + n, r.size))
    if r.S == 1: return bAnd(le(0, p.i), le(p.i + n, r.n))
    return bAnd(le(0, norm(p.i * r.S + p.o)), le(norm(p.i * r.S + p.o + n), norm(r.n * r.S)))
def elems(ex, st, p, n):
    return ex.D.divexact(st, n, p.r.S) if p.r.S > 1 else n

def raw_copy(ex, st, dr, di, sr, si, n, chk=True):
    srs = st.rs(sr); rs = st.wrs(dr); st.writes.add((dr.id, None))
    if ex.spec is not None and ex.spec.mention and not isz(n) and n == 1 and srs.arrs: st.assume(z3.Int(fresh_name("ld")) == srs.arrs[0].sel(si))
    if rs.occ:
        if not isz(n) and n == 1: 
            for k in range(len(dr.fields)):
                e = srs.arrs[k].sel(si); ex.occ_store(st, dr, rs, k, di, e); rs.arrs[k] = Store(rs.arrs[k], di, e)
            return
        rs.occ = {k: z3.Int(fresh_name("occ")) for k in rs.occ}
    old = list(srs.arrs)
    for k in range(len(dr.fields)):
        rs.arrs[k] = Copy(rs.arrs[k], di, old[k], si, n) if isz(n) or n != 1 else Store(rs.arrs[k], di, old[k].sel(si))

def chunk_at(st, p, left):
    r = p.r
    if r.kind == "arr":
        for fo, w in r.fields:
            if fo == p.o: return w // 8
        return None
    c = st.rs(r).cells.get(p.o)
    return c[0] if c and c[0] <= left else None

def copy_small(ex, st, d, s, n):
    ex.check_access(st, s, n, "read"); ex.check_access(st, d, n, "write")
    pos = 0; vals = []
    while pos < n:
        sp, dp = ex.padd(st, s, pos), ex.padd(st, d, pos)
        left = n - pos
        cs = chunk_at(st, sp, left); cd = None
        if sp.r.kind == "arr" and sp.r.S == 1:
            cd = chunk_at(st, dp, left)
            cs = cd if cd and cd <= left else next(x for x in (8, 4, 2, 1) if x <= left)
        if cs is None and sp.r.kind == "obj":
            # partial / uninitialised source
            cover = [(q, c) for q, c in st.rs(sp.r).cells.items() if q < sp.o + left and sp.o < q + c[0]]
            if any(q <= sp.o < q + c[0] for q, c in cover):
                vals.append((dp, ex.load(st, sp, IntTy(8)), 1)); pos += 1; continue
            vals.append((dp, None, 1)); pos += 1; continue
        if cs is None: raise VError("copy granularity %s -> %s" % (s, d))
        if sp.r.kind == "obj":
            v = st.rs(sp.r).cells[sp.o][1]
            if isinstance(v, tuple): v = ex.load(st, sp, PTR)
        else: v = ex.load_arr(st, sp.r, st.rs(sp.r), sp.i, sp.o, cs)
        vals.append((dp, v, cs)); pos += cs
    for dp, v, c in vals:
        if v is None:
            if dp.r.kind == "obj":
                rs = st.wrs(dp.r); ex.clear_cells(st, rs, dp.o, 1); st.writes.add((dp.r.id, dp.o))
            else: ex.store(st, dp, ex.D.fresh(8, "uninit"), IntTy(8))
        elif isinstance(v, (P, Fn)): ex.store(st, dp, v, PTR)
        elif isinstance(v, Fl): ex.store(st, dp, v, __import__("vf.ir", fromlist=["FLOAT"]).FLOAT if c == 4 else __import__("vf.ir", fromlist=["DOUBLE"]).DOUBLE)
        elif v is UNDEF:
            if dp.r.kind == "obj":
                rs = st.wrs(dp.r); ex.clear_cells(st, rs, dp.o, c); rs.cells[dp.o] = (c, UNDEF); st.writes.add((dp.r.id, dp.o))
        else: ex.store(st, dp, v if isinstance(v, N) else ex.D.bool2n(8, v), IntTy(8 * c))

def fill_mem(ex, st, d, v, n):
    if not isz(n) and n == 0: return
    if d is UNDEF or d.r is None:
        ex.oblige(st, "null", eq(n, 0), "fill through null pointer"); return
    if not st.rs(d.r).alive: ex.oblige(st, "dangling", eq(n, 0), "fill of freed memory"); return
    if d.r.kind == "obj":
        if isz(n): raise VError("symbolic memset of object")
        ex.check_access(st, d, n, "write")
        for k in range(0, n):
            pass
        rs = st.wrs(d.r); ex.clear_cells(st, rs, d.o, n)
        vv = ex.D.u(st, v); pos = 0
        while pos < n:
            c = next(x for x in (8, 4, 2, 1) if x <= n - pos and (d.o + pos) % x == 0)
            rs.cells[d.o + pos] = (c, ex.D.join_bytes(st, [vv] * c)); st.writes.add((d.r.id, d.o + pos)); pos += c
        return
    ex.oblige(st, "bounds", bOr(eq(n, 0), inside(ex, st, d, n)), "fill inside %s" % d.r.name)
    vv = ex.D.u(st, v)
    k = elems(ex, st, d, n)
    if k is None or d.o:
        if isz(n) or n > 64: raise VError("memset granularity")
        ex.check_access(st, d, n, "write"); pos = 0
        while pos < n:
            p = ex.padd(st, d, pos); w = chunk_at(st, p, n - pos)
            if w is None or w > n - pos: raise VError("memset granularity")
            ex.store(st, p, N(8 * w, ex.D.u(st, ex.D.join_bytes(st, [vv] * w))), IntTy(8 * w)); pos += w
        return
    rs = st.wrs(d.r); st.writes.add((d.r.id, None))
    if rs.occ: rs.occ = {q: z3.Int(fresh_name("occ")) for q in rs.occ}
    for q, (fo, w) in enumerate(d.r.fields):
        e = ex.D.u(st, ex.D.join_bytes(st, [vv] * (w // 8)))
        rs.arrs[q] = FillA(rs.arrs[q], d.i, k, e)

# ----------------------------------------------------------------- intrinsics
def intrinsic(name):
    b = name[5:]
    if b.startswith(("lifetime", "prefetch", "assume", "dbg", "stackrestore", "experimental.noalias", "invariant", "donothing", "va_")): return "skip"
    for pfx, h in INTR:
        if b.startswith(pfx): return h
    return None
def _memcpy(kind):
    def h(ex, st, v, i):
        copy_mem(ex, st, v[0], v[1], ex.D.u(st, v[2]), kind); return None
    return h
def _memset(ex, st, v, i): fill_mem(ex, st, v[0], v[1], ex.D.u(st, v[2])); return None
def _minmax(kind):
    def h(ex, st, v, i):
        c = ex.D.icmp(st, {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[kind], v[0], v[1])
        return ex.select(st, c, v[0], v[1], True)
    return h
def _abs(ex, st, v, i):
    c = ex.D.icmp(st, "slt", v[0], ex.D.const(v[0].w, 0))
    n = ex.D.binop(st, "sub", ex.D.const(v[0].w, 0), v[0])
    return ex.D.ite(st, c, n, v[0])
def _ctpop(ex, st, v, i):
    x = v[0]
    if not isz(x.e): return N(x.w, bin(x.e % (1 << x.w)).count("1"))
    if not ex.D.bv: raise VError("ctpop (int)")
    r, d = popc(x.e); st.assume(d)
    return N(x.w, r)
def popc(e):
    """the number of set bits: a term, and the fact that defines it"""
    w = e.size(); f = z3.Function("popc%d" % w, e.sort(), e.sort())(e); r = z3.BitVecVal(0, w)
    for k in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, e)) if w > 1 else e
    return f, f == r
def _ctlz(ex, st, v, i):
    x = v[0]
    if not isz(x.e):
        u = x.e % (1 << x.w); return N(x.w, x.w - u.bit_length())
    if not ex.D.bv: raise VError("ctlz (int)")
    if v[1] is True: ex.oblige(st, "ctlz0", x.e != 0, "count-leading-zeros of nonzero")
    r = z3.BitVecVal(x.w, x.w)
    for k in range(x.w): r = z3.If(z3.Extract(k, k, x.e) == 1, z3.BitVecVal(x.w - 1 - k, x.w), r)
    return N(x.w, r)
def _cttz(ex, st, v, i):
    x = v[0]
    if not isz(x.e):
        u = x.e % (1 << x.w); return N(x.w, (u & -u).bit_length() - 1 if u else x.w)
    if not ex.D.bv: raise VError("cttz (int)")
    r = z3.BitVecVal(x.w, x.w)
    for k in reversed(range(x.w)): r = z3.If(z3.Extract(k, k, x.e) == 1, z3.BitVecVal(k, x.w), r)
    return N(x.w, r)
def _bswap(ex, st, v, i):
    bs = ex.D.split_bytes(st, v[0]); return ex.D.join_bytes(st, list(reversed(bs)))
def _fsh(left):
    def h(ex, st, v, i):
        if not ex.D.bv: raise VError("fsh (int)")
        w = v[0].w
        sh = ex.D.binop(st, "urem", v[2], N(w, w))
        cat = z3.Concat(ex.D.z(v[0]), ex.D.z(v[1]))
        z = z3.ZeroExt(w, ex.D.z(sh))
        r = z3.Extract(2 * w - 1, w, cat << z) if left else z3.Extract(w - 1, 0, z3.LShR(cat, z))
        return ex.D.mk(w, r)
    return h
def _ovf(op):
    def h(ex, st, v, i):
        x, y = v; w = x.w
        if ex.D.bv:
            a, b = ex.D.z(x), ex.D.z(y)
            k = 2 * w
            ext = z3.ZeroExt if op[0] == "u" else z3.SignExt
            A, B = ext(k - w, a), ext(k - w, b)
            r = {"add": A + B, "sub": A - B, "mul": A * B}[op[1:4]]
            t = z3.Extract(w - 1, 0, r)
            return X.Agg([ex.D.mk(w, t), z3.simplify(ext(k - w, t) != r)])
        f = ex.D.u if op[0] == "u" else ex.D.s
        a, b = f(st, x), f(st, y)
        r = {"add": a + b, "sub": a - b, "mul": a * b}[op[1:4]]
        lo, hi = (0, (1 << w) - 1) if op[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if not isz(r): return X.Agg([N(w, r), not (lo <= r <= hi)])
        return X.Agg([N(w, r), z3.Or(r < lo, r > hi)])
    return h
INTR = [("memcpy", _memcpy("memcpy")), ("memmove", _memcpy("memmove")), ("memset", _memset),
        ("umin", _minmax("umin")), ("umax", _minmax("umax")), ("smin", _minmax("smin")), ("smax", _minmax("smax")),
        ("abs", _abs), ("ctpop", _ctpop), ("ctlz", _ctlz), ("cttz", _cttz), ("bswap", _bswap), ("fshl", _fsh(True)), ("fshr", _fsh(False)),
        ("uadd.with", _ovf("uadd")), ("usub.with", _ovf("usub")), ("umul.with", _ovf("umul")), ("sadd.with", _ovf("sadd")), ("ssub.with", _ovf("ssub")), ("smul.with", _ovf("smul")),
        ("expect", lambda ex, st, v, i: v[0]), ("stacksave", lambda ex, st, v, i: NULL),
        ("is.constant", lambda ex, st, v, i: False),
        ("eh.typeid.for", lambda ex, st, v, i: ex.D.fresh(32, "typeid")),
        ("objectsize", lambda ex, st, v, i: ex.D.const(64, -1)),
        ("trap", lambda ex, st, v, i: ex.oblige(st, "trap", False, "trap reached") or []),
        ("launder", lambda ex, st, v, i: v[0])]

# ----------------------------------------------------------------- externals
def R(st, v=None): return [(st, "ret", v)]
EXT = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d
def external(name): return EXT.get(name)

def has_ite(e): return z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in e.children()))
def alloc(ex, st, n, name):
    """fresh heap block of n bytes"""
    el = ex.spec.heap_elem if ex.spec is not None and getattr(ex.spec, "heap_elem", None) else None
    ho = getattr(ex.spec, "heap_objs", None)
    if (ho and not isz(n) and n in ho) or (ex.D.bv and not isz(n) and n <= 1024):       # a single object
        r = X.Region(fresh_name(name), "obj", size=n, origin="heap", align=16)
        ex.new_region(st, r); ex.reg_region(st, r); st.heap.append(r)
        return r
    S, fields = el if el else (1, [(0, 8)])
    q = n if S == 1 else ex.D.divexact(st, n, S)
    if q is None: raise VError("allocation size %s not a multiple of the element size" % n)
    if isz(q) and has_ite(q):       # a name for a conditional size
        v = z3.Int(fresh_name("blksize")); set_bounds(v, 0, MAXALLOC); st.assume(v == q); q = v
    r = X.Region(fresh_name(name), "arr", S=S, n=q, fields=fields, origin="heap", align=16)
    ex.new_region(st, r); ex.reg_region(st, r)
    st.heap.append(r)
    return r
@ext("malloc", "_Znwm", "_Znam")
def _malloc(ex, st, v, i):
    n = ex.D.u(st, v[0])
    outs = []
    if not getattr(ex.spec, "no_oom", False):
        f = st.fork(); outs.append((f, "ret", NULL))
    st.assume(le(n, MAXALLOC))
    r = alloc(ex, st, n, "heap")
    outs.append((st, "ret", P(r, 0, 0)))
    return outs
MAXALLOC = 1 << 46
def check_heap_ptr(ex, st, p, what):
    if p is UNDEF: ex.oblige(st, "free", False, what + " of an indeterminate pointer"); return False
    if p.r is None: ex.oblige(st, "free", False, what + " of a non-heap address"); return False
    if p.r.origin != "heap":
        ex.oblige(st, "free", False, "%s of memory the container does not own (%s)" % (what, p.r.name)); return False
    if not st.rs(p.r).alive:
        ex.oblige(st, "free", False, "%s of already freed %s" % (what, p.r.name)); return False
    if p.r.kind == "arr": ex.oblige(st, "free", bAnd(eq(p.i, 0), p.o == 0), "%s at the block start of %s" % (what, p.r.name))
    return True
@ext("realloc")
def _realloc(ex, st, v, i):
    p = v[0]; n = ex.D.u(st, v[1])
    if p is not UNDEF and isinstance(p, P) and p.r is None and not isz(p.i) and p.i == 0: return _malloc(ex, st, [v[1]], i)
    if not check_heap_ptr(ex, st, p, "realloc"): return []
    outs = []
    z = eq(n, 0)
    if ex.light.feasible(st.qf, z):     # glibc: realloc(p,0) frees and returns null
        f = st.fork(); f.assume(z); f.wrs(p.r).alive = False; f.writes.add((p.r.id, "alive")); outs.append((f, "ret", NULL))
    if not getattr(ex.spec, "no_oom", False):
        f = st.fork(); f.assume(bNot(z)); outs.append((f, "ret", NULL))
    st.assume(bNot(z)); st.assume(le(n, MAXALLOC))
    r = alloc(ex, st, n, "realloc")
    if r.kind == "obj":
        if p.r.kind != "obj": raise VError("realloc of an array as an object")
        copy_small(ex, st, P(r, 0, 0), p, min(r.size, p.r.size))
        st.wrs(p.r).alive = False; st.writes.add((p.r.id, "alive"))
        outs.append((st, "ret", P(r, 0, 0)))
        return outs
    old = st.rs(p.r); m = ite(lt(r.n, p.r.n), zi_(r.n), zi_(p.r.n))
    rs = st.wrs(r)
    for k in range(len(rs.arrs)): rs.arrs[k] = Copy(rs.arrs[k], 0, old.arrs[k], 0, m)
    st.wrs(p.r).alive = False; st.writes.add((p.r.id, "alive"))
    outs.append((st, "ret", P(r, 0, 0)))
    return outs
def zi_(e): return e if isz(e) else z3.IntVal(e)
@ext("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm")
def _free(ex, st, v, i):
    p = v[0]
    if isinstance(p, P) and p.r is None and not isz(p.i) and p.i == 0: return R(st)
    if not check_heap_ptr(ex, st, p, "free"): return []
    st.wrs(p.r).alive = False; st.writes.add((p.r.id, "alive"))
    return R(st)
@ext("memcpy")
def _mcpy(ex, st, v, i): copy_mem(ex, st, v[0], v[1], ex.D.u(st, v[2]), "memcpy"); return R(st, v[0])
@ext("memmove")
def _mmove(ex, st, v, i): copy_mem(ex, st, v[0], v[1], ex.D.u(st, v[2]), "memmove"); return R(st, v[0])
@ext("memset")
def _mset(ex, st, v, i): fill_mem(ex, st, v[0], ex.D.trunc(st, v[1], 8), ex.D.u(st, v[2])); return R(st, v[0])

@ext("qsort")
def _qsort(ex, st, v, i):
    """C standard: sorts n elements by the comparison function, which is first shown to report the order of the keys"""
    b, n, sz, cmp = v[0], ex.D.u(st, v[1]), ex.D.u(st, v[2]), v[3]
    if not isinstance(cmp, X.Fn): raise VError("qsort with an unknown comparison function")
    if b is UNDEF or b.r is None: ex.oblige(st, "null", eq(n, 0), "qsort through null"); return R(st)
    r = b.r
    if r.kind != "arr" or b.o or len(r.fields) != 1: raise VError("qsort of an object")
    ex.oblige(st, "pre", eq(sz, r.S), "qsort: element size is that of the elements")
    ex.oblige(st, "bounds", bOr(eq(n, 0), bAnd(le(0, b.i), le(norm(b.i + n), r.n))), "qsort inside %s" % r.name)
    s = st.fork(); x, y = z3.Int(fresh_name("qa")), z3.Int(fresh_name("qb"))
    for q in (x, y): s.assume(bAnd(b.i <= q, q < b.i + n))
    s.frames = []; s.writes = set()
    A = st.rs(r).arrs[0]; kx, ky = KEY(A.sel(x)), KEY(A.sel(y))
    for d in ex.start(s, cmp.name, [P(r, x, 0), P(r, y, 0)]):
        if d.out == "throw": ex.oblige(d, "exception", False, "no exception escapes the comparison function"); continue
        t = ex.D.s(d, d.ret)
        ex.oblige(d, "pre", bAnd(bImp(t < 0, kx < ky), bImp(t > 0, kx > ky), bImp(eq(t, 0), kx == ky)), "qsort: the comparison function reports the order")
        if d.writes: ex.oblige(d, "pre", False, "qsort: the comparison function changes nothing")
    rs = st.wrs(r); st.writes.add((r.id, None)); old = rs.arrs[0]
    if rs.occ:
        for kid in list(rs.occ):
            lo, hi, w = ex.occ_keys[kid]
            if not ex.light.valid(st.qf, bOr(eq(n, 0), bAnd(le(lo, b.i), le(norm(b.i + n), hi)))): rs.occ[kid] = z3.Int(fresh_name("occ"))
    new = ex.fresh_arr(r, 0)
    rs.arrs = [Copy(old, b.i, new, b.i, n)]
    j, k = z3.Int(fresh_name("qi")), z3.Int(fresh_name("qj"))
    st.assume(z3.ForAll([j, k], zb(bImp(bAnd(b.i <= j, j < k, k < b.i + n), KEY(new.sel(j)) <= KEY(new.sel(k)))), patterns=[z3.MultiPattern(new.sel(j), new.sel(k))]))
    return R(st)

def readable(ex, st, p, n, what):
    """n bytes readable at p (or n==0); returns False when the pointer is null (n must be 0)"""
    if p is UNDEF or p.r is None:
        ex.oblige(st, "null", eq(n, 0), what + " through null"); return False
    if not st.rs(p.r).alive: ex.oblige(st, "dangling", eq(n, 0), what + " of freed memory"); return False
    ex.oblige(st, "bounds", bOr(eq(n, 0), inside(ex, st, p, n)), "%s inside %s" % (what, p.r.name))
    return True
def byte_view(ex, st, p):
    """(pointer with an index, byte array) for reading bytes at p"""
    if p.r.kind == "arr":
        if p.r.S != 1: raise VError("byte access to elements of %d bytes" % p.r.S)
        return p, st.rs(p.r).arrs[0]
    if isz(p.o) or p.r.size > 64: raise VError("byte access to an object at a symbolic offset")
    bs = []
    for q in range(p.o, p.r.size):
        try: v = ex.load(st, P(p.r, 0, q), IntTy(8)); bs.append(ex.D.u(st, v))
        except VError: break
    if not bs: raise VError("byte access to an unreadable object")
    def sel(j):
        if not isz(j): return bs[j] if 0 <= j < len(bs) else 0
        e = zi_(bs[-1])
        for q in reversed(range(len(bs) - 1)): e = z3.If(j == q, zi_(bs[q]), e)
        return e
    return P(p.r, 0, 0), FnArr(sel)
@ext("memcmp", "bcmp")
def _memcmp(ex, st, v, i):
    n = ex.D.u(st, v[2]); a, b = v[0], v[1]
    ok1 = readable(ex, st, a, n, "memcmp read"); ok2 = readable(ex, st, b, n, "memcmp read")
    if not (ok1 and ok2): return R(st, ex.D.const(32, 0))
    if "obj" in (a.r.kind, b.r.kind): pass
    elif a.r.S != 1 or b.r.S != 1:
        # element-granular equality (only the ==0 outcome is characterised)
        na = elems(ex, st, a, n)
        if na is None or a.r.S != b.r.S or a.o or b.o: raise VError("memcmp granularity")
        x, y = st.rs(a.r).arrs, st.rs(b.r).arrs
        t = z3.Int(fresh_name("memcmp"))
        set_bounds(t, -(1 << 31), (1 << 31) - 1)
        same_ = bAnd(*[forall(0, na, lambda j, k=k: eq(x[k].sel(norm(a.i + j)), y[k].sel(norm(b.i + j)))) for k in range(len(a.r.fields))])
        st.assume(z3.And(t >= -(1 << 31), t < (1 << 31)))
        st.assume(bImp(t == 0, same_))
        w = z3.Int(fresh_name("mm"))
        st.assume(bImp(t != 0, bAnd(0 <= w, lt(w, na), bOr(*[bNot(eq(x[k].sel(norm(a.i + w)), y[k].sel(norm(b.i + w)))) for k in range(len(a.r.fields))]))))
        return R(st, N(32, t))
    a, x = byte_view(ex, st, a); b, y = byte_view(ex, st, b)
    t = z3.Int(fresh_name("memcmp")); m = z3.Int(fresh_name("mm")); set_bounds(t, -(1 << 31), (1 << 31) - 1)
    st.assume(z3.And(t >= -(1 << 31), t < (1 << 31)))
    st.assume(bAnd(0 <= m, le(m, n)))
    st.assume(forall(0, m, lambda j: eq(x.sel(norm(a.i + j)), y.sel(norm(b.i + j)))))
    xm, ym = x.sel(norm(a.i + m)), y.sel(norm(b.i + m))
    st.assume(bImp(lt(m, n), bAnd(bNot(eq(xm, ym)), bIff(t < 0, xm < ym), t != 0)))
    st.assume(bImp(eq(m, n), t == 0))
    return R(st, N(32, t))
@ext("vsnprintf")
def _vsnprintf(ex, st, v, i):
    """assumed contract: the text of the format is that declared by the contract (`formats`), cut to cap-1 characters"""
    t = getattr(ex.spec, "formats", None)
    if t is None: raise VError("vsnprintf")
    d, cap = v[0], ex.D.u(st, v[1]); n = t.len; src = P(t.r, 0, 0)
    outs = []
    z = eq(cap, 0)
    if ex.light.feasible(st.qf, z):
        f = st.fork(); f.assume(z); outs.append((f, "ret", N(32, n)))
    if not ex.light.feasible(st.qf, bNot(z)): return outs
    st.assume(bNot(z))
    k = z3.Int(fresh_name("fmt_n")); set_bounds(k, 0, X.MAXADDR); st.assume(eq(k, ite(le(n, cap - 1), zi_(n), zi_(cap - 1))))
    copy_mem(ex, st, d, src, k, "memcpy")
    ex.store(st, ex.padd(st, d, k), N(8, 0), IntTy(8))
    outs.append((st, "ret", N(32, n)))
    return outs
@ext("strlen")
def _strlen(ex, st, v, i):
    p = v[0]
    if p is UNDEF or p.r is None: ex.oblige(st, "null", False, "strlen(null)"); return []
    if p.r.kind == "obj" or p.r.S != 1: raise VError("strlen granularity")
    a = st.rs(p.r).arrs[0]
    if not isz(p.i) and isinstance(a, Const) and 0 in a.d[p.i:]: return R(st, ex.D.const(64, a.d[p.i:].index(0)))
    ln = getattr(p.r, "cstr", None)
    if ln is not None and a is p.r.cstr_arr and ex.light.valid(st.qf, bAnd(le(0, p.i), le(p.i, ln))):
        return R(st, N(64, norm(ln - p.i) if isz(ln) or isz(p.i) else ln - p.i))     # the declared length of this unmodified C string
    # obligation: a terminator exists inside the block
    ex.oblige(st, "bounds", exists(p.i, p.r.n, lambda j: eq(a.sel(j), 0)), "strlen argument terminated inside %s" % p.r.name)
    n = z3.Int(fresh_name("strlen")); set_bounds(n, 0, X.MAXADDR)
    st.assume(bAnd(n >= 0, lt(p.i + n, p.r.n), eq(a.sel(norm(p.i + n)), 0)))
    st.assume(forall(p.i, norm(p.i + n), lambda j: bNot(eq(a.sel(j), 0))))
    return R(st, N(64, n))
@ext("memchr")
def _memchr(ex, st, v, i):
    p = v[0]; c = ex.D.u(st, ex.D.trunc(st, v[1], 8)); n = ex.D.u(st, v[2])
    if not readable(ex, st, p, n, "memchr"): return R(st, NULL)
    a = st.rs(p.r).arrs[0]
    f = st.fork()
    f.assume(forall(p.i, norm(p.i + n), lambda j: bNot(eq(a.sel(j), c))))
    k = z3.Int(fresh_name("memchr")); set_bounds(k, 0, X.MAXADDR)
    st.assume(bAnd(k >= 0, lt(k, n), eq(a.sel(norm(p.i + k)), c)))
    st.assume(forall(p.i, norm(p.i + k), lambda j: bNot(eq(a.sel(j), c))))
    return [(f, "ret", NULL), (st, "ret", P(p.r, norm(p.i + k), 0))]

# C++ runtime
@ext("__cxa_allocate_exception")
def _exalloc(ex, st, v, i):
    n = ex.D.u(st, v[0])
    r = X.Region(fresh_name("exc"), "obj", size=n, origin="exc", align=16)
    ex.new_region(st, r); ex.reg_region(st, r)
    return R(st, P(r, 0, 0))
@ext("__cxa_throw")
def _throw(ex, st, v, i):
    t = v[1]
    st.ghost["thrown"] = t.r.name if isinstance(t, P) and t.r is not None else str(t)
    return [(st, "throw", "throw")]
@ext("_Unwind_Resume", "__cxa_rethrow")
def _rethrow(ex, st, v, i): return [(st, "throw", "throw")]
@ext("__cxa_begin_catch")
def _bc(ex, st, v, i):
    if st.ghost.get("catch_partial"): raise VError("typed catch clause")
    st.exc = None
    return R(st, v[0])
@ext("__cxa_end_catch", "__cxa_free_exception", "__cxa_guard_abort", "__cxa_guard_release")
def _ec(ex, st, v, i): return R(st)
@ext("__clang_call_terminate", "_ZSt9terminatev", "abort", "__assert_fail", "exit", "__stack_chk_fail")
def _term(ex, st, v, i):
    ex.oblige(st, "terminate", False, "program termination reached")
    return []
@ext("__cxa_pure_virtual")
def _pv(ex, st, v, i):
    ex.oblige(st, "purevirtual", False, "pure virtual call"); return []
@ext("__cxa_atexit", "atexit")
def _ax(ex, st, v, i): return R(st, ex.D.const(32, 0))

# opaque element operations -------------------------------------------------------------
def cu(ex, st, x): 
    e = ex.D.u(st, x); return e if isz(e) else z3.IntVal(e)
@ext("k_lt")
def _klt(ex, st, v, i): return R(st, KEY(cu(ex, st, v[0])) < KEY(cu(ex, st, v[1])))
@ext("k_eq")
def _keq(ex, st, v, i): return R(st, EKEY(cu(ex, st, v[0])) == EKEY(cu(ex, st, v[1])))
@ext("k_pred")
def _kp(ex, st, v, i): return R(st, PRED(cu(ex, st, v[0])))
@ext("k_bp")
def _kbp(ex, st, v, i): return R(st, BP(cu(ex, st, v[0]), cu(ex, st, v[1])))
@ext("k_fn1")
def _kf1(ex, st, v, i): 
    e = FN1(cu(ex, st, v[0])); st.assume(z3.And(e >= 0, e < (1 << 32))); return R(st, N(32, e))
@ext("k_fn2")
def _kf2(ex, st, v, i): 
    e = FN2(cu(ex, st, v[0]), cu(ex, st, v[1])); st.assume(z3.And(e >= 0, e < (1 << 32))); return R(st, N(32, e))
def _kop(F):
    def h(ex, st, v, i):
        e = F(cu(ex, st, v[0]), cu(ex, st, v[1])); st.assume(z3.And(e >= 0, e < (1 << 32))); return R(st, N(32, e))
    return h
EXT["k_add"] = _kop(ADD); EXT["k_mul"] = _kop(MUL); EXT["k_sub"] = _kop(SUB)
@ext("k_gen")
def _kg(ex, st, v, i):
    c = st.ghost.get("gen", 0)
    st.writes.add(("ghost", "gen")); st.ghost["gen"] = norm(c + 1) if isz(c) else c + 1
    e = GEN(c if isz(c) else z3.IntVal(c)); st.assume(z3.And(e >= 0, e < (1 << 32)))
    return R(st, N(32, e))
def _count(name):
    def h(ex, st, v, i):
        c = st.ghost.get(name, 0)
        st.writes.add(("ghost", name)); st.ghost[name] = norm(c + 1) if isz(c) else c + 1
        return R(st)
    return h
EXT["q_born"] = _count("born"); EXT["q_gone"] = _count("gone")
@ext("q_bad")
def _qbad(ex, st, v, i):
    ex.oblige(st, "lifetime", False, "use, assignment or destruction of an object that is not alive"); return []
@ext("rand")
def _rand(ex, st, v, i):
    x = ex.D.fresh(32, "rand"); st.assume(bAnd(0 <= x.e, x.e < (1 << 31)) if not ex.D.bv else (x.e >= 0))
    if isz(x.e) and not ex.D.bv: set_bounds(x.e, 0, (1 << 31) - 1)
    return R(st, x)

# assumed contracts on library code that is diagnostic only (records a stack trace inside an exception object)
_DIAG = ["_ZN4ustl10CBacktraceC%dEv", "_ZN4ustl23stream_bounds_exceptionC%dEPKcS2_mmm"]
NOINLINE = {x % k for x in _DIAG for k in (1, 2)}
@ext(*NOINLINE)
def _bt(ex, st, v, i): return R(st)
