"""Executable semantics of the inline assembly that the library uses (AT&T syntax, as LLVM prints it).
An instruction outside this table stops the verifier (VError), it is never skipped."""
import re, z3
from .sym import *
from . import ex as X
from .ir import IntTy, PTR

def split_constraints(s):
    out = []; cur = ""; d = 0
    for ch in s:
        if ch == "{": d += 1
        if ch == "}": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    out.append(cur)
    return out

ALIAS = {}
for a, b in (("ax", "rax eax ax al"), ("bx", "rbx ebx bx bl"), ("cx", "rcx ecx cx cl"), ("dx", "rdx edx dx dl"), ("si", "rsi esi si"), ("di", "rdi edi di")):
    for x in b.split(): ALIAS[x] = a
WID = {"r": 64, "e": 32}

def run(ex, st, text, cons, tys, vals, inst):
    D = ex.D
    slots = []; regs = st.regs; args = list(zip(tys, vals)); outs = []
    regs = dict(regs)
    n = 0
    ret_tys = []
    rt = ex.mod.resolve(inst.ty) if inst.ty is not None and inst.ty.k != "void" else None
    if rt is not None: ret_tys = list(rt.fs) if rt.k == "struct" else [rt]
    oi = 0; ai = 0; tied = []
    for c in split_constraints(cons):
        if c.startswith("~"): continue
        c = c.split("|")[0]
        if c.startswith("="):
            if "*" in c:
                slots.append(("mem", args[ai][1], args[ai][0])); ai += 1
            else:
                m = re.search(r"\{(\w+)\}", c)
                r = ALIAS.get(m.group(1), m.group(1)) if m else "op%d" % len(slots)
                slots.append(("reg", r, ret_tys[oi])); outs.append((r, ret_tys[oi])); oi += 1
        else:
            t, v = args[ai]; ai += 1
            if c.isdigit():
                s = slots[int(c)]
                if s[0] == "mem": ex.store(st, s[1], v, t); slots.append(s); continue
                regs[s[1]] = v; slots.append(("reg", s[1], t)); continue
            if c.startswith("*"): slots.append(("mem", v, t)); continue
            m = re.search(r"\{(\w+)\}", c)
            if m:
                r = ALIAS.get(m.group(1), m.group(1)); regs[r] = v; slots.append(("reg", r, t)); continue
            if c == "x":
                # a scalar in a vector register; what the compiler materialises for a constant leaves the other lanes zero
                r = "xmm_op%d" % len(slots)
                regs[r] = ("bytes", list(D.split_bytes(st, v.n)) + [0] * (16 - v.n.w // 8)); slots.append(("mm", r)); continue
            slots.append(("imm", v, t))
    clobbers = {c[2:-1] for c in split_constraints(cons) if c.startswith("~{")}
    def width(t): return 64 if t.k == "ptr" else t.w if t.k == "int" else None
    def operand(s):
        """('reg',name,w) | ('mem',ptr) | ('val',v) | ('mm',n)"""
        s = s.strip()
        m = re.fullmatch(r"\$\{?(\d+)(?::(\w))?\}?", s)
        if m:
            sl = slots[int(m.group(1))]
            if sl[0] == "reg":
                w = {"k": 32, "q": 64, "w": 16, "b": 8}.get(m.group(2)) or width(sl[2])
                return ("reg", sl[1], w)
            if sl[0] == "mem": return ("mem", sl[1])
            if sl[0] == "mm": return ("mm", sl[1])
            return ("val", sl[1])
        m = re.fullmatch(r"\$\$(-?\w+)", s)
        if m: return ("val", int(m.group(1), 0))
        m = re.fullmatch(r"%(\w+)", s)
        if m:
            r = m.group(1)
            if r.startswith(("mm", "xmm")): return ("mm", r)
            return ("reg", ALIAS[r], WID.get(r[0], 16))
        raise VError("asm operand %r" % s)
    def rd(o, w=None):
        if o[0] == "reg":
            v = regs.get(o[1])
            if v is None: v = D.fresh(64, "reg_" + o[1])
            if isinstance(v, P): v = ex.addr(st, v)
            w = w or o[2]
            return v if v.w == w else D.trunc(st, v, w) if v.w > w else D.zext(st, v, w)
        if o[0] == "val":
            v = o[1]
            if isinstance(v, int): return D.const(w, v)
            if isinstance(v, P): v = ex.addr(st, v)
            return v if v.w == w else D.trunc(st, v, w) if v.w > w else D.zext(st, v, w)
        raise VError("asm operand read")
    def wr(o, v):
        if o[0] != "reg": raise VError("asm operand write")
        if v.w == 32: v = D.zext(st, v, 64)
        regs[o[1]] = v
    def ptr(o):
        v = regs.get(o) if isinstance(o, str) else o
        if isinstance(v, N): v = ex.ptr_from_int(st, v)
        return v
    def junk(r): return ("bytes", [D.fresh(8, "reg_" + r).e for _ in range(16 if r.startswith("x") else 8)])
    def byt(r):
        v = regs.get(r) or junk(r)
        if v[0] != "bytes": raise VError("asm vector arithmetic on a block copy")
        return v[1]
    def wv(r, v):
        """frame condition of the statement: a vector register it changes is declared"""
        if not r.startswith("xmm_op"): ex.oblige(st, "asm", r in clobbers, "register %s is declared as changed" % r)
        regs[r] = v
    lines = []
    rep = False
    for ln in re.split(r"[\n;]", text):
        ln = ln.strip().replace("\t", " ")
        if not ln: continue
        if ln.startswith("rep"):
            rep = True; ln = ln[3:].strip()
            if not ln: continue
        lines.append((rep, ln)); rep = False
    for rep, ln in lines:
        op, _, rest = ln.partition(" ")
        ops = [operand(x) for x in re.split(r",\s*", rest)] if rest.strip() else []
        if op == "cld": st.df = 0
        elif op == "std": st.df = 1
        elif op in ("sfence", "emms"): pass
        elif op in ("movsb", "movsl", "movsw", "movsq") and rep: movs(ex, st, regs, {"b": 1, "w": 2, "l": 4, "q": 8}[op[-1]])
        elif op in ("stosb", "stosw", "stosl") and rep: stos(ex, st, regs, {"b": 1, "w": 2, "l": 4}[op[-1]])
        elif op == "bsr":
            s = rd(ops[0], ops[1][2]); w = s.w
            wr(ops[1], bsr(ex, st, s, rd(ops[1], w)))
        elif op in ("add", "sub", "xor", "and", "or"):
            w = ops[1][2]
            wr(ops[1], D.binop(st, op, rd(ops[1], w), rd(ops[0], w)))
        elif op == "div":
            w = ops[0][2]
            if w != 32: raise VError("asm div width")
            hi, lo, d = rd(("reg", "dx", 32)), rd(("reg", "ax", 32)), rd(ops[0])
            n64 = D.binop(st, "or", D.binop(st, "shl", D.zext(st, hi, 64), D.const(64, 32)), D.zext(st, lo, 64)) if not (not isz(hi.e) and hi.e == 0) else D.zext(st, lo, 64)
            d64 = D.zext(st, d, 64)
            q = D.binop(st, "udiv", n64, d64); r = D.binop(st, "urem", n64, d64)
            wr(("reg", "ax", 32), D.trunc(st, q, 32)); wr(("reg", "dx", 32), D.trunc(st, r, 32))
        elif op in ("mov", "movl"):
            s_, d_ = ops
            if d_[0] == "mem": ex.store(st, d_[1], rd(s_, 32), IntTy(32))
            elif s_[0] == "mem": wr(d_, ex.load(st, s_[1], IntTy(d_[2])))
            else: wr(d_, rd(s_, d_[2]))
        elif op in ("xchg", "xchgl"):
            a, b = ops if ops[0][0] == "reg" else ops[::-1]
            w = a[2]; nv = rd(a, w); t = IntTy(w)
            if b[0] == "mem":       # exchange with memory is one atomic step
                p = b[1]; h = ex.shared(p)
                if h:
                    ex.env_step(st, p, t, h)
                    if h.after: raise VError("asm exchange of a tracked cell")
                ov = ex.load(st, p, t); ex.store(st, p, nv, t)
                if h: st.ghost["events"] = st.ghost.get("events", ()) + (("rmw", p.r.id, p.o, D.u(st, ov), D.u(st, nv), "seq_cst"),)
            else: ov = rd(b, w); wr(b, nv)
            wr(a, ov)
        elif op in ("movaps", "movups", "movntps"):
            s, d = ops
            if s[0] == "mm" and d[0] == "mm": wv(d[1], regs.get(s[1]) or junk(s[1]))
            elif s[0] == "mem":
                if op == "movaps": aligned(ex, st, s[1], 16)
                wv(d[1], vecload(ex, st, s[1], 16))
            else:
                if op in ("movaps", "movntps"): aligned(ex, st, d[1], 16)
                vecstore(ex, st, d[1], regs[s[1]], 16)
        elif op in ("xorps", "pxor") and ops[0] == ops[1]:
            wv(ops[0][1], ("bytes", [0] * (16 if ops[0][1].startswith("x") else 8)))
        elif op in LANE:
            w, f = LANE[op]; s = ops[0]
            b = vecload(ex, st, s[1], 16 if ops[1][1].startswith("x") else 8)[1] if s[0] == "mem" else byt(s[1])
            a = byt(ops[1][1]); k = w // 8; o = []
            for q in range(0, len(a), k):
                x, y = (z3.BitVecVal(v.e, w) if not isz(v.e) else v.e for v in (D.join_bytes(st, a[q:q + k]), D.join_bytes(st, b[q:q + k])))
                o += D.split_bytes(st, D.mk(w, f(x, y)))
            wv(ops[1][1], ("bytes", o))
        elif op == "shufps":
            k, a, b = ops[0][1], byt(ops[2][1]), byt(ops[1][1])
            wv(ops[2][1], ("bytes", [x for q in range(4) for x in (a if q < 2 else b)[4 * ((k >> 2 * q) & 3):][:4]]))
        elif op == "movd":
            v = rd(ops[0], 32); wv(ops[1][1], ("bytes", list(D.split_bytes(st, v)) + [0] * 4))
        elif op == "punpcklbw":
            a, b = regs[ops[1][1]][1], regs[ops[0][1]][1]
            wv(ops[1][1], ("bytes", [x for k in range(4) for x in (a[k], b[k])]))
        elif op == "punpckldq":
            a, b = regs[ops[1][1]][1], regs[ops[0][1]][1]
            wv(ops[1][1], ("bytes", a[:4] + b[:4]))
        elif op == "pshufw":
            k = ops[0][1]; a = regs[ops[1][1]][1]
            o = []
            for q in range(4): s = (k >> (2 * q)) & 3; o += a[2 * s:2 * s + 2]
            wv(ops[2][1], ("bytes", o))
        elif op in ("movntq", "movq"):
            s, d = ops
            if s[0] == "mem": wv(d[1], vecload(ex, st, s[1], 8))
            else: vecstore(ex, st, d[1], regs[s[1]], 8)
        else: raise VError("asm instruction %r" % ln)
    st.regs = {k: v for k, v in regs.items() if k.startswith(("mm", "xmm"))}
    rv = []
    for r, t in outs:
        v = regs[r]
        if t.k == "ptr": rv.append(v if isinstance(v, P) else ex.ptr_from_int(st, v))
        else:
            if isinstance(v, P): v = ex.addr(st, v)
            rv.append(v if v.w == t.w else D.trunc(st, v, t.w) if v.w > t.w else D.zext(st, v, t.w))
    if rt is None: return None
    return Agg(rv) if rt.k == "struct" else rv[0]

LANE = {}
for _n, _f in (("padd", lambda x, y: x + y), ("psub", lambda x, y: x - y)):
    for _s, _w in (("b", 8), ("w", 16), ("d", 32)): LANE[_n + _s] = (_w, _f)
for _n, _f in (("pand", lambda x, y: x & y), ("por", lambda x, y: x | y), ("pxor", lambda x, y: x ^ y)): LANE[_n] = (64, _f)
for _n in ("add", "sub", "mul", "div"): LANE[_n + "ps"] = (32, lambda x, y, n="f" + _n: X.fuf(n, x, y))

for _n, _o in (("andps", "pand"), ("orps", "por"), ("xorps", "pxor")): LANE[_n] = LANE[_o]
def _sat(w, sgn, sub):
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sgn else (0, (1 << w) - 1)
    def f(x, y):
        e = lambda v: z3.SignExt(2, v) if sgn else z3.ZeroExt(2, v)
        r = e(x) - e(y) if sub else e(x) + e(y); L, H = z3.BitVecVal(lo, w + 2), z3.BitVecVal(hi, w + 2)
        return z3.Extract(w - 1, 0, z3.If(r < L, L, z3.If(r > H, H, r)))
    return f
for _s, _w in (("b", 8), ("w", 16)):
    for _n, _b in (("padd", False), ("psub", True)):
        LANE[_n + "us" + _s] = (_w, _sat(_w, False, _b)); LANE[_n + "s" + _s] = (_w, _sat(_w, True, _b))
    LANE["pavg" + _s] = (_w, lambda x, y, w=_w: z3.Extract(w, 1, z3.ZeroExt(1, x) + z3.ZeroExt(1, y) + 1))
LANE["pminub"] = (8, lambda x, y: z3.If(z3.ULT(x, y), x, y)); LANE["pmaxub"] = (8, lambda x, y: z3.If(z3.ULT(y, x), x, y))
LANE["pminsw"] = (16, lambda x, y: z3.If(x < y, x, y)); LANE["pmaxsw"] = (16, lambda x, y: z3.If(y < x, x, y))
LANE["minps"] = (32, lambda x, y: z3.If(X.fuf("olt", x, y, True), x, y)); LANE["maxps"] = (32, lambda x, y: z3.If(X.fuf("olt", y, x, True), x, y))

def aligned(ex, st, p, n):
    a = ex.addr(st, p)
    if ex.D.bv: raise VError("asm vector (bv)")
    e = ex.D.u(st, a)
    ex.oblige(st, "align", eq(e % n if isz(e) else e % n, 0), "%d-byte aligned vector access" % n)

def vecload(ex, st, p, n):
    ex.check_access(st, p, n, "read")
    if ex.D.bv: return ("bytes", [ex.D.u(st, ex.load(st, ex.padd(st, p, k), IntTy(8))) for k in range(n)])
    return ("src", (p, n, [a for a in st.rs(p.r).arrs] if p.r.kind == "arr" else None))
def vecstore(ex, st, d, v, n):
    from . import lib
    ex.check_access(st, d, n, "write")
    if v[0] == "src":
        p, m, arrs = v[1]
        if m != n or arrs is None or d.r.kind != "arr" or d.r.S != 1 or p.r.S != 1: raise VError("asm vector store")
        rs = st.wrs(d.r); st.writes.add((d.r.id, None))
        rs.arrs[0] = Copy(rs.arrs[0], d.i, arrs[0], p.i, n)
        return
    bs = v[1]
    if ex.D.bv:
        for k in range(0, n, 4): ex.store(st, ex.padd(st, d, k), ex.D.join_bytes(st, bs[k:k + 4]), IntTy(32))
        return
    if d.r.kind == "arr" and d.r.S == 1:
        rs = st.wrs(d.r); st.writes.add((d.r.id, None))
        for k in range(n): rs.arrs[0] = Store(rs.arrs[0], norm(d.i + k), bs[k])
        return
    if d.r.kind == "obj":
        if any(isz(x) for x in bs): raise VError("asm vector store")
        for k in range(0, n, 8):
            ex.store(st, ex.padd(st, d, k), ex.D.const(64, int.from_bytes(bytes(bs[k:k + 8]), "little")), IntTy(64))
        return
    # element granular: group bytes per field
    r = d.r; pos = 0
    while pos < n:
        q = ex.padd(st, d, pos)
        fo, w = next((f for f in r.fields if f[0] == q.o), (None, None))
        if fo is None: raise VError("asm vector store granularity")
        ex.store_arr(st, r, q.i, q.o, w // 8, ex.D.join_bytes(st, bs[pos:pos + w // 8])); pos += w // 8

def movs(ex, st, regs, w):
    from . import lib
    s, d, n = regs["si"], regs["di"], regs["cx"]
    D = ex.D
    c = D.u(st, n)
    if isinstance(s, N): s = ex.ptr_from_int(st, s)
    if isinstance(d, N): d = ex.ptr_from_int(st, d)
    nb = norm(c * w) if isz(c) else c * w
    up = st.df == 0
    if s is UNDEF or d is UNDEF or s.r is None or d.r is None:
        ex.oblige(st, "null", eq(c, 0), "string move through null/invalid pointer only with zero count")
        regs["cx"] = D.const(n.w, 0); return
    lo_s = s if up else ex.padd(st, s, norm(w - nb) if isz(nb) else w - nb)
    lo_d = d if up else ex.padd(st, d, norm(w - nb) if isz(nb) else w - nb)
    if s.r is d.r:
        if up: g = bOr(eq(c, 0), le(d.i, s.i), le(norm(s.i + nb), d.i))
        else: g = bOr(eq(c, 0), le(s.i, d.i), le(norm(lo_d.i + nb), lo_s.i))
        ex.oblige(st, "overlap", g, "string move direction suits the overlap")
    lib.copy_mem(ex, st, lo_d, lo_s, nb, "memmove")
    step = nb if up else (norm(-nb) if isz(nb) else -nb)
    regs["si"] = ex.padd(st, s, step); regs["di"] = ex.padd(st, d, step); regs["cx"] = D.const(n.w, 0)

def stos(ex, st, regs, w):
    from . import lib
    d, n, a = regs["di"], regs["cx"], regs["ax"]
    D = ex.D
    c = D.u(st, n)
    if st.df: raise VError("stos with DF set")
    if isinstance(d, N): d = ex.ptr_from_int(st, d)
    nb = norm(c * w) if isz(c) else c * w
    v = D.trunc(st, a, 8 * w) if a.w > 8 * w else a
    if w == 1: lib.fill_mem(ex, st, d, v, nb)
    else:
        if d is UNDEF or d.r is None: ex.oblige(st, "null", eq(c, 0), "fill through null pointer")
        elif d.r.kind == "arr" and (d.r.S == w and len(d.r.fields) == 1):
            ex.oblige(st, "bounds", bOr(eq(c, 0), bAnd(le(0, d.i), le(norm(d.i + c), d.r.n))), "fill inside %s" % d.r.name)
            rs = st.wrs(d.r); st.writes.add((d.r.id, None))
            if rs.occ: rs.occ = {q: z3.Int(fresh_name("occ")) for q in rs.occ}
            rs.arrs[0] = FillA(rs.arrs[0], d.i, c, D.u(st, v))
        else: raise VError("stos granularity")
    regs["di"] = ex.padd(st, d, nb); regs["cx"] = D.const(n.w, 0)

def bsr(ex, st, s, old):
    """index of the highest set bit; a zero source leaves the destination unchanged (AMD64 manual; Intel SDM since 2023)"""
    D = ex.D; w = s.w
    if not isz(s.e):
        v = s.e % (1 << w)
        return D.const(w, v.bit_length() - 1) if v else old
    if D.bv:
        e = D.z(old)
        for k in range(w): e = z3.If(z3.Extract(k, k, s.e) == 1, z3.BitVecVal(k, w), e)
        return N(w, e)
    u = D.u(st, s); o = D.u(st, old)
    kl, kh = 0, w - 1
    if ex.light.valid(st.qf, u >= 2):
        kl = 1
        while kl < w - 1 and ex.light.valid(st.qf, u >= (2 << kl)): kl += 1
        while kh > kl and ex.light.valid(st.qf, u < (1 << kh)): kh -= 1
        if kl == kh: return D.const(w, kl)
    k = z3.Int(fresh_name("bsr")); set_bounds(k, kl, kh); st.assume(bAnd(kl <= k, k <= kh)); p = z3.Int(fresh_name("bsrp")); set_bounds(p, 1, 1 << (w - 1))
    st.assume(bAnd(0 <= k, k < w, 1 <= p, p <= 1 << (w - 1)))
    st.assume(bImp(u >= 1, bAnd(p <= u, u < 2 * p))); st.assume(bImp(u < 1, p == 1))
    st.assume(bAnd(bIff(k >= w - 1, p >= 1 << (w - 1)), bIff(k >= 1, p >= 2), *[bImp(p >= (1 << q), p % (1 << q) == 0) for q in (1, 2, 3, 4)]))
    if getattr(ex.spec, "bsr_exact", False): st.assume(bAnd(*[bIff(k >= q, u >= (1 << q)) for q in range(1, w)]))
    st.rng[("pow2", k.get_id())] = (k, p)
    if ex.light.valid(st.qf, u >= 1): return N(w, k)
    if ex.light.valid(st.qf, o == u): return N(w, k)      # u == 0: k == 0 == destination
    return N(w, z3.If(u >= 1, k, o))
