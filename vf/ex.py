"""Path-based symbolic executor over the IR of the real code, with inductive-invariant loops."""
import struct, z3, time, copy, re
from .ir import *
from .sym import *

MAXADDR = 1 << 47

# =============================================================== regions and state
_rid = itertools.count(1)
class Region:
    """a memory object.  kind 'arr': `n` elements of S bytes each, element = list of (off,width) fields, one array
    term per field.  kind 'obj': fixed-size object, cells at concrete byte offsets."""
    def __init__(self, name, kind, S=1, n=None, fields=None, size=None, origin="param", align=1, const=False):
        self.id = next(_rid); self.name = name; self.kind = kind; self.S = S; self.n = n
        self.fields = fields or [(0, 8 * S)]
        self.size = size; self.origin = origin; self.align = align; self.const = const
        self.base = None; self.glob = None
    def __repr__(self): return "<%s>" % self.name

class RS:
    """per-state contents of a region"""
    __slots__ = ("arrs", "cells", "alive", "occ", "dirty")
    def __init__(self): self.arrs = None; self.cells = None; self.alive = True; self.occ = None; self.dirty = False
    def copy(self):
        r = RS(); r.arrs = list(self.arrs) if self.arrs is not None else None
        r.cells = dict(self.cells) if self.cells is not None else None
        r.alive = self.alive; r.occ = dict(self.occ) if self.occ else self.occ; r.dirty = self.dirty
        return r

class Frame:
    __slots__ = ("fn", "env", "blk", "ip", "prev", "call", "allocas", "contract")
    def __init__(self, fn): self.fn = fn; self.env = {}; self.blk = None; self.ip = 0; self.prev = None; self.call = None; self.allocas = []
    def copy(self):
        f = Frame(self.fn); f.env = dict(self.env); f.blk = self.blk; f.ip = self.ip; f.prev = self.prev; f.call = self.call; f.allocas = list(self.allocas)
        return f

class Join:
    """where the two sides of a branch meet"""
    def __init__(self, to, depth): self.to = to; self.depth = depth; self.at = []

def same_val(x, y):
    if type(x) is not type(y): return False
    if isinstance(x, N): return x.w == y.w and same(x.e, y.e)
    if isinstance(x, P): return x.r is y.r and same(x.i, y.i) and same(x.o, y.o)
    if isz(x): return x.eq(y)
    if isinstance(x, (int, str, bool, tuple, list, dict)): return x == y
    return False

def postdom(fn):
    """the immediate postdominator of every block (none where the paths do not meet again)"""
    if getattr(fn, "_pdom", None) is not None: return fn._pdom
    succ = {}
    for b in fn.blocks.values():
        t = b.ins[-1]
        if t.op == "br": s = [x for x in (t.a[1], t.a[2]) if x]
        elif t.op == "switch": s = [t.a[1]] + [c[1] for c in t.a[2]]
        elif t.op == "invoke": s = [t.a[2], t.a[3]]
        else: s = []
        succ[b.name] = s
    dead = {n for n in succ if fn.blocks[n].ins[-1].op == "unreachable"}
    succ = {n: [x for x in s if x not in dead] for n, s in succ.items() if n not in dead}
    names = set(succ); pd = {n: (set(names) if s else {n}) for n, s in succ.items()}
    ch = True
    while ch:
        ch = False
        for n in names:
            if not succ[n]: continue
            x = set.intersection(*[pd[m] for m in succ[n]]) | {n}
            if x != pd[n]: pd[n] = x; ch = True
    r = {}
    for n in names:
        c = pd[n] - {n}
        for m in c:
            if c <= pd[m]: r[n] = m; break
    try: fn._pdom = r
    except AttributeError: pass
    return r

class State:
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.qf = []; self.writes = set(); self.ghost = {}
        self.pending = None; self.out = None; self.ret = None; self.df = 0; self.regs = {}; self.exc = None; self.trail = []
        self.iters = {}; self.rng = {}; self.heap = []
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: v for k, v in self.mem.items()}      # RS are copied on write
        s.pc = list(self.pc); s.qf = list(self.qf); s.writes = set(self.writes); s.ghost = dict(self.ghost)
        s.pending = self.pending; s.out = self.out; s.ret = self.ret; s.df = self.df; s.regs = dict(self.regs); s.exc = self.exc
        s.trail = list(self.trail); s.iters = dict(self.iters); s.rng = dict(self.rng); s.heap = list(self.heap)
        return s
    def assume(self, f):
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        self.pc.append(f)
        if not is_quant(f): self.qf.append(f)
    def rs(self, r): return self.mem[r.id]
    def wrs(self, r, mark=True):
        x = self.mem[r.id].copy(); self.mem[r.id] = x
        return x

# =============================================================== integer domain (Int)
class IntDom:
    bv = False
    def __init__(self, ex): self.ex = ex
    def fresh(self, w, name):
        v = z3.Int(fresh_name(name)); set_bounds(v, 0, (1 << w) - 1)
        return N(w, v)
    def range_fact(self, n): return bAnd(0 <= n.e, n.e < (1 << n.w)) if isz(n.e) else True
    def const(self, w, v): return N(w, v)
    def inr(self, st, e, lo, hi):
        a, b = bounds(e)
        if lo <= a and b <= hi: return True
        if a > hi or b < lo: return False
        key = (e.get_id(), lo, hi)
        if key in st.rng: return True
        if self.ex.light.valid(st.qf, bAnd(lo == -INF or lo <= e, hi == INF or e <= hi)):
            st.rng[key] = e
            return True
        return False
    def u(self, st, x):
        e, w = x.e, x.w
        M = 1 << w
        if not isz(e): return e % M
        if self.inr(st, e, 0, M - 1): return e
        if self.inr(st, e, -M, M - 1): return z3.If(e < 0, e + M, e)
        if self.inr(st, e, 0, 2 * M - 1): return z3.If(e >= M, e - M, e)
        return e % M
    def s(self, st, x):
        e, w = x.e, x.w
        M = 1 << w; H = M >> 1
        if not isz(e):
            e %= M
            return e - M if e >= H else e
        if self.inr(st, e, -H, H - 1): return e
        if self.inr(st, e, 0, M - 1): return z3.If(e >= H, e - M, e)
        if self.inr(st, e, -M, H - 1): return z3.If(e < -H, e + M, e)
        return z3.If(e % M >= H, e % M - M, e % M)
    def idx(self, st, x): return norm(self.s(st, x))
    def bool2n(self, w, b):
        if isinstance(b, bool): return N(w, int(b))
        return N(w, z3.If(b, z3.IntVal(1), z3.IntVal(0)), b=b)
    def n2bool(self, st, x):
        if x.b is not None: return x.b
        if not isz(x.e): return bool(x.e & 1)
        return self.u(st, x) % 2 == 1
    def binop(self, st, op, x, y, flags=()):
        w, a, b = x.w, x.e, y.e
        if op == "add": return N(w, norm(a + b))
        if op == "sub": return N(w, norm(a - b))
        if op == "mul":
            if not isz(a): a = self.small(a, w)
            if not isz(b): b = self.small(b, w)
            return N(w, norm(a * b)) if not (isz(a) and isz(b)) else N(w, self.u(st, x) * self.u(st, y))
        if op in ("udiv", "urem"):
            ua, ub = self.u(st, x), self.u(st, y)
            self.ex.oblige(st, "div0", bNot(eq(ub, 0)), "divisor nonzero")
            if not isz(ua) and not isz(ub): return N(w, ua // ub if op == "udiv" else ua % ub)
            if op == "udiv":
                if not isz(ub):
                    q = split_lin(ua, ub)
                    if q is not None: return N(w, q[0])
                    a, b = bounds(zi(ua) / zi(ub))
                    if a == b: return N(w, a)
                return N(w, zi(ua) / zi(ub))
            if not isz(ub) and self.divexact_syn(ua, ub) is not None: return N(w, 0)
            return N(w, zi(ua) % zi(ub))
        if op in ("sdiv", "srem"):
            sa, sb = self.s(st, x), self.s(st, y)
            if not isz(sa) and not isz(sb):
                q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
                return N(w, q if op == "sdiv" else sa - q * sb)
            if not isz(sb):
                q = self.divexact_syn(sa, sb)
                if q is not None: return N(w, q if op == "sdiv" else 0)
                if op == "sdiv" and sb > 0:
                    if "exact" in flags or self.inr(st, sa, 0, INF): return N(w, zi(sa) / sb)
                    return N(w, z3.If(sa >= 0, sa / sb, -((-sa) / sb)))
                if op == "srem" and sb > 0:
                    if self.inr(st, sa, 0, INF): return N(w, zi(sa) % sb)
                    return N(w, z3.If(sa >= 0, sa % sb, -((-sa) % sb)))
            sa, sb = zi(sa), zi(sb)
            q = z3.If(sa >= 0, z3.If(sb >= 0, sa / sb, -(sa / -sb)), z3.If(sb >= 0, -((-sa) / sb), (-sa) / (-sb)))
            return N(w, q if op == "sdiv" else sa - q * sb)
        if op in ("shl", "lshr", "ashr"):
            k = self.u(st, y)
            if isz(k) and ("const", k.get_id()) in st.rng: y = N(y.w, st.rng[("const", k.get_id())][1])
        if op == "shl":
            k = self.u(st, y)
            if isz(k): 
                if not isz(a) and (a % (1 << w)) == 1: return N(w, self.ex.pow2(st, k, w))
                raise VError("symbolic shift")
            if k >= w: return N(w, 0)
            return N(w, norm(a * (1 << k)))
        if op == "lshr":
            k = self.u(st, y)
            if isz(k): raise VError("symbolic shift")
            ua = self.u(st, x)
            if self.cuts and isz(ua): return N(w, self.field(st, ua, k, w - k, w))
            q = split_lin(ua, 1 << k)
            return N(w, q[0]) if q is not None else N(w, zi(ua) / (1 << k))
        if op == "ashr":
            k = self.u(st, y)
            if isz(k): raise VError("symbolic shift")
            sa = self.s(st, x)
            return N(w, sa >> k) if not isz(sa) else N(w, zi(sa) / (1 << k))
        M = 1 << w
        if op in ("and", "or", "xor"):
            if not isz(a) and not isz(b):
                a %= M; b %= M
                return N(w, a & b if op == "and" else a | b if op == "or" else a ^ b)
            if not isz(a): x, y, a, b = y, x, b, a
            if not isz(b):
                c = b % M
                if op == "and":
                    if c == 0: return N(w, 0)
                    if c == M - 1: return x
                    if x.b is not None: return N(w, z3.If(x.b, z3.IntVal(c & 1), z3.IntVal(0)), b=x.b if c & 1 else False)
                    if self.cuts:
                        ua = self.u(st, x); r = 0
                        for lo_, sz in bitruns(c): r = r + self.field(st, ua, lo_, sz, w) * (1 << lo_)
                        return N(w, norm(r) if isz(r) else r)
                    if c & (c + 1) == 0:          # low mask
                        if isz(a) and self.inr(st, a, 0, c): return x
                        q = split_lin(a, c + 1)
                        if q is not None: return N(w, q[1])
                        return N(w, zi(a) % (c + 1))
                    nc = (M - 1) ^ c
                    if nc & (nc + 1) == 0:        # high mask: clear low bits
                        ua = self.u(st, x); return N(w, ua - ua % (nc + 1))
                    # contiguous mask 2^i..2^j
                    low = c & -c; t = c // low
                    if t & (t + 1) == 0:
                        ua = self.u(st, x); return N(w, bitfield(ua, low.bit_length() - 1, t.bit_length()) * low)
                    ua = self.u(st, x); r = 0       # any mask: sum over its runs of ones
                    for lo_, sz in bitruns(c): r = r + bitfield(ua, lo_, sz) * (1 << lo_)
                    return N(w, r)
                if op == "or":
                    if c == 0: return x
                    if x.b is not None: return N(w, z3.If(x.b, z3.IntVal(1 | c), z3.IntVal(c)))
                    ua = self.u(st, x)
                    low = c & -c
                    if self.inr(st, ua, 0, low - 1): return N(w, ua + c)
                    v = pow2val(ua)
                    if c < v: return N(w, norm(ua + c))
                    if self.cuts:
                        r = ua + c
                        for lo_, sz in bitruns(c): r = r - self.field(st, ua, lo_, sz, w) * (1 << lo_)
                        return N(w, norm(r))
                    r = ua
                    for lo_, sz in bitruns(c): r = r - bitfield(ua, lo_, sz) * (1 << lo_)
                    return N(w, r + c)
                if op == "xor":
                    if c == 0: return x
                    if c == M - 1: return N(w, norm(-1 - a))
                    if x.b is not None and c == 1: return self.bool2n(w, bNot(x.b))
                    if self.cuts:
                        ua = self.u(st, x); r = ua + c
                        for lo_, sz in bitruns(c): r = r - 2 * self.field(st, ua, lo_, sz, w) * (1 << lo_)
                        return N(w, norm(r))
                    ua = self.u(st, x); r = ua + c
                    for lo_, sz in bitruns(c): r = r - 2 * bitfield(ua, lo_, sz) * (1 << lo_)
                    return N(w, r)
            else:
                if op == "or" and x.b is not None and y.b is not None: return self.bool2n(w, bOr(x.b, y.b))
                if op == "and" and x.b is not None and y.b is not None: return self.bool2n(w, bAnd(x.b, y.b))
                if op == "xor" and x.b is not None and y.b is not None: return self.bool2n(w, bNot(bIff(x.b, y.b)))
                ua, ub = self.u(st, x), self.u(st, y)
                if ua.eq(ub): return x if op != "xor" else N(w, 0)
                if op == "and":
                    # all-or-nothing mask: (condition ? 1 : 0) - 1 or its negation
                    for m, o in ((a, ub), (b, ua)):
                        c0, d0 = lin(norm(m))
                        if len(d0) == 1:
                            co, at = next(iter(d0.values()))
                            if at.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(at.arg(1)) and z3.is_int_value(at.arg(2)):
                                t, f = (c0 + co * at.arg(1).as_long()) % M, (c0 + co * at.arg(2).as_long()) % M
                                if {t, f} == {0, M - 1}: return N(w, z3.If(at.arg(0), zi(o if t else 0), zi(o if f else 0)))
                for m, o in ((a, x), (b, y)):        # one of two constants: decide by cases
                    o = y if o is x else x
                    t = self.two(m, M)
                    if t is None: continue
                    r1, r2 = (self.binop(st, op, o, N(w, k)) for k in t[1:])
                    return N(w, z3.If(t[0], zi(self.u(st, r1)), zi(self.u(st, r2))))
                if op == "or":          # disjoint: one is a multiple of 2^k, the other below it
                    for p, q in ((ua, ub), (ub, ua)):
                        v = pow2val(p)
                        if v > 1 and self.inr(st, q, 0, v - 1): return N(w, norm(p + q))
                # bounds only: exact bit patterns are the business of the bit-vector contracts
                r = self.fresh(w, op)
                lo, hi = (0, z3.If(ua < ub, ua, ub)) if op == "and" else (z3.If(ua < ub, ub, ua), ua + ub) if op == "or" else (0, ua + ub)
                st.assume(bAnd(0 <= r.e, r.e < M, lo <= r.e, r.e <= hi))
                if op == "xor": st.assume(bIff(r.e == 0, ua == ub))
                return r
            # general: go through bit-vectors
            if w <= 64:
                ba, bb = z3.Int2BV(zi(self.u(st, x)), w), z3.Int2BV(zi(self.u(st, y)), w)
                r = ba & bb if op == "and" else ba | bb if op == "or" else ba ^ bb
                return N(w, z3.BV2Int(r))
        raise VError("int op %s" % op)
    @staticmethod
    def two(m, M):
        """(condition, constant, constant) of an expression with two possible values"""
        c0, d0 = lin(norm(m))
        if len(d0) != 1: return None
        co, at = next(iter(d0.values()))
        if at.decl().kind() != z3.Z3_OP_ITE or not z3.is_int_value(at.arg(1)) or not z3.is_int_value(at.arg(2)): return None
        return at.arg(0), (c0 + co * at.arg(1).as_long()) % M, (c0 + co * at.arg(2).as_long()) % M
    @property
    def cuts(self): return getattr(self.ex.spec, "cuts", False)
    def field(self, st, u, lo, sz, w):
        """bits lo..lo+sz-1 of u (< 2^w): u is decomposed into fresh pieces with linear defining equations"""
        if not isz(u): return (u >> lo) & ((1 << sz) - 1)
        if lo >= w: return 0
        sz = min(sz, w - lo)
        if lo == 0 and sz == w: return u
        b = bounds(u)
        if b[0] >= 0 and b[1] < 1 << lo: return 0
        q = split_lin(u, 1 << lo) if lo else (u, 0)
        if q is not None:
            h = q[0]
            if not isz(h): return h & ((1 << sz) - 1)
            if bounds(h)[0] >= 0 and bounds(h)[1] < 1 << sz: return h
            r = split_lin(h, 1 << sz)
            if r is not None: return r[1]
        key = ("bits", u.get_id())
        ps = st.rng[key][1] if key in st.rng else [(0, w, u)]
        for cut in (lo, lo + sz):
            if cut >= w or any(p[0] == cut for p in ps): continue
            k = next(n for n, p in enumerate(ps) if p[0] < cut < p[0] + p[1])
            a, n, e = ps[k]
            r = split_lin(e, 1 << (cut - a))
            if r is not None: h, l = r
            else:
                l, h = z3.Int(fresh_name("bits")), z3.Int(fresh_name("bits")); set_bounds(l, 0, (1 << (cut - a)) - 1); set_bounds(h, 0, (1 << (n - (cut - a))) - 1)
                st.assume(z3.And(0 <= l, l < 1 << (cut - a), 0 <= h, h < 1 << (n - (cut - a)), e == h * (1 << (cut - a)) + l))
            ps = ps[:k] + [(a, cut - a, l), (cut, n - (cut - a), h)] + ps[k + 1:]
        st.rng[key] = (u, ps)
        r = 0
        for a, n, e in ps:
            if lo <= a < lo + sz: r = r + e * (1 << (a - lo))
        return norm(r) if isz(r) else r
    def small(self, v, w):
        v %= (1 << w)
        return v - (1 << w) if v >= (1 << (w - 1)) else v
    def divexact_syn(self, e, k):
        if not isz(e): return e // k if e % k == 0 else None
        c, d = lin(e)
        if c % k or any(co % k for co, _ in d.values()): return None
        return unlin(c // k, {i: (co // k, x) for i, (co, x) in d.items()})
    def divexact(self, st, e, k):
        q = self.divexact_syn(e, k)
        if q is not None: return q
        if isz(e) and self.ex.light.valid(st.qf, e % k == 0):
            return e / k
        return None
    def icmp(self, st, pred, x, y):
        if pred in ("eq", "ne"):
            if x.b is not None and not isz(y.e): r = bIff(x.b, bool(y.e)) if y.e % (1 << x.w) in (0, 1) else False
            else:
                d = diffconst(x.e, y.e)
                if d is not None: r = d % (1 << x.w) == 0
                else:
                    M = 1 << x.w
                    dd = norm(x.e - y.e)
                    if self.inr(st, dd, -M + 1, M - 1): r = dd == 0 if not isz(x.e) or not isz(y.e) else x.e == y.e
                    else: r = eq(self.u(st, x), self.u(st, y))
            return r if pred == "eq" else bNot(r)
        if pred[0] == "u": a, b = self.u(st, x), self.u(st, y)
        else: a, b = self.s(st, x), self.s(st, y)
        p = pred[1:]
        if p == "lt": return lt(a, b)
        if p == "le": return le(a, b)
        if p == "gt": return lt(b, a)
        return le(b, a)
    def trunc(self, st, x, w): return N(w, x.e if isz(x.e) else x.e % (1 << w), b=x.b)
    def zext(self, st, x, w): return N(w, self.u(st, x), b=x.b)
    def sext(self, st, x, w): return N(w, self.s(st, x))
    def ite(self, st, c, x, y):
        if x.b is not None and y.b is not None: return self.bool2n(x.w, ite(c, x.b, y.b))
        return N(x.w, ite(c, zi(x.e), zi(y.e)))
    def join_bytes(self, st, bs):
        """little-endian bytes (canonical exprs) -> N"""
        e = 0
        for k, b in enumerate(bs): e = e + b * (1 << (8 * k))
        return N(8 * len(bs), norm(e), bytes=list(bs))
    def split_bytes(self, st, x):
        if x.bytes: return x.bytes
        u = self.u(st, x); n = x.w // 8
        if not isz(u): return [(u >> (8 * k)) & 255 for k in range(n)]
        if n == 1: return [u]
        key = ("split", u.get_id())
        if key in st.rng: return st.rng[key][1]
        bs = []; tot = 0
        for k in range(n):
            b = z3.Int(fresh_name("byte")); set_bounds(b, 0, 255); st.assume(z3.And(0 <= b, b < 256)); bs.append(b); tot = tot + b * (1 << (8 * k))
        st.assume(tot == u)
        st.rng[key] = (u, bs)
        return bs
    def ival(self, v): return z3.IntVal(v)

def zi(e): return e if isz(e) else z3.IntVal(e)
def bitruns(c):
    """runs of ones of a constant: (lowest bit, length)"""
    out = []; i = 0
    while c >> i:
        if c >> i & 1:
            j = i
            while c >> j & 1: j += 1
            out.append((i, j - i)); i = j
        else: i += 1
    return out
def split_lin(e, m):
    """(h, l) with e == h*m + l and 0 <= l < m by bounds alone, or None"""
    if not isz(e): return e // m, e % m
    c, d = lin(norm(e))
    if not d: return None
    hi = {i: (co // m, x) for i, (co, x) in d.items() if co % m == 0}
    lo = {i: (co, x) for i, (co, x) in d.items() if co % m}
    if not hi and len(lo) == 1 and c == 0 and next(iter(lo.values()))[0] == 1 and bounds(e)[0] < 0: return None
    l = unlin(c % m, lo)
    a, b = bounds(l)
    if a < 0 or b >= m: return None
    return unlin(c // m, hi), l
def bitfield(u, lo, sz):
    """bits lo .. lo+sz-1 of a non-negative value"""
    q = split_lin(u, 1 << lo); h = q[0] if q is not None else u / (1 << lo)
    if not isz(h): return h % (1 << sz)
    if bounds(h)[0] >= 0 and bounds(h)[1] < 1 << sz: return h
    q = split_lin(h, 1 << sz)
    return q[1] if q is not None else h % (1 << sz)
def pow2val(e):
    """greatest power of two that divides a linear expression syntactically (capped at 2^64)"""
    c, d = lin(norm(e)) if isz(e) else (e, {})
    g = c
    for co, _ in d.values(): g |= co
    return g & -g if g else 1 << 64

# =============================================================== bit-vector domain
class BVDom:
    bv = True
    def __init__(self, ex): self.ex = ex
    def z(self, x): return x.e if isz(x.e) else z3.BitVecVal(x.e, x.w)
    def mk(self, w, e):
        if isz(e):
            e = z3.simplify(e)
            if z3.is_bv_value(e): e = e.as_long()
        return N(w, e)
    def fresh(self, w, name): return N(w, z3.BitVec(fresh_name(name), w))
    def range_fact(self, n): return True
    def const(self, w, v): return N(w, v % (1 << w))
    def u(self, st, x): return x.e
    def s(self, st, x):
        if isz(x.e): return x.e
        return x.e - (1 << x.w) if x.e >= (1 << (x.w - 1)) else x.e
    def idx(self, st, x): return self.s(st, x)
    def bool2n(self, w, b):
        if isinstance(b, bool): return N(w, int(b))
        return N(w, z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), b=b)
    def n2bool(self, st, x):
        if x.b is not None: return x.b
        if not isz(x.e): return bool(x.e & 1)
        return z3.Extract(0, 0, x.e) == 1
    def binop(self, st, op, x, y, flags=()):
        w = x.w
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.ex.oblige(st, "div0", bNot(self._eq(x.w, y.e, 0)), "divisor nonzero")
        a, b = self.z(x), self.z(y)
        if op == "add": r = a + b
        elif op == "sub": r = a - b
        elif op == "mul": r = a * b
        elif op == "udiv": r = z3.UDiv(a, b)
        elif op == "urem": r = z3.URem(a, b)
        elif op == "sdiv": r = a / b
        elif op == "srem": r = z3.SRem(a, b)
        elif op == "shl": r = a << b
        elif op == "lshr": r = z3.LShR(a, b)
        elif op == "ashr": r = a >> b
        elif op == "and": r = a & b
        elif op == "or": r = a | b
        elif op == "xor": r = a ^ b
        else: raise VError("bv op " + op)
        if op in ("shl", "lshr", "ashr"):
            if isz(y.e): self.ex.oblige(st, "shift", z3.ULT(b, w), "shift count below width")
            elif y.e >= w: self.ex.oblige(st, "shift", False, "shift count below width")
        return self.mk(w, r)
    def _eq(self, w, a, b):
        if not isz(a) and not isz(b): return a == b
        return self.z(N(w, a)) == self.z(N(w, b))
    def icmp(self, st, pred, x, y):
        if x.b is not None and not isz(y.e) and pred in ("eq", "ne") and y.e in (0, 1):
            r = bIff(x.b, bool(y.e)); return r if pred == "eq" else bNot(r)
        a, b = self.z(x), self.z(y)
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
             "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r
    def trunc(self, st, x, w):
        if not isz(x.e): return N(w, x.e % (1 << w))
        r = self.mk(w, z3.Extract(w - 1, 0, x.e)); r.b = x.b
        return r
    def zext(self, st, x, w):
        if not isz(x.e): return N(w, x.e)
        r = self.mk(w, z3.ZeroExt(w - x.w, x.e)); r.b = x.b
        return r
    def sext(self, st, x, w):
        if not isz(x.e): return N(w, self.s(st, x) % (1 << w))
        return self.mk(w, z3.SignExt(w - x.w, x.e))
    def ite(self, st, c, x, y):
        return N(x.w, ite(c, self.z(x), self.z(y)))
    def join_bytes(self, st, bs):
        zs = [b if isz(b) else z3.BitVecVal(b, 8) for b in bs]
        if len(zs) == 1: return self.mk(8, zs[0])
        if all(z3.is_app_of(z, z3.Z3_OP_EXTRACT) for z in zs):      # consecutive pieces of one value
            ps = [z.params() for z in zs]; t = zs[0].arg(0)
            if all(z.arg(0).eq(t) for z in zs) and all(b[1] == a[0] + 1 for a, b in zip(ps, ps[1:])):
                return N(8 * len(bs), t if ps[0][1] == 0 and ps[-1][0] + 1 == t.size() else z3.Extract(ps[-1][0], ps[0][1], t))
        return self.mk(8 * len(bs), z3.Concat(*reversed(zs)))
    def split_bytes(self, st, x):
        n = x.w // 8
        if not isz(x.e): return [(x.e >> (8 * k)) & 255 for k in range(n)]
        if z3.is_app_of(x.e, z3.Z3_OP_CONCAT) or n == 1: return [self.mk(8, z3.Extract(8 * k + 7, 8 * k, x.e)).e for k in range(n)]
        return [z3.Extract(8 * k + 7, 8 * k, x.e) for k in range(n)]
    def divexact(self, st, e, k):
        if not isz(e): return e // k if e % k == 0 else None
        if k & (k - 1) == 0 and self.ex.light.valid(st.qf, e & (k - 1) == 0): return e >> (k.bit_length() - 1)
        return None
    def inr(self, st, e, lo, hi):
        if not isz(e): return lo <= e <= hi
        return self.ex.light.valid(st.qf, z3.And(lo <= e, e <= hi))

def fp_bits(t, w):
    """bits of an IR floating-point literal (hexadecimal literals are doubles)"""
    if t.startswith("0x") and not re.fullmatch(r"0x[0-9A-Fa-f]+", t): return None
    d = struct.unpack("<d", int(t, 16).to_bytes(8, "little"))[0] if t.startswith("0x") else float(t)
    return int.from_bytes(struct.pack("<d" if w == 64 else "<f", d), "little")
def fuf(op, a, b, rel=False):
    """the uninterpreted IEEE operation (or relation) op on bit patterns"""
    w = a.size(); bs = z3.BitVecSort(w)
    return z3.Function("%s%d" % (op, w), bs, bs, z3.BoolSort() if rel else bs)(a, b)

class Failure:
    def __init__(self, kind, where, goal, info, st): self.kind, self.where, self.goal, self.info, self.st = kind, where, goal, info, st
    def __str__(self): return "%s: %s [%s]" % (self.kind, self.info, self.where)

class LoopCtx:
    def __init__(self, loop, depth): self.loop, self.depth = loop, depth; self.back = []; self.exit = []

# =============================================================== executor
class Exec:
    def __init__(self, mod, mode="int", unroll=None, contracts=None, budget=300, spec=None):
        self.mod = mod; self.mode = mode
        self.light = Light()
        self.D = BVDom(self) if mode == "bv" else IntDom(self)
        self.unroll = unroll
        self.contracts = contracts or {}; self.once = ()
        self.spec = spec
        self.globals = {}
        self.rec = True
        self.failures = []; self.nob = {}; self.discharged = {}
        self.used_contracts = set(); self.inlined = set(); self.externals = set()
        self.deadline = time.time() + budget
        self.npaths = 0; self.loopinfo = []
        self.timeout = 8000
        self.survivors = {}
        self.tracked = []          # occurrence ghosts: (region, lo, hi)
        self.maxpaths = 4000
        self.bounded = False
        self.trace = False
        self.fail_fast = False
        self.obl_log = []
        self.occ_keys = {}
        self.lemma_hooks = []

    # ---------------------------------------------------------- obligations
    def where(self, st):
        if st.frames:
            f = st.frames[-1]; b = f.fn.blocks.get(f.blk)
            if b and f.ip < len(b.ins):
                i = b.ins[f.ip]
                w = self.mod.where(i.line) if i.line else "?"
                return "%s @ %s" % (w, i.txt[:90])
        return "exit"
    def oblige(self, st, kind, goal, info, model=False, assume=True):
        if not self.rec:
            if assume: st.assume(goal)
            return True
        if time.time() > self.deadline: raise Budget("time budget exhausted")
        self.nob[kind] = self.nob.get(kind, 0) + 1
        how = self.prove(st, goal)
        if how:
            self.discharged[how] = self.discharged.get(how, 0) + 1
            if len(self.obl_log) < 400: self.obl_log.append((kind, info, self.where(st)[:140], how))
            if assume: st.assume(goal)
            return True
        f = Failure(kind, self.where(st), goal, info, st.fork()); self.failures.append(f)
        f.model = self.model_of(st, goal)
        if self.fail_fast: raise Budget("fail-fast")
        if assume: st.assume(goal)
        return False
    def model_of(self, st, goal):
        """solver's candidate values for the named inputs (a hint for the replay search, not a verdict)"""
        if self.D.bv and False: return {}
        try:
            r, m = heavy(self.facts(st), goal, 2000, want_model=True)
            out = {}
            if m is None: return out
            for n, v in (self.spec.named if self.spec is not None else {}).items():
                if isz(v) and (z3.is_int(v) or z3.is_bv(v)):
                    x = m.eval(v, model_completion=True)
                    if z3.is_int_value(x): out[n] = x.as_long()
                    elif z3.is_bv_value(x): out[n] = x.as_long()
            return out
        except z3.Z3Exception: return {}
    def prove(self, st, goal, timeout=None):
        if goal is True: return "syntactic"
        if goal is False: goal = z3.BoolVal(False)
        if self.D.bv and z3.is_true(z3.simplify(goal, som=True)): return "z3-qf"
        if not is_quant(goal) and self.light.valid(st.qf, goal): return "z3-qf"
        if z3.is_and(goal) and goal.num_args() <= 8:
            ok = True
            for k in range(goal.num_args()):
                if not self.prove(st, goal.arg(k), timeout): ok = False; break
            if ok: return "z3-ematch"
            return None
        r, _ = heavy(self.facts(st), goal, timeout or self.timeout)
        if r == "proved": return "z3-ematch"
        return None
    def facts(self, st):
        fs = st.pc
        for h in self.lemma_hooks: fs = h(fs)
        return fs

    # ---------------------------------------------------------- regions
    def new_region(self, st, r, arrs=None, cells=None):
        x = RS()
        if r.kind == "arr":
            if arrs is None: arrs = [self.fresh_arr(r, k) for k in range(len(r.fields))]
            x.arrs = arrs
        else: x.cells = dict(cells or {})
        st.mem[r.id] = x
        return r
    def fresh_arr(self, r, k, nm=None):
        off, w = r.fields[k]
        n = fresh_name(nm or (r.name + ("" if len(r.fields) == 1 else "_%d" % off)))
        if self.D.bv: return Base(z3.Array(n, z3.BitVecSort(64), z3.BitVecSort(w)))
        a = z3.Array(n, z3.IntSort(), z3.IntSort())
        ARRB[a.get_id()] = (a, 0, (1 << w) - 1)
        return Base(a)
    def addr_base(self, st, r):
        """numeric base address of a region"""
        if r.base is None:
            if self.D.bv: r.base = z3.BitVec(fresh_name("base_" + r.name), 64)
            else:
                r.base = z3.Int(fresh_name("base_" + r.name)); set_bounds(r.base, 4096, MAXADDR)
        key = ("base", r.id)
        if key not in st.rng:
            st.rng[key] = r.base
            sz = self.rbytes(r)
            if self.D.bv:
                st.assume(z3.And(z3.UGE(r.base, 4096), z3.ULT(r.base, MAXADDR)))
                if r.align > 1: st.assume(r.base & (r.align - 1) == 0)
            else:
                st.assume(z3.And(r.base >= 4096, r.base + sz < MAXADDR))
                if r.align > 1: st.assume(r.base % r.align == 0)
        return r.base
    def rbytes(self, r): return r.size if r.kind == "obj" else r.n * r.S
    def addr(self, st, p):
        """pointer -> N64"""
        if isinstance(p, Fn): return self.D.const(64, self.fnaddr(p.name))
        if p.r is None: return N(64, p.i)
        b = self.addr_base(st, p.r)
        return N(64, norm(b + p.i * p.r.S + p.o))
    def fnaddr(self, n):
        return 0x400000 + 16 * (hash(n) % (1 << 20))

    def global_ptr(self, st, name):
        if name in self.mod.aliases and name not in self.mod.funcs and name not in self.mod.globals:
            return self.val_const(st, self.mod.aliases[name], PTR)
        if name in self.mod.funcs or name in self.mod.aliases: return Fn(name)
        r = self.globals.get(name)
        if r is None:
            g = self.mod.globals.get(name)
            if g is None: raise VError("unknown global @" + name)
            ty = self.mod.resolve(g.ty)
            if name.startswith("_ZTI") and g.init is None: r = Region(name, "obj", size=16, origin="global", const=True, align=8); r.glob = g
            elif ty.k == "arr" and ty.el.k == "int" and ty.el.w in (8, 16, 32, 64) and g.const:
                d = None
                if g.init is not None:
                    if g.init.k == "str": d = list(g.init.v)
                    elif g.init.k == "zero": d = [0] * ty.n
                    elif g.init.k == "agg": d = [o.v % (1 << ty.el.w) if o.k == "int" else 0 for _, o in g.init.v]
                r = Region(name, "arr", S=ty.el.w // 8, n=ty.n, origin="global", const=True, align=1)
                r.glob = d
            else:
                r = Region(name, "obj", size=self.mod.size(g.ty), origin="global", const=g.const, align=8)
                r.glob = g
            self.globals[name] = r
        if r.id not in st.mem:
            if r.kind == "arr":
                self.new_region(st, r, [Const(r.glob)] if r.glob else None)
            else:
                cells = {}
                g = r.glob
                if g.init is not None: self.init_cells(st, cells, 0, g.ty, g.init)
                elif name.startswith("_ZTI"):       # std::type_info of a basic type: its name
                    t = self.globals.get(name + ".name")
                    if t is None:
                        t = self.globals[name + ".name"] = Region(name + ".name", "arr", S=1, n=len(name) - 3, origin="global", const=True, align=1)
                    if t.id not in st.mem: self.new_region(st, t, [Const(list(name[4:].encode()) + [0])])
                    cells[8] = (8, P(t, 0, 0))
                self.new_region(st, r, cells=cells)
        return P(r, 0, 0)
    def init_cells(self, st, cells, off, ty, op):
        ty = self.mod.resolve(ty)
        if op.k in ("zero", "undef"):
            for o, t in self.mod.leaves(ty, off):
                if t.k == "ptr": cells[o] = (8, NULL)
                elif t.k == "int": cells[o] = (self.mod.size(t), self.D.const(8 * self.mod.size(t), 0))
                else: cells[o] = (self.mod.size(t), Fl(self.D.const(8 * self.mod.size(t), 0)))
        elif ty.k == "struct":
            offs = self.mod.layout(ty)[0]
            for o, (t, v) in zip(offs, op.v): self.init_cells(st, cells, off + o, t, v)
        elif ty.k == "arr":
            s = self.mod.size(ty.el)
            if op.k == "str":
                for k, c in enumerate(op.v): cells[off + k] = (1, self.D.const(8, c))
            else:
                for k, (t, v) in enumerate(op.v): self.init_cells(st, cells, off + k * s, t, v)
        elif ty.k == "ptr":
            cells[off] = (8, ("lazy", op))
        elif ty.k == "int": cells[off] = (self.mod.size(ty), self.D.const(8 * self.mod.size(ty), op.v))
        else: cells[off] = (self.mod.size(ty), Fl(self.D.const(8 * self.mod.size(ty), 0)))

    # ---------------------------------------------------------- operand evaluation
    def val(self, st, op, ty=None):
        if op.k == "reg":
            f = st.frames[-1]
            try: return f.env[op.v]
            except KeyError: raise VError("undefined register %%%s in %s" % (op.v, f.fn.name))
        return self.val_const(st, op, ty or op.ty)
    def val_const(self, st, op, ty):
        k = op.k
        if k == "int":
            if ty.w == 1: return bool(op.v & 1)
            return self.D.const(ty.w, op.v)
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "glob": return self.global_ptr(st, op.v)
        if k == "zero":
            ty = self.mod.resolve(ty)
            if ty.k == "ptr": return NULL
            if ty.k == "int": return self.D.const(ty.w, 0)
            if ty.k == "struct": return Agg([self.val_const(st, op, t) for t in ty.fs])
            if ty.k == "arr": return Agg([self.val_const(st, op, ty.el) for _ in range(ty.n)])
        if k == "agg": return Agg([self.val_const(st, o, t) for t, o in op.v])
        if k == "cexpr":
            c = op.v
            if c[0] == "gep":
                base = self.val_const(st, c[2][0][1], PTR)
                return self.gep(st, c[1], base, [(t, self.val_const(st, o, t)) for t, o in c[2][1:]])
            if c[0] == "cast":
                v = self.val_const(st, c[3], c[2])
                return self.cast(st, c[1], c[2], v, c[4])
            if c[0] == "bin":
                return self.D.binop(st, c[1], self.val_const(st, c[3], c[2]), self.val_const(st, c[4], c[2]))
        if k == "fp":
            w = 64 if ty.k == "double" else 32
            b = fp_bits(op.v, w)
            return Fl(self.D.fresh(w, "fpconst") if b is None else N(w, b))
        raise VError("constant %s" % op)

    def undef(self, ty, nm="undef"):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            if ty.w == 1: return z3.Bool(fresh_name(nm))
            return self.D.fresh(ty.w, nm)
        return UNDEF

    # ---------------------------------------------------------- pointer arithmetic
    def padd(self, st, p, b):
        """p + b bytes; b: python int or idx expression"""
        if isinstance(p, Fn): raise VError("function pointer arithmetic")
        if p is UNDEF: return UNDEF
        if p.r is None: return P(None, norm(p.i + b), 0) if (isz(p.i) or isz(b)) else P(None, p.i + b, 0)
        r = p.r
        if r.kind == "obj":
            return P(r, 0, norm(p.o + b) if isz(b) or isz(p.o) else p.o + b)
        if r.S == 1: return P(r, norm(p.i + b) if isz(b) or isz(p.i) else p.i + b, 0)
        if not isz(b):
            t = p.o + b
            return P(r, norm(p.i + t // r.S) if isz(p.i) else p.i + t // r.S, t % r.S)
        c, d = lin(b) if not self.D.bv else (0, {})
        if not self.D.bv and c % r.S:      # constant part goes to the remainder
            k = c % r.S
            q = self.D.divexact(st, norm(b - k), r.S)
            if q is not None: return self.padd(st, P(r, norm(p.i + q), p.o), k)
        q = self.D.divexact(st, b, r.S)
        if q is None: raise VError("unaligned symbolic offset %s into %s (element size %d)" % (b, r, r.S))
        return P(r, norm(p.i + q), p.o)

    def gep(self, st, bty, base, idx):
        mod = self.mod
        p = base
        if p is UNDEF: return UNDEF
        first = True; ty = bty
        for ity, iv in idx:
            if first:
                sz = mod.size(ty); first = False
                e = self.D.idx(st, iv)
            else:
                ty = mod.resolve(ty)
                if ty.k == "struct":
                    k = iv.e; p = self.padd(st, p, mod.layout(ty)[0][k]); ty = ty.fs[k]; continue
                sz = mod.size(ty.el); ty = ty.el
                e = self.D.idx(st, iv)
            if not isz(e): p = self.padd(st, p, e * sz)
            elif p.r is not None and p.r.kind == "arr" and sz % p.r.S == 0:
                p = P(p.r, norm(p.i + e * (sz // p.r.S)), p.o)
            else: p = self.padd(st, p, norm(e * sz))
        return p

    def ptr_from_int(self, st, x):
        """inttoptr: recover base symbol + offset"""
        e = x.e
        if not isz(e): return P(None, e, 0) if e else NULL
        if self.D.bv: raise VError("inttoptr (bv)")
        c, d = lin(e)
        for i, (co, a) in d.items():
            for rid in list(st.mem):
                pass
        for (k, v) in st.rng.items():
            if isinstance(k, tuple) and k[0] == "base":
                i = v.get_id()
                if i in d and d[i][0] == 1:
                    dd = dict(d); dd.pop(i)
                    r = next(r for r in self.all_regions(st) if r.id == k[1])
                    return self.padd(st, P(r, 0, 0), unlin(c, dd))
        raise VError("inttoptr of %s" % e)
    def all_regions(self, st): return st.ghost.get("regions", []) + list(self.globals.values())
    def reg_region(self, st, r): st.ghost["regions"] = st.ghost.get("regions", []) + [r]

    # ---------------------------------------------------------- memory access
    def check_access(self, st, p, nbytes, what):
        """emits the safety obligations of an access; returns concrete (region, idx, off)"""
        if p is UNDEF or isinstance(p, Fn): 
            self.oblige(st, "pointer", False, what + " through an indeterminate pointer"); raise PathEnd()
        if p.r is None:
            self.oblige(st, "null", False, what + " through a null or invalid pointer"); raise PathEnd()
        r = p.r
        if not st.rs(r).alive:
            self.oblige(st, "dangling", False, "%s of freed or dead memory %s" % (what, r.name)); raise PathEnd()
        if r.kind == "arr":
            if r.S == 1: g = bAnd(le(0, p.i), le(p.i + nbytes, r.n))
            else:
                ne = (p.o + nbytes + r.S - 1) // r.S
                g = bAnd(le(0, p.i), le(p.i + ne, r.n))
            self.oblige(st, "bounds", g, "%s of %d byte(s) inside %s" % (what, nbytes, r.name))
            if p.r.const and what == "write": self.oblige(st, "const", False, "write to constant memory")
        else:
            o = p.o
            if isz(o): raise VError("symbolic object offset")
            self.oblige(st, "bounds", 0 <= o and o + nbytes <= r.size, "%s of %d byte(s) inside object %s" % (what, nbytes, r.name))
            if not (0 <= o and o + nbytes <= r.size): raise PathEnd()

    def concretize(self, st, p):
        """object pointers with symbolic offset: split into the feasible concrete ones"""
        if isinstance(p, P) and p.r is not None and p.r.kind == "obj" and isz(p.o):
            outs = []
            seen = []
            while True:
                cond = bAnd(*[p.o != v for v in seen])
                s = z3.Solver(); s.set("timeout", 2000)
                for f in st.qf: s.add(f)
                s.add(zb(cond))
                r = s.check()
                if r == z3.unsat: break
                if r != z3.sat or len(seen) > 64: raise VError("cannot enumerate symbolic object offset %s" % p.o)
                m = s.model().eval(p.o, model_completion=True)
                v = m.as_signed_long() if self.D.bv else m.as_long()
                seen.append(v)
                outs.append((p.o == v, v))
            return outs
        return None

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ("struct", "arr"):
            out = []
            if ty.k == "struct":
                for o, t in zip(self.mod.layout(ty)[0], ty.fs): out.append(self.load(st, self.padd(st, p, o), t))
            else:
                s = self.mod.size(ty.el)
                for k in range(ty.n): out.append(self.load(st, self.padd(st, p, k * s), ty.el))
            return Agg(out)
        nb = (ty.w + 7) // 8 if ty.k == "int" else self.mod.size(ty)
        self.check_access(st, p, nb, "read")
        r = p.r; rs = st.rs(r)
        if r.kind == "arr":
            if ty.k == "ptr": return self.load_ptr_arr(st, p)
            n = self.load_arr(st, r, rs, p.i, p.o, nb)
            if self.spec is not None and self.spec.mention and isinstance(n, N) and isz(n.e): st.assume(z3.Int(fresh_name("ld")) == n.e)     # keeps the term for matching
            return self.from_n(st, n, ty)
        return self.load_obj(st, r, rs, p.o, nb, ty)
    def load_ptr_arr(self, st, p): raise VError("pointer-valued array elements (%s)" % p.r)
    def from_n(self, st, n, ty):
        if ty.k == "int":
            if ty.w == 1: return self.D.n2bool(st, n)
            if ty.w < n.w: return self.D.trunc(st, n, ty.w)
            return n
        if ty.k in ("float", "double"): return Fl(n)
        if ty.k == "vec": return n
        raise VError("load of %r from numeric memory" % ty)
    def elem(self, st, r, rs, k, i):
        """canonical value expr of field k of element i, with its range fact"""
        e = rs.arrs[k].sel(i)
        w = r.fields[k][1]
        if isz(e) and not self.D.bv and z3.is_select(e):
            key = ("el", e.get_id())
            if key not in st.rng:
                st.rng[key] = e
                st.assume(z3.And(0 <= e, e < (1 << w)))
        elif isz(e) and not self.D.bv:
            key = ("el", e.get_id())
            if key not in st.rng:
                st.rng[key] = e
                lo, hi = bounds(e)
                if lo < 0 or hi >= (1 << w): st.assume(z3.And(0 <= e, e < (1 << w)))
        return e
    def load_arr(self, st, r, rs, i, o, nb):
        for k, (fo, w) in enumerate(r.fields):
            if fo == o and w == 8 * nb: return N(w, self.elem(st, r, rs, k, i))
        if r.S == 1:
            bs = [self.elem(st, r, rs, 0, norm(i + k) if isz(i) else i + k) for k in range(nb)]
            return self.D.join_bytes(st, bs)
        # several whole fields (e.g. i64 covering two i32 fields / elements)
        parts = []; pos = o; idx = i
        while sum(x.w for x in parts) < 8 * nb:
            for k, (fo, w) in enumerate(r.fields):
                if fo == pos:
                    parts.append(N(w, self.elem(st, r, rs, k, idx))); pos += w // 8; break
            else: raise VError("partial element read in %s" % r)
            if pos >= r.S: pos = 0; idx = norm(idx + 1) if isz(idx) else idx + 1
        return self.concat(st, parts)
    def concat(self, st, parts):
        if self.D.bv:
            zs = [self.D.z(x) for x in parts]
            return self.D.mk(sum(x.w for x in parts), z3.Concat(*reversed(zs)))
        e = 0; sh = 0
        for x in parts: e = e + self.D.u(st, x) * (1 << sh); sh += x.w
        n = N(sh, norm(e)); n.bytes = None
        n.b = None
        self._parts = getattr(self, "_parts", {}); self._parts[id(n)] = (n, parts)
        return n
    def load_obj(self, st, r, rs, o, nb, ty):
        c = rs.cells.get(o)
        if c is not None and c[0] == nb:
            v = c[1]
            if isinstance(v, tuple) and v[0] == "lazy":
                v = self.val_const(st, v[1], PTR)
            if ty.k == "ptr":
                if isinstance(v, N): v = self.ptr_from_int(st, v)
                return v
            if isinstance(v, (P, Fn)):
                v = self.addr(st, v)
            if isinstance(v, Undef): return self.undef(ty)
            if isinstance(v, Fl): return v if ty.k in ("float", "double") else self.from_n(st, v.n, ty)
            return self.from_n(st, v, ty)
        # assemble from smaller / larger cells
        if c is not None and c[0] > nb and isinstance(c[1], N):
            if self.D.bv and isz(c[1].e) and not z3.is_app_of(c[1].e, z3.Z3_OP_CONCAT): return self.from_n(st, N(8 * nb, z3.Extract(8 * nb - 1, 0, c[1].e)), ty)
            return self.from_n(st, self.D.trunc(st, c[1], 8 * nb), ty)
        parts = []; pos = o
        while pos < o + nb:
            c = rs.cells.get(pos)
            if c is None or not isinstance(c[1], N) or pos + c[0] > o + nb: break
            parts.append(N(8 * c[0], c[1].e)); pos += c[0]
        if pos == o + nb and parts: return self.from_n(st, self.concat(st, parts), ty)
        for q, (s, v) in rs.cells.items():
            if q < o + nb and o < q + s:
                if isinstance(v, N) and q <= o and o + nb <= q + s:
                    bs = self.D.split_bytes(st, N(8 * s, v.e) if v.w != 8 * s else v)
                    return self.from_n(st, self.D.join_bytes(st, bs[o - q:o - q + nb]), ty)
                if isinstance(v, Undef): continue
                raise VError("overlapping object read at %s+%d" % (r, o))
        # never written: indeterminate
        v = self.undef(ty, "uninit_%s_%d" % (r.name, o))
        st.wrs(r).cells[o] = (nb, v if isinstance(v, N) else v)
        return v

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if isinstance(v, Agg) or ty.k in ("struct", "arr"):
            if v is UNDEF: return
            if ty.k == "struct":
                for o, t, x in zip(self.mod.layout(ty)[0], ty.fs, v.v): self.store(st, self.padd(st, p, o), x, t)
            else:
                s = self.mod.size(ty.el)
                for k, x in enumerate(v.v): self.store(st, self.padd(st, p, k * s), x, ty.el)
            return
        nb = (ty.w + 7) // 8 if ty.k == "int" else self.mod.size(ty)
        self.check_access(st, p, nb, "write")
        r = p.r
        if v is UNDEF: v = self.undef(ty) if ty.k != "ptr" else UNDEF
        if ty.k == "int" and ty.w == 1: v = self.D.bool2n(8, v)
        if isinstance(v, Fl): v = v.n
        if isinstance(v, N) and v.w < 8 * nb: v = self.D.zext(st, v, 8 * nb)
        if r.kind == "arr":
            if not isinstance(v, N): raise VError("storing a pointer into %s" % r)
            self.store_arr(st, r, p.i, p.o, nb, v)
        else:
            rs = st.wrs(r); st.writes.add((r.id, p.o)); rs.dirty = True
            self.clear_cells(st, rs, p.o, nb)
            rs.cells[p.o] = (nb, v)
    def clear_cells(self, st, rs, o, nb):
        for q in list(rs.cells):
            s, v = rs.cells[q]
            if q < o + nb and o < q + s:
                del rs.cells[q]
                if q >= o and q + s <= o + nb: continue
                if isinstance(v, N):
                    bs = self.D.split_bytes(st, N(8 * s, v.e))
                    for k in range(s):
                        if not (o <= q + k < o + nb): rs.cells[q + k] = (1, N(8, bs[k]))
                elif isinstance(v, Undef): pass
                else: raise VError("partial overwrite of a pointer cell")
    def store_arr(self, st, r, i, o, nb, v):
        rs = st.wrs(r); st.writes.add((r.id, None))
        for k, (fo, w) in enumerate(r.fields):
            if fo == o and w == 8 * nb:
                e = self.D.u(st, v)
                self.occ_store(st, r, rs, k, i, e)
                rs.arrs[k] = Store(rs.arrs[k], i, e)
                return
        if r.S == 1:
            for k, b in enumerate(self.D.split_bytes(st, v)):
                ii = norm(i + k) if isz(i) else i + k
                self.occ_store(st, r, rs, 0, ii, b)
                rs.arrs[0] = Store(rs.arrs[0], ii, b)
            return
        # multi-field store
        pr = getattr(self, "_parts", {}).get(id(v))
        pos, idx = o, i; rem = 8 * nb; sh = 0
        e = self.D.u(st, v)
        while rem > 0:
            for k, (fo, w) in enumerate(r.fields):
                if fo == pos: break
            else: raise VError("partial element write in %s" % r)
            if pr:
                x = next((y for y, s2 in _offs(pr[1]) if s2 == sh and y.w == w), None)
                if x is None: raise VError("misaligned parts")
                xe = self.D.u(st, x)
            elif self.D.bv: xe = self.D.mk(w, z3.Extract(sh + w - 1, sh, self.D.z(v))).e
            elif not isz(e): xe = (e >> sh) % (1 << w)
            else: xe = (e / (1 << sh)) % (1 << w)
            self.occ_store(st, r, rs, k, idx, xe)
            rs.arrs[k] = Store(rs.arrs[k], idx, xe)
            rem -= w; sh += w; pos += w // 8
            if pos >= r.S: pos = 0; idx = norm(idx + 1) if isz(idx) else idx + 1

    # ghost occurrence counters: occ[(lo,hi,w)] = #{ lo<=j<hi : A[j] == w } for field 0
    def occ_store(self, st, r, rs, k, i, e):
        if not rs.occ or k != 0: return
        new = {}
        for key, o in rs.occ.items():
            lo, hi, w = self.occ_keys[key]
            inr = bAnd(le(lo, i), lt(i, hi))
            old = rs.arrs[0].sel(i)
            d = ite(w(e), 1, 0); m = ite(w(old), 1, 0)
            new[key] = norm(o + ite(inr, zi(d) - zi(m), 0))
        rs.occ = new

    # ---------------------------------------------------------- casts
    def cast(self, st, op, sty, v, dty):
        D = self.D
        if v is UNDEF: return self.undef(dty)
        if op == "ptrtoint":
            n = self.addr(st, v)
            return n if dty.w == 64 else D.trunc(st, n, dty.w)
        if op == "inttoptr": return self.ptr_from_int(st, v)
        if op == "bitcast":
            if isinstance(v, N) and dty.k in ("float", "double"): return Fl(v)
            if isinstance(v, Fl) and dty.k == "int": return v.n
            return v
        if op in ("zext", "sext") and sty.w == 1:
            if op == "zext": return D.bool2n(dty.w, v)
            if isinstance(v, bool): return D.const(dty.w, -1 if v else 0)
            return N(dty.w, z3.If(v, z3.IntVal(-1), z3.IntVal(0))) if not D.bv else N(dty.w, z3.If(v, z3.BitVecVal(-1, dty.w), z3.BitVecVal(0, dty.w)))
        if op == "zext": return D.zext(st, v, dty.w)
        if op == "sext": return D.sext(st, v, dty.w)
        if op == "trunc":
            if dty.w == 1: return D.n2bool(st, v)
            return D.trunc(st, v, dty.w)
        raise VError("cast %s" % op)

    # ---------------------------------------------------------- comparisons
    def icmp(self, st, pred, ty, a, b):
        if ty.k == "ptr" or isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)):
            return self.pcmp(st, pred, a, b)
        if a is UNDEF: a = self.undef(ty)
        if b is UNDEF: b = self.undef(ty)
        if ty.w == 1:
            if pred == "eq": return bIff(a, b)
            if pred == "ne": return bNot(bIff(a, b))
            return self.D.icmp(st, pred, self.D.bool2n(8, a), self.D.bool2n(8, b))
        return self.D.icmp(st, pred, a, b)
    def pcmp(self, st, pred, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if pred == "eq": return same
            if pred == "ne": return not same
            raise VError("function pointer comparison")
        if a is UNDEF or b is UNDEF: return z3.Bool(fresh_name("undefcmp"))
        if a.r is b.r and a.r is not None:
            if a.r.kind == "obj": x, y = a.o, b.o
            else: x, y = a.i, b.i
            if a.r.kind == "arr" and not (a.o == b.o):
                x, y = norm(a.i * a.r.S + a.o), norm(b.i * b.r.S + b.o)
        elif a.r is None and b.r is None: x, y = a.i, b.i
        else:
            if pred in ("eq", "ne"):
                # null against valid pointers; distinct live objects never compare equal (one-past-end aside)
                return pred == "ne"
            x, y = self.addr(st, a).e, self.addr(st, b).e
            if a.r is None and not isz(x) and x == 0: return {"ult": True, "ule": True, "ugt": False, "uge": False}[pred]
            if b.r is None and not isz(y) and y == 0: return {"ult": False, "ule": False, "ugt": True, "uge": True}[pred]
        if pred == "eq": return eq(x, y)
        if pred == "ne": return bNot(eq(x, y))
        if pred in ("ult", "slt"): return lt(x, y)
        if pred in ("ule", "sle"): return le(x, y)
        if pred in ("ugt", "sgt"): return lt(y, x)
        return le(y, x)

    # ---------------------------------------------------------- running
    def start(self, st, fname, args):
        f = self.mod.func(fname)
        if f is None or f.decl: raise VError("function %s has no body in the extracted IR" % fname)
        self.push(st, f, args, None)
        return self.run([st], None)

    def push(self, st, f, args, call):
        fr = Frame(f); fr.call = call
        if len(st.frames) > 60: raise VError("call depth")
        for (ty, nm, at, sr), v in zip(f.params, args): fr.env[nm] = v
        fr.blk = f.entry; fr.ip = 0
        st.frames.append(fr)
        find_loops(f)

    def jump(self, st, frm, to, ctx):
        """returns (list of states to continue with)"""
        fr = st.frames[-1]
        st.trail.append((len(st.frames), to))
        if len(st.trail) > 400: del st.trail[:200]
        if isinstance(ctx, Join):
            if len(st.frames) == ctx.depth and to == ctx.to:
                st.pending = (frm, to); ctx.at.append(st); return []
        elif ctx is not None and len(st.frames) == ctx.depth:
            if to == ctx.loop.header:
                st.pending = (frm, to); ctx.back.append(st); return []
            if to not in ctx.loop.blocks:
                st.pending = (frm, to); ctx.exit.append(st); return []
        L = fr.fn.loops.get(to)
        if L is not None:
            if self.unroll is not None:
                key = (len(st.frames), fr.fn.name, to)
                if frm in L.blocks:
                    st.iters[key] = st.iters.get(key, 0) + 1
                    if st.iters[key] > self.unroll:
                        if self.bounded: st.out = "cut"; return []
                        if self.light.feasible(st.qf, True) and not self.prove(st, False):
                            raise VError("loop %s exceeds the unrolling bound %d" % (to, self.unroll))
                        return []
                else: st.iters[key] = 0
            elif frm not in L.blocks:
                return self.loop(st, L, frm, ctx)
            else:
                raise VError("unexpected back edge to %s" % to)
        self.do_phis(st, frm, to)
        return [st]

    def do_phis(self, st, frm, to):
        fr = st.frames[-1]; b = fr.fn.blocks[to]
        vals = []
        for ph in b.phis:
            for v, lb in ph.a:
                if lb == frm: vals.append((ph.res, self.val(st, v, ph.ty))); break
            else: raise VError("phi without edge")
        for n, v in vals: fr.env[n] = v
        fr.prev = frm; fr.blk = to; fr.ip = 0

    def resume(self, st, ctx):
        """re-dispatch a state handed back from an inner loop"""
        if st.pending:
            frm, to = st.pending; st.pending = None
            return self.jump(st, frm, to, ctx)
        return [st]

    def run(self, work, ctx):
        done = []
        work = list(work)
        while work:
            if time.time() > self.deadline: raise Budget("time budget exhausted")
            st = work.pop()
            if st.out: done.append(st); continue
            if st.pending: work += self.resume(st, ctx); continue
            try:
                r = self.step_block(st, ctx)
            except PathEnd:
                continue
            for s in r:
                if s.out in ("ret", "throw"):
                    done.append(s); self.npaths += 1
                    if self.npaths > self.maxpaths: raise VError("too many paths")
                else: work.append(s)
        return done

    def step_block(self, st, ctx):
        """run one state until it forks, jumps or ends; returns continuing states"""
        while True:
            fr = st.frames[-1]
            b = fr.fn.blocks[fr.blk]
            i = b.ins[fr.ip]
            op = i.op
            if op == "br":
                c, l1, l2 = i.a
                if c is None: r = self.jump(st, fr.blk, l1, ctx)
                else:
                    r = self.branch(st, self.val(st, c), l1, l2, ctx)
                if len(r) == 1 and r[0] is st: continue
                return r
            if op == "switch":
                v = self.val(st, i.a[0], i.ty); outs = []
                if v is UNDEF: v = self.undef(i.ty)
                conds = []
                for cv, lb in i.a[2]:
                    c = self.icmp(st, "eq", i.ty, v, self.D.const(i.ty.w, cv) if i.ty.w > 1 else bool(cv & 1)); conds.append(c)
                    if self.light.feasible(st.qf, c):
                        s = st.fork(); s.assume(c); outs += self.jump(s, fr.blk, lb, ctx)
                d = bAnd(*[bNot(c) for c in conds])
                if self.light.feasible(st.qf, d):
                    st.assume(d); outs += self.jump(st, fr.blk, i.a[1], ctx)
                return outs
            if op == "ret":
                v = None if i.a is None else self.val(st, i.a, i.ty)
                return self.do_ret(st, v, ctx)
            if op == "unreachable":
                if st.exc != "noreturn":
                    self.oblige(st, "unreachable", False, "control reaches undefined behaviour (unreachable)")
                return []
            if op == "resume":
                return self.unwind(st, ctx)
            if op in ("call", "invoke"):
                r = self.call(st, i, ctx)
                if r is None: continue
                return r
            if op == "select":
                c = self.val(st, i.a[0], IntTy(1))
                if c is UNDEF: c = z3.Bool(fresh_name("undef"))
                x, y = self.val(st, i.a[1], i.ty), self.val(st, i.a[2], i.ty)
                r = self.select(st, c, x, y, i.ty)
                if r is None:   # fork
                    outs = []
                    for cc, vv in ((c, x), (bNot(c), y)):
                        if self.light.feasible(st.qf, cc):
                            s = st.fork(); s.assume(cc); s.frames[-1].env[i.res] = vv; s.frames[-1].ip += 1; outs.append(s)
                    return outs
                fr.env[i.res] = r; fr.ip += 1; continue
            if op in ("load", "store"):
                p = self.val(st, i.a[0] if op == "load" else i.a[1], PTR)
                cs = self.concretize(st, p)
                if cs is not None:
                    outs = []
                    for c, v in cs:
                        s = st.fork(); s.assume(c)
                        s.frames[-1].env["__cp"] = P(p.r, 0, v)
                        try: self.memop(s, i, P(p.r, 0, v))
                        except PathEnd: continue
                        s.frames[-1].ip += 1; outs.append(s)
                    return outs
                self.memop(st, i, p)
                fr.ip += 1; continue
            if op in ("atomicrmw", "cmpxchg"):
                outs = self.rmw(st, i)
                if outs is None: fr.ip += 1; continue
                for s in outs: s.frames[-1].ip += 1
                return outs
            if op in ("shl", "lshr", "ashr") and not self.D.bv and i.ty.w > 1:
                cs = self.shift_cases(st, i)
                if cs is not None:
                    outs = []
                    for c, k, v in cs:
                        s = st.fork(); s.assume(c); s.rng[("const", k.get_id())] = (k, v)
                        self.simple(s, s.frames[-1], i); s.frames[-1].ip += 1; outs.append(s)
                    return outs
            if op in ("zext", "sext") and self.spec is not None and self.spec.split_bool:
                sty, v = i.a[0], i.a[1]
                v = self.val(st, v, sty) if getattr(sty, "w", 0) == 1 else None
                if isz(v) and z3.is_bool(v):
                    outs = []
                    for cc, vv in ((v, True), (bNot(v), False)):
                        if self.light.feasible(st.qf, cc):
                            s = st.fork(); s.assume(cc); s.frames[-1].env[i.res] = self.cast(s, op, sty, vv, i.ty); s.frames[-1].ip += 1; outs.append(s)
                    return outs
            self.simple(st, fr, i)
            fr.ip += 1

    def shift_cases(self, st, i):
        """shift by a symbolic count with few possible values: one state per value"""
        y = self.val(st, i.a[1], i.ty)
        if not isinstance(y, N): return None
        k = self.D.u(st, y)
        if not isz(k) or ("const", k.get_id()) in st.rng: return None
        x = self.val(st, i.a[0], i.ty)
        if i.op == "shl" and isinstance(x, N) and not isz(x.e) and x.e == 1: return None
        seen = []
        while len(seen) <= 9:
            s = z3.Solver(); s.set("timeout", 1000)
            for f in st.qf: s.add(f)
            for v in seen: s.add(k != v)
            r = s.check()
            if r == z3.unsat: return [(k == v, k, v) for v in seen]
            if r != z3.sat: return None
            seen.append(s.model().eval(k, model_completion=True).as_long())
        return None

    # ---------------------------------------------------------- atomic operations; cells shared with other threads
    def shared(self, p):
        sh = getattr(self.spec, "shared_cells", None)
        return sh.get((p.r.id, p.o)) if sh and isinstance(p, P) and p.r is not None and not isz(p.o) else None
    def env_step(self, st, p, ty, h):
        """other threads ran: the cell holds any value its rely condition permits"""
        old = self.D.u(st, self.load(st, p, ty)); v = self.D.fresh(ty.w, "env")
        st.assume(zb(h.rely(st, old, v.e))); self.store(st, p, v, ty)
    def rmw(self, st, i):
        fr = st.frames[-1]; D = self.D
        xchg = i.op == "cmpxchg"
        p = self.val(st, i.a[0] if xchg else i.a[1], PTR); ty = i.a[4] if xchg else i.ty
        h = self.shared(p)
        if h: self.env_step(st, p, ty, h)
        old = self.load(st, p, ty); v = self.val(st, i.a[2], ty)
        if xchg:
            c = self.icmp(st, "eq", ty, old, self.val(st, i.a[1], ty))
            new = self.select(st, c, v, old, ty); fr.env[i.res] = Agg([old, c])
        else:
            k = i.a[0]
            if k == "xchg": new = v
            elif k in ("add", "sub", "and", "or", "xor"): new = D.binop(st, k, old, v)
            else: raise VError("atomicrmw " + k)
            if i.res: fr.env[i.res] = old
        self.store(st, p, new, ty)
        if not h: return None
        o, n = D.u(st, old), D.u(st, new)
        st.ghost["events"] = st.ghost.get("events", ()) + (("rmw", p.r.id, p.o, o, n, i.a[3]),)
        return h.after(self, st, p, o, n) if h.after else None
    def memop(self, st, i, p):
        fr = st.frames[-1]
        h = self.shared(p)
        if h:
            at = " atomic " in i.txt
            self.oblige(st, "race", at, "access to data shared between threads is atomic: " + i.txt[:60])
            if i.op == "load": self.env_step(st, p, i.ty, h)
            else: st.ghost["events"] = st.ghost.get("events", ()) + (("store", p.r.id, p.o, None, self.D.u(st, self.val(st, i.a[0], i.ty)), i.txt.rsplit(",", 1)[0].split()[-1]),)
            if i.op == "load":
                v = self.load(st, p, i.ty); fr.env[i.res] = v
                st.ghost["events"] = st.ghost.get("events", ()) + (("load", p.r.id, p.o, self.D.u(st, v), None, i.txt.rsplit(",", 1)[0].split()[-1]),)
                return
        if i.op == "load": fr.env[i.res] = self.load(st, p, i.ty)
        else: self.store(st, p, self.val(st, i.a[0], i.ty), i.ty)

    def select(self, st, c, x, y, ty):
        if c is True: return x
        if c is False: return y
        if x is UNDEF: return y
        if y is UNDEF: return x
        if ty is not None and not self.D.bv:        # decided by the path condition
            same_ = False
            if isinstance(x, N) and isinstance(y, N): same_ = zi(x.e) == zi(y.e)
            elif isinstance(x, P) and isinstance(y, P) and x.r is y.r and not isz(x.o) and not isz(y.o) and x.o == y.o: same_ = zi(x.i) == zi(y.i)
            if self.light.valid(st.qf, bOr(c, same_)): return x
            if self.light.valid(st.qf, bOr(bNot(c), same_)): return y
        if isinstance(x, N): return self.D.ite(st, c, x, y)
        if isinstance(x, (bool, z3.BoolRef)): return ite(c, x, y) if not (isinstance(x, bool) or isinstance(y, bool)) else bOr(bAnd(c, x), bAnd(bNot(c), y))
        if isinstance(x, P) and isinstance(y, P) and x.r is y.r:
            if x.r is None or x.o is y.o or (not isz(x.o) and not isz(y.o) and x.o == y.o): return P(x.r, ite(c, zi2(x.i, self.D), zi2(y.i, self.D)), x.o) if not same(x.i, y.i) else x
            if x.r.kind == "obj": return P(x.r, 0, ite(c, zi2(x.o, self.D), zi2(y.o, self.D)))
        if isinstance(x, Agg): 
            vs = [self.select(st, c, a, b, None) for a, b in zip(x.v, y.v)]
            return None if any(v is None for v in vs) else Agg(vs)
        if isinstance(x, Fl): return Fl(self.D.ite(st, c, x.n, y.n))
        return None

    def branch(self, st, c, l1, l2, ctx):
        fr = st.frames[-1]
        if c is UNDEF: c = z3.Bool(fresh_name("undef"))
        if c is True: return self.jump(st, fr.blk, l1, ctx)
        if c is False: return self.jump(st, fr.blk, l2, ctx)
        outs = []
        f1 = self.light.feasible(st.qf, c); f2 = self.light.feasible(st.qf, bNot(c))
        pr = getattr(self.spec, "prune", 0)
        if f1 and f2 and pr:    # quantified facts may decide the branch
            if heavy(self.facts(st), zb(c), pr)[0] == "proved": f2 = False
            elif heavy(self.facts(st), zb(bNot(c)), pr)[0] == "proved": f1 = False
        if f1 and f2 and getattr(self.spec, "merge", False) and self.unroll is not None:
            j = postdom(fr.fn).get(fr.blk)
            if j is not None: return self.join(st, c, l1, l2, j, ctx)
        if f1 and f2:
            s = st.fork(); s.assume(c); outs += self.jump(s, fr.blk, l1, ctx)
            st.assume(bNot(c)); outs += self.jump(st, fr.blk, l2, ctx)
        elif f1: st.assume(c); outs += self.jump(st, fr.blk, l1, ctx)
        elif f2: st.assume(bNot(c)); outs += self.jump(st, fr.blk, l2, ctx)
        return outs

    def join(self, st, c, l1, l2, to, ctx):
        """both sides of a branch up to the block where they meet again, and one state for them from there on"""
        J = Join(to, len(st.frames)); frm = st.frames[-1].blk; base = len(st.pc); outs = []
        for cc, l in ((c, l1), (bNot(c), l2)):
            s = st.fork(); s.assume(cc)
            outs += self.run(self.jump(s, frm, l, J), J)
        met = []
        for s in J.at:
            frm, _ = s.pending; s.pending = None
            L = s.frames[-1].fn.loops.get(to)
            outs2 = self.jump(s, frm, to, ctx)        # loop bookkeeping and phis
            if len(outs2) == 1 and outs2[0] is s and not s.pending: met.append(s)
            else: outs += outs2
        while met:
            s = met.pop(0)
            rest = []
            for t in met:
                m = self.merged(s, t, base)
                if m is None: rest.append(t)
                else: s = m
            outs.append(s); met = rest
        return outs
    def merged(self, s, t, base):
        """one state that stands for s and t, which share their first `base` facts; None if they cannot be merged"""
        if s.heap != t.heap or s.iters != t.iters or s.exc is not t.exc or s.df != t.df or s.regs != t.regs or set(s.mem) != set(t.mem): return None
        if set(s.ghost) != set(t.ghost) or any(not (s.ghost[k] is t.ghost[k] or same_val(s.ghost[k], t.ghost[k])) for k in s.ghost): return None
        gs, gt = bAnd(*s.pc[base:]), bAnd(*t.pc[base:])
        if is_quant(gs) or is_quant(gt): return None
        r = s.fork(); r.pc = s.pc[:base] + [zb(bOr(gs, gt))]
        r.qf = [f for f in r.pc if not is_quant(f)]
        r.writes = s.writes | t.writes; r.rng = {k: v for k, v in s.rng.items() if k in t.rng and t.rng[k] is v}
        for a, b, d in zip(s.frames, t.frames, r.frames):
            if a.blk != b.blk or a.ip != b.ip or len(a.allocas) != len(b.allocas): return None
            for k in list(d.env):
                if k not in b.env: del d.env[k]; continue
                x, y = a.env[k], b.env[k]
                if x is y or same_val(x, y): continue
                v = self.select(r, gs, x, y, None)
                if v is None: return None
                d.env[k] = v
        for k in s.mem:
            x, y = s.mem[k], t.mem[k]
            if x is y: continue
            if x.alive != y.alive or x.occ is not y.occ or x.arrs != y.arrs or (x.cells is None) != (y.cells is None): return None
            if x.cells is None: continue
            if {o: z[0] for o, z in x.cells.items()} != {o: z[0] for o, z in y.cells.items()}: return None
            n = x.copy(); r.mem[k] = n; n.dirty = x.dirty or y.dirty
            for o, (sz, v) in x.cells.items():
                w = y.cells[o][1]
                if v is w or same_val(v, w): continue
                if not isinstance(v, N) or not isinstance(w, N): return None
                n.cells[o] = (sz, self.D.ite(r, gs, v, w))
        return r
    def do_ret(self, st, v, ctx):
        fr = st.frames.pop()
        for r in fr.allocas: 
            if r.id in st.mem: st.wrs(r).alive = False
        if not st.frames:
            st.out = "ret"; st.ret = v; return [st]
        return self.after_call(st, fr.call, v, ctx)
    def after_call(self, st, ci, v, ctx):
        caller = st.frames[-1]
        if ci.res is not None: caller.env[ci.res] = v
        if ci.op == "invoke":
            if ctx is not None and len(st.frames) < ctx.depth:
                st.pending = (caller.blk, ci.a[2]); ctx.exit.append(st); return []
            return self.jump(st, caller.blk, ci.a[2], ctx)
        caller.ip += 1
        if ctx is not None and len(st.frames) < ctx.depth: ctx.exit.append(st); return []
        return [st]
    def unwind(self, st, ctx):
        while True:
            fr = st.frames.pop()
            for r in fr.allocas:
                if r.id in st.mem: st.wrs(r).alive = False
            if not st.frames:
                st.out = "throw"; 
                return [st]
            if fr.call is not None and fr.call.op == "invoke":
                caller = st.frames[-1]
                if ctx is not None and len(st.frames) < ctx.depth:
                    st.pending = (caller.blk, fr.call.a[3]); ctx.exit.append(st); return []
                return self.jump(st, caller.blk, fr.call.a[3], ctx)
    def throw_here(self, st, ci, what, ctx):
        """the call instruction ci of the current frame throws"""
        st.exc = what
        if ci.op == "invoke":
            return self.jump(st, st.frames[-1].blk, ci.a[3], ctx)
        return self.unwind(st, ctx)

    def simple(self, st, fr, i):
        op = i.op; D = self.D
        if op in BIN:
            x, y = self.val(st, i.a[0], i.ty), self.val(st, i.a[1], i.ty)
            if x is UNDEF: x = self.undef(i.ty)
            if y is UNDEF: y = self.undef(i.ty)
            if i.ty.k == "int" and i.ty.w == 1:
                r = {"and": bAnd, "or": bOr, "xor": lambda a, b: bNot(bIff(a, b)), "add": lambda a, b: bNot(bIff(a, b))}[op](x, y)
            elif i.ty.k == "int":
                if isinstance(x, P): x = self.addr(st, x)
                if isinstance(y, P): y = self.addr(st, y)
                r = D.binop(st, op, x, y, i.a[2])
            else: r = self.float_op(st, i, x, y)
        elif op == "icmp":
            pred, oty, a, b = i.a
            r = self.icmp(st, pred, oty, self.val(st, a, oty), self.val(st, b, oty))
        elif op == "getelementptr":
            bty, base, idx, _ = i.a
            ix = []
            for t, o in idx:
                v = self.val(st, o, t)
                if v is UNDEF: v = self.undef(t)
                ix.append((t, v))
            r = self.gep(st, bty, self.val(st, base, PTR), ix)
        elif op in CASTS:
            sty, v = i.a
            if op in ("fpext", "fptrunc", "fptoui", "fptosi", "uitofp", "sitofp"): r = self.float_cast(st, i, self.val(st, v, sty))
            else: r = self.cast(st, op, sty, self.val(st, v, sty), i.ty)
        elif op == "freeze":
            v = self.val(st, i.a[0], i.ty); r = self.undef(i.ty) if v is UNDEF else v
        elif op == "alloca":
            n = i.a[0]
            sz = self.mod.size(i.ty)
            cnt = 1
            if n is not None:
                nv = self.val(st, n, n.ty); cnt = D.u(st, nv)
            r = self.alloca(st, fr, i, sz, cnt)
        elif op == "extractvalue":
            v = self.val(st, i.a[1], i.a[0])
            for k in i.a[2]: v = v.v[k] if v is not UNDEF else UNDEF
            r = v
        elif op == "insertvalue":
            v = self.val(st, i.a[0], i.ty); e = self.val(st, i.a[1])
            r = self.insert(v, i.ty, i.a[2], e)
        elif op == "landingpad":
            sel = self.D.fresh(32, "sel")
            r = Agg([P(None, 1, 0), sel])
            if not i.a[0]:
                ok = any(k == "catch" and o.k == "null" for k, o in i.a[1])
                if not ok: st.ghost["catch_partial"] = True
            st.ghost["clauses"] = i.a[1]
        elif op == "fneg": r = Fl(D.fresh(64 if i.ty.k == "double" else 32, "fneg"))
        elif op == "fcmp": r = self.fcmp(i.a[0], self.val(st, i.a[2], i.a[1]), self.val(st, i.a[3], i.a[1]))
        elif op == "fence": return
        else: raise VError("instruction %s" % i.txt)
        fr.env[i.res] = r
    def float_op(self, st, i, x, y):
        """IEEE operations are uninterpreted functions of the operands' bits"""
        if not self.D.bv or not isinstance(x, Fl) or not isinstance(y, Fl) or i.op == "frem": raise VError("floating point: " + i.txt)
        return Fl(self.D.mk(x.n.w, fuf(i.op, self.D.z(x.n), self.D.z(y.n))))
    def fcmp(self, pred, x, y):
        if not self.D.bv or not isinstance(x, Fl) or not isinstance(y, Fl): return z3.Bool(fresh_name("fcmp"))
        a, b = self.D.z(x.n), self.D.z(y.n)
        neg = {"une": "oeq", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt"}.get(pred)
        p = neg or pred
        if p in ("ogt", "oge"): a, b = b, a; p = {"ogt": "olt", "oge": "ole"}[p]
        if p not in ("oeq", "olt", "ole"): return z3.Bool(fresh_name("fcmp"))
        r = fuf(p, a, b, True)
        return z3.Not(r) if neg else r
    def float_cast(self, st, i, v): raise VError("floating point: " + i.txt)
    def insert(self, v, ty, ix, e):
        ty = self.mod.resolve(ty)
        n = len(ty.fs) if ty.k == "struct" else ty.n
        vs = list(v.v) if isinstance(v, Agg) else [UNDEF] * n
        if len(ix) == 1: vs[ix[0]] = e
        else: vs[ix[0]] = self.insert(vs[ix[0]], ty.fs[ix[0]] if ty.k == "struct" else ty.el, ix[1:], e)
        return Agg(vs)

    def alloca(self, st, fr, i, sz, cnt):
        nm = "%s.%s" % (fr.fn.name[:20], i.res)
        rty = self.mod.resolve(i.ty)
        if not isz(cnt) and cnt == 1 and not (rty.k == "arr" and rty.n > 64):
            r = Region(nm, "obj", size=sz, origin="stack", align=max(i.a[1], 1))
        elif not isz(cnt) and cnt == 1 and rty.k == "arr" and rty.el.k == "int":
            es = self.mod.size(rty.el)
            r = Region(nm, "arr", S=es, n=rty.n, fields=[(0, 8 * es)], origin="stack", align=max(i.a[1], 1))
        else:
            r = Region(nm, "arr", S=1, n=cnt * sz, fields=[(0, 8)], origin="stack", align=max(i.a[1], 1))
        self.new_region(st, r); self.reg_region(st, r)
        fr.allocas.append(r)
        return P(r, 0, 0)

    # ---------------------------------------------------------- calls
    def call(self, st, i, ctx):
        """None: handled in place (ip advanced); else list of states"""
        callee, args, nl, ul = i.a
        fr = st.frames[-1]
        if callee.k == "asm":
            from . import asm
            vals = [self.val(st, o, t) for t, o in args if o is not None]
            r = asm.run(self, st, callee.v[0], callee.v[1], [t for t, o in args if o is not None], vals, i)
            fr.env[i.res] = r; fr.ip += 1
            return None
        if callee.k == "reg":
            f = self.val(st, callee)
            if not isinstance(f, Fn):
                self.oblige(st, "call", False, "call through an indeterminate function pointer"); return []
            name = f.name
        elif callee.k == "glob":
            name = callee.v
        else: raise VError("callee %s" % callee)
        if name.startswith("llvm."):
            from . import lib
            h = lib.intrinsic(name)
            if h is None: raise VError("intrinsic " + name)
            if h == "skip":
                r = None
            else:
                vals = [self.val(st, o, t) for t, o in args]
                r = h(self, st, vals, i)
            if isinstance(r, list): return r
            if i.res is not None: fr.env[i.res] = r
            fr.ip += 1
            return None
        vals = [self.val(st, o, t) if o is not None else None for t, o in args]
        name = self.canon(name)
        c = self.contracts.get(name)
        if c is not None and name in self.once:        # the outermost call is the one being verified; calls from its body go by the contract
            f = self.mod.func(name)
            if f is not None and not f.decl and not any(fx.fn is f for fx in st.frames): c = None
        if c is not None:
            self.used_contracts.add(name)
            outs = c.call(self, st, vals, i)
            return self.finish(outs, i, ctx)
        from . import lib
        h = lib.external(name)
        if h is not None:
            self.externals.add(name)
            outs = h(self, st, vals, i)
            return self.finish(outs, i, ctx)
        f = self.mod.func(name)
        if f is None or f.decl:
            raise VError("call of external function without a contract: " + name)
        if any(fx.fn is f for fx in st.frames) and self.unroll is None: raise VError("recursion into %s without a contract" % name)
        self.inlined.add(name)
        if self.trace: print("  " * len(st.frames), "inline", name)
        self.push(st, f, vals, i)
        return [st]
    def canon(self, name):
        if name in self.mod.aliases and name not in self.mod.funcs:
            t = self.mod.aliases[name]
            if t.k == "glob": return t.v
        return name
    def finish(self, outs, i, ctx):
        """outs: list of (state, kind, value)"""
        res = []
        for s, kind, v in outs:
            if kind == "ret": res += self.after_call(s, i, v, ctx)
            elif kind == "throw": res += self.throw_here(s, i, v, ctx)
            elif kind == "noreturn": pass
        return res

    # ---------------------------------------------------------- loops
    def loop(self, st, L, frm, ctx):
        from . import loops
        outs = loops.run_loop(self, st, L, frm)
        res = []
        for s in outs: res += self.resume(s, ctx) if s.pending else ([s] if ctx is None or len(s.frames) >= ctx.depth else self._exit(s, ctx))
        return res
    def _exit(self, s, ctx):
        ctx.exit.append(s); return []
    def pow2(self, st, k, w):
        """1<<k (k canonical), for symbolic k in range [0,w)"""
        self.oblige(st, "shift", bAnd(0 <= k, k < w), "shift count below width")
        c, d = lin(norm(k))
        if len(d) == 1:
            (co, a), = d.values()
            if co == 1 and ("pow2", a.get_id()) in st.rng and 0 <= c < 8: return norm(st.rng[("pow2", a.get_id())][1] * (1 << c))
        q = z3.Int(fresh_name("pow2")); set_bounds(q, 1, 1 << (w - 1))
        st.assume(bAnd(*[bImp(k == b, q == (1 << b)) for b in range(w)]))
        st.assume(bAnd(1 <= q, q <= 1 << (w - 1)))
        return q

class PathEnd(Exception):
    pass

def _offs(parts):
    sh = 0
    for x in parts:
        yield x, sh
        sh += x.w
def same(a, b):
    if isz(a) != isz(b): return False
    return a.eq(b) if isz(a) else a == b
def zi2(e, D):
    if isz(e): return e
    return z3.BitVecVal(e, 64) if D.bv else z3.IntVal(e)
