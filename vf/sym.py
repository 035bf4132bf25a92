"""Symbolic values, array terms, solver front end, integer (Int) and bit-vector (BV) domains."""
import z3, time, sys, itertools
sys.setrecursionlimit(100000)

class VError(Exception):
    """The verifier cannot go on (unsupported construct, tool failure): never a verdict."""

class Budget(Exception):
    pass

def isz(e): return isinstance(e, z3.AstRef)

SYMBOLIC = [True]     # False while a contract is evaluated on concrete data (replay)
_ctr = itertools.count()
def fresh_name(p): return "%s!%d" % (p, next(_ctr))

# ---------------------------------------------------------------- booleans with folding
def bAnd(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def bOr(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def bNot(x):
    if x is True: return False
    if x is False: return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def bImp(a, b):
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return bNot(a)
    return z3.Implies(a, b)
def bIff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if a is True: return b
    if b is True: return a
    if a is False: return bNot(b)
    if b is False: return bNot(a)
    return a == b
And, Or, Not, Imp, Iff = bAnd, bOr, bNot, bImp, bIff
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if not isz(a) and not isz(b) and a == b: return a
    if isz(a) and isz(b) and a.eq(b): return a
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    if not isz(a) and not isz(b): a = z3.IntVal(a); 
    return z3.If(c, a, b)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x

# ---------------------------------------------------------------- linear normal form (Int sort)
_lin = {}
def lin(e):
    """Int expr -> (const, {id: (coef, atom)})"""
    if not isz(e): return (int(e), {})
    k = e.get_id()
    r = _lin.get(k)
    if r is not None: return r[1]
    c, d = 0, {}
    def add(x, m):
        nonlocal c
        if not isz(x): c += m * int(x); return
        if z3.is_int_value(x): c += m * x.as_long(); return
        kd = x.decl().kind()
        if kd == z3.Z3_OP_ADD:
            for i in range(x.num_args()): add(x.arg(i), m)
        elif kd == z3.Z3_OP_SUB:
            add(x.arg(0), m)
            for i in range(1, x.num_args()): add(x.arg(i), -m)
        elif kd == z3.Z3_OP_UMINUS: add(x.arg(0), -m)
        elif kd == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)): add(x.arg(1), m * x.arg(0).as_long())
        elif kd == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(1)): add(x.arg(0), m * x.arg(1).as_long())
        else:
            i = x.get_id()
            co = d.get(i, (0, x))[0] + m
            if co: d[i] = (co, x)
            else: d.pop(i, None)
    add(e, 1)
    r = (c, d)
    _lin[k] = (e, r)
    return r

def unlin(c, d):
    ts = []
    for co, x in d.values():
        ts.append(x if co == 1 else co * x)
    if not ts: return c
    s = ts[0]
    for t in ts[1:]: s = s + t
    if c: s = s + c
    return s

def norm(e):
    if not isz(e): return e
    if not z3.is_int(e): return z3.simplify(e)
    return unlin(*lin(e))

def diffconst(a, b):
    """a-b if it is a syntactic constant else None (Int sort only)"""
    if not isz(a) and not isz(b): return a - b
    if (isz(a) and not z3.is_int(a)) or (isz(b) and not z3.is_int(b)):
        if isz(a) and isz(b) and a.eq(b): return 0
        s = z3.simplify(a - b)
        return s.as_signed_long() if z3.is_bv_value(s) else None
    ca, da = lin(a); cb, db = lin(b)
    if len(da) != len(db): return None
    for k, (co, _) in da.items():
        if k not in db or db[k][0] != co: return None
    return ca - cb

def lt(a, b):
    d = diffconst(a, b)
    return d < 0 if d is not None else a < b
def le(a, b):
    d = diffconst(a, b)
    return d <= 0 if d is not None else a <= b
def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)): return bIff(a, b)
    d = diffconst(a, b)
    if d is not None: return d == 0
    return a == b

# ---------------------------------------------------------------- bounds registry for Int atoms
BOUNDS = {}     # ast id -> (ast, lo, hi)
ARRB = {}       # array const id -> (ast, lo, hi)
_bc = {}
def set_bounds(v, lo, hi):
    if isz(lo): lo = bounds(lo)[0]
    if isz(hi): hi = bounds(hi)[1]
    BOUNDS[v.get_id()] = (v, lo, hi)
def bounds(e):
    if not isz(e): return (int(e), int(e))
    k = e.get_id()
    if k in BOUNDS: return BOUNDS[k][1:]
    r = _bc.get(k)
    if r: return r[1]
    r = _bounds(e)
    _bc[k] = (e, r)
    return r
INF = float("inf")
def _bounds(e):
    if z3.is_int_value(e): v = e.as_long(); return (v, v)
    if not z3.is_app(e): return (-INF, INF)
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ADD:
        lo = hi = 0
        for i in range(e.num_args()):
            a, b = bounds(e.arg(i)); lo += a; hi += b
        return (lo, hi)
    if kd == z3.Z3_OP_SUB:
        lo, hi = bounds(e.arg(0))
        for i in range(1, e.num_args()):
            a, b = bounds(e.arg(i)); lo -= b; hi -= a
        return (lo, hi)
    if kd == z3.Z3_OP_UMINUS:
        a, b = bounds(e.arg(0)); return (-b, -a)
    if kd == z3.Z3_OP_MUL and e.num_args() == 2:
        a, b = bounds(e.arg(0)); c, d = bounds(e.arg(1))
        if a == b and abs(a) < INF: 
            x, y = (c * a, d * a) if a != 0 else (0, 0)
            return (min(x, y), max(x, y))
        if a >= 0 and c >= 0: return (a * c if a * c == a * c else 0, b * d if b * d == b * d else INF)
        return (-INF, INF)
    if kd == z3.Z3_OP_ITE:
        a, b = bounds(e.arg(1)); c, d = bounds(e.arg(2)); return (min(a, c), max(b, d))
    if kd == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0: return (0, e.arg(1).as_long() - 1)
    if kd == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
        a, b = bounds(e.arg(0)); n = e.arg(1).as_long()
        return (a // n if a > -INF else a, b // n if b < INF else b)
    if kd == z3.Z3_OP_SELECT:
        x = ARRB.get(e.arg(0).get_id())
        if x: return x[1:]
    if kd == z3.Z3_OP_UNINTERPRETED:
        x = ARRB.get(e.decl().get_id())
        if x: return x[1:]
    return (-INF, INF)

# ---------------------------------------------------------------- numeric values
class N:
    """integer value of width w; in the Int domain e is any representative of the residue mod 2^w"""
    __slots__ = ("w", "e", "b", "bytes")
    def __init__(self, w, e, b=None, bytes=None):
        self.w, self.e, self.b, self.bytes = w, e, b, bytes
    def __repr__(self): return "N%d(%s)" % (self.w, self.e)

class P:
    """pointer: region + element index + byte remainder; region None = absolute address"""
    __slots__ = ("r", "i", "o")
    def __init__(self, r, i=0, o=0): self.r, self.i, self.o = r, i, o
    def __repr__(self): return "P(%s,%s,%s)" % (self.r.name if self.r else None, self.i, self.o)
NULL = P(None, 0, 0)

class Fn:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class Agg:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __repr__(self): return "Agg%r" % (self.v,)
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()
class Fl:
    """opaque floating-point value carried as its bits"""
    __slots__ = ("n",)
    def __init__(self, n): self.n = n

# ---------------------------------------------------------------- array terms
class Base:
    __slots__ = ("a",)
    def __init__(self, a): self.a = a
    def sel(self, j): return z3.Select(self.a, j if isz(j) else (z3.IntVal(j) if self.a.domain() == z3.IntSort() else z3.BitVecVal(j, 64)))
class Store:
    __slots__ = ("p", "i", "v")
    def __init__(self, p, i, v): self.p, self.i, self.v = p, i, v
    def sel(self, j):
        c = eq(j, self.i)
        if c is True: return self.v
        if c is False: return self.p.sel(j)
        return ite(c, self.v, self.p.sel(j))
class Copy:
    """p with [d, d+n) replaced by src[s, s+n)"""
    __slots__ = ("p", "d", "src", "s", "n")
    def __init__(self, p, d, src, s, n): self.p, self.d, self.src, self.s, self.n = p, d, src, s, n
    def sel(self, j):
        c = bAnd(le(self.d, j), lt(j, self.d + self.n))
        if c is False: return self.p.sel(j)
        x = self.src.sel(norm(j - self.d + self.s) if isz(j) or isz(self.d) or isz(self.s) else j - self.d + self.s)
        if c is True: return x
        return ite(c, x, self.p.sel(j))
class FillA:
    __slots__ = ("p", "d", "n", "v")
    def __init__(self, p, d, n, v): self.p, self.d, self.n, self.v = p, d, n, v
    def sel(self, j):
        c = bAnd(le(self.d, j), lt(j, self.d + self.n))
        if c is False: return self.p.sel(j)
        return ite(c, self.v, self.p.sel(j))
class Rev:
    """p with [lo, hi) reversed"""
    __slots__ = ("p", "lo", "hi")
    def __init__(self, p, lo, hi): self.p, self.lo, self.hi = p, lo, hi
    def sel(self, j):
        c = bAnd(le(self.lo, j), lt(j, self.hi))
        if c is False: return self.p.sel(j)
        x = self.p.sel(norm(self.lo + self.hi - 1 - j))
        return x if c is True else ite(c, x, self.p.sel(j))
class FnArr:
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
    def sel(self, j): return self.f(j)
class Const:
    """constant data (global tables)"""
    __slots__ = ("d", "z")
    def __init__(self, d): self.d = d; self.z = None
    def sel(self, j):
        if not isz(j): return self.d[j]
        if self.z is None:
            bv = z3.is_bv(j)
            self.z = z3.Array(fresh_name("const"), z3.IntSort(), z3.IntSort())
        e = self.d[-1]
        for k in range(len(self.d) - 2, -1, -1): e = ite(j == k, self.d[k], e)
        return e

# ---------------------------------------------------------------- quantifiers
def has_var(e, v):
    seen = set(); st = [e]; vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i == vid: return True
        if z3.is_app(x): st += x.children()
        elif z3.is_quantifier(x): st.append(x.body())
    return False

def selects_of(e, v):
    """index expressions of selects / UF applications in e mentioning v"""
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if not z3.is_app(x): continue
        if z3.is_select(x) and z3.is_const(x.arg(0)) and has_var(x.arg(1), v): out.append((x, x.arg(1)))
        st += x.children()
    return out

def forall(lo, hi, f, name="j", sort=None, depth=0):
    """forall lo <= j < hi. f(j), with single-variable E-matching patterns on plain selects;
    shifted selects get their own re-indexed copy."""
    if not isz(lo) and not isz(hi):
        if hi - lo <= 0: return True
        if hi - lo <= (8 if SYMBOLIC[0] else 1 << 30):
            if not SYMBOLIC[0]: return all(f(k) for k in range(lo, hi))
            return bAnd(*[f(k) for k in range(lo, hi)])
    bv = (isz(lo) and z3.is_bv(lo)) or (isz(hi) and z3.is_bv(hi))
    j = z3.BitVec(fresh_name(name), 64) if bv else z3.Int(fresh_name(name))
    body = f(j)
    if body is True: return True
    body = zb(body)
    rng = bAnd(lo <= j, j < hi)
    outs = []; seenshift = set()
    sels = selects_of(body, j)
    plain = [s for s, ix in sels if ix.eq(j) and no_bound(s, j)]
    if plain:
        pats = []; seen = set()
        for s in plain:
            if s.get_id() not in seen: seen.add(s.get_id()); pats.append(s)
        outs.append(z3.ForAll([j], z3.Implies(rng, body), patterns=pats))
        seenshift.add(0)
    if not bv:
        for s, ix in sels:
            if ix.eq(j) or not no_bound(s, j): continue
            c, d = lin(ix)
            co = d.get(j.get_id())
            if not co or co[0] not in (1, -1): continue
            # ix = co*j + t  =>  j = co*(i - t)
            d2 = dict(d); d2.pop(j.get_id()); t = unlin(c, d2)
            if isz(t) and has_var(t, j): continue
            key = (co[0], str(t))
            if key in seenshift: continue
            seenshift.add(key)
            if len(seenshift) > 4: break
            i = z3.Int(fresh_name(name + "s"))
            jj = (i - t) if co[0] == 1 else (t - i)
            b2 = z3.substitute(z3.Implies(rng, body), (j, jj))
            # rebuild the trigger select plainly
            b2 = _renorm_sel(b2, i)
            pats = [x for x, ix2 in selects_of(b2, i) if ix2.eq(i) and no_bound(x, i)]
            if pats:
                u = []; seen = set()
                for s2 in pats:
                    if s2.get_id() not in seen: seen.add(s2.get_id()); u.append(s2)
                outs.append(z3.ForAll([i], b2, patterns=u))
    if not outs:
        return z3.ForAll([j], z3.Implies(rng, body))
    return outs[0] if len(outs) == 1 else z3.And(*outs)

def no_bound(s, j):
    """s must not contain other (de Bruijn) bound variables"""
    st = [s]
    while st:
        x = st.pop()
        if z3.is_var(x): return False
        if z3.is_app(x): st += x.children()
        else: return False
    return True

def _renorm_sel(e, i):
    subs = []
    for s, ix in selects_of(e, i):
        if not no_bound(s, i): continue
        n = norm(ix)
        if isz(n) and not n.eq(ix): subs.append((s, z3.Select(s.arg(0), n)))
    return z3.substitute(e, *subs) if subs else e

def exists(lo, hi, f, name="x"):
    if not isz(lo) and not isz(hi):
        if hi - lo <= 0: return False
        if not SYMBOLIC[0]: return any(f(k) for k in range(lo, hi))
        if hi - lo <= 8: return bOr(*[f(k) for k in range(lo, hi)])
    return bNot(forall(lo, hi, lambda j: bNot(f(j)), name))

def is_quant(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st += x.children()
    return False

# ---------------------------------------------------------------- solver front end
class Stats:
    def __init__(self): self.light = self.heavy = 0; self.tl = self.th = 0.0
STATS = Stats()

class Light:
    """incremental solver over quantifier-free facts; keeps its assertion stack in step with the state's path"""
    def __init__(self):
        self.s = z3.Solver(); self.s.set("timeout", 400); self.st = []
        self.cache = {}
    def sync(self, facts):
        k = 0
        n = min(len(facts), len(self.st))
        while k < n and self.st[k] is facts[k]: k += 1
        if k < len(self.st):
            self.s.pop(len(self.st) - k); del self.st[k:]
        for f in facts[k:]:
            self.s.push(); self.s.add(f); self.st.append(f)
    def check(self, facts, extra):
        t = time.time(); STATS.light += 1
        self.sync(facts)
        self.s.push(); self.s.add(extra); r = self.s.check(); self.s.pop()
        STATS.tl += time.time() - t
        return r
    def valid(self, facts, g):
        if g is True: return True
        if g is False: g = z3.BoolVal(False)
        return self.check(facts, z3.Not(g)) == z3.unsat
    def feasible(self, facts, g):
        if g is False: return False
        if g is True: return True
        return self.check(facts, g) != z3.unsat

def cone(facts, goal):
    return facts

HEAVY_TACTICS = None
RETRY = [0]      # > 0: another attempt at a contract that failed; every query gets more configurations
def heavy(facts, goal, timeout=8000, want_model=False, seed=0):
    """(result, model|None): 'proved' | 'failed' | 'unknown'"""
    if goal is True: return "proved", None
    t = time.time(); STATS.heavy += 1
    g = z3.Not(zb(goal)); r = s = None
    confs = [(z3.SimpleSolver, {"auto_config": False, "mbqi": False})]
    if RETRY[0]: confs.append((z3.SimpleSolver, {"auto_config": False, "mbqi": False, "random_seed": 7 + RETRY[0]}))
    if want_model or RETRY[0]: confs.append((z3.Solver, {"mbqi": False}))
    for mk, opts in confs:
        s = mk(); s.set("timeout", timeout)
        for k, v in opts.items(): s.set(k, v)
        if seed: s.set("random_seed", seed)
        for f in facts: s.add(f)
        s.add(g)
        r = s.check()
        if r != z3.unknown: break
        if time.time() - t > timeout / 1500.0: break
    STATS.th += time.time() - t
    if r == z3.unsat: return "proved", None
    if r == z3.sat: return "failed", (s.model() if want_model else None)
    m = None
    if want_model:
        try: m = s.model()
        except z3.Z3Exception: m = None
    return ("unknown" if "timeout" in s.reason_unknown() or "canceled" in s.reason_unknown() else "failed"), m
