"""Contract language.  A contract is a Python function of a context `c`: it declares the inputs, states the
precondition, runs the real function and states the postcondition.  The same text is interpreted in two ways:
symbolically (SymCtx: the verifier, all inputs) and concretely (vf.conc.ConcCtx: replay on the compiled library)."""
import z3, itertools, time
from .sym import *
from . import ex as X, lib as L, loops
from .ir import IntTy, PTR
from .ex import Region, State, zi

class Ty:
    def __init__(self, name, size, fields=None): self.name, self.size, self.fields = name, size, fields or [(0, 8 * size)]
U8, U16, U32, U64 = Ty("u8", 1), Ty("u16", 2), Ty("u32", 4), Ty("u64", 8)
K = Ty("K", 4)
Q = Ty("Q", 8, [(0, 32), (4, 32)])        # element with a lifetime (harness/q.h): value, liveness mark
Q_LIVE = 0x5a5a5a5a
KV = Ty("KV", 8, [(0, 32), (4, 32)])      # map<K,K>::value_type

CONTRACTS = {}          # name -> Contract
class Contract:
    def __init__(self, prop, name, func, fn, group, **kw):
        self.prop, self.name, self.func, self.fn, self.group = prop, name, func, fn, group
        self.opt = kw
def contract(prop, func, group, name=None, **kw):
    def d(fn):
        n = name or fn.__name__
        if n in CONTRACTS: raise VError("duplicate contract " + n)
        CONTRACTS[n] = Contract(prop, n, func, fn, group, **kw)
        return fn
    return d

def variant(name, func, group, new=None, prop=None):
    """the same contract over another entry point with the same parameters"""
    c = CONTRACTS[name]
    contract(prop or c.prop, func, group, new or func, **c.opt)(c.fn)

# ------------------------------------------------------------------ element operations in contract text
def _uf(f, conc):
    def g(*a):
        if not SYMBOLIC[0]: return conc(*a)
        return f(*[zi(x) for x in a])
    return g
M32 = (1 << 32) - 1
KMODE = [0]
key = _uf(L.KEY, lambda x: (x >> 2))
ekey = _uf(L.EKEY, lambda x: (x >> 2) if KMODE[0] else (x >> 1))
pred = _uf(L.PRED, lambda x: (x * 7 % 11) < 5)
bp = _uf(L.BP, lambda a, b: ((a * 3 + b * 5) % 7) < 3)
fn1 = _uf(L.FN1, lambda x: (x * 7 + 3) & M32)
kadd = _uf(L.ADD, lambda a, b: (a * 9 + b * 5 + 7) & M32)
kmul = _uf(L.MUL, lambda a, b: (a * 3 + b * 11 + 2) & M32)
ksub = _uf(L.SUB, lambda a, b: (a * 13 - b * 7 + 3) & M32)
fn2 = _uf(L.FN2, lambda a, b: (a * 5 + b * 3 + 1) & M32)
gen = _uf(L.GEN, lambda i: (i * 11 + 5) & M32)
def klt(a, b): return key(a) < key(b)
def kle(a, b): return key(a) <= key(b)
def keq(a, b): return eqv(ekey(a), ekey(b))
def kequiv(a, b): return eqv(key(a), key(b))
def eqv(a, b): return eq(a, b)
def imin(a, b): return ite(a <= b, a, b)
def imax(a, b): return ite(a >= b, a, b)
def sgn(x, w=32):
    """two's complement reading of a canonical value"""
    if not isz(x): return x - (1 << w) if x >= (1 << (w - 1)) else x
    return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)
def divc(a, k): return a // k if not isz(a) else a / k
def modc(a, k): return a % k

class SpecSkip(Exception): pass
class Shared:
    def __init__(self, rely, after): self.rely, self.after = rely, after

# ------------------------------------------------------------------ symbolic context
class Arr:
    """handle on a block of `n` elements; A[j] reads the contents in the state under consideration"""
    def __init__(self, c, name, r, n, T, off=0): self.c, self.name, self.r, self.n, self.T, self.off = c, name, r, n, T, off
    @property
    def b(self): return P(self.r, self.off, 0)
    @property
    def e(self): return P(self.r, norm(self.off + self.n) if isz(self.n) or isz(self.off) else self.off + self.n, 0)
    def at(self, j): return P(self.r, norm(self.off + j) if isz(j) or isz(self.off) else self.off + j, 0)
    def _sel(self, st, j, f):
        rs = st.mem[self.r.id]
        return rs.arrs[f].sel(norm(self.off + j) if isz(j) or isz(self.off) else self.off + j)
    def __getitem__(self, j): return self._sel(self.c.cur, j, 0)
    def set(self, j, v, k=0):
        """precondition: element j is v"""
        rs = self.c.st.mem[self.r.id].copy(); rs.arrs = list(rs.arrs); rs.arrs[k] = Store(rs.arrs[k], self.off + j, v); self.c.st.mem[self.r.id] = rs
    def f(self, j, k): return self._sel(self.c.cur, j, k)
    def old(self, j, k=0): return self._sel(self.c.pre or self.c.cur, j, k)
    def ent(self, j, k=0):
        """in an invariant: the content when the loop was entered"""
        return self._sel(self.c.ent, j, k)
    @property
    def v(self): return self[0]
    @property
    def p(self): return self.b

class Obj:
    def __init__(self, c, name, r): self.c, self.name, self.r = c, name, r
    @property
    def p(self): return P(self.r, 0, 0)
    def at(self, o): return P(self.r, 0, o)

class Ret:
    def __init__(self, c, st, v, threw): self.c, self.st, self.v, self.threw = c, st, v, threw
    @property
    def n(self):
        """the returned integer, canonical"""
        v = self.v
        if isinstance(v, (bool, z3.BoolRef)): return v
        return self.c.ex.D.u(self.st, v)
    @property
    def s(self): return self.c.ex.D.s(self.st, self.v)
    def idx(self, A, part=None):
        """index of the returned pointer in A (obliged to point into A's block)"""
        v = self.v if part is None else self.v.v[part]
        return self.c.index(v, A)

class SymCtx:
    sym = True
    def __init__(self, ex, script):
        self.ex = ex; self.st = State(); self.cur = self.st; self.script = script; self.choices = []
        ex.spec = self
        self.heap_elem = None; self.no_oom = True; self.refs = []; self.int_frames = False; self.mention = self.split_bool = False; self.env_refs = False; self.merge = False; self.debug = False
        self.invs = []; self.mods = []; self.objs = []; self.arrs = []; self.expect_live = []
        self.pre = None; self.returns = 0; self.throws_seen = 0; self.vacuous = None; self.case_name = ""
        self.autoframe = True; self.named = {}
    # ---- inputs
    def case(self, name, options):
        k = len(self.choices)
        i = self.script[k] if k < len(self.script) else 0
        self.choices.append((i, len(options)))
        self.case_name += "/%s=%s" % (name, options[i] if not callable(options[i]) else i)
        return options[i]
    def size(self, name="n", hi=1 << 32, lo=0):
        if self.ex.D.bv: raise VError("size (bv)")
        v = z3.Int(name); set_bounds(v, lo, hi)
        self.st.assume(bAnd(lo <= v, v <= hi)); self.named[name] = v
        return v
    def num(self, name, w=32, vals=None, lo=None, hi=None):
        if self.ex.D.bv:
            v = z3.BitVec(name, w); self.named[name] = v
            return v
        v = z3.Int(name); set_bounds(v, 0 if lo is None else lo, (1 << w) - 1 if hi is None else hi)
        self.st.assume(bAnd((0 if lo is None else lo) <= v, v <= ((1 << w) - 1 if hi is None else hi))); self.named[name] = v
        return v
    def snum(self, name, w=32):
        v = z3.Int(name); set_bounds(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        self.st.assume(bAnd(-(1 << (w - 1)) <= v, v < (1 << (w - 1)))); self.named[name] = v
        return v
    def bool(self, name): 
        v = z3.Bool(name); self.named[name] = v
        return v
    def arr(self, name, n=None, T=K, const=False, sorted_by=None, heap=False, nonnull=True, gen=None, align=None, reg=None):
        if n is None: n = self.size("n_" + name)
        r = Region(name, "arr", S=T.size, n=n, fields=T.fields, origin="heap" if heap else "param", align=align or (16 if heap else 1))
        rs = self.ex.new_region(self.st, r); self.ex.reg_region(self.st, r)
        if heap: self.expect_live.append(r); self.st.heap.append(r)
        A = Arr(self, name, r, n, T); self.arrs.append(A)
        self.named[name] = A
        # range facts for the contents
        arr0 = self.st.mem[r.id].arrs
        for k, (o, w) in enumerate(T.fields):
            if not self.ex.D.bv: self.st.assume(forall(0, n, lambda j, k=k, w=w: bAnd(0 <= arr0[k].sel(j), arr0[k].sel(j) < (1 << w))))
        if sorted_by: self.require_sorted(A, sorted_by)
        return A
    def cstr(self, name, n=None):
        """a C string: n non-zero characters and a terminator"""
        if n is None: n = self.size("len_" + name, hi=(1 << 31) - 2)
        A = self.arr(name, n=n + 1, T=U8)
        self.require(eq(A[n], 0)); self.require(forall(0, n, lambda j: Not(eq(A[j], 0))))
        A.r.cstr = n; A.r.cstr_arr = self.st.rs(A.r).arrs[0]; A.len = n
        return A
    def require_sorted(self, A, rel, lo=0, hi=None, f=0):
        """pairwise: for all i<j: not rel(A[j],A[i])"""
        hi = A.n if hi is None else hi
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        self.require(self.pairwise(lo, hi, lambda a, b: bNot(rel(b, a)), lambda k: A.f(k, f)))
    def pairwise(self, lo, hi, rel, get):
        """forall lo<=i<j<hi. rel(get(i),get(j))"""
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        x, y = get(i), get(j)
        body = zb(bImp(bAnd(lo <= i, i < j, j < hi), rel(x, y)))
        px, py = first_sel(x, i), first_sel(y, j)
        if px is None or py is None: return z3.ForAll([i, j], body)
        return z3.ForAll([i, j], body, patterns=[z3.MultiPattern(px, py)])
    def elem(self, name, T=K): 
        a = self.arr(name, 1, T)
        rs = self.st.mem[a.r.id]
        if T.fields == [(0, 8 * T.size)] and not self.ex.D.bv:
            v = z3.Int("val_" + name); set_bounds(v, 0, (1 << (8 * T.size)) - 1); self.st.assume(bAnd(0 <= v, v < (1 << (8 * T.size))))
            from .sym import FnArr
            rs.arrs = [Store(rs.arrs[0], 0, v)]
            self.named["val_" + name] = v
        return a
    def obj(self, name, size, cells=(), heap=False):
        """cells: (offset, size, value) with value int expr | pointer"""
        r = Region(name, "obj", size=size, origin="heap" if heap else "param", align=16)
        cs = {}
        for o, s, v in cells:
            cs[o] = (s, v if isinstance(v, (P, X.Fn)) else self.ex.D.bool2n(8, v) if isinstance(v, (bool, z3.BoolRef)) and s == 1 else N(8 * s, v))
        self.ex.new_region(self.st, r, cells=cs); self.ex.reg_region(self.st, r)
        o = Obj(self, name, r); self.objs.append(o)
        if heap: self.expect_live.append(r)
        return o
    def share(self, o, off, rely, after=None):
        """cell `off` of the object is accessed by other threads as well: whenever this code touches it, they may have
        changed it as rely(st, before, now) permits.  Plain (non-atomic) access is an error."""
        if not hasattr(self, "shared_cells"): self.shared_cells = {}
        self.shared_cells[(o.r.id, off)] = Shared(rely, after)
    def events(self, o=None, kinds=("rmw", "store", "load")):
        return [e for e in self.cur.ghost.get("events", ()) if e[0] in kinds and (o is None or e[1] == o.r.id)]
    def vtable(self, sym, off=16): return self.ex.padd(self.st, self.ex.global_ptr(self.st, sym), off)
    null = NULL
    def require(self, g): self.st.assume(g)
    def consistent_eq(self):
        """element == agrees with equivalence under <"""
        x, y = z3.Int(fresh_name("x")), z3.Int(fresh_name("y"))
        self.st.assume(z3.ForAll([x, y], (L.EKEY(x) == L.EKEY(y)) == (L.KEY(x) == L.KEY(y)), patterns=[z3.MultiPattern(L.EKEY(x), L.EKEY(y))]))
    # ---- ghost
    def count_ghost(self, A, lo=0, hi=None, name="occ", match=None):
        """track the number of elements of A[lo,hi) equal to an arbitrary value w (or: for which match holds)"""
        hi = A.n if hi is None else hi
        w = z3.Int(fresh_name("w"))
        kid = fresh_name("occkey")
        o = z3.Int(fresh_name("occ0"))
        self.ex.occ_keys[kid] = (lo, hi, match or (lambda e: eq(e, w)))
        rs = self.st.mem[A.r.id].copy(); rs.occ = dict(rs.occ or {}); rs.occ[kid] = o; self.st.mem[A.r.id] = rs
        return (A, kid, o, w)
    def same_elements(self, B, n, val):
        """the first n elements of B are a permutation of val(0..n-1): by the heap functions and merges called, the last one first"""
        cur = self.cur.mem[B.r.id].arrs[0]
        at = lambda j: cur.sel(norm(B.off + j) if isz(B.off) else B.off + j)
        for r, lo, m, before, after in reversed(self.cur.ghost.get("heaps", ())):
            if r is not B.r: continue
            if cur is not after: break
            self.ensure("rearranged range is the whole content", And(eq(lo, B.off), eq(m, n))); at = before; cur = None
        self.ensure("same elements", forall(0, n, lambda j: eq(at(j), val(j))))
    def perm_ok(self, g):
        A, kid, o, w = g
        rs = self.cur.mem[A.r.id]
        return eq(rs.occ[kid], o)
    def ghost_uf(self, name, init, n, step, trig=None):
        """sequence g(0)=init, g(i+1)=step(i,g(i)) for i<n, as an uninterpreted function with its defining axioms"""
        g = z3.Function(fresh_name(name), z3.IntSort(), z3.IntSort())
        self.st.assume(g(0) == init)
        j = z3.Int(fresh_name("gj"))
        body = z3.Implies(z3.And(0 <= j, j < n), g(j + 1) == step(j, g(j)))
        self.st.assume(z3.ForAll([j], body, patterns=[zi(trig(j)) if trig else g(j)]))
        return lambda i: g(zi(i))
    def all_g(self, g, lo, hi, f):
        """forall lo<=j<hi. f(g(j)), triggered on the ghost function"""
        j = z3.Int(fresh_name("gq"))
        return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), zb(f(g(j)))), patterns=[g(j)])
    def first(self, lo, hi, f, name="first"):
        """least index in [lo,hi) with f, else hi (lo<=hi): definitional constant, exists by the least number principle"""
        p = z3.Int(fresh_name(name))
        self.st.assume(bAnd(lo <= p, p <= hi, bImp(p < hi, f(p))))
        self.st.assume(forall(lo, p, lambda j: bNot(f(j))))
        return p
    def last(self, lo, hi, f, name="last"):
        """greatest index in [lo,hi) with f, else hi"""
        p = z3.Int(fresh_name(name))
        self.st.assume(bOr(p == hi, bAnd(lo <= p, p < hi, f(p))))
        self.st.assume(forall(lo, hi, lambda j: bImp(bOr(p == hi, p < j), bNot(f(j)))))
        return p
    def induct(self, label, lo, hi, P, down=False, at=None, trig=None):
        """forall lo<=k<hi. P(k), proved by strong induction (downwards: from hi-1), then available"""
        k = z3.Int(fresh_name("ind")); st = self.cur.fork()
        def fa(lo, hi):
            if trig is None: return forall(lo, hi, P)
            j = z3.Int(fresh_name("j")); return z3.ForAll([j], zb(bImp(bAnd(lo <= j, j < hi), P(j))), patterns=[trig(j)])
        st.assume(bAnd(lo <= k, k < hi)); st.assume(fa(k + 1, hi) if down else fa(lo, k))
        if at: st.assume(z3.Int(fresh_name("at")) == at(k))          # mentions the term the definitions trigger on
        st.assume(bImp(k + 1 < hi, P(k + 1)) if down else bImp(lo <= k - 1, P(k - 1)))
        self.ex.oblige(st, "lemma", P(k), "induction step: " + label, assume=False)
        self.cur.assume(fa(lo, hi))
    def fold2(self, name, n, step, trig):
        """family of folds g(k,0)=0, g(k,i+1)=step(k,i,g(k,i)) for i<n, one for every k"""
        g = z3.Function(fresh_name(name), z3.IntSort(), z3.IntSort(), z3.IntSort())
        k, j = z3.Int(fresh_name("gk")), z3.Int(fresh_name("gj"))
        self.st.assume(z3.ForAll([k], g(k, 0) == 0, patterns=[g(k, 0)]))
        ax = z3.Implies(z3.And(0 <= j, j < n), g(k, j + 1) == step(k, j, g(k, j)))
        self.st.assume(z3.ForAll([k, j], ax, patterns=[z3.MultiPattern(g(k, j), trig(j))]))
        return lambda a, i: g(zi(a), zi(i))
    def induct2(self, label, lo, hi, P, trig, down=False, at=()):
        """forall k, lo<=i<hi. P(k,i), by induction on i; `at`: terms mentioned in the step"""
        k, i = z3.Int(fresh_name("ik")), z3.Int(fresh_name("ind")); st = self.cur.fork()
        st.assume(bAnd(lo <= i, i < hi)); st.assume(bImp(i + 1 < hi, P(k, i + 1)) if down else bImp(lo <= i - 1, P(k, i - 1)))
        for a in at: st.assume(z3.Int(fresh_name("at")) == a(k, i))
        self.ex.oblige(st, "lemma", P(k, i), "induction step: " + label, assume=False)
        self.cur.assume(z3.ForAll([k, i], zb(bImp(bAnd(lo <= i, i < hi), P(k, i))), patterns=[trig(k, i)]))
    def assume_theorem(self, f):
        """a fact of pure mathematics about a ghost function"""
        self.st.assume(f)
    def defall(self, name, lo, hi, body, trig, at=None):
        """predicate M(j) <=> forall lo<=k<hi. body(j,k), by definitional axioms (Skolem witness for the negation)"""
        M = z3.Function(fresh_name(name), z3.IntSort(), z3.BoolSort()); W = z3.Function(fresh_name(name + "_w"), z3.IntSort(), z3.IntSort())
        j, k = z3.Int(fresh_name("dj")), z3.Int(fresh_name("dk"))
        self.st.assume(z3.ForAll([j, k], z3.Implies(z3.And(M(j), lo <= k, k < hi), zb(body(j, k))), patterns=[z3.MultiPattern(M(j), trig(k))]))
        if at:      # the same definition, by the position j+k of the element examined
            t = z3.Int(fresh_name("dt"))
            self.st.assume(z3.ForAll([j, t], z3.Implies(z3.And(M(j), lo + j <= t, t < hi + j), zb(body(j, t - j))), patterns=[z3.MultiPattern(M(j), at(t))]))
        self.st.assume(z3.ForAll([j], z3.Implies(z3.Not(M(j)), z3.And(lo <= W(j), W(j) < hi, zb(bNot(body(j, W(j)))))), patterns=[M(j)]))
        return lambda x: M(zi(x))
    # ---- invariant templates
    def inv(self, fn, over=(), name=None, q=True): self.invs.append((name or "inv%d" % len(self.invs), fn, over, q))
    def loop_templates(self, ex, st, where, terms, prefs, irefs):
        out = []
        for nm, fn, over, q in self.invs:
            pools = []
            for o in over:
                if isinstance(o, tuple) and o[0] == "ref":      # terms and loop-constant pointers into the block
                    pools.append([t for t in terms if t.kind == "p" and t.reg is o[1].r] + [loops.Term("#%d" % q, "p", o[1].r, (lambda h, e=e: e), e) for q, e in enumerate(prefs.get(o[1].r.id, []))])
                elif o == "iref": pools.append([t for t in terms if t.kind == "i"] + [loops.Term("#%d" % q, "i", None, (lambda h, e=e: e), e) for q, e in enumerate(irefs)])
                elif isinstance(o, Arr): pools.append([t for t in terms if t.kind == "p" and t.reg is o.r])
                elif o == "i": pools.append([t for t in terms if t.kind == "i"])
                elif o == "heap": pools.append([t for t in terms if t.kind == "p" and t.reg.origin == "heap"])
                elif isinstance(o, tuple) and o[0] == "hx":     # (index, block) for pointers into blocks allocated meanwhile
                    pools.append([loops.Term(t.name, "p", t.reg, (lambda h, t=t, T=o[1]: (t.get(h), Arr(self, t.reg.name, t.reg, t.reg.n, T))), t.e0) for t in terms if t.kind == "p" and t.reg.origin == "heap"])
                elif o == "p": pools.append([t for t in terms if t.kind == "p"])
                else: raise VError("template pool")
            for combo in itertools.product(*pools):
                if len(combo) > 1 and any(a is b for a, b in itertools.combinations(combo, 2)): continue
                def f(h, fn=fn, combo=combo):
                    sv = self.cur; self.cur = h.st; self.h = h; self.ent = st
                    try: return fn(*[t.get(h) for t in combo])
                    finally: self.cur = sv
                out.append(("%s(%s)" % (nm, ",".join(t.name for t in combo)), f, q))
        return out
    # ---- running
    def prove_false_ok(self, st):
        """vacuity guard: True when the path condition is NOT contradictory as far as the solver can tell"""
        r, _ = heavy(self.ex.facts(st), z3.BoolVal(False), 1500)
        return r != "proved"
    def modifies(self, *xs): self.mods += list(xs)
    def convert(self, a, ty):
        if isinstance(a, (P, X.Fn)): return a
        if isinstance(a, (Arr, Obj)): return a.p
        if isinstance(a, (bool, z3.BoolRef)): return a if ty.k == "int" and ty.w == 1 else self.ex.D.bool2n(ty.w, a)
        if ty.k == "int":
            if ty.w == 1: return bool(a)
            return N(ty.w, a if isz(a) else self.ex.D.const(ty.w, a).e)
        raise VError("argument %r for %r" % (a, ty))
    def run(self, *args, post=None, throws=None, func=None):
        ex = self.ex
        self.pre = self.st.fork()
        self.pre_mem = dict(self.st.mem)
        if not self.prove_false_ok(self.st): raise VError("vacuous precondition")
        f = ex.mod.func(func or self.func)
        if f is None: raise VError("function %s is missing from the extracted code" % (func or self.func))
        vals = [self.convert(a, p[0]) for a, p in zip(args, f.params)]
        if len(args) != len(f.params): raise VError("%s takes %d arguments" % (f.name, len(f.params)))
        done = ex.start(self.st, f.name, vals)
        good = 0
        for s in done:
            self.cur = s
            s.frames = []
            if s.out == "throw":
                self.throws_seen += 1
                if throws is None:
                    ex.oblige(s, "exception", False, "no exception escapes")
                    continue
                throws(Ret(self, s, None, True))
            else:
                self.returns += 1
                if post: post(Ret(self, s, s.ret, False))
            if self.autoframe: self.frame(s)
            if good == 0 and self.prove_false_ok(s): good = 1
        self.cur = self.pre
        if not good: self.vacuous = "no reachable exit"
        return done
    def ensure(self, label, g):
        self.ex.oblige(self.cur, "ensures", g, label, assume=False)
    def lemma(self, label, g):
        """proved, then available to the following obligations"""
        self.ex.oblige(self.cur, "lemma", g, label, assume=True)
    def frame(self, s):
        modr = set()
        for m in self.mods:
            if isinstance(m, (Arr, Obj)): modr.add(m.r.id)
            elif isinstance(m, Region): modr.add(m.id)
        for A in self.arrs:
            if A.r.id in modr: continue
            a, b = self.pre_mem[A.r.id], s.mem[A.r.id]
            if not b.alive: self.ensure_(s, "frame: %s still allocated" % A.name, False); continue
            if all(x is y for x, y in zip(a.arrs, b.arrs)): continue
            for k in range(len(A.T.fields)):
                self.ensure_(s, "frame: %s unchanged" % A.name, forall(0, A.n, lambda j: eq(b.arrs[k].sel(j), a.arrs[k].sel(j))))
        for o in self.objs:
            if o.r.id in modr: continue
            a, b = self.pre_mem[o.r.id], s.mem[o.r.id]
            if not b.alive: self.ensure_(s, "frame: %s still exists" % o.name, False); continue
            if a is b or a.cells == b.cells: continue
            for off, (sz, v) in a.cells.items():
                w = b.cells.get(off)
                self.ensure_(s, "frame: %s unchanged at %d" % (o.name, off), cell_eq(self.ex, s, (sz, v), w))
        live = [r for r in s.heap if s.mem[r.id].alive]
        owned = set(s.ghost.get("owned", ())) | {r.id for r in self.expect_live if r.id not in modr}
        for r in live:
            if r.id not in owned: self.ensure_(s, "memory: block %s released or owned" % r.name, False)
    def ensure_(self, s, label, g): self.ex.oblige(s, "frame", g, label, assume=False)
    def owns(self, r): 
        self.cur.ghost["owned"] = tuple(self.cur.ghost.get("owned", ())) + (r.id,)
    # ---- reading the post state
    def index(self, v, A):
        if not isinstance(v, P) or v.r is not A.r:
            # an empty block may be represented by any pointer
            self.ensure("result points into %s" % A.name, False); raise X.PathEnd()
        return norm(v.i - A.off) if isz(v.i) or isz(A.off) else v.i - A.off
    def fld(self, o, off, w=8, st=None):
        """integer field (canonical)"""
        st = st or self.cur
        v = self.ex.load(st, P(o.r, 0, off), IntTy(8 * w))
        return self.ex.D.u(st, v)
    def ptr(self, o, off, st=None):
        st = st or self.cur
        return self.ex.load(st, P(o.r, 0, off), PTR)
    def owner_ok(self, label, p, cap, S):
        """an owned block (non-zero capacity) is a live allocation of exactly that capacity; otherwise nothing is owned"""
        if isinstance(p, P) and p.r is not None and p.r.origin == "heap" and not (not isz(cap) and cap == 0) and not self.ex.light.valid(self.cur.qf, eq(cap, 0)):
            self.ensure(label + ": storage is still allocated", self.cur.mem[p.r.id].alive)
            self.ensure(label + ": capacity is that of its allocation", And(eq(cap, p.r.size if p.r.kind == "obj" else norm(p.r.n * p.r.S) if isz(p.r.n) else p.r.n * p.r.S), eq(p.i, 0), eq(p.o, 0)))
            self.owns(p.r)
        else: self.ensure(label + ": linked storage has no capacity", eq(cap, 0))
    def isnull(self, p): return isinstance(p, P) and p.r is None and not isz(p.i) and p.i == 0
    def block(self, p, n, T, name="blk"):
        """Arr view of n elements at pointer p in the current state"""
        if p.r is None: return None
        return Arr(self, name, p.r, n, T, off=p.i)
    def alive(self, A): return self.cur.mem[A.r.id].alive
    def same_region(self, p, A): return isinstance(p, P) and p.r is A.r
    def ghost(self, name): return self.cur.ghost.get(name, 0)

def cell_eq(ex, st, a, b):
    if b is None: return False
    (s1, v1), (s2, v2) = a, b
    if isinstance(v1, tuple): v1 = ex.val_const(st, v1[1], PTR)
    if isinstance(v2, tuple): v2 = ex.val_const(st, v2[1], PTR)
    if s1 != s2: return False
    if isinstance(v1, P) and isinstance(v2, P): return ex.pcmp(st, "eq", v1, v2)
    if isinstance(v1, N) and isinstance(v2, N): return eq(ex.D.u(st, v1), ex.D.u(st, v2))
    if isinstance(v1, X.Fn) and isinstance(v2, X.Fn): return v1.name == v2.name
    return v1 is v2

def first_sel(e, v):
    for s, ix in selects_of(zb(e) if isinstance(e, bool) else e, v):
        if ix.eq(v): return s
    return None

def ite_b(c, a, b):
    if c is True: return a()
    if c is False: return b()
    return bAnd(bImp(c, a()), bImp(bNot(c), b()))
