"""Concrete reading of a contract: the same text, evaluated on sampled inputs against the compiled library.
Used to replay verifier failures (search for a failing input) and as a conformance run of the contracts."""
import ctypes, os, random, signal, struct, time, json, pickle, mmap, traceback
from . import spec as S, sym
from .sym import *

CTYPE = {1: ctypes.c_uint8, 2: ctypes.c_uint16, 4: ctypes.c_uint32, 8: ctypes.c_uint64}
class Lib:
    def __init__(self, so):
        self.l = ctypes.CDLL(so, mode=os.RTLD_LOCAL | os.RTLD_NOW)
        l = self.l
        l.vf_alloc.restype = ctypes.c_uint64; l.vf_alloc.argtypes = [ctypes.c_size_t, ctypes.c_size_t, ctypes.c_int]
        l.vf_is_live.argtypes = [ctypes.c_uint64]; l.vf_size_of.argtypes = [ctypes.c_uint64]; l.vf_size_of.restype = ctypes.c_long
        l.vf_inside.argtypes = [ctypes.c_uint64, ctypes.c_size_t]
        l.vf_call.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        self.fail_at = ctypes.c_long.in_dll(l, "vf_fail_at"); self.kmode = ctypes.c_int.in_dll(l, "vf_kmode")
        self.err = (ctypes.c_char * 256).in_dll(l, "vf_err"); self.gen = ctypes.c_int.in_dll(l, "vf_gen")
        self.counts = {k: ctypes.c_long.in_dll(l, "vf_" + k) for k in ("born", "gone")}
    def race(self, kw, func, sec=1.5):
        """two threads hammer one object through the function; -> what went wrong or None"""
        f = self.l.vf_race; f.restype = ctypes.c_char_p; f.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_double]
        m = f(kw[0].encode(), kw[1], self.sym(func), sec)
        return m.decode() if m else None
    def sym(self, name): return ctypes.cast(getattr(self.l, name), ctypes.c_void_p).value
def rd(a, n): return ctypes.string_at(a, n)
def wr(a, b): ctypes.memmove(a, bytes(b), len(b))

class CFail(Exception): pass

class CArr:
    def __init__(self, c, name, addr, n, T, own=True):
        self.c, self.name, self.addr, self.n, self.T = c, name, addr, n, T; self.snap = None
    @property
    def b(self): return self.addr
    @property
    def e(self): return self.addr + self.n * self.T.size
    def at(self, j): return self.addr + j * self.T.size
    @property
    def p(self): return self.addr
    @property
    def r(self): return self
    def f(self, j, k):
        if not 0 <= j < self.n: return 0
        o, w = self.T.fields[k]
        return int.from_bytes(rd(self.addr + j * self.T.size + o // 1, w // 8), "little")
    def __getitem__(self, j): return self.f(j, 0)
    @property
    def v(self): return self[0]
    def old(self, j, k=0):
        if self.snap is None: return self.f(j, k)
        if not 0 <= j < self.n: return 0
        o, w = self.T.fields[k]; b = j * self.T.size + o
        return int.from_bytes(self.snap[b:b + w // 8], "little")
    def set(self, j, v, k=0):
        o, w = self.T.fields[k]; wr(self.addr + j * self.T.size + o, (v & ((1 << w) - 1)).to_bytes(w // 8, "little"))
    def show(self):
        n = self.n * self.T.size
        b = self.snap if self.snap is not None else (rd(self.addr, n) if n else b"")
        fs = [[int.from_bytes(b[j * self.T.size + o:j * self.T.size + o + w // 8], "little") for (o, w) in self.T.fields] for j in range(min(self.n, 400))]
        return [x[0] if len(x) == 1 else x for x in fs]
class CObj:
    def __init__(self, c, name, addr, size): self.c, self.name, self.addr, self.size = c, name, addr, size; self.snap = None
    @property
    def p(self): return self.addr
    @property
    def r(self): return self
    def at(self, o): return self.addr + o

class CRet:
    def __init__(self, c, raw, w, threw): self.c, self.raw, self.w, self.threw = c, raw, w, threw
    @property
    def n(self):
        v = self.raw & ((1 << self.w) - 1)
        return bool(v & 1) if self.w == 1 else v
    @property
    def s(self): return S.sgn(self.raw & ((1 << self.w) - 1), self.w)
    @property
    def v(self): return self.raw
    def idx(self, A, part=None): return self.c.index(self.raw, A)

INTEREST = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]
class ConcCtx:
    sym = False
    def __init__(self, lib, mod, con, rng, prefs=None, big=False):
        self.lib, self.mod, self.con, self.rng = lib, mod, con, rng
        self.func = con.func
        self.failed = []; self.inputs = {}; self.arrs = []; self.objs = []; self.mods = []; self.owned = set(); self.pre = None
        self.expect_live = []; self.heap_elem = None; self.merge = False; self.no_oom = True; self.refs = []; self.int_frames = False; self.autoframe = True
        self.prefs = prefs or {}; self.script = None; self.case_name = ""; self.mode = None; self.ran = False; self.cur = self; self.vacuous = None; self.small_vals = True
        self.vr = rng.choice([3, 6, 12, 24, 60, 1 << 10]); self.big = big; self.calls = []; self.named = {}
        self.nrange = rng.choice([1, 2, 3, 4, 6, 9, 14, 20, 40] + ([150, 400, 1500] if big else [80]))
    def case(self, name, options):
        i = self.rng.randrange(len(options)); self.case_name += "/%s=%s" % (name, options[i] if not callable(options[i]) else i); self.inputs["case:" + name] = i
        return options[i]
    def pick(self, name):
        v = self.prefs.get(name)
        if v and self.rng.random() < 0.3: return self.rng.choice(v)
        cs = self.prefs.get("#consts")
        if cs and self.rng.random() < 0.12: return self.rng.choice(cs) + self.rng.choice([-1, 0, 0, 1])
        return None
    def size(self, name="n", hi=1 << 32, lo=0):
        v = self.pick(name)
        if v is None or not lo <= v <= min(hi, 100000):
            v = self.rng.randint(lo, max(lo, min(hi, lo + self.nrange)))
            if self.rng.random() < 0.1: v = min(hi, max(lo, self.rng.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65])))
        self.inputs[name] = v
        return v
    def num(self, name, w=32, vals=None, lo=None, hi=None):
        lo_, hi_ = 0 if lo is None else lo, (1 << w) - 1 if hi is None else hi
        v = self.pick(name)
        if v is None or not lo_ <= v <= hi_:
            if vals: v = self.rng.choice(vals)
            else:
                k = self.rng.random()
                if k < 0.45: v = self.rng.randint(lo_, min(hi_, lo_ + self.vr))
                elif k < 0.8:
                    v = self.rng.choice(INTEREST + [(1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << w) - 2, hi_, lo_])
                else: v = self.rng.randint(lo_, hi_) if self.rng.random() < 0.6 else self.rng.getrandbits(self.rng.randint(1, w))
                v = min(max(v, lo_), hi_)
        self.inputs[name] = v
        return v
    def snum(self, name, w=32): 
        v = S.sgn(self.num(name, w), w); self.inputs[name] = v
        return v
    def bool(self, name): v = self.rng.random() < 0.5; self.inputs[name] = v; return v
    def elval(self, w, alphabet=None):
        if alphabet: return self.rng.choice(alphabet)
        cs = self.prefs.get("#consts")
        if cs and self.rng.random() < 0.04:
            v = self.rng.choice(cs)
            if 0 <= v < (1 << w): return v
        if w == 8 and self.vr > 20: return self.rng.choice([0, 1, 0x20, 0x41, 0x61, 0x7f, 0x80, 0xc3, 0xff, self.rng.randrange(256)])
        return self.rng.randrange(min(self.vr, 1 << w))
    def mem(self, n, align, live): 
        a = self.lib.l.vf_alloc(n, align, live)
        if not a: raise S.SpecSkip()
        return a
    def arr(self, name, n=None, T=S.K, const=False, sorted_by=None, heap=False, nonnull=True, gen=None, align=None, reg=None):
        if n is None: n = self.size("n_" + name)
        if n * T.size > (1 << 22): raise S.SpecSkip()
        a = self.mem(n * T.size, align or (16 if heap else T.size if T.size in (1, 2, 4, 8) else 4), 1 if heap else 2)
        A = CArr(self, name, a, n, T); self.arrs.append(A)
        for j in range(n):
            for k, (o, w) in enumerate(T.fields): A.set(j, gen(self.rng, j) if gen else self.elval(w), k)
        if heap: self.expect_live.append(A)
        if sorted_by: self.require_sorted(A, sorted_by)
        self.named[name] = A
        return A
    def cstr(self, name, n=None):
        if n is None: n = self.size("len_" + name)
        A = self.arr(name, n=n + 1, T=S.U8, gen=lambda r, j: (self.elval(8) or 65))
        A.set(n, 0); A.len = n
        return A
    def require_sorted(self, A, rel, lo=0, hi=None, f=0):
        hi = A.n if hi is None else hi
        import functools
        S_ = A.T.size
        rows = [rd(A.addr + j * S_, S_) for j in range(lo, hi)]
        o, w = A.T.fields[f]
        g = lambda b: int.from_bytes(b[o:o + w // 8], "little")
        rows.sort(key=functools.cmp_to_key(lambda a, b: -1 if rel(g(a), g(b)) else 1 if rel(g(b), g(a)) else 0))
        # strict relations (rel includes equality): drop duplicates impossible -> reject
        for a, b in zip(rows, rows[1:]):
            if rel(g(b), g(a)): raise S.SpecSkip()
        wr(A.addr + lo * S_, b"".join(rows))
    def pairwise(self, lo, hi, rel, get): return all(rel(get(i), get(j)) for i in range(lo, hi) for j in range(i + 1, hi))
    def elem(self, name, T=S.K):
        A = self.arr(name, 1, T)
        src = [x for x in self.arrs[:-1] if x.T is T and x.n]
        if src and self.rng.random() < 0.6:
            s = self.rng.choice(src)
            for k in range(len(T.fields)): A.set(0, s.f(self.rng.randrange(s.n), k), k)
        return A
    def obj(self, name, size, cells=(), heap=False):
        a = self.mem(size, 16 if size % 16 == 0 else 8 if size % 8 == 0 else 4 if size % 4 == 0 else 1, 1 if heap else 2)
        o = CObj(self, name, a, size); self.objs.append(o)
        for off, s, v in cells: wr(a + off, (int(self.addr(v)) & ((1 << (8 * s)) - 1)).to_bytes(s, "little"))
        if heap: self.expect_live.append(o)
        return o
    def addr(self, v):
        if isinstance(v, (CArr, CObj)): return v.addr
        if isinstance(v, P): return 0
        return v
    def vtable(self, sym_, off=16): return self.lib.sym(sym_) + off
    null = 0
    def require(self, g):
        if not g: raise S.SpecSkip()
    def consistent_eq(self): S.KMODE[0] = 1; self.lib.kmode.value = 1
    def induct(self, *a, **k): pass
    def same_elements(self, B, n, val):
        self.ensure("same elements", sorted(B[j] for j in range(n)) == sorted(val(j) for j in range(n)))
    def count_ghost(self, A, lo=0, hi=None, name="occ", match=None):
        hi = A.n if hi is None else hi
        return (A, lo, hi, sorted([tuple(A.f(j, k) for k in range(len(A.T.fields))) for j in range(lo, hi)]))
    def perm_ok(self, g):
        A, lo, hi, o = g
        return sorted([tuple(A.f(j, k) for k in range(len(A.T.fields))) for j in range(lo, hi)]) == o
    def ghost_uf(self, name, init, n, step, trig=None):
        v = [init]
        for i in range(n): v.append(step(i, v[-1]))
        return lambda i: v[i] if 0 <= i < len(v) else 0
    def all_g(self, g, lo, hi, f): return all(f(g(j)) for j in range(lo, hi))
    def first(self, lo, hi, f, name=""):
        for j in range(lo, hi):
            if f(j): return j
        return hi
    def last(self, lo, hi, f, name=""):
        for j in range(hi - 1, lo - 1, -1):
            if f(j): return j
        return hi
    def defall(self, name, lo, hi, body, trig, at=None): return lambda x: all(body(x, k) for k in range(lo, hi))
    def inv(self, *a, **k): pass
    def modifies(self, *xs): self.mods += list(xs)
    def run(self, *args, post=None, throws=None, func=None):
        fname = func or self.func
        for A in self.arrs: A.snap = rd(A.addr, A.n * A.T.size) if A.n else b""
        for o in self.objs: o.snap = rd(o.addr, o.size)
        self.pre = self
        self.lib.gen.value = 0
        for x in self.lib.counts.values(): x.value = 0
        live0 = self.lib.l.vf_live_count()
        if not self.no_oom and self.rng.random() < 0.3: self.lib.fail_at.value = self.rng.randint(0, 2); self.inputs["malloc fails after"] = self.lib.fail_at.value
        av = (ctypes.c_uint64 * 12)(); ret = ctypes.c_uint64(0)
        f = self.mod.func(fname)
        for k, a in enumerate(args): av[k] = int(self.addr(a)) & ((1 << 64) - 1)
        self.calls.append(fname)
        threw = self.lib.l.vf_call(self.lib.sym(fname), ctypes.addressof(av), ctypes.addressof(ret))
        self.lib.fail_at.value = -1
        self.ran = True
        w = 64 if f.ret.k == "ptr" else f.ret.w if f.ret.k == "int" else 64
        if threw:
            if throws is None: self.ensure("no exception escapes", False)
            else: throws(CRet(self, 0, w, True))
        elif post: post(CRet(self, ret.value, w, False))
        if self.autoframe: self.frame()
        self.lib.l.vf_check_all()
        if self.lib.err.value: self.ensure("memory: " + self.lib.err.value.decode().rsplit(" ", 1)[0], False)
        self.lib.err.value = b""
        for x in self.expect_live:
            if x not in self.mods: self.owned.add(x.addr)
        live = self.lib.l.vf_live_count()
        if self.autoframe and live != len(self.owned): self.ensure("memory: %d block(s) live at exit, %d owned" % (live, len(self.owned)), False)
        return []
    def frame(self):
        for A in self.arrs:
            if A in self.mods: continue
            if self.lib.l.vf_is_live(A.addr) == 0: self.ensure("frame: %s still allocated" % A.name, False); continue
            if A.n and rd(A.addr, A.n * A.T.size) != A.snap: self.ensure("frame: %s unchanged" % A.name, False)
        for o in self.objs:
            if o in self.mods: continue
            if self.lib.l.vf_is_live(o.addr) == 0: continue
            if rd(o.addr, o.size) != o.snap: self.ensure("frame: %s unchanged" % o.name, False)
    def owns(self, r): self.owned.add(r.addr if isinstance(r, (CArr, CObj)) else r)
    def ensure(self, label, g):
        if not g: self.failed.append(label)
    lemma = ensure
    def index(self, v, A):
        d = v - A.addr
        if d % A.T.size: self.ensure("result points into %s" % A.name, False); return 0
        return d // A.T.size
    def fld(self, o, off, w=8, st=None): return int.from_bytes(rd(o.addr + off, w), "little")
    def ptr(self, o, off, st=None): return self.fld(o, off, 8)
    def owner_ok(self, label, p, cap, S):
        if cap:
            self.ensure(label + ": storage is still allocated", self.lib.l.vf_is_live(p) == 1)
            self.ensure(label + ": capacity is that of its allocation", self.lib.l.vf_size_of(p) >= cap)
            self.owned.add(p)
    def isnull(self, p): return p == 0
    def rdmem(self, a, n):
        if not self.lib.l.vf_inside(a, n): self.ensure("object inside live memory", False); raise CFail()
        return rd(a, n)
    def block(self, p, n, T, name="blk"):
        if not p: return None
        if n > (1 << 24) or not self.lib.l.vf_inside(p, n * T.size):
            if n: self.ensure("block %s is inside live memory" % name, False); raise CFail()
        return CArr(self, name, p, n, T)
    def ghost(self, name): return self.lib.gen.value if name == "gen" else self.lib.counts[name].value
    def alive(self, A): return self.lib.l.vf_is_live(A.addr) != 0
    def same_region(self, p, A): return isinstance(p, int) and A.addr <= p <= A.addr + A.n * A.T.size
    def prove_false_ok(self, st): return True
    def describe(self):
        d = dict(self.inputs)
        for A in self.arrs: d[A.name] = A.show()
        return d

def attempt(lib, mod, con, seed, k, prefs, big):
    """one sample.  -> (ran, failed labels, inputs)"""
    sym.SYMBOLIC[0] = False
    lib.l.vf_reset()
    rng = random.Random("%s/%s/%d" % (seed, con.name, k))
    S.KMODE[0] = 0; lib.kmode.value = 0
    c = ConcCtx(lib, mod, con, rng, prefs, big)
    try: con.fn(c)
    except S.SpecSkip: pass
    except CFail: pass
    except Exception as e:
        if type(e).__name__ != "PathEnd": raise
    return c

def search(so, mod, con, seed=1, budget=10.0, maxn=100000, prefs=None, stop_first=True, big=True):
    """samples in a forked child; a crash, hang or failed clause is a failing input. -> dict(found, runs, sample, labels, inputs, how)"""
    t_end = time.time() + budget
    k0 = 0; total = dict(runs=0, tried=0, found=False)
    shm = mmap.mmap(-1, 4096)
    restarts = 0; patience = 0        # after a sample that took long: the index of it, run again with much more (CPU) time
    while True:
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                for s in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL): signal.signal(s, signal.SIG_DFL)
                import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                lib = Lib(so)
                runs = 0; k = k0; res = None
                if con.opt.get("race") and k == 0:
                    msg = lib.race(con.opt["race"], con.func)
                    if msg: res = dict(sample=-1, labels=["race"], inputs={"threads": "two threads call %s on one object" % con.func, "observed": msg}, case="", how="two threads on the real code: " + msg)
                while res is None and k < maxn and time.time() < t_end:
                    shm[0:16] = struct.pack("<QQ", k, runs)
                    signal.setitimer(signal.ITIMER_PROF, 45.0 if patience == k + 1 else 4.0)
                    c = attempt(lib, mod, con, seed, k, prefs, big and k % 4 == 3)
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    runs += c.ran
                    if c.failed:
                        res = dict(sample=k, labels=c.failed[:8], inputs=c.describe(), case=c.case_name, how="clause violated"); break
                    k += 1
                os.write(wfd, json.dumps(dict(runs=runs, k=k, res=res)).encode()); os._exit(0)
            except BaseException as e:
                os.write(wfd, json.dumps(dict(error=repr(e) + traceback.format_exc()[-800:])).encode()); os._exit(3)
        os.close(wfd)
        data = b""
        while True:
            b = os.read(rfd, 65536)
            if not b: break
            data += b
        os.close(rfd)
        _, stt = os.waitpid(pid, 0)
        if data:
            d = json.loads(data)
            if "error" in d: total["error"] = d["error"]; return total
            total["runs"] += d["runs"]; total["tried"] = d["k"]
            if d["res"]: total.update(found=True, **d["res"])
            return total
        k, runs = struct.unpack("<QQ", shm[0:16])
        total["runs"] += runs + 1; total["tried"] = k
        sig = os.WTERMSIG(stt) if os.WIFSIGNALED(stt) else None
        if sig == signal.SIGPROF and patience != k + 1:
            k0 = k; patience = k + 1; continue
        d = describe_only(so, mod, con, seed, k, prefs, big and k % 4 == 3)
        if sig == signal.SIGKILL or (d is None):
            k0 = k + 1; restarts += 1
            if restarts > 3: return total
            continue
        total.update(found=True, sample=k, labels=["does not terminate" if sig == signal.SIGPROF else "crash: signal %s" % sig], inputs=d, how="hang" if sig == signal.SIGPROF else "crash", case="")
        return total

def constants(mod, fname, depth=4):
    """integer literals compared against or added in the code reachable from the function"""
    out = set(); seen = set(); work = [(fname, 0)]
    while work:
        n, d = work.pop()
        if n in seen: continue
        seen.add(n)
        f = mod.func(n)
        if f is None or f.decl: continue
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "icmp":
                    for o in i.a[2:]:
                        if o.k == "int" and i.a[1].w > 1: out.add(o.v)
                elif i.op in ("and", "add", "sub", "urem", "udiv", "lshr", "shl", "mul", "or", "xor"):
                    for o in i.a[:2]:
                        if o.k == "int" and abs(o.v) < 1 << 20: out.add(abs(o.v))
                elif i.op == "switch":
                    for v, l in i.a[2]: out.add(v)
                if i.op in ("call", "invoke") and d < depth:
                    cal = i.a[0]
                    if cal.k == "glob": work.append((cal.v, d + 1))
    return sorted(out)
class _Stop(Exception): pass
def describe_only(so, mod, con, seed, k, prefs, big):
    """inputs of sample k, in a child, without calling the library"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            lib = Lib(so); sym.SYMBOLIC[0] = False; lib.l.vf_reset()
            rng = random.Random("%s/%s/%d" % (seed, con.name, k)); S.KMODE[0] = 0
            c = ConcCtx(lib, mod, con, rng, prefs, big)
            def stop(*a, **kw):
                os.write(wfd, json.dumps(c.describe()).encode()); os._exit(0)
            c.run = stop
            con.fn(c); os._exit(2)
        except BaseException: os._exit(3)
    os.close(wfd); data = b""
    while True:
        b = os.read(rfd, 65536)
        if not b: break
        data += b
    os.close(rfd); os.waitpid(pid, 0)
    return json.loads(data) if data else None
