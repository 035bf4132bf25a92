"""Shared descriptions of the library's memory blocks (cmemlink, memlink, memblock, string, vector)."""
from vf.spec import *
VT = dict(cl="_ZTVN4ustl8cmemlinkE", ml="_ZTVN4ustl7memlinkE", mb="_ZTVN4ustl8memblockE", str="_ZTVN4ustl6stringE")

class Blk:
    """a block object `m` in an arbitrary valid state:
    owned  - heap block of `cap` elements, the first n of which are the content
    linked - somebody else's n elements;  null - no data
    For strings a NUL follows the content (mfc == 1)."""
    def __init__(self, c, name, T=U8, cls="mb", kinds=("owned", "linked", "null"), mfc=0, hi=1 << 32, const=False, n=None, extra=(), size=None):
        self.c, self.name, self.T, self.cls, self.mfc = c, name, T, cls, mfc
        S = T.size
        self.kind = kinds[0] if len(kinds) == 1 else c.case(name, list(kinds))
        k = self.kind
        if k == "owned":
            self.cap = c.size(name + "_cap", lo=1, hi=hi)
            self.n = c.size(name + "_size", hi=self.cap - mfc) if n is None else n
            self.A = c.arr(name + "_data", n=self.cap, T=T, heap=True); d = self.A.b
        elif k == "linked":
            self.cap = 0; self.n = c.size(name + "_size", hi=hi) if n is None else n
            self.A = c.arr(name + "_data", n=self.n + mfc, T=T); d = self.A.b
        else:
            self.cap = 0; self.n = 0; self.A = None; d = c.null
        if mfc and self.A is not None:
            if c.sym: c.require(eq(self.A[self.n], 0))
            else: self.A.set(self.n, 0)
        if cls in ("ml", "cl") and k == "owned": raise VError("links own nothing")
        cells = [(0, 8, c.vtable(VT[cls])), (8, 8, d), (16, 8, self.n * S)]
        if cls not in ("ml", "cl"): cells.append((24, 8, self.cap * S))
        cells += extra
        self.o = c.obj(name, size or (24 if cls in ("ml", "cl") else 32), cells)
        if not const: self.mod()
    def mod(self):
        self.c.modifies(self.o)
        if self.kind == "owned": self.c.modifies(self.A)
    @property
    def p(self): return self.o.p
    def at(self, j): return self.A.at(j) if self.A is not None else self.c.null
    @property
    def b(self): return self.at(0)
    @property
    def e(self): return self.at(self.n)
    def old(self, j): return self.A.old(j) if self.A is not None else 0
    def old_f(self, j, f): return self.A.old(j, f) if self.A is not None else 0
    # ---- the state afterwards
    def post(self, n=None, val=None, label=None, cls=None, term=None, fields=None, cap_min=None, linked=None, sees=None):
        """the object is a valid block with n elements, element j being val(j)"""
        return check(self.c, self.o, self.T, self.name if label is None else label, n, val, cls or self.cls, self.mfc if term is None else term, fields, cap_min, linked)

def check(c, o, T, label, n, val, cls="mb", term=0, fields=None, cap_min=None, linked=None):
    """-> (pointer, Arr) ; obligations: size, capacity discipline, content, terminator"""
    S = T.size
    sz = c.fld(o, 16); p = c.ptr(o, 8)
    if n is not None: c.ensure("%s: size" % label, eq(sz, n * S))
    else: n = divc(sz, S)
    if cls in ("ml", "cl"): cap = 0
    else:
        cap = c.fld(o, 24)
        c.ensure("%s: size never exceeds a non-zero capacity" % label, Or(eq(cap, 0), sz + term <= cap))
        c.owner_ok(label, p, cap, S)
        if cap_min is not None: c.ensure("%s: capacity" % label, cap_min * S <= cap)
        if linked is not None: c.ensure("%s: linked" % label, Iff(eq(cap, 0), linked))
    if c.isnull(p):
        c.ensure("%s: content" % label, eq(n, 0)); return p, None
    B = c.block(p, n + term, T, label)
    if c.sym: c.ensure("%s: storage is valid" % label, Or(eq(n + term, 0), And(c.cur.mem[p.r.id].alive, 0 <= p.i, p.i + n + term <= p.r.n) if p.r.kind == "arr" else False))
    if val is not None:
        fs = range(len(T.fields)) if fields is None else fields
        if len(T.fields) == 1: c.ensure("%s: content" % label, forall(0, n, lambda j: eq(B[j], val(j))))
        else:
            for k in fs: c.ensure("%s: content (field %d)" % (label, k), forall(0, n, lambda j: eq(B.f(j, k), val(j, k))))
    if term: c.ensure("%s: terminated" % label, eq(B[n], 0))
    return p, B

def fresh_obj(c, name="m", size=32):
    o = c.obj(name, size); c.modifies(o)
    return o
def ins(old, ip, k, new):
    """sequence with k elements inserted at ip"""
    return lambda j: ite3(j < ip, lambda: old(j), lambda: ite3(j < ip + k, lambda: new(j - ip), lambda: old(j - k)))
def era(old, ep, k): return lambda j: ite3(j < ep, lambda: old(j), lambda: old(j + k))
def ite3(cnd, a, b):
    if SYMBOLIC[0] or isz(cnd): return ite(cnd, a(), b())
    return a() if cnd else b()
