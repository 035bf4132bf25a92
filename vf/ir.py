"""Parser for the textual LLVM IR (opaque pointers) that clang/opt 18 print.

Only the subset produced by the fixed pass pipeline in build.py is accepted;
anything unknown raises IRError when it is *executed*, never silently skipped.
"""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "name", "fs")
    def __init__(self, k, w=0, n=0, el=None, name=None, fs=None):
        self.k, self.w, self.n, self.el, self.name, self.fs = k, w, n, el, name, fs
    def __repr__(self):
        if self.k == "int": return "i%d" % self.w
        if self.k == "arr": return "[%d x %r]" % (self.n, self.el)
        if self.k == "named": return "%%%s" % self.name
        if self.k == "struct": return "{%s}" % ",".join(map(repr, self.fs))
        return self.k
VOID, PTR, FLOAT, DOUBLE = Ty("void"), Ty("ptr"), Ty("float"), Ty("double")
LABEL, META, X80 = Ty("label"), Ty("metadata"), Ty("x86_fp80")
_ints = {}
def IntTy(w):
    if w not in _ints: _ints[w] = Ty("int", w=w)
    return _ints[w]

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<var>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9\\]+|\{)?)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)
 | (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*:?)
 | (?P<attr>\#\d+)
 | (?P<p>\.\.\.|[=,(){}\[\]<>*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise IRError("tokenize: %r" % s[i:i+60])
        t = m.group(m.lastgroup)
        if m.lastgroup == "var" and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((m.lastgroup, t))
        i = m.end()
    return out

class Toks:
    __slots__ = ("t", "i")
    def __init__(self, t): self.t, self.i = t, 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i][1]; self.i += 1; return x
    def accept(self, s):
        if self.peek() == s and self.kind() != "str":
            self.i += 1; return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r at %r" % (s, [x[1] for x in self.t[max(0, self.i-8):self.i+8]]))
    def done(self): return self.i >= len(self.t)

# ---------------------------------------------------------------- operands
class Op:
    """k: 'reg' name | 'glob' name | 'int' value | 'null' | 'undef' | 'zero' |
       'agg' [ (ty,op) ] | 'cexpr' (opcode, ...) | 'str' bytes | 'fp' text | 'asm'"""
    __slots__ = ("k", "v", "ty")
    def __init__(self, k, v=None, ty=None): self.k, self.v, self.ty = k, v, ty
    def __repr__(self): return "%s:%s" % (self.k, self.v)

PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned",
    "signext", "zeroext", "inreg", "immarg", "nofree", "dead_on_unwind", "writable", "nest", "swiftself", "noext",
    "allocptr", "allocalign", "nocallback"}
PARAM_ATTRS_P = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "elementtype",
    "captures", "range", "nofpclass", "initializes", "allocsize", "memory"}

def skip_parens(t):
    t.expect("("); d = 1
    while d:
        x = t.next()
        if x == "(": d += 1
        elif x == ")": d -= 1

def parse_param_attrs(t):
    at = set()
    while True:
        p = t.peek()
        if p in PARAM_ATTRS: at.add(t.next())
        elif p in PARAM_ATTRS_P:
            at.add(t.next())
            if t.peek() == "(": skip_parens(t)
            else: t.next()
        else: return at

def parse_type(t):
    p = t.next()
    if p == "void": ty = VOID
    elif p == "ptr":
        ty = PTR
        if t.accept("addrspace"): skip_parens(t)
    elif re.fullmatch(r"i\d+", p): ty = IntTy(int(p[1:]))
    elif p == "float": ty = FLOAT
    elif p == "double": ty = DOUBLE
    elif p == "x86_fp80": ty = X80
    elif p == "label": ty = LABEL
    elif p == "metadata": ty = META
    elif p == "[":
        n = int(t.next()); t.expect("x"); el = parse_type(t); t.expect("]")
        ty = Ty("arr", n=n, el=el)
    elif p == "<":
        if t.peek() == "{":
            t.next(); fs = []
            while not t.accept("}"):
                fs.append(parse_type(t)); t.accept(",")
            t.expect(">"); ty = Ty("struct", fs=fs, name="packed")
        else:
            n = int(t.next()); t.expect("x"); el = parse_type(t); t.expect(">")
            ty = Ty("vec", n=n, el=el)
    elif p == "{":
        fs = []
        while not t.accept("}"):
            fs.append(parse_type(t)); t.accept(",")
        ty = Ty("struct", fs=fs)
    elif p[0] == "%": ty = Ty("named", name=p[1:])
    elif p == "...": ty = Ty("vararg")
    else: raise IRError("type? %r ... %r" % (p, [x[1] for x in t.t[t.i-5:t.i+6]]))
    # function types:  void (ptr, i64)
    while t.peek() == "(" and ty.k != "metadata":
        # only in call with explicit fn type; caller decides
        break
    return ty

CEXPR_BIN = {"add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr", "udiv", "sdiv"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "addrspacecast"}

def parse_val(t, ty):
    kind, p = t.kind(), t.next()
    if kind == "var": return Op("reg" if p[0] == "%" else "glob", p[1:], ty)
    if p == "null": return Op("null", None, ty)
    if p in ("undef", "poison"): return Op("undef", None, ty)
    if p == "zeroinitializer": return Op("zero", None, ty)
    if p == "true": return Op("int", 1, ty)
    if p == "false": return Op("int", 0, ty)
    if p == "none": return Op("undef", None, ty)
    if kind == "num":
        if ty.k in ("float", "double", "x86_fp80") or p.startswith("0x") or "." in p: return Op("fp", p, ty)
        return Op("int", int(p), ty)
    if kind == "str": 
        s = p[2:-1] if p[0] == "c" else p[1:-1]
        b, i = bytearray(), 0
        while i < len(s):
            if s[i] == "\\" and i + 2 < len(s) + 0 and re.fullmatch(r"[0-9A-Fa-f]{2}", s[i+1:i+3]):
                b.append(int(s[i+1:i+3], 16)); i += 3
            elif s[i] == "\\" : b.append(ord("\\")); i += 2
            else: b.append(ord(s[i])); i += 1
        return Op("str", bytes(b), ty)
    if p in ("[", "{", "<"):
        packed = False
        close = {"[": "]", "{": "}", "<": ">"}[p]
        if p == "<" and t.peek() == "{": t.next(); close = "}"; packed = True
        els = []
        while not t.accept(close):
            ety = parse_type(t); parse_param_attrs(t)
            els.append((ety, parse_val(t, ety))); t.accept(",")
        if packed: t.expect(">")
        return Op("agg", els, ty)
    if p == "getelementptr":
        while t.peek() in ("inbounds", "inrange", "nuw", "nusw"):
            if t.next() == "inrange" and t.peek() == "(": skip_parens(t)
        t.expect("("); bty = parse_type(t); t.expect(",")
        args = []
        while not t.accept(")"):
            if t.peek() == "inrange":
                t.next()
                if t.peek() == "(": skip_parens(t)
            ety = parse_type(t); args.append((ety, parse_val(t, ety))); t.accept(",")
        return Op("cexpr", ("gep", bty, args), ty)
    if p in CASTS:
        t.expect("("); sty = parse_type(t); v = parse_val(t, sty); t.expect("to"); dty = parse_type(t); t.expect(")")
        return Op("cexpr", ("cast", p, sty, v, dty), ty)
    if p in CEXPR_BIN:
        while t.peek() in ("nsw", "nuw", "exact"): t.next()
        t.expect("("); aty = parse_type(t); a = parse_val(t, aty); t.expect(","); bty = parse_type(t); b = parse_val(t, bty); t.expect(")")
        return Op("cexpr", ("bin", p, aty, a, b), ty)
    if p == "asm":
        fl = []
        while t.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"): fl.append(t.next())
        txt = parse_val(t, None).v.decode("latin1"); t.expect(","); cons = parse_val(t, None).v.decode("latin1")
        return Op("asm", (txt, cons), ty)
    if p == "dso_local_equivalent" or p == "no_cfi": return parse_val(t, ty)
    raise IRError("value? %r" % ([p] + [x[1] for x in t.t[t.i:t.i+8]]))

# ---------------------------------------------------------------- instructions
class Inst:
    __slots__ = ("op", "res", "ty", "a", "line", "txt")
    def __init__(self, op, res, ty, a, txt):
        self.op, self.res, self.ty, self.a, self.txt, self.line = op, res, ty, a, txt, None

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CCS = {"ccc", "fastcc", "coldcc", "x86_stdcallcc"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}

def parse_call_tail(t, op):
    while t.peek() in CCS or t.peek() in FMF: t.next()
    parse_param_attrs(t)
    rty = parse_type(t)
    if t.peek() == "(":      # explicit function type
        skip_parens(t)
    callee = parse_val(t, PTR)
    t.expect("("); args = []
    while not t.accept(")"):
        ety = parse_type(t)
        if ety.k == "metadata":
            d = 0
            while not (d == 0 and t.peek() in (",", ")")):
                x = t.next()
                if x in ("(", "{", "!{"): d += 1
                if x in (")", "}"): d -= 1
            args.append((ety, None))
        else:
            parse_param_attrs(t)
            args.append((ety, parse_val(t, ety)))
        t.accept(",")
    return rty, callee, args

def parse_inst(line):
    dbg = None
    m = re.search(r"!dbg !(\d+)", line)
    if m: dbg = int(m.group(1))
    t = Toks(tokenize(line))
    res = None
    if t.kind() == "var" and t.peek(1) == "=":
        res = t.next()[1:]; t.next()
    op = t.next()
    if op in ("tail", "musttail", "notail"): op = t.next()
    ty, a = None, None
    if op in BIN:
        fl = set()
        while t.peek() in ("nsw", "nuw", "exact", "disjoint") or t.peek() in FMF: fl.add(t.next())
        ty = parse_type(t); x = parse_val(t, ty); t.expect(","); y = parse_val(t, ty); a = (x, y, fl)
    elif op == "fneg":
        while t.peek() in FMF: t.next()
        ty = parse_type(t); a = (parse_val(t, ty),)
    elif op in ("icmp", "fcmp"):
        while t.peek() in FMF or t.peek() == "samesign": t.next()
        pred = t.next(); oty = parse_type(t); x = parse_val(t, oty); t.expect(","); y = parse_val(t, oty)
        ty = IntTy(1); a = (pred, oty, x, y)
    elif op == "load":
        t.accept("volatile"); t.accept("atomic")
        t.accept("volatile")
        ty = parse_type(t); t.expect(","); parse_type(t); p = parse_val(t, PTR)
        al = 1
        while not t.done():
            if t.next() == "align" : al = int(t.next()); break
        a = (p, al)
    elif op == "store":
        t.accept("atomic"); t.accept("volatile")
        vty = parse_type(t); v = parse_val(t, vty); t.expect(","); parse_type(t); p = parse_val(t, PTR); ty = vty
        al = 1
        while not t.done():
            if t.next() == "align" : al = int(t.next()); break
        a = (v, p, al)
    elif op == "getelementptr":
        fl = False
        while t.peek() in ("inbounds", "nuw", "nusw"): t.next(); fl = True
        bty = parse_type(t); t.expect(","); parse_type(t); base = parse_val(t, PTR); idx = []
        while t.accept(","):
            if t.kind() == "meta": break
            ity = parse_type(t); idx.append((ity, parse_val(t, ity)))
        ty = PTR; a = (bty, base, idx, fl)
    elif op in CASTS:
        while t.peek() in ("nneg", "nuw", "nsw"): t.next()
        sty = parse_type(t); v = parse_val(t, sty); t.expect("to"); ty = parse_type(t); a = (sty, v)
    elif op == "freeze":
        ty = parse_type(t); a = (parse_val(t, ty),)
    elif op == "select":
        while t.peek() in FMF: t.next()
        cty = parse_type(t); c = parse_val(t, cty); t.expect(","); ty = parse_type(t); x = parse_val(t, ty)
        t.expect(","); parse_type(t); y = parse_val(t, ty); a = (c, x, y)
    elif op == "phi":
        while t.peek() in FMF: t.next()
        ty = parse_type(t); inc = []
        while t.accept("["):
            v = parse_val(t, ty); t.expect(","); lb = t.next()[1:]; t.expect("]"); inc.append((v, lb))
            if not t.accept(","): break
            if t.kind() == "meta": break
        a = inc
    elif op == "br":
        ty0 = parse_type(t)
        if ty0.k == "label": a = (None, t.next()[1:], None)
        else:
            c = parse_val(t, ty0); t.expect(","); t.expect("label"); l1 = t.next()[1:]; t.expect(","); t.expect("label"); l2 = t.next()[1:]
            a = (c, l1, l2)
    elif op == "switch":
        ty0 = parse_type(t); v = parse_val(t, ty0); t.expect(","); t.expect("label"); d = t.next()[1:]; t.expect("[")
        cs = []
        while not t.accept("]"):
            cty = parse_type(t); cv = parse_val(t, cty); t.expect(","); t.expect("label"); cs.append((cv.v, t.next()[1:]))
        a = (v, d, cs); ty = ty0
    elif op == "ret":
        ty = parse_type(t); a = None if ty.k == "void" else parse_val(t, ty)
    elif op == "unreachable": pass
    elif op == "resume":
        ty = parse_type(t); a = parse_val(t, ty)
    elif op in ("call", "invoke"):
        rty, callee, args = parse_call_tail(t, op)
        ty = rty; nl = ul = None
        if op == "invoke":
            while t.peek() != "to": t.next()
            t.next(); t.expect("label"); nl = t.next()[1:]; t.expect("unwind"); t.expect("label"); ul = t.next()[1:]
        a = (callee, args, nl, ul)
    elif op == "landingpad":
        ty = parse_type(t); cl = []
        cleanup = t.accept("cleanup")
        while t.peek() in ("catch", "filter"):
            k = t.next(); cty = parse_type(t); cl.append((k, parse_val(t, cty)))
        a = (cleanup, cl)
    elif op == "extractvalue":
        aty = parse_type(t); v = parse_val(t, aty); ix = []
        while t.accept(","):
            if t.kind() == "meta": break
            ix.append(int(t.next()))
        a = (aty, v, ix)
    elif op == "insertvalue":
        aty = parse_type(t); v = parse_val(t, aty); t.expect(","); ety = parse_type(t); e = parse_val(t, ety); ix = []
        while t.accept(","):
            if t.kind() == "meta": break
            ix.append(int(t.next()))
        ty = aty; a = (v, e, ix)
    elif op == "alloca":
        t.accept("inalloca")
        ty = parse_type(t); n = None
        al = 1
        while t.accept(","):
            if t.peek() == "align": t.next(); al = int(t.next())
            elif t.kind() == "meta": break
            else:
                nty = parse_type(t); n = parse_val(t, nty)
        a = (n, al)
    elif op == "atomicrmw":
        t.accept("volatile"); k = t.next(); parse_type(t); p = parse_val(t, PTR); t.expect(","); ty = parse_type(t); v = parse_val(t, ty)
        a = (k, p, v, t.next())
    elif op == "cmpxchg":
        t.accept("weak"); t.accept("volatile"); parse_type(t); p = parse_val(t, PTR); t.expect(","); ety = parse_type(t); x = parse_val(t, ety); t.expect(","); parse_type(t); v = parse_val(t, ety)
        a = (p, x, v, t.next(), ety)
    elif op in ("extractelement", "insertelement", "shufflevector", "fence", "va_arg"):
        a = line
    else:
        raise IRError("inst? %s" % line)
    i = Inst(op, res, ty, a, line.strip().split(", !dbg")[0])
    i.line = dbg
    return i

class Block:
    __slots__ = ("name", "ins", "phis")
    def __init__(self, name): self.name, self.ins, self.phis = name, [], []

class Func:
    def __init__(self, name): self.name = name; self.params = []; self.ret = None; self.blocks = {}; self.order = []; self.entry = None; self.attrs = ""; self.decl = True; self.raw = []; self.parsed = False; self.loops = None; self.retattrs = set()

class Global:
    __slots__ = ("name", "ty", "init", "const")

class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.aliases = {}, {}, {}, {}
        self.dbg = {}; self.attrg = {}
        self._parse(text)
        self._sz = {}

    def _parse(self, text):
        lines = text.split("\n"); i = 0; n = len(lines)
        while i < n:
            l = lines[i]; i += 1
            if not l or l[0] == ";": continue
            if l.startswith("define"):
                f = self._header(l, True); body = []
                while lines[i] != "}": body.append(lines[i]); i += 1
                i += 1
                f.raw = body; f.decl = False
                self.funcs[f.name] = f
            elif l.startswith("declare"):
                f = self._header(l, False)
                if f.name not in self.funcs: self.funcs[f.name] = f
            elif l[0] == "%":
                m = re.match(r'%("(?:[^"]*)"|\S+) = type (.*)$', l)
                nm = m.group(1).strip('"')
                if m.group(2).strip() == "opaque": self.types[nm] = None
                else: self.types[nm] = parse_type(Toks(tokenize(m.group(2))))
            elif l[0] == "@": self._global(l)
            elif l[0] == "!":
                m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+), column: (\d+), scope: !(\d+)(?:, inlinedAt: !(\d+))?", l)
                if m: self.dbg[int(m.group(1))] = ("loc", int(m.group(2)), int(m.group(4)), int(m.group(5)) if m.group(5) else None); continue
                m = re.match(r"!(\d+) = distinct !DISubprogram\(name: \"([^\"]*)\".*?file: !(\d+)", l)
                if m: self.dbg[int(m.group(1))] = ("sp", m.group(2), int(m.group(3))); continue
                m = re.match(r"!(\d+) = !DIFile\(filename: \"([^\"]*)\"", l)
                if m: self.dbg[int(m.group(1))] = ("file", m.group(2)); continue
                m = re.match(r"!(\d+) = (?:distinct )?!DILexicalBlock.*?scope: !(\d+)", l)
                if m: self.dbg[int(m.group(1))] = ("lb", int(m.group(2)))
            elif l.startswith("attributes #"):
                m = re.match(r"attributes #(\d+) = \{(.*)\}", l); self.attrg[m.group(1)] = m.group(2)

    def _header(self, l, define):
        m = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', l)
        f = Func(m.group(1).strip('"'))
        pre = re.sub(r"!dbg !\d+", "", l[:m.start()])
        ptoks = tokenize(pre.replace("define", "", 1) if define else pre.replace("declare", "", 1))
        # return type: last type in prefix
        t = Toks(ptoks)
        skipw = {"dso_local", "linkonce_odr", "weak", "weak_odr", "internal", "private", "available_externally", "external", "hidden", "protected",
                 "default", "unnamed_addr", "local_unnamed_addr", "extern_weak", "common", "linkonce"} | CCS
        while t.peek() in skipw: t.next()
        f.retattrs = parse_param_attrs(t)
        f.ret = parse_type(t)
        # params
        rest = l[m.end()-1:]
        t = Toks(tokenize(rest)); t.expect("(")
        f.vararg = False
        while not t.accept(")"):
            if t.peek() == "...": t.next(); f.vararg = True; continue
            ty = parse_type(t)
            at = set(); sret = None
            while True:
                p = t.peek()
                if p in ("sret", "byval"):
                    at.add(p); t.next(); t.expect("("); sret = parse_type(t); t.expect(")")
                elif p == "align": t.next(); t.next()
                elif p in PARAM_ATTRS: at.add(t.next())
                elif p in PARAM_ATTRS_P:
                    at.add(t.next())
                    if t.peek() == "(": skip_parens(t)
                    else: t.next()
                else: break
            nm = None
            if t.kind() == "var": nm = t.next()[1:]
            f.params.append((ty, nm, at, sret)); t.accept(",")
        f.attrs = " ".join(x[1] for x in t.t[t.i:] if x[1] not in ("{",))
        return f

    def _global(self, l):
        m = re.match(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        m2 = re.search(r"\balias\b (.*)$", rest)
        if m2:
            t = Toks(tokenize(m2.group(1))); ty = parse_type(t)
            if t.peek() == "(": skip_parens(t)
            t.expect(","); parse_type(t); self.aliases[name] = parse_val(t, PTR); return
        m2 = re.search(r"\b(global|constant)\b (.*)$", rest)
        if not m2: return
        g = Global(); g.name = name; g.const = m2.group(1) == "constant"
        ext = re.match(r"(external|extern_weak)\b", rest)
        t = Toks(tokenize(m2.group(2))); g.ty = parse_type(t); g.init = None
        if not ext: g.init = parse_val(t, g.ty)
        self.globals[name] = g

    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            tgt = self.aliases[name]
            if tgt.k == "glob": return self.func(tgt.v)
        if f is None: return None
        if not f.decl and not f.parsed: self._body(f)
        return f

    def _body(self, f):
        f.parsed = True
        # unnamed params are numbered
        num = 0; ps = []
        for (ty, nm, at, sr) in f.params:
            if nm is None: nm = str(num); 
            if nm.isdigit(): num = int(nm) + 1
            ps.append((ty, nm, at, sr))
        f.params = ps
        cur = None; buf = None
        for l in f.raw:
            s = l.split(" ; preds")[0] if " ; preds" in l else l
            st = s.strip()
            if not st or st[0] == ";": continue
            if buf is not None:
                buf += " " + st
                if buf.count("[") <= buf.count("]") and not self._needmore(buf): 
                    cur.ins.append(parse_inst(buf)); buf = None
                continue
            if l[0] not in " \t":
                m = re.match(r'("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', l)
                cur = Block(m.group(1).strip('"')); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
            if cur is None:
                cur = Block(str(num)); f.blocks[cur.name] = cur; f.order.append(cur.name)
            if re.match(r"\s*(%\S+ = )?(invoke|landingpad)\b", l) or (re.match(r"\s*switch\b", l) and "]" not in l):
                buf = st
                if re.match(r"switch\b", st): 
                    continue
                if self._needmore(buf): continue
                cur.ins.append(parse_inst(buf)); buf = None; continue
            if cur.ins and cur.ins[-1].op == "landingpad" and re.match(r"(cleanup|catch|filter)\b", st):
                old = cur.ins.pop(); cur.ins.append(parse_inst(old.txt + " " + st)); continue
            ins = parse_inst(st)
            cur.ins.append(ins)
        for b in f.blocks.values():
            k = 0
            while k < len(b.ins) and b.ins[k].op == "phi": k += 1
            b.phis, b.ins = b.ins[:k], b.ins[k:]
        f.entry = f.order[0]
        f.raw = None

    def _needmore(self, buf):
        if re.match(r"(%\S+ = )?invoke\b", buf): return " unwind label" not in buf
        if buf.startswith("switch"): return "]" not in buf
        return False

    # ---- layout
    def size(self, ty):
        k = ty.k
        if k == "int": return 1 if ty.w <= 8 else (2 if ty.w <= 16 else 4 if ty.w <= 32 else 8 if ty.w <= 64 else 16)
        if k == "ptr": return 8
        if k == "float": return 4
        if k == "double": return 8
        if k == "x86_fp80": return 16
        if k == "arr": return ty.n * self.size(ty.el)
        if k == "vec": return ty.n * self.size(ty.el)
        if k == "named": return self.size(self.types[ty.name])
        if k == "struct": return self.layout(ty)[1]
        if k == "void": return 1
        raise IRError("size of %r" % ty)
    def align(self, ty):
        k = ty.k
        if k == "arr": return self.align(ty.el)
        if k == "named": return self.align(self.types[ty.name])
        if k == "struct": return 1 if ty.name == "packed" else max([1] + [self.align(x) for x in ty.fs])
        return self.size(ty)
    def layout(self, ty):
        if ty.k == "named": ty = self.types[ty.name]
        key = id(ty)
        r = self._sz.get(key)
        if r: return r
        off, offs, al = 0, [], 1
        for x in ty.fs:
            a = 1 if ty.name == "packed" else self.align(x)
            al = max(al, a); off = (off + a - 1) // a * a; offs.append(off); off += self.size(x)
        r = (offs, (off + al - 1) // al * al)
        self._sz[key] = r
        return r
    def resolve(self, ty):
        while ty.k == "named": ty = self.types[ty.name]
        return ty
    def leaves(self, ty, off=0):
        """flatten to [(offset, scalar type)]"""
        ty = self.resolve(ty)
        if ty.k == "struct":
            offs = self.layout(ty)[0]; out = []
            for o, f in zip(offs, ty.fs): out += self.leaves(f, off + o)
            return out
        if ty.k == "arr":
            s = self.size(ty.el); out = []
            for i in range(ty.n): out += self.leaves(ty.el, off + i * s)
            return out
        return [(off, ty)]

    def where(self, n):
        """source position chain for !dbg n"""
        out = []
        while n is not None and n in self.dbg:
            e = self.dbg[n]
            if e[0] != "loc": break
            sc = e[2]
            while sc in self.dbg and self.dbg[sc][0] == "lb": sc = self.dbg[sc][1]
            sp = self.dbg.get(sc)
            fn = fl = "?"
            if sp and sp[0] == "sp":
                fn = sp[1]; d = self.dbg.get(sp[2]); fl = d[1].split("/")[-1] if d else "?"
            out.append("%s:%d(%s)" % (fl, e[1], fn)); n = e[3]
        return " < ".join(out[:3]) if out else "?"

# ---------------------------------------------------------------- natural loops
class Loop:
    __slots__ = ("header", "blocks", "latches")

def find_loops(f):
    if f.loops is not None: return f.loops
    succ = {}
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == "br": s = [x for x in (t.a[1], t.a[2]) if x]
        elif t.op == "switch": s = [t.a[1]] + [c[1] for c in t.a[2]]
        elif t.op == "invoke": s = [t.a[2], t.a[3]]
        else: s = []
        succ[b.name] = s
    # dominators (simple iterative)
    names = f.order
    reach, st = set(), [f.entry]
    while st:
        x = st.pop()
        if x in reach: continue
        reach.add(x); st += succ[x]
    pred = {n: [] for n in reach}
    for n in reach:
        for s in succ[n]: pred[s].append(n)
    dom = {n: set(reach) for n in reach}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for n in names:
            if n not in reach or n == f.entry: continue
            ps = [dom[p] for p in pred[n]]
            d = set.intersection(*ps) | {n} if ps else {n}
            if d != dom[n]: dom[n] = d; ch = True
    loops = {}
    for n in reach:
        for s in succ[n]:
            if s in dom[n]:
                L = loops.get(s)
                if not L:
                    L = Loop(); L.header = s; L.blocks = {s}; L.latches = set(); loops[s] = L
                L.latches.add(n)
                w = [n]
                while w:
                    x = w.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); w += pred[x]
    # irreducible check: any back edge by DFS that is not a dominator back edge
    color = {}
    def dfs(root):
        stack = [(root, iter(succ[root]))]; color[root] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color.get(v, 0) == 0:
                    color[v] = 1; stack.append((v, iter(succ[v]))); break
                if color[v] == 1 and v not in dom[u]: raise IRError("irreducible loop in " + f.name)
            else:
                color[u] = 2; stack.pop()
    dfs(f.entry)
    f.loops = loops
    return loops
