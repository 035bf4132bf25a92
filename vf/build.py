"""Mechanical extraction: the library's sources (and the instantiation harness) -> LLVM IR -> one linked textual module;
and the same sources -> a native shared object for replay."""
import os, subprocess, glob, hashlib, re, shutil
from concurrent.futures import ThreadPoolExecutor
from .sym import VError
from . import ir

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin/"
INC = ["-I" + REPO, "-I/opt/vp/inc_" if False else "-I" + os.path.join(HERE, "harness")]
IRFLAGS = "-w -std=c++14 -ffp-contract=off -DNDEBUG=1 -fno-threadsafe-statics -O1 -Xclang -disable-llvm-passes -gline-tables-only -S -emit-llvm -fno-discard-value-names".split()
PASSES = "function(sroa),inline,function(sroa,tailcallelim,early-cse,simplifycfg,loop-simplify)"
NFLAGS = "-w -std=c++14 -DNDEBUG=1 -fno-threadsafe-statics -fno-enforce-eh-specs -fPIC -g1".split()

def sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise VError("%s failed:\n%s" % (what, p.stdout[-3000:]))

def incdir(work):
    """<ustl.h> style include path: work/inc/ustl -> REPO"""
    d = os.path.join(work, "inc"); os.makedirs(d, exist_ok=True)
    l = os.path.join(d, "ustl")
    if os.path.islink(l) and os.readlink(l) != REPO: os.unlink(l)
    if not os.path.islink(l): os.symlink(REPO, l)
    return d

def sources(): return sorted(glob.glob(REPO + "/*.cc"))

NOINLINE = set()
def to_ir(src, out, work, noinline=()):
    raw = out[:-3] + ".raw.ll"
    sh(["clang++-18"] + IRFLAGS + ["-I" + REPO, "-I" + incdir(work), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "harness", "fallback"), src, "-o", raw], "extraction of " + os.path.basename(src))
    if noinline:
        t = open(raw).read()
        def fix(m):
            return re.sub(r" (#\d+)", r" noinline \1", m.group(0), count=1) if m.group(1) in noinline else m.group(0)
        t = re.sub(r"^define [^\n]*@([\w.$]+)\([^\n]*\{", fix, t, flags=re.M)
        open(raw, "w").write(t)
    sh([LLVM + "opt", "-S", "-passes=" + PASSES, "-inline-threshold=10000", raw, "-o", out], "opt of " + os.path.basename(src))
    os.unlink(raw)
    return out

def build_ir(group, work, noinline=()):
    from . import callees, lib
    noinline = set(noinline) | set(callees.table(group)) | lib.NOINLINE
    os.makedirs(work, exist_ok=True); incdir(work)
    jobs = [(os.path.join(HERE, "harness", group + ".cc"), os.path.join(work, "h_%s.ll" % group))]
    for s in sources(): jobs.append((s, os.path.join(work, os.path.basename(s)[:-3] + ".ll")))
    with ThreadPoolExecutor(8) as p:
        outs = list(p.map(lambda j: to_ir(j[0], j[1], work, noinline), jobs))
    link = os.path.join(work, group + ".linked.ll")
    sh([LLVM + "llvm-link", "-S"] + outs + ["-o", link], "linking")
    return link

_loaded = {}
def load(link):
    if link not in _loaded or _loaded[link][0] != os.path.getmtime(link): _loaded[link] = (os.path.getmtime(link), ir.Module(open(link).read()))
    return _loaded[link][1]

def build_native(group, work, opt="-Os"):
    """shared object with the real code, harness and an instrumented allocator"""
    os.makedirs(work, exist_ok=True); incdir(work)
    objs = []
    jobs = [(s, os.path.join(work, os.path.basename(s)[:-3] + ".o")) for s in sources()]
    jobs.append((os.path.join(HERE, "harness", group + ".cc"), os.path.join(work, "nh_%s.o" % group)))
    jobs.append((os.path.join(HERE, "harness", "native.cc"), os.path.join(work, "nh_native.o")))
    def one(j):
        if os.path.exists(j[1]) and "h_" not in os.path.basename(j[1]): return j[1]
        cc = ["g++-12"]
        try: sh(cc + NFLAGS + [opt, "-DVF_NATIVE=1", "-I" + REPO, "-I" + incdir(work), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "harness", "fallback"), "-c", j[0], "-o", j[1]], "native build of " + os.path.basename(j[0]))
        except VError: sh(["clang++-18"] + [f for f in NFLAGS if f != "-fno-enforce-eh-specs"] + [opt, "-DVF_NATIVE=1", "-I" + REPO, "-I" + incdir(work), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "harness", "fallback"), "-c", j[0], "-o", j[1]], "native build of " + os.path.basename(j[0]))
        return j[1]
    with ThreadPoolExecutor(8) as p: objs = list(p.map(one, jobs))
    so = os.path.join(work, "n_%s.so" % group)
    sh(["g++-12", "-shared", "-o", so] + objs + ["-Wl,--wrap=malloc,--wrap=realloc,--wrap=free,--wrap=calloc,--wrap=backtrace_symbols", "-Wl,-Bsymbolic"], "native link")
    return so
