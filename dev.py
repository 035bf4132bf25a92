"""developer driver: python3-vt dev.py GROUP [contract ...]"""
import multiprocessing as mp, sys, os, time, importlib, glob
sys.path.insert(0, "/verif")
from vf import build, spec as S, verify as V
from concurrent.futures import ProcessPoolExecutor
for f in sorted(glob.glob("/verif/contracts/c*.py")): importlib.import_module("contracts." + os.path.basename(f)[:-3])
from vf import callees
def one(a):
    link, n, dbg = a
    mod = build.load(link)
    r = V.verify(mod, S.CONTRACTS[n], callees.table(S.CONTRACTS[n].group), debug=dbg)
    for f in r.failures: f.text = str(f); f.st = None; f.named = None; f.goal_s = str(f.goal)[:600]; f.goal = None
    return r
if __name__ == "__main__":
    g = sys.argv[1]
    names = [a for a in sys.argv[2:] if not a.startswith("-")]
    work = "/tmp/vfdev/" + g
    t = time.time()
    link = os.path.join(work, g + ".linked.ll")
    if "-n" not in sys.argv: link = build.build_ir(g, work, )
    print("build", round(time.time() - t, 1))
    sel = [n for n, c in S.CONTRACTS.items() if c.group == g and not c.opt.get("bounded") and (not names or any(n == x or (x.endswith("*") and n.startswith(x[:-1])) or (x.startswith("*") and n.endswith(x[1:])) or c.prop == x for x in names))]
    if not sel: sys.exit("no such contract")
    dbg = "-d" in sys.argv
    build.load(link)
    it = map(one, [(link, n, True) for n in sel]) if dbg else mp.get_context('fork').Pool(8, maxtasksperchild=1).imap(one, [(link, n, False) for n in sel], 1)
    tot = 0
    for r in it:
        st = "OK " if r.ok else "ERR" if r.error else "BAD"
        print("%s %-28s %5.1fs solver %5.1fs paths %d cases %d obl %d" % (st, r.name, r.t, r.solver, r.paths, r.cases, sum(r.obl.values())), r.nonterm or "", r.error or "", r.vac or "")
        for f in r.failures[:12]: print("     ", f.case, f.text[:230]); dbg and print("         ", f.goal_s)
        if "-v" in sys.argv:
            for l in r.loops: print("    loop", l["loop"], l["rounds"], l["affine"], l["mods"]); print("       ", [x for x in l["invariants"]])
    print("total", round(time.time() - t, 1))
