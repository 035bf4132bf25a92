"""One run of one property: extract, verify every contract, replay failures on the compiled library, write evidence."""
import os, sys, time, json, shutil, tempfile, importlib, glob, traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from . import build, spec as S, verify as V, conc, sym
from .sym import VError
HERE = build.HERE

def load_contracts():
    for f in sorted(glob.glob(HERE + "/contracts/c*.py")): importlib.import_module("contracts." + os.path.basename(f)[:-3])
def table(group):
    from . import callees
    return callees.table(group)

_mods = {}
def mod_of(link):
    if link not in _mods: _mods[link] = build.load(link)
    return _mods[link]
def strip(r):
    for f in r.failures:
        f.text = str(f); f.goal_s = str(f.goal)[:1500]; f.named_s = ""; f.st = None; f.goal = None; f.named = None
    return r
def verify_one(a):
    link, name, budget, timeout, retry = a
    sym.RETRY[0] = retry
    return strip(V.verify(mod_of(link), S.CONTRACTS[name], table(S.CONTRACTS[name].group), budget=budget, timeout=timeout))
def conc_one(a):
    so, link, name, seed, budget, prefs, maxn = a
    try:
        m = mod_of(link)
        p = dict(prefs); p["#consts"] = conc.constants(m, S.CONTRACTS[name].func)
        return name, conc.search(so, m, S.CONTRACTS[name], seed=seed, budget=budget, prefs=p, maxn=maxn)
    except Exception as e: return name, dict(found=False, runs=0, error=repr(e) + traceback.format_exc()[-500:])

def Pool(n):
    """a fresh process per job: the solver's state does not depend on what ran before"""
    return mp.get_context("fork").Pool(n, maxtasksperchild=1)
def known():
    try: return json.load(open(HERE + "/known_findings.json"))["findings"]
    except FileNotFoundError: return []

TRUSTED = ["clang-18 front end and LLVM 18 passes sroa, inline, early-cse, simplifycfg, loop-simplify (extraction of the real sources to IR)",
 "vf/ (IR semantics, memory model, verification-condition generator, loop-invariant checker)", "z3 5.3 (back end of every obligation)"]

def main(prop, tier, seed):
    t0 = time.time()
    load_contracts()
    cons = [c for c in S.CONTRACTS.values() if c.prop == prop]
    if not cons: print("no contracts for", prop); return 2
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=os.environ.get("VF_TMP") or None)
    try: return run(prop, tier, seed, cons, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, cons, work, t0):
    thorough = tier == "thorough"
    groups = sorted({c.group for c in cons})
    links = {}
    for g in groups:
        try: links[g] = build.build_ir(g, os.path.join(work, g))
        except VError as e:
            print("extraction failed:", e); return 2
    budget, timeout = (600, 30000) if thorough else (200, 8000)
    jobs = [(links[c.group], c.name, budget, timeout, 0) for c in cons if not c.opt.get("bounded")]
    for g in groups: mod_of(links[g])
    jobs.sort(key=lambda j: -S.CONTRACTS[j[1]].opt.get("cost", 1))
    nw = int(os.environ.get("VF_JOBS", "8"))
    results = {}
    for c in cons:
        if c.opt.get("bounded"): results[c.name] = V.Result(); results[c.name].name = c.name
    with Pool(nw) as p:
        for r in p.imap_unordered(verify_one, jobs): results[r.name] = r
        # obligations lost to a solver timeout get a second, longer attempt before they count
        again = [j for j in jobs if not results[j[1]].ok and not S.CONTRACTS[j[1]].opt.get("bounded")]
        if again and len(again) <= 24 and time.time() - t0 < 240:
            for r in p.imap_unordered(verify_one, [(l, n, b, t * 3, 1) for l, n, b, t, k in again]): results[r.name] = r
    bad = [n for n, r in results.items() if r.failures or r.vac]
    err = [n for n, r in results.items() if r.error and not r.failures]
    bounded = [c.name for c in cons if c.opt.get("bounded")]
    # ---- replay on the compiled library
    sos = {}
    def native(g):
        if g not in sos: sos[g] = build.build_native(g, os.path.join(work, "n"))
        return sos[g]
    replays = {}
    todo = sorted(set(bad + err + bounded))
    nat_err = None
    conf = [c.name for c in cons if c.name not in todo and not c.opt.get("noreplay")] if thorough else []
    if todo or conf:
        try:
            for g in {S.CONTRACTS[n].group for n in todo + conf}: native(g)
        except VError as e: nat_err = str(e); print("native build failed:", e)
    if not nat_err and (todo or conf):
        left = max(30, (780 if not thorough else 3000) - (time.time() - t0))
        per = min(60.0 if len(todo) - len(bounded) < 8 else 25.0, left * nw / max(1, len(todo)) * 0.8) if todo else 0
        jj = []
        for n in todo:
            pf = {}
            for f in results[n].failures:
                for k, v in (getattr(f, "model", None) or {}).items(): pf.setdefault(k, []).append(v)
            jj.append((sos[S.CONTRACTS[n].group], links[S.CONTRACTS[n].group], n, seed, per if n not in bounded else (40.0 if thorough else S.CONTRACTS[n].opt.get("sample_s", 4.0)), pf, 1 << 30))
        for n in conf: jj.append((sos[S.CONTRACTS[n].group], links[S.CONTRACTS[n].group], n, seed, 10.0, {}, 1 << 30))
        with ProcessPoolExecutor(nw, mp_context=mp.get_context("fork")) as p:
            for n, d in p.map(conc_one, [j for j in jj if not S.CONTRACTS[j[2]].opt.get("noreplay")]): replays[n] = d
    # ---- verdict
    violations = []; known_hit = []; notes = []
    kf = [k for k in known() if k.get("property") == prop and not k.get("fixed")]
    for n in sorted(results):
        r = results[n]; d = replays.get(n)
        if n in bad or n in bounded or n in err or (d and d.get("found")):
            found = bool(d and d.get("found"))
            if r.vac and not r.failures and not found:
                notes.append("%s: vacuous (%s)" % (n, "; ".join(r.vac)))
                violations.append((n, r, d, False)); continue
            if n in err and n not in bounded and not found:
                notes.append("%s: outside the verifier's reach on this tree (%s); bounded replay, %d executions, no failure" % (n, r.error, (d or {}).get("runs", 0))); continue
            if n in bounded and not found: continue
            if not r.failures and not found: continue
            k = next((k for k in kf if k["contract"] == n and set(f.info for f in r.failures) <= set(k["obligations"]) and (not found or set(d["labels"]) <= set(k["obligations"]))), None)
            if k: known_hit.append((n, k)); continue
            violations.append((n, r, d, found))
    lines = []
    rdir = HERE + "/replays"
    for n, k in known_hit: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    violations.sort(key=lambda v: not v[3])
    for n, r, d, found in violations:
        os.makedirs(rdir, exist_ok=True)
        path = "%s/%s_%s.json" % (rdir, prop, n)
        c = S.CONTRACTS[n]
        rec = dict(property=prop, contract=n, function=c.func, group=c.group,
            failed_obligations=[dict(kind=f.kind, what=f.info, where=f.where, case=getattr(f, "case", ""), solver_model=getattr(f, "model", None), goal=f.goal_s) for f in r.failures[:20]],
            vacuity=r.vac, verifier_error=r.error,
            replay=d and {k: d.get(k) for k in ("found", "how", "sample", "labels", "case", "inputs", "runs", "error")}, seed=seed,
            rerun="python3-vt /verif/replay.py %s" % path)
        json.dump(rec, open(path, "w"), indent=1, default=str)
        for f in r.failures[:4]: print("  obligation failed: %s / %s: %s [%s]" % (n, f.kind, f.info, f.where[:200]))
        if found: print("  failing input for %s%s: %s -> %s" % (n, d.get("case", ""), json.dumps(d["inputs"])[:400], d["labels"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
    # ---- evidence
    obl = sum(sum(r.obl.values()) for n, r in results.items() if n not in bounded)
    dis = sum(sum(r.how.values()) for n, r in results.items() if n not in bounded)
    how = {}
    kinds = {}
    for n, r in results.items():
        for k, v in r.how.items(): how[k] = how.get(k, 0) + v
        for k, v in r.obl.items(): kinds[k] = kinds.get(k, 0) + v
    ext = sorted(set().union(*[r.ext for r in results.values()])) if results else []
    used = sorted(set().union(*[r.used for r in results.values()])) if results else []
    inl = sorted(set().union(*[r.inlined for r in results.values()])) if results else []
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=len(violations),
        coverage=dict(obligations=obl, discharged=dis,
            checker_cmd="python3-vt /verif/check.py %s --tier %s" % (prop, tier), trusted_base=TRUSTED + ["model of external function " + e for e in ext],
            functions_under_contract=[dict(function=S.CONTRACTS[n].func, contract=n, obligations=sum(results[n].obl.values()), discharged=sum(results[n].how.values()), paths=results[n].paths, cases=results[n].cases, solver_s=round(results[n].solver, 2),
                loops=len(results[n].loops), terminating_loops=results[n].term, status="bounded" if n in bounded else "proved" if results[n].ok else "not proved") for n in sorted(results)],
            obligation_kinds=kinds, back_ends=how, solver_seconds=round(sum(r.solver for r in results.values()), 2),
            callee_contracts_used=used, library_functions_verified_in_place=inl,
            bounded_only=[dict(contract=n, executions=replays.get(n, {}).get("runs", 0), bound="sampled inputs, sizes up to ~1500 elements") for n in bounded],
            outside_reach_on_this_tree=notes,
            replays={n: dict(executions=d.get("runs", 0), found=d.get("found", False), error=d.get("error")) for n, d in replays.items()},
            loops_without_proved_variant=sorted({x for r in results.values() for x in r.nonterm}),
            samples=[l for r in list(results.values())[:3] for l in r.log[:8]]),
        assumptions=assumptions(prop))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1, default=str)
    for n in notes: print("note:", n)
    print("%s %s: %d contracts, %d/%d obligations, %.1fs wall, %.1fs solver%s" % (prop, tier, len(results), dis, obl, time.time() - t0, sum(r.solver for r in results.values()), ", replayed %d" % len(replays) if replays else ""))
    return 1 if violations else 0

def assumptions(prop):
    a = ["memory blocks are smaller than 2^46 bytes and addresses below 2^47", "element operations (<, ==, predicates, functors) are pure total functions of the element values; < is a strict weak order",
         "inputs do not alias each other unless a contract says so"]
    try: a += json.load(open(HERE + "/contracts/assumptions.json")).get(prop, [])
    except FileNotFoundError: pass
    return a
