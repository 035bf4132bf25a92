#!/usr/bin/env python3-vt
"""re-run the recorded failing input of a replay file against the current /repo: replay.py FILE"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import driver, build, conc, spec as S
r = json.load(open(sys.argv[1]))
if not (r.get("replay") or {}).get("found"):
    print("no failing input recorded; failed obligations:")
    for f in r["failed_obligations"]: print("  ", f["kind"], f["what"], f["where"])
    sys.exit(1)
driver.load_contracts(); w = tempfile.mkdtemp()
try:
    link = build.build_ir(r["group"], w + "/ir"); so = build.build_native(r["group"], w + "/n"); con = S.CONTRACTS[r["contract"]]; mod = build.load(link)
    pf = {"#consts": conc.constants(mod, con.func)}
    for f in r["failed_obligations"]:
        for k, v in (f.get("solver_model") or {}).items(): pf.setdefault(k, []).append(v)
    k = r["replay"]["sample"]; so_ = so
    import vf.conc as C
    d = C.search(so, mod, con, seed=r["seed"], budget=60, maxn=k + 1, prefs=pf)
    print(json.dumps(d)[:2000]); sys.exit(1 if d["found"] else 0)
finally: shutil.rmtree(w, ignore_errors=True)
