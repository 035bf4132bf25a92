#!/usr/bin/env python3
"""Plant one bug: python3 tools/mkseed.py SPEC.py   (SPEC defines id, prop, needs, breaks, edits=[(file,old,new)...], demo=C++ text)
Builds /verif/seeded/<id>/ and confirms it in a scratch copy: applies, builds, stable tests pass, demo passes without and fails with it."""
import sys, os, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO_SH = '''#!/bin/bash
# cwd: /repo after build.  Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/inc"; ln -s "$PWD" "$d/inc/ustl"
F="-w -std=c++14 -O1 -DNDEBUG=1 -fno-threadsafe-statics -fno-enforce-eh-specs -I$PWD -I$d/inc"
g++-12 $F -c "$here/demo.cc" -o "$d/demo.o" || exit 3
for s in *.cc; do g++-12 $F -c "$s" -o "$d/l_${s%.cc}.o" & done; wait
g++-12 "$d"/*.o -o "$d/demo" || exit 3
timeout 60 "$d/demo"
'''
def sh(c, cwd=None, ok=True, to=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
    if ok and p.returncode: print(p.stdout[-3000:]); sys.exit("failed: " + c)
    return p
for s in ns.get("SEEDS") or [ns]:
    if len(sys.argv) > 2 and sys.argv[2] != "-c" and s["id"] not in sys.argv[2:]: continue
    sid = s["id"]; d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    sh("git -C /repo worktree list >/dev/null; cp -a /repo %s/repo" % w)
    r = w + "/repo"
    sh("git checkout -q -- . ", r)
    for f, old, new in s["edits"]:
        t = open(r + "/" + f).read()
        n = s.get("count", 1)
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(r + "/" + f, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
    open(d + "/demo.cc", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, "/repo", False).returncode
    b = sh("bash %s/demo.sh" % d, r, False)
    res = "demo base=%d patched=%d" % (a, b.returncode)
    good = a == 0 and b.returncode not in (0,) 
    if b.returncode == 3: print(b.stdout[-1500:]); good = False
    # stable tests with the bug, in place (build.sh works on /repo)
    if good:
        sh("git -C /repo apply %s/patch.diff" % d)
        try:
            t = sh("bash /opt/vp/test.sh %s/t.json" % w, "/repo", False)
            base = json.load(open("/opt/vp/BASELINE.json")); 
            fails = [l for l in t.stdout.splitlines() if l.startswith("FAIL")]
            res += " fails=%s" % fails
            good = not fails and "PASS" in t.stdout
            if "-c" not in sys.argv:
                c = sh("python3-vt /verif/check.py %s" % s["prop"], "/verif", False, 1000)
                res += " check=%d" % c.returncode + (" " + "; ".join(l for l in c.stdout.splitlines() if l.startswith("VIOLATION"))[:300])
                if c.returncode == 0: res += " MISSED " + c.stdout[-300:]
        finally: sh("git -C /repo checkout -- .")
    print(sid, "GOOD" if good else "REJECTED", res)
    if not good: shutil.rmtree(d)
    shutil.rmtree(w)
sh("bash /opt/vp/build.sh", "/repo", False)
