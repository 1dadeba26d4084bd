#!/usr/bin/env python3
"""Mutation sweep (not used by any check): sweep.py BATCH.py [NAME...]
BATCH.py defines M = [(name, "C01 C02", file, old, new), ...] or with a list of (file, old, new) edits as third item.
Each change is applied to the scratch tree, the project's tests run, then the quick checks of the named properties."""
import json, os, subprocess, sys, time
K = os.environ.get("SW", ""); SR, SV = "/tmp/sr" + K, "/tmp/sv" + K
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
ns = {}; exec(open(sys.argv[1]).read(), ns); M = ns["M"]; only = sys.argv[2:]
sh("mkdir -p %s; rsync -a --exclude seeded --exclude .git --exclude evidence --exclude build %s/ %s/" % (SV, V, SV))
h = sh("git -C /repo rev-parse HEAD").stdout.strip()
def clean(): 
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach %s" % (SR, h)); assert r.returncode == 0, r.stdout
clean()
for m in M:
    name, props = m[0], m[1].split()
    if only and name not in only: continue
    ed = m[2] if isinstance(m[2], list) else [tuple(m[2:5])]
    bad = None
    for f, old, new in ed:
        p = os.path.join(SR, f if "/" in f else ("arm-wt-22k/host_src/" if os.path.exists(SR + "/arm-wt-22k/host_src/" + f) else "arm-wt-22k/lib_src/") + f)
        s = open(p, encoding="latin1").read()
        if s.count(old) != 1: bad = "%s: %d matches of %r" % (f, s.count(old), old[:80]); break
        open(p, "w", encoding="latin1").write(s.replace(old, new))
    if bad: print(name, "EDIT", bad, flush=True); clean(); continue
    t = time.time()
    b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s_build.sh; bash %s_build.sh" % (SR, SR, SR))
    if b.returncode: print(name, "BUILD", b.stdout[-400:], flush=True); clean(); continue
    sh("sed -e 's#/opt/vp/build.sh#%s_build.sh#' -e 's#/repo#%s#g' /opt/vp/test.sh > %s_test.sh; timeout 100 bash %s_test.sh %s_o.json" % (SR, SR, SR, SR, SR))
    d = json.load(open(SR + "_o.json")); tst = "tests %d/%d" % (len(d["passed"]), len(d["passed"]) + len(d["failed"]))
    for p in props:
        t = time.time(); r = sh("cd %s && VERIF_REPO=%s VERIF_SEED=%s VERIF_TIER=quick python3 check.py %s" % (SV, SR, os.environ.get("SEED", "1"), p))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        o = "CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "RC%d" % r.returncode
        print("%-22s %s %s %s %.0fs %s" % (name, p, o, tst, time.time() - t, (v[0][:150] if v else r.stdout[-200:].replace("\n", " ") if r.returncode else "")), flush=True)
    clean()
