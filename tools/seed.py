#!/usr/bin/env python3
"""Seeded-change helper (not used by any check).
  seed.py new ID PROP        make seeded/ID from the uncommitted change of the scratch tree
  seed.py try ID             scratch build: tests and demo with and without the change
  seed.py catch ID [PROP..]  run the quick checks against the change (scratch copy of /verif and /repo)
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = os.environ.get("SW", ""); SR, SV = "/tmp/sr" + K, "/tmp/sv" + K
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def sync():
    if not os.path.isdir(SR): print(sh("git -C /repo worktree prune; cp -a /repo %s" % SR).stdout)
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach %s" % (SR, h)); assert r.returncode == 0, r.stdout
def build():
    r = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s_build.sh; bash %s_build.sh" % (SR, SR, SR)); return r.returncode, r.stdout
def tests():
    r = sh("sed -e 's#/opt/vp/build.sh#%s_build.sh#' -e 's#/repo#%s#g' /opt/vp/test.sh > %s_test.sh; bash %s_test.sh %s_o.json" % (SR, SR, SR, SR, SR))
    d = json.load(open(SR + "_o.json")); return len(d["passed"]), len(d["failed"])
def prep():
    if not os.path.exists(SR + "/_build/.fresh"):
        sh("rm -rf %s/_build" % SR); r = build(); assert r[0] == 0, r[1][-2000:]; open(SR + "/_build/.fresh", "w").close()
def demo(i):
    r = sh("cp -a %s/seeded/%s /tmp/sd_%s; cd %s && bash /tmp/sd_%s/demo.sh; x=$?; rm -rf /tmp/sd_%s; exit $x" % (V, i, i, SR, i, i)); return r.returncode, r.stdout[-300:]
cmd, i = sys.argv[1], sys.argv[2]
sync(); D = "%s/seeded/%s" % (V, i)
if cmd == "try":
    prep(); build(); rc, o = demo(i); print("demo clean:", rc, o); ok = rc == 0
    r = sh("cd %s && git apply %s/patch.diff" % (SR, D)); assert r.returncode == 0, r.stdout
    rc, o = build(); print("build:", rc, o[-500:] if rc else ""); print("tests:", tests()); rc, o = demo(i); print("demo patched:", rc, o); ok = ok and rc != 0
    sync(); build(); print("OK" if ok else "BAD"); sys.exit(not ok)
if cmd == "catch":
    sh("mkdir -p %s; rsync -a --exclude seeded --exclude .git --exclude evidence --exclude build %s/ %s/ || cp -a %s/*.py %s/harness %s/tools %s/known-findings.txt %s/" % (SV, V, SV, V, V, V, V, SV))
    r = sh("cd %s && git apply %s/patch.diff" % (SR, D)); assert r.returncode == 0, r.stdout
    props = sys.argv[3:] or [json.load(open(D + "/meta.json"))["property"]]
    for p in props:
        r = sh("cd %s && VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % (SV, SR, p)); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed"); print("\n".join(l[:250] for l in r.stdout.splitlines() if "VIOL" in l or "rror" in l)[:900])
    sync()
