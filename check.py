#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  check.py C01            run the check of property C01 (VERIF_SEED, VERIF_TIER)
  check.py setup          build every variant once
  check.py replay FILE    re-run one recorded violation

Exit 0: held on everything explored.  Exit 1: violation (a VIOLATION line is
printed).  Any other exit: the check itself failed.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)

UB = ("bounds,signed-integer-overflow,null,alignment,pointer-overflow,object-size,integer-divide-by-zero,"
      "float-cast-overflow,shift-exponent,bool,enum,return,unreachable,vla-bound,nonnull-attribute,returns-nonnull-attribute,builtin")
ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,%s -fno-sanitize-recover=all" % UB
VARIANTS = {
    "asan":   dict(cc="clang", cxx="clang++", flags=ASAN, cm=[]),
    "asan22": dict(cc="clang", cxx="clang++", flags=ASAN, cm=["-DUSE_44KHZ=OFF"]),
    "asan8":  dict(cc="clang", cxx="clang++", flags=ASAN, cm=["-DUSE_44KHZ=OFF", "-DUSE_16BITS_SAMPLES=OFF"]),
    "asanv":  dict(cc="clang", cxx="clang++", flags=ASAN, cm=["-DMAX_VOICES=8"]),
    "opt":    dict(cc="gcc", cxx="clang++", flags="-O2 -g", cm=[]),
    "opt22":  dict(cc="gcc", cxx="clang++", flags="-O2 -g", cm=["-DUSE_44KHZ=OFF"]),
    "optv":   dict(cc="gcc", cxx="clang++", flags="-O2 -g", cm=["-DMAX_VOICES=8"]),
    "opt8":   dict(cc="gcc", cxx="clang++", flags="-O2 -g", cm=["-DUSE_16BITS_SAMPLES=OFF"]),
    "clang3": dict(cc="clang", cxx="clang++", flags="-O3 -g -march=native -ftrivial-auto-var-init=pattern", cm=[]),
    "clang22": dict(cc="clang", cxx="clang++", flags="-O3 -g -march=native -ftrivial-auto-var-init=pattern", cm=["-DUSE_44KHZ=OFF"]),
    "gcc0":   dict(cc="gcc", cxx="clang++", flags="-O0 -g", cm=[]),
    "tsan":   dict(cc="clang", cxx="clang++", flags="-O1 -g -fsanitize=thread", cm=[]),
    "msan":   dict(cc="clang", cxx="clang++", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all", cm=[]),
    # the only builds that need the observation hook; the other checks work through the public interface alone
    "hook":   dict(cc="gcc", cxx="clang++", flags="-O2 -g", cm=[], hook=True),
    "hookasan": dict(cc="clang", cxx="clang++", flags=ASAN, cm=[], hook=True),
    "hook6":  dict(cc="gcc", cxx="clang++", flags="-O2 -g", cm=["-DMAX_VOICES=8"], hook=True),
    "android": dict(cc="clang", cxx="clang++", flags=ASAN, android=True, cm=[]),
}
HOOK = "-DSONIVOX_VERIF_HOOKS"


def hook(v):
    return [HOOK] if v.get("hook") else []


WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise HarnessError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


ANDROID_DEFS = ("-DUNIFIED_DEBUG_MESSAGES -DEAS_WT_SYNTH -D_IMELODY_PARSER -D_RTTTL_PARSER -D_OTA_PARSER -D_XMF_PARSER "
                "-DJET_INTERFACE -DNUM_OUTPUT_CHANNELS=2 -D_SAMPLE_RATE_44100 -DMAX_SYNTH_VOICES=64 -D_16_BIT_SAMPLES "
                "-D_FILTER_ENABLED -DDLS_SYNTHESIZER -D_REVERB_ENABLED").split()


def cmake_sources():
    """the library's source list, as the project's own build lists it"""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    out = []
    for m in re.finditer(r"arm-wt-22k/(?:host_src|lib_src)/[A-Za-z0-9_]+\.c\b", "\n".join(l for l in txt.splitlines() if not l.strip().startswith("#"))):
        if m.group(0) not in out:
            out.append(m.group(0))
    return out


def build_android(d, v):
    inc = os.path.join(d, "libsonivox")
    os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(REPO, "arm-wt-22k/host_src/eas.cmake")).read()
    for k, x in dict(MAJOR=3, MINOR=6, PATCH=14, TWEAK=0).items():
        src = src.replace("@PROJECT_VERSION_%s@" % k, str(x))
    p = os.path.join(inc, "eas.h")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    srcs = [s for s in cmake_sources() if "eas_chorus" not in s or True]
    L = "arm-wt-22k/lib_src/"
    for s in ("eas_ima_tables eas_imaadpcm eas_imelody eas_imelodydata eas_ota eas_otadata eas_rtttl eas_rtttldata eas_xmf eas_xmfdata jet").split():
        if L + s + ".c" not in srcs:
            srcs.append(L + s + ".c")
    shim = os.path.join(HARN, "android_shim.h")
    objs, procs = [], []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        cmd = [v["cc"], "-c", "-w"] + v["flags"].split() + hook(v) + ANDROID_DEFS + ["-include", shim, "-I" + inc] + \
            ["-I%s/%s" % (REPO, x) for x in ("arm-wt-22k/host_src", "arm-wt-22k/lib_src", "fakes")] + [os.path.join(REPO, s), "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        while sum(1 for _, q in procs if q.poll() is None) >= NPROC:
            time.sleep(0.01)
    for cmd, q in procs:
        o = q.communicate()[0]
        if q.returncode:
            raise HarnessError("android build failed: %s\n%s" % (" ".join(cmd), o[-3000:]))
    lib = os.path.join(d, "libsonivox-static.a")
    if os.path.exists(lib):
        os.remove(lib)
    sh(["ar", "rcs", lib] + objs)
    return lib


def build_variant(name, target="sonivox-static"):
    v = VARIANTS[name]
    d = os.path.join(BUILD, name)
    with Lock(name):
        os.makedirs(d, exist_ok=True)
        if v.get("android"):
            return d, build_android(d, v)
        env = dict(os.environ, CC=v["cc"], CXX="clang++" if v["cc"] == "clang" else "g++")
        if not os.path.exists(os.path.join(d, "build.ninja")):
            sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTING=OFF", "-DBUILD_SONIVOX_SHARED=OFF",
                "-DBUILD_EXAMPLE=ON", "-DCMAKE_C_FLAGS=%s" % " ".join([v["flags"]] + hook(v)), "-DCMAKE_CXX_FLAGS=" + v["flags"]] + v["cm"], env=env)
        sh(["ninja", "-C", d, "-j", str(NPROC), target], env=env)
        c = glob.glob(os.path.join(d, "libsonivox*.a"))
        if not c:
            raise HarnessError("no static library produced in " + d)
        return d, c[0]


def build_harness(src, variant, extra_defs=()):
    d, lib = build_variant(variant)
    v = VARIANTS[variant]
    out = os.path.join(d, os.path.splitext(src)[0])
    with Lock(variant + "-" + os.path.splitext(src)[0]):
        inc = ["-I" + os.path.join(d, "libsonivox"), "-I" + os.path.join(REPO, "arm-wt-22k/include/libsonivox"),
               "-I" + os.path.join(REPO, "arm-wt-22k/lib_src"), "-I" + HARN]
        base = [v["cxx"], "-std=c++17", "-w"] + v["flags"].split() + hook(v) + list(extra_defs) + inc
        vo = os.path.join(d, "vh.o")
        deps = glob.glob(os.path.join(HARN, "*.h"))

        def stale(o, *src):
            return not os.path.exists(o) or any(os.path.getmtime(s) >= os.path.getmtime(o) for s in src)
        with Lock(variant + "-vh"):
            if stale(vo, os.path.join(HARN, "vh.cpp"), os.path.join(d, "libsonivox/eas.h"), *deps):
                sh(base + ["-c", os.path.join(HARN, "vh.cpp"), "-o", vo + ".tmp"])
                os.rename(vo + ".tmp", vo)
        if stale(out, os.path.join(HARN, src), vo, lib, *deps):
            sh(base + [os.path.join(HARN, src), vo, lib, WRAP, "-lm", "-lpthread", "-o", out + ".tmp"])
            os.rename(out + ".tmp", out)
    return out


def build_exe(name, variant):
    d, _ = build_variant(variant, name)
    for p in (os.path.join(d, name), os.path.join(d, "example", name)):
        if os.path.exists(p):
            return p
    raise HarnessError("no program %s produced in %s" % (name, d))


ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:print_summary=1",
           UBSAN_OPTIONS="print_stacktrace=1:print_summary=1:abort_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:second_deadlock_stack=1",
           MSAN_OPTIONS="abort_on_error=1")
ENV["LC_ALL"] = "C"


def crash_key(err, rc):
    """a stable name for a crash: kind of report + function of the topmost library frame"""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w\-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    m = re.search(r"WARNING: (ThreadSanitizer|MemorySanitizer): ([\w\- ]+)", err)
    if m:
        kind = m.group(1) + ":" + m.group(2).strip().replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        kind = "ubsan:" + re.sub(r"[^A-Za-z]+", "-", msg)[:60].strip("-")
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\s(]+)", err):
        if "/arm-wt-22k/" in m.group(2) or "/example/" in m.group(2):
            fn = m.group(1)
            break
    if kind == "crash":
        kind = "crash:signal%d" % (-rc if rc < 0 else rc)
    return kind + (":" + fn if fn else "")


class Result:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.sets = {}
        self.samples = []
        self.viol = []      # dict(key,msg,run,case)
        self.slow = 0
        self.notes = []
        self.digests = {}   # (src, group, case) -> {variant: digest}

    def merge(self, j, tag, run):
        for k, d in j.get("digests", {}).items():
            self.digests.setdefault((run["src"], run.get("group", ""), int(k)), {})[run["variant"]] = (d, run)
        self.evals += j["evaluations"]
        self.distinct.update((tag, x) for x in j["distinct"])
        for k, n in j["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + n
        for k, l in j["sets"].items():
            self.sets.setdefault(k, set()).update(l)
        if len(self.samples) < 12:
            self.samples += [tag + " " + s for s in j["samples"]][:3]


def run_range(binary, run, seed, tier, a, b, work, wid, limit, lone=False):
    """run cases [a,b); returns (stats or None, violations, next, crash/hang info)"""
    out = os.path.join(work, "out%s" % wid)
    prog = os.path.join(work, "prog%s" % wid)
    for f in (out, prog):
        if os.path.exists(f):
            os.remove(f)
    cmd = [binary, "--seed", str(seed), "--from", str(a), "--to", str(b), "--tier", tier, "--out", out, "--progress", prog, "--aux", run.get("aux", "")]
    so = open(os.path.join(work, "so%s" % wid), "w+b")
    se = open(os.path.join(work, "se%s" % wid), "w+b")
    env = dict(ENV)
    env.update(run.get("env", {}))
    p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, cwd=work, start_new_session=True)
    last, t0, hang = None, time.time(), False
    while p.poll() is None:
        time.sleep(0.02 if time.time() - t0 < 2 else 0.2)
        try:
            cur = open(prog, "rb").read(16)
        except OSError:
            cur = b""
        if cur != last:
            last, t0 = cur, time.time()
        elif time.time() - t0 > limit:
            hang = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    so.seek(0)
    se.seek(0)
    stdout = so.read().decode("utf8", "replace")
    stderr = se.read().decode("utf8", "replace")
    so.close()
    se.close()
    viol = []
    for l in stdout.splitlines():
        if l.startswith("{"):
            try:
                viol.append(json.loads(l))
            except ValueError:
                pass
    cur = int.from_bytes(last[:8], "little", signed=True) if last and len(last) >= 8 else a
    if hang:
        return None, viol, cur, ("hang", "no progress in case %d for %d s" % (cur, limit))
    if p.returncode in (0, 1) and os.path.exists(out):
        return json.load(open(out)), viol, b, None
    if p.returncode == 3 or p.returncode == 77:
        raise HarnessError("harness %s reported an internal error: %s" % (binary, stderr[-2000:]))
    return None, viol, cur, (crash_key(stderr, p.returncode), stderr[-6000:])


def run_cases(run, res, seed, tier, work, lock):
    binary = build_harness(run["src"], run["variant"], run.get("defs", ()))
    if run.get("exe"):      # the check also needs the project's program, built in the same variant
        run["env"] = dict(run.get("env", {}), VH_EXE=build_exe(run["exe"], run["variant"]))
    n = run["thorough" if tier == "thorough" else "quick"]
    limit = run.get("limit", 60)
    tag = os.path.splitext(run["src"])[0] + "/" + run["variant"]
    per = max(1, min(run.get("chunk", 64), (n + NPROC - 1) // NPROC))
    todo = [(i, min(i + per, n)) for i in range(0, n, per)]
    todo.reverse()
    state = dict(crashes=0, err=None)

    def worker(w):
        try:
            while True:
                with lock:
                    if not todo or state["crashes"] >= 24 or state["err"]:
                        return
                    a, b = todo.pop()
                st, viol, nxt, bad = run_range(binary, run, seed, tier, a, b, work, "-%s-%d" % (tag.replace("/", "_"), w), limit)
                if bad and bad[0] == "hang":
                    # inconclusive until the case fails again on its own with a much longer limit
                    st2, v2, _, bad2 = run_range(binary, run, seed, tier, nxt, nxt + 1, work, "-%s-%dr" % (tag.replace("/", "_"), w), 3 * limit)
                    if not bad2:
                        with lock:
                            res.slow += 1
                            if st2:
                                res.merge(st2, tag, run)
                        bad, viol = None, viol + v2
                        if nxt + 1 < b:
                            with lock:
                                todo.append((nxt + 1, b))
                        if a < nxt:
                            with lock:
                                res.evals += nxt - a
                    else:
                        bad = bad2
                with lock:
                    if st:
                        res.merge(st, tag, run)
                    for x in viol:
                        res.viol.append(dict(key=x["key"], msg=x["msg"], run=run, case=x["case"]))
                    if bad:
                        state["crashes"] += 1
                        res.evals += max(0, nxt - a) + 1
                        res.viol.append(dict(key=bad[0], msg=bad[1], run=run, case=nxt))
                        if nxt + 1 < b:
                            todo.append((nxt + 1, b))
        except Exception as e:      # noqa
            with lock:
                state["err"] = e
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(NPROC)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if state["err"]:
        raise state["err"]


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out


def write_evidence(pid, spec, res, tier, seed, t0, nviol):
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.distinct), rule=spec["rule"], samples=res.samples[:8] or ["(none)"],
               observed={k: v for k, v in sorted(res.counters.items())}, distinct_observed={k: len(v) for k, v in sorted(res.sets.items())})
    if res.slow:
        cov["cases_over_watchdog_but_finished"] = res.slow
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    from specs import SPECS
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        # every check builds what it needs from /repo itself; this only shows that the toolchain works
        build_variant("asan")
        print("built asan")
        return 0
    if sys.argv[1] == "replay":
        j = json.load(open(sys.argv[2]))
        if "cmd" in j:
            print(j["msg"])
            return subprocess.call(j["cmd"])
        b = build_harness(j["src"], j["variant"], j.get("defs", ()))
        env = dict(ENV)
        env.update(j.get("env", {}))
        if j.get("exe"):
            env["VH_EXE"] = build_exe(j["exe"], j["variant"])
        return subprocess.call([b, "--seed", str(j["seed"]), "--from", str(j["case"]), "--to", str(j["case"] + 1), "--tier", j["tier"], "--aux", j.get("aux", ""), "--verbose", "1"], env=env)
    pid = sys.argv[1]
    spec = SPECS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    res = Result()
    lock = threading.Lock()
    try:
        for run in spec.get("runs", []):
            run_cases(run, res, seed, tier, work, lock)
        for (src, grp, case), d in sorted(res.digests.items()):
            if len(d) > 1:
                res.counters["cases_compared_between_builds"] = res.counters.get("cases_compared_between_builds", 0) + 1
            if len(set(x for x, _ in d.values())) > 1:
                res.viol.append(dict(key="builds-differ", msg="case %d gives different results in different builds: %s" % (case, {v: x for v, (x, _) in d.items()}), run=list(d.values())[0][1], case=case))
        if "func" in spec:
            import importlib
            m, f = spec["func"].split(":")
            getattr(importlib.import_module(m), f)(sys.modules["__main__"], res, seed, tier, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    rep = os.path.join(VERIF, "replays")
    bykey = {}
    for v in res.viol:
        bykey.setdefault(v["key"], v)
    bad = 0
    hit = set()
    lines = []
    for key, v in sorted(bykey.items()):
        if any(key == k for k, _ in known):
            hit.add(key)
            continue
        bad += 1
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        r = v.get("run") or {}
        json.dump(dict(property=pid, key=key, msg=v["msg"], src=r.get("src"), variant=r.get("variant"), defs=list(r.get("defs", ())), env=r.get("env", {}), aux=r.get("aux", ""), exe=r.get("exe", ""),
                       seed=seed, tier=tier, case=v.get("case"), **({"cmd": v["cmd"]} if "cmd" in v else {})), open(path, "w"), indent=1)
        print("--- %s [%s] %s case %s" % (pid, key, r.get("src", ""), v.get("case")))
        print(v["msg"][-3000:])
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    write_evidence(pid, spec, res, tier, seed, t0, bad)
    print("%s: %d executions, %d distinct non-trivial, %d violations, %.1f s" % (pid, res.evals, len(res.distinct), bad, time.time() - t0))
    print(" observed:", " ".join("%s=%s" % kv for kv in sorted(res.counters.items())), " ".join("distinct_%s=%d" % (k, len(v)) for k, v in sorted(res.sets.items())))
    for l in lines:
        print(l)
    if bad:
        return 1
    if len(res.distinct) < spec.get("min_distinct", 1):
        print("inconclusive: nothing was observed", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("HARNESS ERROR:", e, file=sys.stderr)
        sys.exit(2)
