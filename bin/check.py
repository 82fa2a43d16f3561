#!/usr/bin/env python3
"""Driver: builds HiOp from /repo and the harness, runs the targets of one property, writes evidence."""
import json, os, subprocess, sys, time, shutil, fcntl, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import config

REPO = os.environ.get("HIOP_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
ENV = dict(os.environ)
ENV.update({
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "OMP_NUM_THREADS": "1", "OMPI_MCA_mpi_warn_on_fork": "0",
    "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=1:handle_abort=0:handle_sigfpe=0:handle_segv=0:alloc_dealloc_mismatch=0:"
                    "quarantine_size_mb=16:malloc_context_size=8:symbolize=1:detect_odr_violation=0",
    "LC_ALL": "C",
})
CXX = "g++"
CC = "gcc"
ASAN = "-fsanitize=address -fno-omit-frame-pointer"

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

def run(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), **kw)

def build(cfgname, harnesses):
    """returns dict harness -> binary path"""
    cfg = config.BUILDS[cfgname]
    bdir = os.path.join(BUILD, cfgname)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(bdir, "build.log")
    extra = cfg.get("prepare")
    if extra:
        extra(ROOT, bdir, run, die)
    flags = cfg["flags"]
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        cm = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja",
              "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
              "-DCMAKE_Fortran_COMPILER=/usr/bin/gfortran", "-DCMAKE_BUILD_TYPE=None",
              "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags,
              "-DBLA_VENDOR=Generic", "-DHIOP_USE_MPI=ON", "-DHIOP_DEEPCHECKS=ON",
              "-DHIOP_BUILD_SHARED=OFF", "-DHIOP_BUILD_STATIC=ON", "-DHIOP_USE_EIGEN=ON",
              "-DHIOP_EIGEN_DIR=/usr/include/eigen3", "-DHIOP_WITH_KRON_REDUCTION=ON",
              "-DHIOP_UMFPACK_DIR=/usr", "-DHIOP_METIS_DIR=/usr", "-DHIOP_USE_GPU=OFF",
              "-DHIOP_USE_RAJA=OFF", "-DHIOP_USE_AXOM=OFF", "-DHIOP_BUILD_DOCUMENTATION=OFF",
              "-DHIOP_WITH_MAKETEST=OFF", "-DHIOP_WITH_VALGRIND_TESTS=OFF"] + [c.format(bdir=bdir) for c in cfg["cmake"]]
        with open(log, "w") as f:
            r = run(cm, stdout=f, stderr=subprocess.STDOUT, env=ENV)
        if r.returncode:
            shutil.rmtree(os.path.join(bdir, "CMakeFiles"), ignore_errors=True)
            try: os.remove(os.path.join(bdir, "build.ninja"))
            except OSError: pass
            die("cmake failed:\n" + open(log).read()[-3000:])
    # harness objects compile concurrently with the library
    inc = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "harness"), os.path.join(bdir, "src"), bdir, os.path.join(bdir, "include"),
           os.path.join(REPO, "src")] + [os.path.join(REPO, "src", d) for d in
           ("Interface", "Optimization", "LinAlg", "Utils", "ExecBackends")] + ["/usr/include/eigen3", "/usr/include/suitesparse"]
    mpi = subprocess.check_output("mpicxx --showme:compile", shell=True, text=True, env=ENV).split()
    mpil = subprocess.check_output("mpicxx --showme:link", shell=True, text=True, env=ENV).split()
    jobs = {}
    bins = {}
    for h in harnesses:
        spec = config.HARNESS[h]
        objs = []
        for src in spec["src"] + ([] if spec.get("nomain") else ["engine/pbt_main.cpp"]):
            o = os.path.join(bdir, "h_" + src.replace("/", "_").replace(":", "_") + (".mpi.o"))
            objs.append(o)
            if o not in jobs:
                full = os.path.join(REPO, src[5:]) if src.startswith("repo:") else os.path.join(ROOT, src)
                lang = [CC] if src.endswith(".c") else [CXX, "-std=c++17"]
                cmd = lang + ["-O1", "-g1", "-w"] + flags.split() + ["-DPBT_MPI"] + mpi + \
                      ["-I" + i for i in inc] + ["-c", full, "-o", o]
                jobs[o] = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        bins[h] = (os.path.join(bdir, h), objs)
    with open(log, "a") as f:
        r = run(["ninja", "-C", bdir, "hiop_static"], stdout=f, stderr=subprocess.STDOUT, env=ENV)
    bad = ""
    for o, p in jobs.items():
        out, _ = p.communicate()
        if p.returncode:
            bad += out
    if r.returncode:
        die("building /repo failed:\n" + open(log).read()[-3000:])
    if bad:
        die("building harness failed:\n" + bad[-4000:])
    lib = os.path.join(bdir, "src", "libhiop.a")
    res = {}
    links = []
    for h, (b, objs) in bins.items():
        cmd = [CXX] + flags.split() + objs + ["-o", b, "-Wl,--start-group", lib] + [l.format(bdir=bdir) for l in cfg.get("libs", [])] + ["-Wl,--end-group"] + \
              ["-lumfpack", "-lcholmod", "-lamd", "-lcolamd", "-lsuitesparseconfig", "-llapack", "-lblas", "-lmetis",
               "-lgfortran", "-lm", "-lpthread"] + mpil
        links.append((h, b, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)))
    for h, b, p in links:
        out, _ = p.communicate()
        if p.returncode:
            die("linking %s failed:\n%s" % (h, out[-3000:]))
        res[h] = b
    fcntl.flock(lock, fcntl.LOCK_UN)
    return res

def load_known(prop):
    res = []
    fn = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                # finding: property=Cxx key=<failure key> :: description
                rest = l[len("finding: property=%s " % prop):]
                key, _, d = rest.partition(" :: ")
                assert key.startswith("key=")
                res.append((key[4:], d))
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = config.PROPS[prop]
    tmp = os.path.join(BUILD, "tmp", prop + "_%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    ENV["PBT_TMP"] = tmp
    ENV["TMPDIR"] = tmp
    rdir = os.path.join(BUILD, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    bybuild = {}
    for t in spec["targets"]:
        bybuild.setdefault(t.get("build", "std"), set()).add(t["harness"])
    bins = {}
    for b, hs in bybuild.items():
        for h, p in build(b, sorted(hs)).items():
            bins[(b, h)] = p
    tb = time.time()
    known = load_known(prop)
    violations, findings, results, errors = [], [], [], []
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    only = os.environ.get("VERIF_TARGET")
    for t in spec["targets"]:
        if only and t["name"] != only: continue
        n = t["quick"] if tier == "quick" else t.get("thorough", t["quick"] * 20)
        n = int(float(os.environ.get("VERIF_SCALE", "1")) * n)
        out = os.path.join(tmp, t["name"] + ".json")
        b = bins[(t.get("build", "std"), t["harness"])]
        env = dict(ENV)
        env.update(t.get("env", {}))
        mpi = t.get("mode") == "mpi"
        if not mpi: env["OMPI_MCA_ess_singleton_isolated"] = "1"
        cmd = [b, "mpi-run" if mpi else "run", "--target", t["name"], "--seed", str(seed), "--cases", str(n), "--jobs", str(max(1, jobs * 3 // 8) if mpi else jobs),
               "--out", out, "--replaydir", rdir, "--shrink", "15" if tier == "quick" else "60"]
        p = run(cmd, env=env, cwd=tmp)
        if not os.path.exists(out):
            errors.append("harness %s target %s ended with %d and no result" % (t["harness"], t["name"], p.returncode))
            continue
        r = json.load(open(out))
        results.append(r)
        for f in r["failures"]:
            k = f["key"]
            if f.get("confirmed", 0) < 3:
                # not reproducible from its own case alone: reproduce by re-running the same stretch of cases
                if f["key"].startswith("engine:"):
                    errors.append("engine failure in %s: %s %s" % (t["name"], k, f["msg"][:1500]))
                    continue
                ok = 0
                if True:
                    for _ in range(2):
                        out2 = out + ".again"
                        c2 = list(cmd); c2[c2.index("--out") + 1] = out2
                        c2[c2.index("--shrink") + 1] = "0"
                        c2[c2.index("--replaydir") + 1] = tmp
                        run(c2, env=env, cwd=tmp)
                        if os.path.exists(out2) and any(g["key"] == k for g in json.load(open(out2))["failures"]):
                            ok += 1
                if ok < 2:
                    print("NOTE: failure %s in target %s did not reproduce; not reported: %s" % (k, t["name"], f["msg"][:300]))
                    continue
                f["msg"] += " [depends on the preceding cases of the run: re-run target %s with VERIF_SEED=%d]" % (t["name"], seed)
            hit = [d for (kk, d) in known if kk == k]
            if hit:
                findings.append((k, hit[0]))
            else:
                violations.append((t["name"], f))
    nt = sum(r["distinct_nontrivial"] for r in results)
    ev = sum(r["cases"] for r in results)
    # a check that explored (almost) nothing is an error, not a pass
    for r, t in zip(results, [t for t in spec["targets"] if not only or t["name"] == only]):
        if not r["failures"] and r["cases"] > 20 and r["distinct_nontrivial"] < t.get("min_nontrivial", 0.2) * r["cases"]:
            errors.append("target %s: only %d of %d cases non-trivial" % (t["name"], r["distinct_nontrivial"], r["cases"]))
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append("%s: %s" % (r["target"], s[:1200]))
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt, "rule": spec["rule"], "samples": samples or ["(none)"],
            "targets": {r["target"]: {k: r[k] for k in ("cases", "distinct_nontrivial", "discarded", "wall", "labels")} for r in results},
            "known_findings_hit": [k for k, _ in findings],
        },
        "assumptions": spec.get("assumptions", []) + config.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    for k, d in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, d, k))
    for name, f in violations:
        print("  target %s key %s\n    %s" % (name, f["key"], f["msg"][:1500]))
        if f.get("desc"): print("    case: " + f["desc"][:1500].replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (prop, f.get("replay", "")))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs, %d violation(s)" %
          (prop, tier, seed, ev, nt, tb - t0, time.time() - t0, len(violations)), flush=True)
    shutil.rmtree(tmp, ignore_errors=True)
    if violations: sys.exit(1)
    if errors:
        for e in errors: print("ERROR:", e)
        sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
