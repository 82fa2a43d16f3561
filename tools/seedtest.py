#!/usr/bin/env python3
"""confirm planted bugs in a scratch clone and run the checks on them:
   tools/seedtest.py [-n] id [id...]   (-n: no repository tests)   env CHECKS="C01 C16" overrides the property's own check"""
import sys, os, subprocess, json, shutil, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SCRATCH", "/tmp/sr")
args = sys.argv[1:]
notest = "-n" in args
onlycheck = "-c" in args
ids = [a for a in args if a not in ("-n", "-c")]
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
if not os.path.exists(S + "/.git"):
    print(sh("git clone -q /repo %s" % S).stdout)
    os.makedirs(S + "/.git/info", exist_ok=True)
    open(S + "/.git/info/exclude", "a").write("/_build/\n")
for f in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + f).read().replace("/repo", S).replace("/opt/vp/build.sh", "/tmp/sr_build.sh")
    open("/tmp/sr_" + f, "w").write(t)
def reset():
    sh("git -C %s checkout -q -- . ; git -C %s fetch -q ; git -C %s checkout -q %s" % (S, S, S, head))
def bt():
    r = sh("bash /tmp/sr_build.sh")
    if r.returncode: return "BUILD FAILED " + r.stdout[-1500:]
    return ""
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base["passed"] if "passed" in base else base.get("stable", base)
reset(); e = bt()
if e: print(e); sys.exit(1)
demo_ok = {}
for i in ids:
    if onlycheck: break
    r = sh("timeout 300 bash %s/seeded/%s/demo.sh" % (R, i), cwd=S)
    demo_ok[i] = r.returncode
    if r.returncode: print(i, "demo fails on the unchanged tree:", r.stdout[-1500:])
for i in ids:
    d = "%s/seeded/%s" % (R, i)
    reset()
    r = sh("git -C %s apply %s/patch.diff" % (S, d))
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
    res = [i]
    if not onlycheck:
        e = bt()
        if e: print(i, e); continue
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd=S)
        res.append("demo base=%d patched=%d" % (demo_ok[i], r.returncode))
        if r.returncode == 0: print(i, "DEMO DOES NOT FAIL", r.stdout[-800:])
        if not notest:
            sh("bash /tmp/sr_test.sh /tmp/sr_o.json")
            o = json.load(open("/tmp/sr_o.json"))
            miss = [t for t in stable if t not in o["passed"]]
            res.append("tests missing %d %s" % (len(miss), miss[:3]))
    meta = json.load(open(d + "/meta.json"))
    for p in os.environ.get("CHECKS", meta["property"]).split():
        env = dict(os.environ, HIOP_REPO=S, VERIF_BUILD="/tmp/srb", VERIF_EVIDENCE="/tmp/srb/evidence", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        t0 = time.time()
        r = sh("python3 %s/bin/check.py %s quick" % (R, p), env=env)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or " key " in l]
        res.append("%s exit=%d %.0fs %s" % (p, r.returncode, time.time() - t0, [l.strip()[:160] for l in v[:3]]))
        if r.returncode not in (0, 1): print(r.stdout[-2000:])
    print(" | ".join(res), flush=True)
reset()
