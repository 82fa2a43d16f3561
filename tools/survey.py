#!/usr/bin/env python3
"""run targets without shrinking and print the failure keys and labels: tools/survey.py harness target cases [seed]"""
import sys, json, subprocess, os, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import check
h, t, n = sys.argv[1:4]
seed = sys.argv[4] if len(sys.argv) > 4 else "1"
b = check.build(os.environ.get("CFG", "std"), [h])[h]
env = dict(check.ENV); tmp = tempfile.mkdtemp(); env["PBT_TMP"] = tmp
out = tmp + "/o.json"
subprocess.run([b, os.environ.get("RUN","run"), "--target", t, "--seed", seed, "--cases", n, "--jobs", os.environ.get("JOBS","8"), "--out", out, "--replaydir", tmp, "--shrink", os.environ.get("SHRINK", "0")], env=env)
d = json.load(open(out))
print(t, "cases", d["cases"], "nontrivial", d["nontrivial"], "wall", d["wall"], "discarded", d["discarded"])
print(" ".join("%s:%d" % kv for kv in sorted(d["labels"].items())))
for f in d["failures"]:
    print("--", f.get("count"), "conf", f.get("confirmed"), f["key"], "::", f["msg"][:int(os.environ.get("ML","300"))], f.get("replay", ""))
    if os.environ.get("SHOW"): print(f.get("desc", ""))
