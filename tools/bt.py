#!/usr/bin/env python3
"""backtrace of a failing replay: tools/bt.py harness replay.json"""
import sys, os, subprocess, re
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "..", "bin"))
import check
env = dict(check.ENV); env["PBT_STDERR"] = "1"
env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("handle_abort=0", "handle_abort=1")
cfg = os.environ.get("CFG", "std")
r = subprocess.run([os.path.join(os.environ.get("VERIF_BUILD", os.path.join(H, "..", ".build")), cfg, sys.argv[1]), "replay", sys.argv[2]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
o = r.stdout
print(o.split("stderr:")[0][:3000])
for l in o.split("stderr:")[-1].splitlines():
    if re.match(r"\s*#\d+ ", l) and ("/src/" in l or "harness" in l): print(l[:220])
