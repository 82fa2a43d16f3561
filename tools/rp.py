#!/usr/bin/env python3
"""replay one failure file: tools/rp.py harness replay.json"""
import sys, os, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import check
b = check.build(os.environ.get("CFG", "std"), [sys.argv[1]])[sys.argv[1]]
env = dict(check.ENV); env["PBT_TMP"] = tempfile.mkdtemp(); env["OMPI_MCA_ess_singleton_isolated"] = "1"
env["PBT_STDERR"] = "1"
sys.exit(subprocess.run([b, "replay", sys.argv[2]], env=env).returncode)
