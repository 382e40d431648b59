#!/usr/bin/env python3
"""Replays a recorded counterexample: replay.py replays/ID.txt"""
import os, re, shutil, subprocess, sys, tempfile
import check
t = open(sys.argv[1]).read()
g = lambda k: re.search(r"^%s: (.*)$" % k, t, re.M).group(1)
cfg = dict(check.CHECKS[g("property")])
cfg["src"] = [os.path.basename(g("harness"))]
tmp = tempfile.mkdtemp(prefix="korin-mc-replay-")
try:
    b = check.build(cfg, tmp)[0]
    rc = subprocess.call([b, "--scenario", g("scenario"), "--replay", g("choices") or " "] +
                         (["--thorough"] if g("tier") == "thorough" else []), env=check.ENV)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if rc else 0)
