#!/usr/bin/env python3
"""Nothing is installed: checks compile their harness and the sources they need on every run."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays"):
    os.makedirs(V + "/" + d, exist_ok=True)
missing = [t for t in ("g++", "gdb", "python3") if not shutil.which(t)]
sys.exit("missing: " + ", ".join(missing) if missing else 0)
