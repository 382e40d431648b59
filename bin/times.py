#!/usr/bin/env python3
"""Prints where the last run of each given check spent its time."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    d = json.load(open(V + "/evidence/%s.json" % i))
    print(i, d["tier"], d["wall_s"], "s")
    for n, s in sorted(d["coverage"]["scenarios"].items(), key=lambda x: -x[1]["wall_s"]):
        print("   %-24s %8.1f s  %9d executions  %9d states  %6d outcomes" % (n, s["wall_s"], s["executions"], s["states"], s["distinct_outcomes_per_shard_max"]))
