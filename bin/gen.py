#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/props.py and bin/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
from registry import CHECKS
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["cant"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        man["checks"].append({
            "property": i,
            "quick_cmd": "python3 %s %s quick" % (CHECKS[i].get("cmd", "bin/check.py"), i),
            "thorough_cmd": "python3 %s %s thorough" % (CHECKS[i].get("cmd", "bin/check.py"), i),
            "technique": CHECKS[i].get("technique", "stateless explicit enumeration of the real code against a reference model (bounded model checking by execution)"),
            "level": "model_checking",
            "level_note": "Exhaustive within bounds on the real, sanitized code: " + CHECKS[i]["how"] + ". " +
                          CHECKS[i].get("note", "Trusts the compiler, the sanitizer and the reference model; nothing is claimed outside the alphabet and bounds."),
        })
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
