#!/usr/bin/env python3
"""C25: has gdb display every object that the debuggee harness/c25_gdb.cpp builds.

usage: gdbcheck.py C25 [quick|thorough] ; gdbcheck.py --replay FILE
Exit codes as for check.py.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check

PARTS = 8
PRINTERS = check.REPO + "/extras/gdb/types.py"


def build(tmp):
    cfg = dict(check.CHECKS["C25"])
    try:
        b = check.build(cfg, tmp)[0]
    except check.Rejected as e:
        check.die("harness does not compile against the current tree: " + e.args[1])
    if not os.path.exists(PRINTERS):
        check.die(PRINTERS + " is missing")
    shutil.copy(PRINTERS, b + "-gdb.py")        # where gdb looks for an object file's printers
    return b


def display(b, tmp, part, parts, tier, only=None):
    out = "%s/out%d.json" % (tmp, part)
    env = dict(os.environ, KORIN_OUT=out, KORIN_PART="%d/%d" % (part, parts), LC_ALL="C.UTF-8", HOME=tmp, PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", **({"KORIN_THOROUGH": "1"} if tier == "thorough" else {}), **({"KORIN_ONLY": only} if only else {}))
    try:
        r = subprocess.run(["gdb", "-nx", "-batch", "-iex", "set auto-load safe-path " + tmp, "-x", check.VERIF + "/lib/gdbdisplay.py", b],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=600 if tier == "quick" else 3000)
        text, timeout = r.stdout, False
    except subprocess.TimeoutExpired as e:
        text, timeout = str(e.stdout), True
    return (json.load(open(out)) if os.path.exists(out) else None), text, timeout


def main():
    t0 = time.time()
    if sys.argv[1] == "--replay":
        f = open(sys.argv[2]).read()
        g = lambda k: re.search(r"^%s: (.*)$" % k, f, re.M).group(1)
        tmp = tempfile.mkdtemp(prefix="korin-mc-C25-")
        try:
            res, text, _ = display(build(tmp), tmp, 0, 1, g("tier"), g("object"))
            print(json.dumps(res["failure"], indent=1) if res else text)
            return 1 if not res or res["failure"] else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tmp = tempfile.mkdtemp(prefix="korin-mc-C25-")
    try:
        b = build(tmp)
        tb = time.time() - t0
        plain = subprocess.run([b] + (["thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if plain.returncode != 0:
            print(plain.stdout[-3000:])
            check.die("the debuggee does not run to its end by itself (exit %d): not a matter of its display" % plain.returncode)
        probe = subprocess.run(["gdb", "-nx", "-batch", "-iex", "set auto-load off", "-ex", "set disable-randomization off", "-ex", "break stop_here", "-ex", "run", "-ex", "echo OK-STOPPED\\n", "-ex", "bt", b],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, HOME=tmp), timeout=600)
        if "stop_here" not in probe.stdout.split("OK-STOPPED")[-1]:
            print(probe.stdout[-3000:])
            check.die("gdb cannot run a program here")
        with ThreadPoolExecutor(PARTS) as ex:
            all_ = list(ex.map(lambda p: display(b, tmp, p, PARTS, tier), range(PARTS)))
        failure = None
        for res, text, timeout in all_:
            if timeout:
                failure = failure or ("-", "displaying the objects does not end", text)
            elif res is None:
                failure = failure or ("-", "the displays cannot be loaded or used: " + text.strip()[-300:], text)
            elif res["failure"]:
                x = res["failure"]
                failure = failure or ("%s:%d" % (x["table"], x["index"]), "%s of %s[%d] is %r, expected %r" % (x["how"], x["table"], x["index"], x["got"], x["expected"]), json.dumps(x, indent=1))
        ok = [r for r, _, _ in all_ if r]
        tables = {}
        for r in ok:
            for k, n in r["tables"].items():
                tables[k] = tables.get(k, 0) + n
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": {"states": len(set(h for r in ok for h in r["distinct"])), "transitions": ok[0]["transitions"] if ok else 0,
                           "traces_validated_against_impl": sum(tables.values()), "oracle_comparisons": sum(r["texts"] for r in ok),
                           "samples": ok[0]["samples"] if ok else ["none"], "exhaustive": not failure, "objects_per_table": tables,
                           "how": check.CHECKS[pid]["how"], "build_s": round(tb, 1)},
              "assumptions": ["gdb 15.1 with its default settings but for limits on length, which are lifted",
                              "states: distinct displayed texts; transitions: operations executed to build the objects; traces: objects displayed by gdb",
                              "nothing is claimed beyond the stated types and bounds"],
              "violations": 1 if failure else 0, "wall_s": round(time.time() - t0, 2)}
        os.makedirs(check.VERIF + "/evidence", exist_ok=True)
        with open(check.VERIF + "/evidence/%s.json" % pid, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        c = ev["coverage"]
        print("%s %s: %d objects, %d states, %d transitions, %d comparisons in %.1f s (build %.1f s)%s" % (
            pid, tier, c["traces_validated_against_impl"], c["states"], c["transitions"], c["oracle_comparisons"], ev["wall_s"], tb, " - VIOLATED" if failure else ""))
        if failure:
            obj, what, text = failure
            os.makedirs(check.VERIF + "/replays", exist_ok=True)
            rp = check.VERIF + "/replays/%s.txt" % pid
            with open(rp, "w") as f:
                f.write("property: %s\nobject: %s\ntier: %s\nwhat: %s\nreplay with: python3 bin/gdbcheck.py --replay %s\n\n%s\n" % (pid, obj, tier, what.replace("\n", " "), rp, text))
            print(what)
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
