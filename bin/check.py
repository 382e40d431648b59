#!/usr/bin/env python3
"""Builds and runs one property's exhaustive harness against /repo's working tree.

usage: check.py ID [quick|thorough]

exit 0: property held on everything explored; exit 1 + "VIOLATION property=ID replay=PATH";
exit 2: the check itself could not run (reported as such, never as a pass).
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KORIN_REPO", "/repo")
CORE = REPO + "/src/korin/core"
sys.path.insert(0, VERIF + "/bin")
from registry import CHECKS

LIB = sorted(os.path.relpath(os.path.join(d, f), CORE) for d, _, fs in os.walk(CORE + "/private")
             for f in fs if f.endswith((".cpp", ".cxx", ".c")))
BASE = ["-std=c++17", "-mavx2", "-DPLATFORM_LINUX=1", "-DBUILD_DEBUG", "-w", "-I" + CORE + "/public",
        "-I" + VERIF + "/lib"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=return",
       "-fno-sanitize-recover=all"]
JOBS = int(os.environ.get("MC_JOBS", "8"))
STALL = int(os.environ.get("MC_STALL", "60"))         # seconds without progress before a case is suspected to hang
STALL_REPLAY = 3 * STALL # the same for the confirming replay, run alone
# Seconds after which an exploration that has grown out of proportion stops (many times what it takes)
BUDGET = {"quick": int(os.environ.get("MC_BUDGET", "600")), "thorough": int(os.environ.get("MC_BUDGET", "6000"))}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:hard_rss_limit_mb=6000:"
           "allocator_may_return_null=0:detect_stack_use_after_return=0:abort_on_error=0:print_summary=1:"
           "detect_container_overflow=0:quarantine_size_mb=64",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", LC_ALL="C")


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(args):
    r = run(args)
    return r.returncode, " ".join(args), r.stdout


class Rejected(Exception):
    """An operation the harness uses is offered by the library, but its body no longer compiles for that use"""


def rejected(out):
    """The first compile error, if it lies in the body of one of the library's own headers; a harness that names
    something that is gone fails in its own text, which is the check's trouble and no violation"""
    first = next((l for l in out.split("\n") if re.search(r":\d+(:\d+)?: (fatal )?error: ", l)), "")
    gone = re.search(r"No such file|has no member|not declared|is not a member|has not been declared|does not name a type|is private|is protected|inaccessible|undefined template", first)
    return first if os.path.abspath(first.split(":")[0]).startswith(os.path.abspath(CORE + "/public") + "/") and not gone else None


def build(cfg, tmp):
    """-> list of binaries, one per harness source"""
    jobs, objs_lib = [], []
    flags = cfg.get("flags", SAN)
    cc = ["g++"] + BASE + flags + cfg.get("extra", [])
    if cfg.get("lib", True):
        for i, f in enumerate(LIB):
            p = CORE + "/" + f
            if not os.path.exists(p):
                die("library source %s is missing" % p)
            o = "%s/lib%d.o" % (tmp, i)
            jobs.append(cc + cfg.get("libflags", []) + ["-c", p, "-o", o])
            objs_lib.append(o)
    mains = []
    for i, s in enumerate(cfg["src"]):
        o = "%s/main%d.o" % (tmp, i)
        mains.append((o, "%s/bin%d" % (tmp, i)))
        jobs.append(cc + ["-c", VERIF + "/harness/" + s, "-o", o])
    for s in cfg.get("aux", []):      # runtime parts that must not be instrumented
        o = "%s/aux_%s.o" % (tmp, s.replace(".", "_"))
        objs_lib.append(o)
        jobs.append(["g++"] + BASE + ["-O2", "-g1", "-c", VERIF + "/harness/" + s, "-o", o])
    with ThreadPoolExecutor(JOBS) as ex:
        for rc, cmd, out in ex.map(compile_one, jobs):
            if rc != 0:
                if "/harness/" in cmd and rejected(out):
                    raise Rejected(cmd, rejected(out), out)
                print(out[-6000:])
                die("harness does not compile against the current tree: " + cmd)
    link = cfg.get("link", ["g++"] + flags)
    bins = []
    for o, b in mains:
        r = run(link + [o] + objs_lib + ["-o", b] + cfg.get("ldlibs", []))
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die("link failed")
        bins.append(b)
    return bins


def read_shared(path):
    try:
        d = open(path, "rb").read()
        hb, n = struct.unpack_from("QQ", d, 0)
        n = min(n, 4096)
        return hb, list(struct.unpack_from("%di" % n, d, 16))
    except Exception:
        return 0, []


def watch(cmd, shared, logpath, stall, stop=None):
    """-> (rc or None if it stalled or was stopped, output, stalled)"""
    with open(logpath, "wb") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        last, since = None, time.time()
        cpu_last = 0.0
        stalled = False
        while True:
            try:
                p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            if stop and stop():
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                return None, "", False
            if os.path.getsize(logpath) > 64 << 20:     # runaway output
                os.killpg(p.pid, signal.SIGKILL); p.wait(); stalled = True
                break
            hb = read_shared(shared)[0]
            if hb != last:
                last, since = hb, time.time()
                cpu_last = cpu(p.pid)
            elif time.time() - since > stall and cpu(p.pid) - cpu_last > stall * 0.5:
                # no progress although the process really ran for that long
                os.killpg(p.pid, signal.SIGKILL); p.wait(); stalled = True
                break
            elif time.time() - since > 8 * stall:       # blocked without using CPU: a deadlock
                os.killpg(p.pid, signal.SIGKILL); p.wait(); stalled = True
                break
    with open(logpath, "rb") as f:
        out = f.read(200000).decode(errors="replace")
    return (None if stalled else p.returncode), out, stalled


def cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


def findings(pid):
    """known-findings file: 'known: property=ID key=KEY text' lines suppress exactly KEY"""
    res = {}
    try:
        for line in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return res


def summarize(out):
    m = re.search(r"MC-FAIL (.*)", out)
    if m:
        return m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", out)
    if m:
        return "memory error: " + re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))
    m = re.search(r"runtime error: ([^\n]*)", out)
    if m:
        return "undefined behaviour: " + m.group(1)
    return "abnormal termination"


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py ID [quick|thorough]")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[pid]
    t0 = time.time()
    known = findings(pid)
    tmp = tempfile.mkdtemp(prefix="korin-mc-%s-" % pid)
    evid = VERIF + "/evidence/%s.json" % pid
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    try:
        rc = body(pid, tier, seed, cfg, t0, known, tmp, evid)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def body(pid, tier, seed, cfg, t0, known, tmp, evid):
    try:
        bins = build(cfg, tmp)
    except Rejected as e:
        cmd, first, out = e.args
        if os.path.exists(evid):
            os.remove(evid)
        what = "a use that the property covers does not compile: " + first[:300]
        os.makedirs(VERIF + "/replays", exist_ok=True)
        rp = VERIF + "/replays/%s.txt" % pid
        with open(rp, "w") as f:
            f.write("property: %s\nharness: harness/%s\nscenario: -\nchoices: -\ntier: %s\nwhat: %s\nreplay with: %s\n\n%s\n"
                    % (pid, cfg["src"][0], tier, what, re.sub(r" -o \S+", " -fsyntax-only", cmd), out[-12000:]))
        print(what)
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    ENV["MC_DEADLINE"] = str(int(t0 + BUDGET[tier]))
    tb = time.time() - t0
    common = (["--thorough"] if tier == "thorough" else []) + [x for k in known for x in ("--known", k)]
    tasks = []
    for bi, b in enumerate(bins):
        r = run([b, "--list"] + common, env=ENV)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            die("harness cannot list its scenarios")
        for line in r.stdout.split("\n"):
            if not line.strip():
                continue
            name, n = line.rsplit(" ", 1)
            n = int(n)
            for s in range(n):
                tasks.append((b, cfg["src"][bi], name, s, n))
    if not tasks:
        die("no scenarios")
    failed = []
    results = []

    def one(i):
        b, src, name, s, n = tasks[i]
        shared, outp, log = ("%s/%d.%s" % (tmp, i, x) for x in ("shm", "out", "log"))
        open(shared, "wb").close()
        cmd = [b, "--scenario", name, "--shard", str(s), "--nshards", str(n), "--out", outp, "--shared", shared] + common
        t1 = time.time()
        rc, out, stalled = watch(cmd, shared, log, STALL, lambda: bool(failed))
        if rc == 0 and not stalled:
            res = json.load(open(outp))
            res["wall"] = time.time() - t1
            return i, res, None
        if rc is None and not stalled:
            return i, None, None
        info = (i, rc, out, stalled, read_shared(shared)[1])
        failed.append(info)
        return i, None, info

    with ThreadPoolExecutor(JOBS) as ex:
        for f in as_completed([ex.submit(one, i) for i in range(len(tasks))]):
            i, res, info = f.result()
            if res:
                results.append(res)

    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["executions"] for r in results),
        "oracle_comparisons": sum(r["checks"] for r in results),
        "cases_inside_executions": sum(r["evals"] for r in results),
        "pruned_as_already_explored": sum(r["pruned"] for r in results),
        "samples": sum((r["samples"][:2] for r in sorted(results, key=lambda r: r["scenario"])), [])[:40],
        "exhaustive": not failed and not any(r["truncated"] for r in results),
        "scenarios": {},
        "how": cfg["how"],
        "build_s": round(tb, 1),
    }
    for r in results:
        sc = cov["scenarios"].setdefault(r["scenario"], {"executions": 0, "states": 0, "transitions": 0, "wall_s": 0,
                                                         "distinct_outcomes_per_shard_max": 0})
        for k in ("executions", "states", "transitions"):
            sc[k] += r[k]
        sc["wall_s"] = round(sc["wall_s"] + r["wall"], 1)
        sc["distinct_outcomes_per_shard_max"] = max(sc["distinct_outcomes_per_shard_max"], r["outcomes"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS, "violations": 0}

    verdict, line = 0, None
    if failed:
        i, rc, out, stalled, path = sorted(failed)[0]
        b, src, name, s, n = tasks[i]
        what = "execution does not terminate (no progress for %d s)" % STALL if stalled else summarize(out)
        # Replay alone, with a longer limit, before reporting
        shared = tmp + "/replay.shm"
        open(shared, "wb").close()
        cmd = [b, "--scenario", name, "--replay", ",".join(map(str, path)) or " ", "--shared", shared] + common
        rrc, rout, rstalled = watch(cmd, shared, tmp + "/replay.log", STALL_REPLAY)
        confirmed = rstalled or rrc != 0
        if not confirmed:
            # State-dependent (e.g. heap corruption carried over from an earlier case): the whole
            # deterministic exploration has to fail again
            cmd2 = [b, "--scenario", name, "--shard", str(s), "--nshards", str(n), "--shared", shared,
                    "--out", tmp + "/again.out"] + common
            rrc, rout, rstalled = watch(cmd2, shared, tmp + "/again.log", STALL_REPLAY)
            confirmed = rstalled or rrc != 0
            rout = "(single-case replay passed; the whole deterministic exploration fails again)\n" + rout
        if not confirmed:
            print(out[-3000:])
            die("a failure of scenario %s did not reproduce; not reported" % name)
        if "internal: " in what:
            print(out[-3000:])
            die("explorer error: " + what)
        os.makedirs(VERIF + "/replays", exist_ok=True)
        rp = VERIF + "/replays/%s.txt" % pid
        with open(rp, "w") as f:
            f.write("property: %s\nharness: harness/%s\nscenario: %s\nchoices: %s\ntier: %s\nwhat: %s\n"
                    "replay with: python3 bin/replay.py %s\n\n--- replay ---\n%s\n"
                    % (pid, src, name, ",".join(map(str, path)), tier, what, rp, rout[-12000:]))
        print("scenario %s: %s" % (name, what))
        print("\n".join(rout.split("\n")[:40])[:3000])
        ev["violations"] = 1
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        verdict = 1
    hit = set(k for r in results for k in r["known"])
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(evid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    print("%s %s: %d executions, %d states, %d transitions, %d comparisons in %.1f s (build %.1f s)%s" % (
        pid, tier, cov["traces_validated_against_impl"], cov["states"], cov["transitions"],
        cov["oracle_comparisons"], ev["wall_s"], tb, "" if not verdict else " - VIOLATED"))
    for n in sorted(set(r["scenario"] for r in results if r["truncated"])):
        print("scenario %s was stopped at its time limit: not exhaustive" % n)
    if line:
        print(line, flush=True)
    return verdict


COMMON_ASSUMPTIONS = [
    "g++ 13 on x86-64 Linux with the flags in bin/check.py (AddressSanitizer build of the real sources)",
    "states: distinct canonical states where a scenario prunes on state, otherwise distinct nodes of the choice tree",
    "nothing is claimed beyond the stated alphabet and bounds",
]

if __name__ == "__main__":
    main()
