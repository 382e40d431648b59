#!/usr/bin/env python3
"""Planted bugs (development only; no check uses this).

seed.py make FILE.py   FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file under core, old, new)], DEMO (C++), opt. FLAGS
seed.py matrix [ID..]  runs the check of every planted bug's property against it, in a scratch copy
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# cwd: the repository. Builds demo.cpp against its sources in a scratch folder and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
C=$PWD/src/korin/core
g++ -std=c++17 -mavx2 -DPLATFORM_LINUX=1 -DBUILD_DEBUG -w %s -I"$C/public" "$D/demo.cpp" "$C"/private/*/*.cpp -o "$T/demo" -lpthread || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T/demo" 2>/dev/null
'''


def cmd_of(pid):
    sys.path.insert(0, V + "/bin")
    from registry import CHECKS
    return CHECKS[pid].get("cmd", "bin/check.py")


def sh(cmd, cwd=None, env=None, timeout=1800):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -9, "timeout"


class Copy:
    def __enter__(self):
        self.t = tempfile.mkdtemp(prefix="plant-")
        self.r = self.t + "/repo"
        shutil.copytree("/repo", self.r, symlinks=True, ignore=shutil.ignore_patterns("_build"))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.t, ignore_errors=True)

    def tests(self):
        for f in ("configure.sh", "test.sh"):
            s = open("/opt/vp/" + f).read().replace("/repo", self.r).replace(". /opt/vp/configure.sh", ". %s/configure.sh" % self.t)
            open(self.t + "/" + f, "w").write(s)
        rc, out = sh(["bash", self.t + "/test.sh", self.t + "/t.json"])
        try:
            return STABLE - set(json.load(open(self.t + "/t.json"))["passed"]), out
        except Exception:
            return STABLE, out


def make(path):
    g = {"FLAGS": "-O1 -g -fsanitize=address"}
    exec(open(path).read(), g)
    d = V + "/seeded/" + g["ID"]
    with Copy() as c:
        for f, old, new in g["EDITS"]:
            p = c.r + "/src/korin/core/" + f
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf:
                s = s.replace("\r\n", "\n")
            if s.count(old) != 1:
                sys.exit("%s: %d matches for %r" % (f, s.count(old), old))
            s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        patch = subprocess.check_output(["git", "-C", c.r, "diff"], text=False)
        if not patch:
            sys.exit("empty patch")
        base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"])[1].split()[0] if not os.path.exists("/tmp/base") else open("/tmp/base").read().strip()
        lines = set()
        for f, _, _ in g["EDITS"]:
            lines |= set(x.strip() for x in sh(["git", "-C", "/repo", "show", base + ":" + os.path.normpath("src/korin/core/" + f)])[1].splitlines())
        minus = [l[1:].strip() for l in patch.decode(errors="replace").splitlines() if l.startswith("-") and not l.startswith("---")]
        print("%s: removed lines not original: %s" % (g["ID"], [l for l in minus if l not in lines]))
        failing, out = c.tests()
        if failing:
            print(out[-3000:])
            sys.exit("%s: existing tests notice: %s" % (g["ID"], sorted(failing)))
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(patch)
        open(d + "/demo.sh", "w").write(g.get("DEMO_SH") or DEMO % g["FLAGS"])
        for n, t in g.get("FILES", {}).items():
            open(d + "/" + n, "w").write(t)
        open(d + "/demo.cpp", "w").write(g["DEMO"].lstrip())
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        a, ao = sh(["bash", d + "/demo.sh"], cwd="/repo")
        b, bo = sh(["bash", d + "/demo.sh"], cwd=c.r)
        ok = a == 0 and b not in (0, 3)
        if not ok:
            print(ao[-2000:], bo[-2000:])
            shutil.rmtree(d)
        rc, out = sh([sys.executable, V + "/" + cmd_of(g["PROPERTY"]), g["PROPERTY"], "quick"], env=dict(os.environ, KORIN_REPO=c.r))
        print("%s: demo %d/%d %s; check %s exit %d: %s" % (g["ID"], a, b, "ok" if ok else "BAD DEMO, NOT KEPT", g["PROPERTY"], rc,
              (re.findall(r"^scenario .*|^ERROR.*", out, re.M) or ["(see check output)" if rc == 1 else "MISSED"])[0][:200]), flush=True)


def matrix(ids):
    ids = ids or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        m = json.load(open(V + "/seeded/%s/meta.json" % i))
        with Copy() as c:
            rc, out = sh(["git", "apply", V + "/seeded/%s/patch.diff" % i], cwd=c.r)
            if rc:
                print(i, "patch does not apply", out)
                continue
            rc, out = sh([sys.executable, V + "/" + cmd_of(m["property"]), m["property"], "quick"], env=dict(os.environ, KORIN_REPO=c.r))
            print("%-28s %s exit %d  %s" % (i, m["property"], rc, (re.findall(r"^scenario .*|^ERROR.*", out, re.M) or ["(see check output)" if rc == 1 else "MISSED"])[0][:160]), flush=True)


if sys.argv[1] == "make":
    for p in sys.argv[2:]:
        make(p)
else:
    matrix(sys.argv[2:])
