#!/usr/bin/env python3
"""Development only: mutation survey of the checks.

mutate.py OUT N FILE[,FILE..] ID[,ID..]   N mutants spread over FILEs (under src/korin/core), each checked with the IDs until one notices.
Appends JSON lines to OUT; survivors are what to look at.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from registry import CHECKS
SWAP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" + ", " - "), (" - ", " + "), ("&&", "||"), ("||", "&&"),
        ("true", "false"), ("false", "true"), ("next", "prev"), ("prev", "next"), ("left", "right"), ("right", "left"), ("head", "tail"), ("tail", "head"),
        ("first", "second"), ("second", "first"), (" * ", " + "), (" / ", " * "), ("++", "--"), ("--", "++"), ("begin", "end"), ("end()", "begin()"), ("min(", "max("), ("max(", "min("),
        ("+=", "-="), ("-=", "+="), (">>", "<<"), ("<<", ">>"), (" & ", " | "), (" | ", " & "), ("!", ""), ("other.", "this->"), ("count", "capacity"), ("red", "black"),
        ("Left", "Right"), ("Right", "Left"), (" src", " dst"), (".x", ".y"), (".y", ".z"), (".z", ".x"), ("->x", "->y"), ("->w", "->z"), ("nullptr", "this")]


def candidates(path):
    res, comment = [], False
    lines = open(path, newline="").read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        if comment:
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template<", "using ", "friend ", "class ", "struct ", "public:", "private:", "protected:")):
            continue
        code = l.split("//")[0]
        for a, b in SWAP:
            for m in re.finditer(re.escape(a) if not a.isalpha() else r"\b%s\b" % a, code):
                if a == "!" and code[m.end():m.end() + 1] == "=":
                    continue
                if a in ("<=", ">=", "==") and code[m.end():m.end() + 1] in "=>":
                    continue
                res.append((i, code[:m.start()] + b + code[m.end():] + l[len(code):]))
        for m in re.finditer(r"(?<![\w.])([012])(?![\w.])", code):
            res.append((i, code[:m.start()] + {"0": "1", "1": "0", "2": "1"}[m.group(1)] + code[m.end():] + l[len(code):]))
        m = re.match(r"(\s*(?:else )?(?:if|while) \()(.*)(\).*)$", code)
        if m and "constexpr" not in code:
            for c in ("true", "false"):
                res.append((i, m.group(1) + c + " && 1" * (c == "true") + m.group(3)))
        if re.match(r"\s*[^=(]*[=(].*;\s*$", code) and not re.match(r"\s*(return|auto|const|constexpr|static|using|typename|else|for|if|while|\w+(<.*>)? [*&]?\s*\w+\s*[={(])", code):
            res.append((i, re.match(r"\s*", code).group(0) + ";"))
    return lines, res


def main():
    out, n, files, ids = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(","), sys.argv[4].split(",")
    rnd = random.Random(os.environ.get("MUT_SEED", "1") + sys.argv[3])
    allc = []
    for f in files:
        p = "/repo/src/korin/core/" + f
        lines, c = candidates(p)
        allc += [(f, lines, x) for x in c]
    rnd.shuffle(allc)
    t = tempfile.mkdtemp(prefix="mut-")
    shutil.copytree("/repo", t + "/repo", symlinks=True, ignore=shutil.ignore_patterns("_build", ".git"))
    env = dict(os.environ, KORIN_REPO=t + "/repo", MC_STALL="8", MC_BUDGET="90")
    done = 0
    seen = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            if d["verdict"] != "invalid":
                seen.add((d["file"], d["line"], d["new"].strip()))
    for f, lines, (i, new) in allc:
        if done >= n:
            break
        if (f, i + 1, new.strip()) in seen:
            done += 1
            continue
        p = t + "/repo/src/korin/core/" + f
        new_lines = list(lines)
        new_lines[i] = new
        open(p, "w", newline="").write("\n".join(new_lines))
        verdict, what = "survived", ""
        for pid in ids:
            r = subprocess.run([sys.executable, V + "/" + CHECKS[pid].get("cmd", "bin/check.py"), pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 2 and ("does not compile" in r.stdout):
                verdict = "invalid"
                break
            if r.returncode == 2:
                verdict = "no-answer"
                what = r.stdout[-300:]
                break
            if r.returncode == 1:
                verdict = pid
                what = ([x for x in r.stdout.split("\n") if x.startswith("scenario")] or ["?"])[0][:160]
                break
        if verdict != "invalid":
            done += 1
        with open(out, "a") as o:
            o.write(json.dumps({"file": f, "line": i + 1, "old": lines[i].strip(), "new": new.strip(), "verdict": verdict, "what": what}) + "\n")
        open(p, "w", newline="").write("\n".join(lines))
    shutil.rmtree(t)


main()
