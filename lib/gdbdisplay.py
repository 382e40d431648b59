# Runs inside gdb: displays every object of every table of the debuggee and compares the text with
# the one its model gives. Writes a JSON summary to $KORIN_OUT.
import gdb, hashlib, json, os, re

NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def matches(expected, got):
    """<n> stands for a capacity of at least n; ~x for a number near x; ~? for any number"""
    pat, want, pos = "", [], 0
    for m in re.finditer(r"<(\d+)>|~(%s|\?)" % NUM, expected):
        pat += re.escape(expected[pos:m.start()]) + "(" + (r"\d+" if m.group(1) else NUM) + ")"
        want.append((m.group(1) is not None, m.group(2) != "?" and float(m.group(1) or m.group(2))))
        pos = m.end()
    pat += re.escape(expected[pos:])
    g = re.fullmatch(pat, got, re.S)
    if not g:
        return False
    for (cap, w), t in zip(want, g.groups()):
        if w is False:
            continue
        v = float(t)
        if not (v >= w if cap else abs(v - w) <= 2e-3 * max(1.0, abs(w))):
            return False
    return True


def main():
    res = {"tables": {}, "failure": None, "samples": [], "texts": 0}
    for c in ("set pagination off", "set disable-randomization off", "set confirm off", "set width 0",
              "set print elements unlimited", "set print repeats unlimited", "set print max-depth unlimited",
              "set print pretty off", "set debuginfod enabled off", "set language c++"):
        try:
            gdb.execute(c, to_string=True)
        except gdb.error:
            pass
    gdb.execute("break stop_here", to_string=True)
    gdb.execute("run" + (" thorough" if os.environ.get("KORIN_THOROUGH") else ""), to_string=True)
    gdb.execute("up", to_string=True)
    only = os.environ.get("KORIN_ONLY")
    part, parts = map(int, os.environ.get("KORIN_PART", "0/1").split("/"))
    seen = set()
    res["transitions"] = int(gdb.parse_and_eval("transitions"))
    for name in gdb.parse_and_eval("table_names").string().split():
        t = gdb.parse_and_eval(name)
        n, items, texts = int(t["n"]), t["items"], t["texts"]
        count = 0
        for i in range(part, n, parts):
            if only and only != "%s:%d" % (name, i):
                continue
            v = items[i].dereference()
            exp = texts[i].string(encoding="latin-1")
            shown = []
            # as a value, as printed by a command, and through a reference
            try:
                shown.append(("display", v.format_string()))
                if (i // parts) % 16 == 0 or only:
                    out = gdb.execute("print *%s.items[%d]" % (name, i), to_string=True)
                    shown.append(("print", re.sub(r"^\$\d+ = ", "", out.rstrip("\n"))))
                    if gdb.default_visualizer(v):     # (gdb shows other objects by address)
                        shown.append(("reference", re.sub(r"^@0x[0-9a-f]+: ", "", v.reference_value().format_string())))
            except Exception as e:      # any error is what a user would see in place of the value
                shown.append(("display", "<%s: %s>" % (type(e).__name__, e)))
            count += 1
            seen.add(exp)
            for how, got in shown:
                res["texts"] += 1
                if not matches(exp, got) and res["failure"] is None:
                    res["failure"] = {"table": name, "index": i, "how": how, "expected": exp, "got": got}
            if count == 3 and len(res["samples"]) < 40:
                res["samples"].append("%s[%d]: %s" % (name, i, shown[0][1][:200]))
            if res["failure"]:
                break
        res["tables"][name] = count
        if res["failure"]:
            break
    res["distinct"] = sorted(hashlib.md5(s.encode()).hexdigest()[:12] for s in seen)
    with open(os.environ["KORIN_OUT"], "w") as f:
        json.dump(res, f)
    gdb.execute("kill", to_string=True)


main()
