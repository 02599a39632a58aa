#!/usr/bin/env python3
"""mutate.py REPO BUILD OUT N SEED [FILE-REGEX]: measures the harnesses.  Makes N
random one-line changes to the programs in the clone REPO, one after the
other, and runs every quick harness of the program until one of them reports a
violation.  A line per change goes to OUT; survivors are for a human to judge
(equivalent, outside all properties, or a gap).  No check uses this."""
import sys, os, re, json, random, subprocess, glob, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, B, OUT, N, SEED = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
RX = re.compile(sys.argv[6] if len(sys.argv) > 6 else ".")
JOBS = int(os.environ.get("MJOBS", "4"))
CAP = float(os.environ.get("MCAP", "45"))
os.environ["VERIF_REPO"], os.environ["VERIF_BUILD"] = R, B
sys.path.insert(0, V + "/lib")
import vbuild, props
SUBS = [(r"(?<![-=<>])<(?= )", "<="), (r" <= ", " < "), (r"(?<=[^-=]) >(?= )", " >="), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r"try_add\(", "try_sub("), (r"try_sub\(", "try_add("),
        (r"try_mul\(", "try_div("), (r"try_div\(", "try_mul("), (r"try_floor\(", "try_ceil("), (r"try_ceil\(", "try_floor("), (r"try_round\(", "try_floor("),
        (r"try_floor_u64|try_floor\(", "try_round("), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.rev\(\)", ""),
        (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"Some\((\w+)\) =>", r"Some(\1) if false =>"), (r"return Err\((.*)\);", "();"), (r"if (.*) \{$", r"if true || (\1) {"),
        (r"if (?!let)(.*) \{$", r"if false \&\& (\1) {"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"skip\(1\)", "skip(0)"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"checked_add", "checked_sub"), (r"\+=", "-="), (r"-=", "+=")]
def regions(src):
    """line numbers outside of tests, comments and attributes' documentation"""
    out, depth = [], None
    lines = src.split("\n")
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l): break
        t = l.strip()
        if not t or t.startswith("//") or t.startswith("use ") or t.startswith("@") or "msg!" in t: continue
        out.append(i)
    return lines, out
def candidates():
    c = []
    for f in sorted(glob.glob(R + "/programs/*/src/**/*.rs", recursive=True)):
        p = os.path.relpath(f, R)
        if "tests" in p or not RX.search(p): continue
        lines, ok = regions(open(f).read())
        for i in ok:
            for a, b in SUBS:
                for m in re.finditer(a, lines[i]):
                    n = lines[i][:m.start()] + m.expand(b) + lines[i][m.end():]
                    if n != lines[i]: c.append((p, i, 1, n))
            t = lines[i].strip()
            if t.endswith("?;") or re.match(r"[\w.*\[\]]+ [-+]?= .*;$", t): c.append((p, i, 1, ""))
            m = re.match(r"constraint = ", t)
            if m:  # up to the line that ends it
                k = i
                while k < i + 6 and not lines[k].rstrip().endswith((",", "]")): k += 1
                if lines[k].rstrip().endswith(","): c.append((p, i, k - i + 1, ""))
            if re.match(r"if .*\{$", t) and "else" not in t:  # the whole block, when it only returns
                k = i
                ind = len(lines[i]) - len(lines[i].lstrip())
                while k < len(lines) - 1 and not (lines[k].startswith(" " * ind + "}") and k > i): k += 1
                if lines[k].strip() == "}" and any("return" in x for x in lines[i:k]): c.append((p, i, k - i + 1, ""))
    return c
def harnesses(prog):
    hs = {}
    for pid, P in props.PROPS.items():
        if (pid[0] == "A") != (prog == "amm"): continue
        for e in P["quick"]:
            e = e if isinstance(e, tuple) else (e, {})
            w = 5.0
            try: w = json.load(open("%s/out/%s/%s.json" % (V + "/build", pid, e[0])))["wall_s"]
            except Exception: pass
            if e[0] not in hs: hs[e[0]] = (w, pid, P["harness"])
    return sorted(((w, n, pid, h) for n, (w, pid, h) in hs.items()))
def main():
    cs = candidates()
    random.Random(SEED).shuffle(cs)
    seen, done = set(), 0
    o = open(OUT, "a")
    for p, i, k, n in cs:
        if done >= N: break
        if (p, i) in seen: continue
        seen.add((p, i))
        prog = p.split("/")[1]
        f = R + "/" + p
        s = open(f).read()
        L = s.split("\n")
        old = "\n".join(L[i:i + k])
        L[i:i + k] = [n]
        open(f, "w").write("\n".join(L))
        try:
            hs = harnesses(prog)
            built, bad = {}, None
            for h in sorted({x[3] for x in hs}):
                r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,%r); import vbuild; print('OK', *vbuild.build(%r))" % (V + "/lib", h)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                m = re.search(r"^OK (\S+) ", r.stdout, re.M)
                if not m: bad = True; break
                built[h] = m.group(1)
            if bad: continue
            done += 1
            killed, open_ = None, []
            def one(x):
                w, name, pid, h = x
                if killed: return None
                j = "%s/mut_%s.json" % (B, name)
                if os.path.exists(j): os.unlink(j)
                subprocess.run([B + "/sx", "--bc", built[h], "--entry", name, "--time", str(CAP), "--out", j, "--max-viol", "1", "--t-bv", "5000", "--t-int", "10000"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try: d = json.load(open(j))
                except Exception: return (name, pid, "crash", "")
                if d["violations"]: return (name, pid, "V", d["violations"][0]["tag"])
                return (name, pid, "ok" if d["complete"] and not d["assert_unknown"] else "open", "")
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for r in ex.map(one, hs):
                    if not r: continue
                    if r[2] == "V" and not killed: killed = r
                    if r[2] in ("open", "crash"): open_.append(r[0])
            o.write(json.dumps({"at": "%s:%d" % (p, i + 1), "old": old.strip(), "new": n.strip(), "killed": killed, "open": open_}) + "\n")
            o.flush()
        finally:
            open(f, "w").write(s)
main()
