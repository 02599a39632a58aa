#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property.

exit 0  every harness explored completely, no violation
exit 1  VIOLATION (a solver model, confirmed by running the compiled code)
exit 2  no answer (build failure, incomplete exploration, unconfirmed model)
"""
import os, sys, json, time, subprocess, argparse, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import vbuild, props

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only")
ap.add_argument("--jobs", type=int, default=8)
a = ap.parse_args()
P = props.PROPS[a.prop]
tier = a.tier if a.tier in ("quick", "thorough") else "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
EV = V + "/evidence"
os.makedirs(EV, exist_ok=True)
t0 = time.time()
WORK = "%s/out/%s" % (vbuild.B, a.prop)

bc, so, tb = vbuild.build(P["harness"])
print("built %s in %.0f s" % (P["harness"], tb))
os.makedirs(WORK, exist_ok=True)

ents = P["quick"] + (P.get("thorough", []) if tier == "thorough" else [])
ents = [e if isinstance(e, tuple) else (e, {}) for e in ents]
if a.only:
    ents = [e for e in ents if e[0] in a.only.split(",")]
SX, RUN = vbuild.B + "/sx", vbuild.B + "/runner"

def native(entry, model, timeout=60):
    s = "".join("%s %s\n" % kv for kv in model.items())
    try:
        r = subprocess.run([RUN, so, entry], input=s, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        out = r.stdout.split("\n")
    except subprocess.TimeoutExpired:
        return [], "timeout"
    obs, end = [], "crash"
    for l in out:
        if l.startswith("obs "):
            n, v = l[4:].rsplit(" ", 1); obs.append([n, v])
        elif l.startswith("end "):
            end = l[4:]
    return obs, end

def one(e):
    name, o = e
    j, m = "%s/%s.json" % (WORK, name), "%s/%s.models" % (WORK, name)
    for f in (j, m):
        if os.path.exists(f): os.unlink(f)
    limit = o.get("time", 300 if tier == "quick" else 3000)
    cmd = [SX, "--bc", bc, "--entry", name, "--time", str(limit), "--out", j, "--models", m, "--max-models", "48", "--max-viol", "4",
           "--t-bv", str(o.get("tbv", 20000)), "--t-int", str(o.get("tint", 60000))] + o.get("args", [])
    if tier == "thorough" and o.get("crosscheck", True): cmd.append("--crosscheck")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(j):
        return name, o, None, [], r.stdout[-500:]
    d = json.load(open(j))
    val = []
    if os.path.exists(m):
        for l in open(m):
            x = json.loads(l)
            obs, end = native(name, x["model"])
            want = [[n, str(v)] for n, v in x["obs"]]
            ok = obs == want and (end == x["end"] or (x["end"].startswith("panic") and end.startswith("panic")) )
            val.append((ok, x, obs, end))
    return name, o, d, val, r.stdout[-500:]

known = []
kf = V + "/known_findings.txt"
if os.path.exists(kf):
    for l in open(kf):
        if l.startswith("known: "):   # known: property=<id> entry=<h> tag=<tag> :: what fails
            head, what = l[7:].split("::", 1)
            known.append((dict(x.split("=", 1) for x in head.split()), what.strip()))

res, viol, incon, seen_known = [], [], [], []
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for name, o, d, val, log in ex.map(one, sorted(ents, key=lambda e: -e[1].get("w", 1))):
        if d is None:
            incon.append("%s: executor failed: %s" % (name, log)); continue
        print("%-34s %s paths=%d panics=%d killed=%d asserts=%d/%d queries=%d solver=%.1fs wall=%.1fs native=%d%s" % (
            name, "complete" if d["complete"] else "INCOMPLETE", d["paths"], d["panics"], d["assume_killed"], d["asserts"], d["asserts_solver"],
            d["queries"], d["solver_s"], d["wall_s"], sum(v[0] for v in val), " VIOL" if d["violations"] else ""))
        for v in d["violations"]:
            obs, end = native(name, v["model"])
            kind = end.split(" ", 1)
            confirmed = (end == "assert " + v["tag"]) or (end.startswith("panic") and v["kind"].startswith("panic")) or (end.startswith("assert ") and v["kind"] == "assert")
            tag = kind[1] if end.startswith("assert ") else v["tag"]
            k = [w for h, w in known if h.get("property") == a.prop and h.get("entry") == name and h.get("tag") == tag.replace(" ", "_")]
            if not confirmed:
                incon.append("%s: model for '%s' does not reproduce natively (%s)" % (name, v["tag"], end))
            elif k:
                seen_known.append((name, tag, k[0]))
            else:
                viol.append((name, v, obs, end))
        bad = [x for x in val if not x[0]]
        if bad:
            incon.append("%s: executor and native run disagree: %s native=%s %s" % (name, json.dumps(bad[0][1])[:800], bad[0][2], bad[0][3]))
        if not d["violations"]:
            if not d["complete"] or d["errors"] or d["assert_unknown"]:
                incon.append("%s: not decided (complete=%s errors=%d %s unknown=%d timeout=%s fatal=%s)" % (name, d["complete"], d["errors"], list(d["error_msgs"].items())[:3], d["assert_unknown"], d["timeout"], d["fatal"]))
            for c in o.get("covers", ["ok"]):
                if not d["covers"].get(c): incon.append("%s: vacuous, '%s' never reached" % (name, c))
        res.append((name, d, val))

S = lambda k: sum(d[k] for _, d, _ in res)
fns = sorted({f.rsplit("::h", 1)[0] for _, d, _ in res for f in d["functions"]})
lines = {}
for _, d, _ in res:
    for f, ls in d["lines"].items():
        k = f[f.find("programs/"):] if "programs/" in f else f
        lines.setdefault(k, set()).update(ls)
samples = []
for n, d, val in res:
    for ok, x, obs, end in val[:2]:
        samples.append({"entry": n, "input": x["model"], "observed": x["obs"], "end": x["end"], "native_agrees": ok})
ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
      "coverage": {
          "states": S("paths") + S("panics"), "transitions": S("steps"),
          "traces_validated_against_impl": sum(1 for _, _, v in res for x in v if x[0]), "samples": samples[:12],
          "explanation": "states = symbolic paths explored to their end (each stands for every input meeting its path condition); transitions = IR instructions executed symbolically",
          "bounds": P["bounds"], "outside_bounds": P.get("outside", ""),
          "harnesses": [{"entry": n, "complete": d["complete"], "paths": d["paths"], "aborted_paths": d["panics"], "symbols": d["symbols"], "assertions": d["assert_tags"], "reached": d["covers"],
                         "queries": d["queries"], "sat": d["sat"], "unsat": d["unsat"], "solver_s": round(d["solver_s"], 2), "wall_s": round(d["wall_s"], 2)} for n, d, _ in res],
          "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
          "asserts_checked": S("asserts"), "asserts_needing_solver": S("asserts_solver"), "branches_undecided_both_sides_explored": S("branch_unknown"), "paths_without_concrete_model": S("ghost_paths"),
          "functions_encoded": fns, "source_lines_executed": {k: len(v) for k, v in sorted(lines.items())}},
      "assumptions": props.COMMON + P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
json.dump(ev, open("%s/%s.json" % (EV, a.prop), "w"), indent=1)

for n, t, w in {(n, t, w) for n, t, w in seen_known}:
    print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
if viol:
    for i, (name, v, obs, end) in enumerate(viol):
        path = "%s/replay-%s-%d.json" % (EV, a.prop, i)
        json.dump({"property": a.prop, "entry": name, "assertion": v["tag"], "where": v["where"], "input": v["model"], "native_outcome": end, "native_observations": obs,
                   "replay": "printf '%%s' '<name value lines of input>' | %s %s %s" % (RUN, so, name)}, open(path, "w"), indent=1)
        print("%s: %s (%s) input=%s" % (name, v["tag"], end, json.dumps(v["model"])[:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    sys.exit(1)
if incon:
    for x in incon: print("NO ANSWER: " + x)
    sys.exit(2)
print("OK property=%s: held on everything explored (%d harnesses, %d paths, %d queries, %.1f s solver, %.0f s)" % (a.prop, len(res), S("paths"), S("queries"), S("solver_s"), time.time() - t0))
