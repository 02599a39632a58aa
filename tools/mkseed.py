#!/usr/bin/env python3
"""mkseed.py SPEC...: makes /verif/seeded/<id>/ from a spec (a Python file with
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PROG, DEMO), and confirms it:
the demonstration passes on /repo, and fails with the patch, with which the
build and the stable tests still pass.  Then runs the property's check."""
import sys, os, json, subprocess, shutil
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable():
    if sh("bash /opt/vp/build.sh").returncode: return "does not build"
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    a = set(json.load(open("/tmp/seed_t.json"))["passed"])
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return "" if b <= a else "tests fail: %s" % sorted(b - a)
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = "/verif/seeded/" + g["ID"]
    assert not sh("git status --porcelain").stdout
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/kit"): shutil.copytree("/verif/tools/demokit", d + "/kit", ignore=shutil.ignore_patterns("amm.rs" if g["PROG"] == "farming" else "farming.rs"))
    open(d + "/demo.rs", "w").write(g["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexec bash "$d/kit/run.sh" %s "$d/demo.rs"\n' % g["PROG"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        for p, a, b in g["EDITS"]:
            s = open(R + "/" + p).read()
            assert s.count(a) == 1, (p, a, s.count(a))
            open(R + "/" + p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        st = stable()
        bad = sh("bash %s/demo.sh" % d)
        ck = "" if "--nocheck" in sys.argv else subprocess.run("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py %s" % g["PROP"], shell=True, cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        sh("git checkout -- .")
    good = sh("bash %s/demo.sh" % d)
    print(g["ID"], g["PROP"], "| tests:", st or "ok", "| demo good", good.returncode, "bad", bad.returncode, "| check rc", ck and ck.returncode, flush=True)
    print("   demo with patch:", [l for l in bad.stdout.splitlines() if l][-3:], flush=True)
    if good.returncode: print("   demo without:", good.stdout[-600:])
    if ck: print("   check:", [l[:220] for l in ck.stdout.splitlines() if l][-3:], flush=True)
