#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import props
with open(V + "/properties.jsonl", "w") as f:
    for i, p in list(props.PROPS.items()) + list(getattr(props, "UNCLAIMED", {}).items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"], "why_tests_cant": p["why_tests_cant"], "anchors": p["anchors"]}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py setup",
     "hooks": {"guard": "none", "enable": "no hooks: /repo's sources are compiled as they are", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "model_checking",
                 "level_note": "Holds for every input within: %s. Not covered: %s. %sTrusts the executor and z3, the runtime model (rust/world) and the decimal stand-in (rust/decimal)." % (p["bounds"], p["outside"], p["note"] + " " if p["note"] else "")} for i, p in props.PROPS.items()],
     "not_applicable": [{"property": i, "reason": r} for i, r in props.NOT_APPLICABLE.items()],
     "notes": "See DESIGN.md. No hooks in /repo; its 'fix:' commits are listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
