#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, H)
import props
with open(V + "/properties.jsonl", "w") as f:
    for i, p in props.P.items():
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash engine/build.sh",
     "checks": [{"property": i, "quick_cmd": "python3 vf/check.py %s --tier quick" % i, "thorough_cmd": "python3 vf/check.py %s --tier thorough" % i, "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for i, p in props.P.items() if i not in props.NA],
     "not_applicable": [{"property": i, "reason": r} for i, r in props.NA.items()],
     "notes": "tools/gen.py writes this file and properties.jsonl from tools/props.py; see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
