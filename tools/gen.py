#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = sorted(PROPS, key=lambda p: p["json"]["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in ps:
        j = p["json"]
        assert len(j["title"]) <= 80, j["title"]
        assert j["statement"].replace("e.g.", "").count(". ") <= 2, (j["id"], j["statement"])
        f.write(json.dumps(j) + "\n")
m = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": [], "not_applicable": []}
for p in ps:
    i = p["json"]["id"]
    if p["check"]:
        m["checks"].append({"property": i, "quick_cmd": "python3 sa/check.py %s" % i, "thorough_cmd": "python3 sa/check.py %s --thorough" % i,
                            "technique": p["check"], "level": "other", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": p["na"]})
m["notes"] = ("Static analysis only: every check compiles the current /repo sources to LLVM IR and decides its obligations on that; the program is never run. "
              "Recorded findings: known-findings.txt.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
