#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from checks/about.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.dont_write_bytecode = True
import about  # noqa: E402


def line(pid, p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("observe"):
        a["observe_at"] = list(p["observe"])
    a["hook_needed"] = None
    return {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}


with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid in sorted(list(about.A) + list(about.NA)):
        f.write(json.dumps(line(pid, about.A.get(pid) or about.NA[pid])) + "\n")
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hooks: the checks read the unmodified source of /repo", "source_commits": []},
     "checks": [{"property": pid, "quick_cmd": "python3 run.py %s quick" % pid, "thorough_cmd": "python3 run.py %s thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for pid, p in sorted(about.A.items())],
     "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(about.NA.items())],
     "notes": "Static analysis only: no check imports or runs code of the package. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
