#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl and the drivers present in mc/"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_config import CONFIG
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists(os.path.join(V, "mc", i.lower() + ".cpp")):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    c = CONFIG[i]
    checks.append({"property": i,
                   "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": c["technique"],
                   "level": c["level"],
                   "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public interface of the unmodified sources. check.py builds them from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
