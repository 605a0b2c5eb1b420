#!/usr/bin/env python3
"""write DESIGN.md from tools/design_*.md, the property list, the evidence of the last run of every check on the unchanged tree,
and tools/catch.json (written by try_seed.py)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
sect = {}
for m in re.finditer(r"^## (C\d\d)\n(.*?)(?=^## |\Z)", rd("tools/design_props.md"), re.S | re.M):
    sect[m.group(1)] = m.group(2).strip()
catch = json.load(open(V + "/tools/catch.json")) if os.path.exists(V + "/tools/catch.json") else {}
out = [rd("tools/design_head.md").rstrip() + "\n"]
def n(x): return "{:,}".format(x)
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(sect[i] + "\n")
    e = json.load(open(V + "/evidence/%s.json" % i))
    assert e["tier"] == "quick" and not e["violations"] and e["coverage"]["exhaustive"], i
    out.append("Cost about %d s; %s cases, every one run on the real code.\n" % (round(e["wall_s"] / 5 + .5) * 5, n(sum(s["cases"] for s in e["coverage"]["spaces"]))))
    out.append("| space | enumerated completely | cases | undecided (model bounds) |\n|---|---|---|---|")
    for s in e["coverage"]["spaces"]:
        out.append("| %s | %s | %s | %s |" % (s["name"], s["bound"].replace("|", "\\|"), n(s["cases"]), n(s["outside_model_bounds"]) if s["outside_model_bounds"] else ""))
    out.append("")
out.append(rd("tools/design_tail.md").rstrip() + "\n")
out.append("## 6. Planted bugs and which check catches them\n")
out.append("Each is in `seeded/<name>/`, was confirmed to build, to pass the 320 stable tests, and to fail its demonstration, and was then run against the quick "
           "check of its property (result of the last run of `tools/try_seed.py`).\n")
out.append("| planted bug | breaks | needs | quick check |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    c = catch.get(d, {}).get("check", "not run")
    c = "caught by " + m["property"] if "CAUGHT" in c else c
    q = lambda t: t.replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s |" % (d, q(m["what_it_breaks"]), q(m["needs"]), c))
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
