#!/usr/bin/env python3
"""quick look at candidate bugs before they get a demonstration: probe.py FILE [NAME...] (in tools/iso.sh)
FILE defines P = [(name, property or list, [(file, old, new)...])...]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(next(v for v in base.values() if isinstance(v, list) and len(v) > 100))
pick, n = sys.argv[2:], 0
shard = None
if pick and pick[0].startswith("@"): shard = tuple(map(int, pick[0][1:].split("/"))); pick = []
for k, (name, props, edits) in enumerate(ns["P"]):
    if pick and name not in pick: continue
    if shard and k % shard[1] != shard[0]: continue
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    try:
        bad = None
        for f, a, b in edits:
            s = open("/repo/source/" + f).read()
            if s.count(a) != 1: bad = (f, a, s.count(a)); break
            open("/repo/source/" + f, "w").write(s.replace(a, b))
        if bad: print(name, "EDIT", bad, flush=True); continue
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(name, "BUILD", b.stderr[-400:], flush=True); continue
        out = "/tmp/pb%d.json" % os.getpid()
        sh("bash /opt/vp/test.sh " + out)
        broken = sorted(stable - set(json.load(open(out))["passed"]))
        if broken: print(name, "TESTS CATCH IT", len(broken), flush=True); continue
        for p in [props] if isinstance(props, str) else props:
            c = sh("python3 %s/check.py %s" % (V, p), env=dict(os.environ, VERIF_TIER="quick"))
            print(name, p, "CAUGHT" if c.returncode == 1 else "MISSED" if c.returncode == 0 else "rc=%d" % c.returncode, flush=True)
    finally:
        sh("git -C /repo checkout -- .")
