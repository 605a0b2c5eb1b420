#!/usr/bin/env python3
"""undo each recorded repair and run the check of its property (in tools/iso.sh): revert.py [@i/n] [COMMIT...]"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(next(v for v in base.values() if isinstance(v, list) and len(v) > 100))
pick, shard = sys.argv[1:], (0, 1)
if pick and pick[0].startswith("@"): shard = tuple(map(int, pick.pop(0)[1:].split("/")))
fixed = [m.groups() for m in map(re.compile(r"fixed: property=(\S+) (\S+) (.*)").match, open(V + "/known-findings.txt")) if m]
sh("git -C /repo reset -q --hard")
for k, (prop, commit, what) in enumerate(fixed):
    if k % shard[1] != shard[0] or (pick and commit not in pick): continue
    try:
        a = sh("git -C /repo diff %s %s^ -- source | git -C /repo apply --3way" % (commit, commit))
        if a.returncode or "with conflicts" in a.stderr: print(commit, prop, "does not come off:", what, flush=True); continue
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(commit, prop, "does not build:", what, flush=True); continue
        out = "/tmp/rv%d.json" % os.getpid()
        sh("bash /opt/vp/test.sh " + out)
        broken = stable - set(json.load(open(out))["passed"])
        c = sh("python3 %s/check.py %s" % (V, prop), env=dict(os.environ, VERIF_TIER="quick"))
        print(commit, prop, "CAUGHT" if c.returncode == 1 else "MISSED" if c.returncode == 0 else "rc=%d" % c.returncode, "(tests too)" if broken else "", what, flush=True)
    finally:
        sh("git -C /repo reset --hard -q")
