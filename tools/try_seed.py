#!/usr/bin/env python3
"""apply a planted bug to /repo, build, test, run its demo and the check of its property, undo.
usage: try_seed.py [--all-checks] ID..."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = None
for k, v in base.items():
    if isinstance(v, list) and len(v) > 100: stable = set(v)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    p = meta["property"]
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    r = {}
    try:
        a = sh("git -C /repo apply " + d + "/patch.diff")
        if a.returncode: print(i, "patch does not apply", a.stderr); continue
        t = sh("bash /opt/vp/test.sh /tmp/ts%d.json" % os.getpid())
        o = json.load(open("/tmp/ts%d.json" % os.getpid()))
        broken = sorted(stable - set(o["passed"]))
        r["tests"] = "ok" if not broken else "BROKEN %d %s" % (len(broken), broken[:2])
        if "--no-demo" not in sys.argv:
            m = sh("bash " + d + "/demo.sh", cwd="/repo")
            r["demo_with"] = m.returncode
            if m.returncode == 0 or "-v" in sys.argv: print(m.stdout[-600:], m.stderr[-600:])
        t0 = time.time()
        c = sh("python3 %s/check.py %s" % (V, p), env=dict(os.environ, VERIF_TIER="quick"))
        r["check"] = "%s rc=%d %.0fs %s" % (p, c.returncode, time.time() - t0,
                     "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "MISSED")
        if "-v" in sys.argv: print(c.stdout[-1500:], c.stderr[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    m = sh("bash " + d + "/demo.sh", cwd="/repo")
    r["demo_without"] = m.returncode
    if m.returncode: print(m.stdout[-800:], m.stderr[-800:])
    print(i, r, flush=True)
    import fcntl
    with open(V + "/tools/catch.json", "a+") as f:  # shared by parallel runs
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        all = json.loads(f.read() or "{}")
        r["check"] = " ".join(x for x in r.get("check", "").split() if not x.endswith("s") or not x[:-1].isdigit())
        all[i] = r
        f.truncate(0)
        json.dump(dict(sorted(all.items())), f, indent=1)
