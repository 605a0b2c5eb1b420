#!/usr/bin/env python3
"""Build the harness from /repo's working tree and run the exploration of one property.

usage: check.py <property id> [--tier quick|thorough] [--replay FILE] [--only SPACE] [--keep]
"""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

LIBS = ["lib_common", "lib_compiler", "lib_vm", "lib_builtins"]
COMMON = ["-std=gnu++17", "-w", "-include", "cstring", "-D__error_t_defined=1"]
VARIANTS = {
    "fast": ["-O1", "-g1", "-fwrapv", "-fno-delete-null-pointer-checks"],
    "asan": ["-O1", "-g1", "-fwrapv", "-fno-delete-null-pointer-checks", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
SDL = ["-I/usr/include/SDL2", "-D_REENTRANT"]
# property -> (variant, level, tools needed)
sys.path.insert(0, VERIF)
from props_config import CONFIG


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def repo_files():
    out = []
    for d in LIBS + ["driver", "comp", "driver_sdl"]:
        for e in ("*.cpp", "*.h"):
            out += glob.glob(os.path.join(REPO, "source", d, e))
    return out


def build(prop, variant, tools):
    """compile repo libs + driver for `prop`; returns the directory of products. Cached by content."""
    flags = COMMON + VARIANTS[variant]
    headers = [p for p in repo_files() if p.endswith(".h")]
    mch = glob.glob(os.path.join(MC, "*.h"))
    os.makedirs(BUILD, exist_ok=True)
    incs = []
    for d in LIBS:
        incs += ["-I", os.path.join(REPO, "source", d)]
    jobs, objs = [], []

    def obj(src, deps, tag, fl):
        key = digest([src] + deps, fl)
        o = os.path.join(BUILD, "%s-%s-%s.o" % (tag, os.path.basename(src)[:-4], key))
        if not os.path.exists(o):
            jobs.append((["g++"] + fl + incs + ["-c", src], o))
        return o

    libobjs = []
    for d in LIBS:
        for src in sorted(glob.glob(os.path.join(REPO, "source", d, "*.cpp"))):
            libobjs.append(obj(src, headers, "%s-%s" % (variant, d), flags))
    drv = os.path.join(MC, prop.lower() + ".cpp")
    own = [obj(drv, headers + mch, variant, flags),
           obj(os.path.join(MC, "main.cpp"), mch, variant, flags)]
    toolobjs = {}
    for t in tools:
        fl = flags + (SDL if t == "driver_sdl" else [])
        toolobjs[t] = [obj(s, headers, variant + "-tool-" + t, fl)
                       for s in sorted(glob.glob(os.path.join(REPO, "source", t, "*.cpp")))]
        if t == "driver_sdl":  # the recording layer between the runner and SDL
            toolobjs[t].append(obj(os.path.join(MC, "sdl_stub.cpp"), [], variant, fl))

    def one(j):
        cmd, o = j
        tmp = o + ".tmp%d" % os.getpid()
        rc, out = sh(cmd + ["-o", tmp])
        if rc == 0:
            os.rename(tmp, o)
        return rc, out, cmd

    with ThreadPoolExecutor(8) as ex:
        for rc, out, cmd in ex.map(one, jobs):
            if rc != 0:
                print("build failed:", " ".join(cmd), file=sys.stderr)
                print(out[-4000:], file=sys.stderr)
                sys.exit(2)
    lf = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]

    def link(name, os_, more=[]):
        key = digest(os_, lf + more)
        exe = os.path.join(BUILD, "%s-%s" % (name, key))
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            rc, out = sh(["g++"] + lf + os_ + ["-o", tmp] + more + ["-lpthread", "-ldl"])
            if rc != 0:
                print("link failed\n" + out[-4000:], file=sys.stderr)
                sys.exit(2)
            os.rename(tmp, exe)
        return exe

    exes = {"mc": link("mc-%s-%s" % (variant, prop.lower()), own + libobjs)}
    for t in tools:
        exes[t] = link("tool-%s-%s" % (variant, t), toolobjs[t] + libobjs, ["-lSDL2"] if t == "driver_sdl" else [])
    return exes


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    opt = {"--tier": os.environ.get("VERIF_TIER", "quick"), "--replay": None, "--only": ""}
    while args:
        k = args.pop(0)
        opt[k] = args.pop(0)
    tier = opt["--tier"] if opt["--tier"] in ("quick", "thorough") else "quick"
    cfg = CONFIG[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir="/tmp")
    rc = 2
    try:
        passes = [("fast", tier)]
        if cfg.get("asan"):
            passes.append(("asan", "asan" if tier == "quick" else "asan+"))
        if opt["--replay"]:
            t = json.load(open(opt["--replay"]))["tier"]
            passes = [("asan" if t.startswith("asan") else "fast", t)]
        deadline = cfg.get("deadline", {}).get(tier, 480 if tier == "quick" else 3000)
        merged = None
        for variant, ptier in passes:
            rc, s = run_pass(prop, cfg, variant, ptier, opt, scratch, deadline)
            if opt["--replay"]:
                return rc
            if s:
                merged = merge(merged, s)
            if rc != 0:
                break
        if merged:
            ev = {
                "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                "level": cfg["level"],
                "coverage": evidence(cfg, merged),
                "assumptions": cfg.get("assumptions", []),
                "wall_s": round(time.time() - t0, 2),
                "violations": merged["violations"],
            }
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        prune()
    return rc


def run_pass(prop, cfg, variant, ptier, opt, scratch, deadline):
    exes = build(prop, variant, cfg.get("tools", []))
    env = dict(os.environ)
    env["VERIF_REPO"] = REPO
    env["VERIF_DIR"] = VERIF
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:malloc_context_size=5:detect_stack_use_after_return=0"
    for t in cfg.get("tools", []):
        env["VERIF_TOOL_" + t.upper()] = exes[t]
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    stats = os.path.join(scratch, "stats-%s.json" % ptier)
    work = os.path.join(scratch, "work-" + variant)
    os.makedirs(work)
    cmd = [exes["mc"], "--prop", prop, "--tier", ptier, "--scratch", work, "--stats", stats,
           "--replay-out", os.path.join(replays, prop + ".json"), "--deadline", str(deadline)]
    if opt["--only"]:
        cmd += ["--only", opt["--only"]]
    if opt["--replay"]:
        cmd += ["--replay", os.path.abspath(opt["--replay"])]
    rc = subprocess.run(cmd, env=env).returncode
    sys.stdout.flush()
    if rc not in (0, 1):
        err = os.path.join(work, "stderr.log")
        if os.path.exists(err):
            print(open(err, errors="replace").read()[-3000:], file=sys.stderr)
    s = None
    if os.path.exists(stats):
        s = json.load(open(stats))
        if variant != "fast":
            for x in s["spaces"]:
                x["name"] += " [address sanitizer]"
    return rc, s


def merge(a, b):
    if a is None:
        return b
    for k in ("cases", "model_steps", "impl_steps", "runs", "nodes", "states", "violations", "unconfirmed"):
        a[k] += b[k]
    a["outcomes"] = max(a["outcomes"], b["outcomes"])
    a["timed_out"] = a["timed_out"] or b["timed_out"]
    a["spaces"] += b["spaces"]
    return a


def evidence(cfg, s):
    complete = not s["timed_out"] and all(x["complete"] for x in s["spaces"]) and not s["unconfirmed"]
    c = {"samples": s["samples"], "exhaustive": bool(complete), "spaces": s["spaces"],
         "distinct_outcomes": s["outcomes"], "implementation_runs": s["runs"],
         "implementation_instructions": s["impl_steps"]}
    if cfg["level"] == "fault_enumeration":
        c["evaluations"] = s["cases"]
        c["distinct_nontrivial"] = s["outcomes"]
        c["rule"] = cfg["rule"]
    else:
        c["states"] = s["nodes"] + s["states"]
        c["transitions"] = s["model_steps"] + s["cases"]
        c["traces_validated_against_impl"] = s["cases"]
        c["states_are"] = "nodes of the choice tree (program prefixes, schedules, histories) plus explicit model states where a driver searches a state graph"
        c["transitions_are"] = "steps taken by the reference model over all cases, plus one per case"
    return c


def prune():
    """keep the build cache small"""
    try:
        fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        while fs and total > 900e6:
            f = fs.pop(0)
            total -= os.path.getsize(f)
            os.remove(f)
    except OSError:
        pass


if __name__ == "__main__":
    sys.exit(main())
