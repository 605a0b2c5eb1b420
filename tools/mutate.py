#!/usr/bin/env python3
"""mutation testing of the checks (development only).
usage: tools/iso.sh python3 tools/mutate.py OUT.jsonl WORKER NWORKERS [--files a,b] [--skip-done]
Every mutant that builds and passes the stable tests is given to the checks of its file until one catches it."""
import json, os, re, subprocess, sys, time, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/repo/source/"
ORDER = {
 "lib_compiler/lexer.cpp": "C19 C08 C09 C12 C14",
 "lib_compiler/token.cpp": "C19 C08",
 "lib_compiler/parser.cpp": "C01 C19 C09 C02 C12 C08 C15",
 "lib_compiler/ast.cpp": "C20 C15 C02 C03",
 "lib_compiler/ast.h": "C01 C09 C20 C02",
 "lib_compiler/errors.h": "C09 C08 C20 C14",
 "lib_compiler/sema.cpp": "C09 C01 C08 C02 C14 C12",
 "lib_compiler/optimize.cpp": "C03 C01 C02 C09 C12",
 "lib_compiler/pre_codegen.cpp": "C01 C13 C02 C10",
 "lib_compiler/codegen.cpp": "C01 C12 C13 C02 C03 C05",
 "lib_compiler/disassembler.cpp": "C13 C20",
 "lib_compiler/nano.cpp": "C14 C15 C09 C20",
 "lib_compiler/nano.h": "C14 C15",
 "lib_compiler/program_builder.h": "C01 C13 C10",
 "lib_common/program.cpp": "C10 C11 C15 C12 C20",
 "lib_common/program.h": "C10 C11 C15 C12",
 "lib_common/source.cpp": "C14 C08 C20",
 "lib_common/source.h": "C14 C08",
 "lib_common/file.h": "C14 C11 C20",
 "lib_common/instructions.cpp": "C13 C12",
 "lib_common/instructions.h": "C13 C12",
 "lib_vm/thread.cpp": "C01 C07 C17 C05 C21 C16 C02 C12 C06 C04",
 "lib_vm/thread.h": "C01 C07 C17 C05 C21 C16 C06 C04",
 "lib_vm/vm.cpp": "C16 C06 C17 C04 C05",
 "lib_vm/vm.h": "C16 C06 C17 C04 C05",
 "lib_vm/vm_gc.cpp": "C04 C21 C01",
 "lib_vm/vm_gc.h": "C04 C21 C01",
 "lib_vm/value.h": "C01 C07 C18 C04 C21",
 "lib_vm/value.cpp": "C01 C07 C20 C21 C23",
 "lib_vm/thread_error.cpp": "C07",
 "lib_builtins/builtin.cpp": "C18 C06 C07",
 "driver/driver.cpp": "C20",
 "comp/driver.cpp": "C20",
 "driver_sdl/driver.cpp": "C22",
}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
SWAP = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ", " - "), (r" - ", " + "),
        (r"\+\+", "--"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\bnullptr\b", "(decltype(0))0"),
        (r"!(?=[a-z(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r" \+= ", " -= "), (r" / ", " * "), (r" % ", " / "),
        (r"front\(\)", "back()"), (r"back\(\)", "front()"), (r"push_back\(", "push_front("), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
        (r"\bl\b", "r"), (r"\br\b", "l"), (r"\bleft\b", "right"), (r"\bright\b", "left")]
def mutants(f):
    L = open(S + f).read().split("\n")
    out = []
    for n, l in enumerate(L):
        t = l.strip()
        if not t or t.startswith(("//", "#", "*", "/*", "case ", "using", "namespace", "struct", "class", "typedef", "template")) and not re.match(r"case .*:.*;", t): continue
        if "assert" in t or t.startswith("static_assert"): continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x01" * (len(m.group(0)) - 2) + '"', l)
        code = re.sub(r"//.*", lambda m: "\x01" * len(m.group(0)), code)
        for a, b in SWAP:
            for m in re.finditer(a, code):
                if b == "(decltype(0))0": continue
                out.append((n, l[:m.start()] + b + l[m.end():]))
        if t.endswith(";") and not t.startswith(("return", "break", "continue", "const", "auto", "}", "int", "bool", "float", "std::string ", "struct", "virtual", "uint")) and ("(" in t or "=" in t) and code.count("(") == code.count(")"):
            out.append((n, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"(\s*(?:\} else )?if \()(.*)(\) \{)$", l)
        if m:
            out.append((n, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
            out.append((n, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)))
    if RARE:
        # the same, but only every so many times: nothing that one short run shows
        out = []
        for n, l in enumerate(L):
            t = l.strip()
            if not t or t.startswith(("//", "#", "*", "/*", "case ", "using", "namespace", "struct", "class", "typedef", "template")) or "assert" in t: continue
            if re.match(r'.*"', l) and l.count('"') % 2: continue
            nth = "[]{ static int k_ = 0; return ++k_ %% %d == 0; }()" % RARE
            m = re.match(r"(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)$", l)
            if m: out.append((n, m.group(1) + nth + " != bool(" + m.group(2) + ")" + m.group(3)))
            if t.endswith(";") and not t.startswith(("return", "break", "continue", "const", "auto", "}", "int", "bool", "float", "std::string ", "struct", "virtual", "uint", "static", "{", "for", "if")) and ("(" in t or "=" in t or "++" in t) and l.count("(") == l.count(")"):
                out.append((n, re.match(r"\s*", l).group(0) + "if (!" + nth + ") { " + t + " }"))
            m = re.match(r"(\s*)return (.+);$", l)
            if m and m.group(2) in ("true", "false"): out.append((n, m.group(1) + "return " + m.group(2) + " != " + nth + ";"))
    return L, out
RARE = int(os.environ.get("MUT_RARE", "0"))
def main():
    outp, w, nw = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = list(ORDER)
    rest = sys.argv[4:]
    if rest and rest[0] == "--files": files = rest[1].split(",")
    done = set()
    for p in os.listdir(os.path.dirname(outp)):
        if p.startswith(os.path.basename(outp)):
            for x in open(os.path.dirname(outp) + "/" + p):
                x = json.loads(x); done.add((x["f"], x["n"], x["new"]))
    base = json.load(open("/opt/vp/BASELINE.json")); stable = None
    for k, v in base.items():
        if isinstance(v, list) and len(v) > 100: stable = set(v)
    work = []
    for f in files:
        L, ms = mutants(f)
        for n, new in ms: work.append((f, n, new))
    random.Random(7).shuffle(work)
    work = [x for i, x in enumerate(work) if i % nw == w]
    limit = float(os.environ.get("MUT_SECONDS", "1e9")); t00 = time.time()
    o = open(outp + ".%d" % w, "a")
    tj = "/tmp/mt%d.json" % os.getpid()
    for f, n, new in work:
        if (f, n, new) in done: continue
        if time.time() - t00 > limit: break
        src = open(S + f).read(); L = src.split("\n")
        rec = {"f": f, "n": n, "old": L[n].strip(), "new": new}
        L[n] = new
        try:
            open(S + f, "w").write("\n".join(L))
            fl = "-w -include cstring -D__error_t_defined=1 -I{0}lib_common -I{0}lib_compiler -I{0}lib_vm -I{0}lib_builtins -I/usr/include/SDL2".format(S)
            if f.endswith(".cpp") and sh("g++ -std=gnu++17 -fsyntax-only %s %s" % (fl, S + f)).returncode: rec["r"] = "nobuild"
            else:
                try: t = sh("timeout 300 bash /opt/vp/test.sh " + tj); r = json.load(open(tj))
                except Exception as e: r = {"passed": []}
                if stable - set(r["passed"]): rec["r"] = "tests"
                else:
                    rec["r"] = "SURVIVES"; t0 = time.time(); rec["tried"] = []
                    for p in ORDER[f].split():
                        c = sh("timeout 900 python3 %s/check.py %s" % (V, p), env=dict(os.environ, VERIF_TIER="quick"))
                        rec["tried"].append(p)
                        if c.returncode == 1 and "VIOLATION property=" in c.stdout:
                            rec["r"] = "caught"; rec["by"] = p; break
                        if c.returncode not in (0,):
                            rec["r"] = "BADRC"; rec["by"] = p; rec["rc"] = c.returncode; rec["err"] = (c.stdout + c.stderr)[-400:]; break
                    rec["s"] = round(time.time() - t0)
        finally:
            open(S + f, "w").write(src)
        o.write(json.dumps(rec) + "\n"); o.flush()
main()
