// C15: compilation is deterministic and independent of earlier use
#include "harness.h"
#include "ast.h"
#include "parser.h"
#include <malloc.h>
#include <spawn.h>
using namespace impl;
using corpus::N;

// everything a build produced, as text
static std::string product(bool ok, const program_t &p, const cerror_t &e) {
  if (ok) return "OK " + image(p) + (e.error.empty() ? "" : "\nERROR TEXT AFTER SUCCESS: " + e.error);
  return "REJECT " + N(e.line.file) + ":" + N(e.line.line) + " " + e.error;
}
static std::string tree(nano_t &n) {
  char *buf = nullptr;
  size_t len = 0;
  FILE *fd = open_memstream(&buf, &len);
  n.ast().dump(fd);
  fclose(fd);
  std::string s(buf, len);
  free(buf);
  return s;
}
static std::string fresh(const Strs &files, bool opt) {
  auto c = compile(files, opt);
  return product(c->ok, c->prog, c->err) + (c->ok ? tree(*c->nano) : "");
}

// run as a process of its own: print what the compiler makes of a file
static const struct Child {
  Child() {
    const char *f = getenv("C15_CHILD");
    if (!f) return;
    std::string t;
    if (!read_file(f, t)) _exit(9);
    std::string o = fresh({t.substr(1)}, t[0] == '1');
    size_t n = 0;
    while (n < o.size()) {
      ssize_t k = write(1, o.data() + n, o.size() - n);
      if (k <= 0) _exit(9);
      n += size_t(k);
    }
    _exit(0);
  }
} child;

static std::string elsewhere(const std::string &text, bool opt) {
  std::string in = scratch_file("childin");
  write_file(in, (opt ? "1" : "0") + text);
  int fd[2];
  if (pipe(fd)) abort();
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
  posix_spawn_file_actions_addclose(&fa, fd[0]);
  std::string env = "C15_CHILD=" + in, pad = "PAD=" + std::string(size_t(text.size() % 4096) * 3 + (opt ? 7 : 0), 'p');
  char *argv[] = {(char *)"child", nullptr}, *envp[] = {(char *)env.c_str(), (char *)pad.c_str(), nullptr};
  pid_t pid;
  std::string o;
  if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, argv, envp)) { close(fd[0]); close(fd[1]); return "harness: spawn failed"; }
  close(fd[1]);
  char b[65536];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, size_t(n));
  close(fd[0]);
  int st;
  waitpid(pid, &st, 0);
  posix_spawn_file_actions_destroy(&fa);
  unlink(in.c_str());
  if (st) o += " STATUS " + N(st);
  return o;
}

// the product of a process that compiled nothing else
static const std::string &alone(const std::string &text, bool opt) {
  static std::map<std::pair<std::string, bool>, std::string> memo;
  std::string &o = memo[{text, opt}];
  if (o.empty()) o = elsewhere(text, opt);
  return o;
}

// things a compiler object may have gone through; each ends before a reset
struct Past { const char *what; Strs files; int opt; int run; };
static const std::vector<Past> &pasts() {
  static const std::vector<Past> v = {
      {"nothing", {}, 1, 0},
      {"accepted", {"const k = 99\nvar g = 5\nvar h = [1, \"s\"]\nfunction f(a, b)\n var l = a\n return l + b\nend\nfunction main()\n return f(1, 2)\nend\n"}, 1, 0},
      {"accepted and run, unoptimised", {"var g = outv(3)\nfunction f()\n return \"text\"\nend\nfunction main()\n return f() + g\nend\n"}, 0, 1},
      {"two files", {"var z = 1\nfunction f(x)\n return x\nend\n", "var y = z\nfunction main()\n return f(y)\nend\n"}, 1, 1},
      {"syntax error at top level", {"var g = 1\nconst k = 2\nfunction f(x)\nend\nvar\n"}, 1, 0},
      {"syntax error in nested blocks", {"function main()\n var a = 1\n if (a)\n  while (a)\n   for (a = 0 to 3)\n    var l = [1, (2 + \n   end\n  end\n end\nend\n"}, 1, 0},
      {"syntax error in an expression", {"var g = 2\nfunction f(a, b)\n return f(a, (b + 1) * [2, 3\nend\n"}, 0, 0},
      {"unterminated string", {"function main()\n return \"abc\nend\n"}, 1, 0},
      {"unknown name", {"const k = 7\nvar g = k\nfunction main()\n var l = 3\n if (l)\n  return nosuch\n end\nend\n"}, 1, 0},
      {"redeclared name", {"var g = 1\nfunction f(x)\n var x\nend\nfunction main()\nend\n"}, 1, 0},
      {"assignment to a constant", {"const k = 7\nfunction main()\n while (1)\n  k = 3\n end\nend\n"}, 1, 0},
      {"constant division by zero", {"var g = 1\nfunction main()\n var s = \"left over\"\n return 1 / (2 - 2)\nend\n"}, 1, 0},
      {"constant without value", {"const k = f\nfunction f(x)\n return k\nend\nfunction main()\n return f(1)\nend\n"}, 1, 0},
      {"bad import", {"var g = 1\nimport \"nosuch.file\"\n"}, 1, 0},
      {"second file rejected", {"const k = 1\nvar g = k\nfunction f(a)\n return a\nend\n", "function main()\n return f(1, 2)\nend\n"}, 1, 0},
      {"wrong arguments", {"function f(a)\nend\nfunction main()\n f()\nend\n"}, 0, 0},
      {"no source", {}, 1, 2},
      {"a large program", {"LARGE"}, 1, 0},
      {"wrong indirect member", {"var g = 1\nfunction main()\n return nosuch.x\nend\n"}, 1, 0},
      {"end of file in a function", {"var g = 1\nfunction main()\n if (1)\n  var q = 3\n"}, 1, 0},
  };
  return v;
}
static std::string large() {
  std::string o;
  for (int i = 0; i < 60; i++) o += "var w" + N(i) + " = \"" + N(i) + "\"\nfunction q" + N(i) + "(a, b)\n var c = a * b\n return c + w" + N(i) + "\nend\n";
  return o;
}
static const Strs &targets() {
  static const Strs t = {
      "function main()\n return 1\nend\n",
      "var g\nfunction main()\n return g\nend\n",
      "const k = 1\nvar g = k + 2\nfunction f(a, b)\n return a * b + k\nend\nfunction main()\n var l = [f, g, \"s\"]\n return l[0](g, 3)\nend\n",
      "var k = 5\nvar f = 3\nfunction g(x)\n x = x + k + f\n return x\nend\nfunction main()\n return g(1)\nend\n",
      "function k()\n return 2\nend\nfunction h(q0)\n return q0 + k()\nend\nvar w0 = h(4)\nfunction main()\n out(w0)\n for (w0 = 0 to 3)\n  out(w0)\n end\nend\n",
      "function main()\n return g\nend\n", "function main()\n return k\nend\n", "function main()\n return f(1)\nend\n", "function main()\n l = 3\nend\n",
      "function main()\n return z + y\nend\n", "var x = w1\nfunction main()\nend\n", "function main()\n return\n", "var g = 1\nvar g = 2\n",
      "function main()\n var a = 4\n while (a)\n  a -= 1\n  var l = a\n  out(l)\n end\n return 1 + 2 * 3 - k2\nend\nconst k2 = 4 / 2\n",
      "import \"nosuch.file\"\nfunction main()\nend\n", "function main()\n return \"a\" + \"b\" + 3\nend\nfunction other()\n out(\"left over\")\nend\n",
  };
  return t;
}

// c.p: [opt, past...]; c.files: the target
static void history(const Case &c, Result &r) {
  const bool opt = c.p[0];
  const std::string want = alone(c.files[0], opt);
  const bool same_sources = c.p[1], own_error = c.p[2];
  std::unique_ptr<program_t> prog(new program_t);
  std::unique_ptr<nano_t> n(new nano_t(*prog));
  source_manager_t kept;
  cerror_t kept_err;
  for (size_t i = 3; i < c.p.size(); i++) {
    const Past &h = pasts()[size_t(c.p[i])];
    if (!h.files.empty() || h.run == 2) {
      std_register(*n);
      n->optimize = h.opt;
      source_manager_t own, &s = same_sources ? kept : own;
      s.clear();
      for (auto &f : h.files) s.load_from_string(f == "LARGE" ? large().c_str() : f.c_str());
      cerror_t own_e;
      cerror_t &e = own_error ? own_e : kept_err;
      bool ok = n->build(s, e);
      if (ok && h.run == 1) {
        std_resolve(*prog);
        Outcome o;
        o.compiled = true;
        run_program(*prog, o);
      }
      if (i % 2) tree(*n);
    }
    n->reset();
    if (image(*prog) != image(program_t())) r.fail("after a reset the program is not empty");
  }
  // nothing is registered after a reset
  if (c.p.size() > 3) {
    source_manager_t s;
    s.load_from_string("function main()\n return out(1)\nend\n");
    cerror_t e;
    if (n->build(s, e)) r.fail("after a reset a system call is still registered");
    n->reset();
  }
  std_register(*n);
  n->optimize = opt;
  source_manager_t own, &s = same_sources ? kept : own;
  s.clear();
  for (auto &f : c.files) s.load_from_string(f.c_str());
  cerror_t own_e;
  own_e.line = line_t{0, 0};
  cerror_t &e = own_error ? own_e : kept_err;
  bool ok = n->build(s, e);
  std::string got = product(ok, *prog, e) + (ok ? tree(*n) : "");
  std::string d = first_difference(want, got);
  if (!d.empty()) r.fail("build after that history differs from a fresh one: " + d);
  if (ok) {
    std_resolve(*prog);
    Outcome m = model(c.files, opt, prog.get()), o;
    o.compiled = true;
    run_program(*prog, o);
    r.model_steps += m.steps;
    r.impl_steps += o.steps;
    diff(r, "behaviour", m.text(), o.text());
  }
  // and once more, the same sources with the same object
  n->reset();
  std_register(*n);
  ok = n->build(s, e);
  got = product(ok, *prog, e) + (ok ? tree(*n) : "");
  d = first_difference(want, got);
  if (!d.empty()) r.fail("building the same sources again differs: " + d);
  r.runs += c.p.size() - 2;
  r.outcome = want;
}

// several objects alive at once, heap in different states, other processes
static void layouts(const Case &c, Result &r) {
  for (int k = 0; k < 2 && !r.bad; k++) {
    const bool opt = k == 0;
    const std::string want = fresh(c.files, opt);
    auto same = [&](const char *what, const std::string &got) {
      std::string d = first_difference(want, got);
      if (!d.empty()) r.fail(std::string(opt ? "optimised, " : "unoptimised, ") + what + ": " + d);
      r.runs++;
    };
    // holes of many sizes, handed out in another order
    for (int round = 0; round < 3; round++) {
      std::vector<void *> junk;
      for (int i = 0; i < 400; i++) junk.push_back(malloc(size_t(16 + (i * 37 + round * 11) % 400)));
      if (round == 0) for (size_t i = 0; i < junk.size(); i += 2) { free(junk[i]); junk[i] = nullptr; }
      if (round == 1) for (size_t i = junk.size(); i-- > 0;) if (i % 3) { free(junk[i]); junk[i] = nullptr; }
      if (round == 2) for (size_t i = 0; i < junk.size(); i++) { size_t j = (i * 173) % 400; if (j % 4) { free(junk[j]); junk[j] = nullptr; } }
      same("with another heap layout", fresh(c.files, opt));
      for (void *p : junk) free(p);
    }
    // memory that held something else
    mallopt(M_PERTURB, 0x5a);
    same("with dirty memory", fresh(c.files, opt));
    mallopt(M_PERTURB, 0xff);
    same("with other dirty memory", fresh(c.files, opt));
    mallopt(M_PERTURB, 0);
    // two compilers, step by step
    {
      Compiled a, b, x;
      std_register(*a.nano);
      std_register(*x.nano);
      std_register(*b.nano);
      a.nano->optimize = b.nano->optimize = opt;
      x.nano->optimize = !opt;
      x.sources.load_from_string(pasts()[1].files[0].c_str());
      for (auto &f : c.files) { a.sources.load_from_string(f.c_str()); b.sources.load_from_string(f.c_str()); }
      a.err.line = b.err.line = line_t{0, 0};
      a.ok = a.nano->build(a.sources, a.err);
      x.ok = x.nano->build(x.sources, x.err);
      b.ok = b.nano->build(b.sources, b.err);
      same("first of three compilers", product(a.ok, a.prog, a.err) + (a.ok ? tree(*a.nano) : ""));
      same("last of three compilers", product(b.ok, b.prog, b.err) + (b.ok ? tree(*b.nano) : ""));
      a.nano->reset();
      same("last of three compilers, after another was reset", product(b.ok, b.prog, b.err) + (b.ok ? tree(*b.nano) : ""));
    }
    r.outcome = want;
  }
}
// programs that have texts, names and numbers in common, at different places
static const Strs &kin() {
  static const Strs v = {
      "function main()\n out(\"alpha\")\n out(\"beta\")\n return \"gamma\"\nend\n",
      "function main()\n out(\"gamma\")\n out(\"alpha\")\n return \"beta\"\nend\n",
      "var g = \"beta\"\nfunction alpha(x)\n return x + \"gamma\"\nend\nfunction main()\n return alpha(g) + \"alpha\"\nend\n",
      "var alpha = 7\nconst beta = \"alpha\"\nfunction main()\n var gamma = [beta, alpha, 2.5]\n return gamma\nend\n",
      "const alpha = 2.5\nfunction gamma(beta)\n return beta * alpha\nend\nfunction main()\n return gamma(7) + \"beta\"\nend\n",
      "function main()\n var l = [1, 2]\n return l.length + \"length\"\nend\nfunction beta(alpha)\n return alpha.beta\nend\n",
      "function beta()\n return \"x\"\nend\nfunction alpha(x)\n return 7\nend\nvar gamma = beta\nfunction main()\n return [gamma(), alpha(\"length\"), 2.5, 7.0]\nend\n",
      "function main()\n var alpha = \"a\"\n if (alpha)\n  var beta = \"b\"\n  out(beta + \"alpha\")\n else\n  var beta = 3\n  out(beta)\n end\n return \"beta\" == \"alpha\"\nend\n"};
  return v;
}
// c.p: object reuse, then opt and program of each build in turn; every one is judged
static void kindred(const Case &c, Result &r) {
  std::unique_ptr<program_t> prog(new program_t);
  std::unique_ptr<nano_t> n(new nano_t(*prog));
  std::vector<std::unique_ptr<Compiled>> kept;
  for (size_t i = 1; i < c.p.size() && !r.bad; i++) {
    const bool opt = c.p[i] & 1;
    const std::string &t = kin()[size_t(c.p[i] >> 1)];
    program_t *p;
    std::string got;
    if (c.p[0] == 0) {
      kept.push_back(compile({t}, opt));
      p = &kept.back()->prog;
      got = product(kept.back()->ok, *p, kept.back()->err) + (kept.back()->ok ? tree(*kept.back()->nano) : "");
    } else {
      if (i > 1) n->reset();
      std_register(*n);
      n->optimize = opt;
      source_manager_t s;
      s.load_from_string(t.c_str());
      cerror_t e;
      e.line = line_t{0, 0};
      bool ok = n->build(s, e);
      p = prog.get();
      got = product(ok, *p, e) + (ok ? tree(*n) : "");
      if (ok) std_resolve(*p);
    }
    std::string d = first_difference(alone(t, opt), got);
    if (!d.empty()) { r.fail("build " + N(long(i)) + " differs from the build of a new process: " + d); return; }
    Outcome m = model({t}, opt, p), o;
    o.compiled = true;
    run_program(*p, o);
    r.model_steps += m.steps;
    r.impl_steps += o.steps;
    r.runs++;
    diff(r, "behaviour of build " + N(long(i)), m.text(), o.text());
    r.outcome = m.text();
  }
}
static void processes(const Case &c, Result &r) {
  for (int k = 0; k < 2 && !r.bad; k++) {
    const bool opt = k == 0;
    const std::string want = fresh(c.files, opt);
    for (int i = 0; i < 2 && !r.bad; i++) {
      std::string d = first_difference(want, elsewhere(c.files[0], opt));
      if (!d.empty()) r.fail(std::string(opt ? "optimised" : "unoptimised") + " build in another process differs: " + d);
      r.runs++;
    }
    r.outcome = want;
  }
}

// compiler objects with host functions of their own; c.p: mode, then per object: arity of h (-2: not registered), arguments given
static void registrations(const Case &c, Result &r) {
  std::vector<std::unique_ptr<Compiled>> kept;
  for (size_t i = 1; i + 1 < c.p.size() && !r.bad; i += 2) {
    const int arity = int(c.p[i]), given = int(c.p[i + 1]);
    std::string args;
    for (int k = 0; k < given; k++) args += (k ? ", " : "") + N(k + 1);
    const std::string text = "\nfunction main()\n var a = 4\n return h(" + args + ")\nend\n";
    if (c.p[0] == 1 && !kept.empty()) kept.back()->nano->reset();
    else kept.emplace_back(new Compiled);
    Compiled &k = *kept.back();
    if (i & 2) k.nano->syscall_register("g", 1);
    if (arity != -2) k.nano->syscall_register("h", arity);
    if (!(i & 2)) k.nano->syscall_register("g", 1);
    k.sources.clear();
    k.sources.load_from_string(text.c_str());
    k.err = cerror_t();
    k.err.line = line_t{0, 0};
    k.ok = k.nano->build(k.sources, k.err);
    std::string want = arity == -2 || (arity >= 0 && arity != given) ? "REJECT 4" : "OK h(", got;
    if (want[0] == 'O') {
      for (int q = 0; q < given; q++) want += (q ? "|" : "") + N(q + 1);
      want += ");";
    }
    if (!k.ok) got = "REJECT " + N(k.err.line.line);
    else {
      k.prog.syscall_resolve("h", [](thread_t &t, int32_t n) { host_out_n(t, n, "h"); });
      Outcome o;
      run_program(k.prog, o);
      got = "OK " + o.trace;
    }
    r.runs++;
    diff(r, "object " + N(long(i / 2 + 1)) + ", h registered with " + N(arity) + " arguments, called with " + N(given), want, got);
    r.outcome += want + " ";
  }
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  auto hist = [](int len, bool variants) {
    return [=](Chooser &ch, Case &c) {
      c.files = {ch.pick(targets())};
      c.p = {ch.choose(2), variants ? ch.choose(2) : 1, variants ? ch.choose(2) : 0};
      for (int i = 0; i < len; i++) c.p.push_back(ch.choose(int(pasts().size())));
      std::string s;
      for (size_t i = 3; i < c.p.size(); i++) s += std::string(pasts()[size_t(c.p[i])].what) + "; ";
      c.note = "history: " + s;
      return true;
    };
  };
  for (int l = 0; l <= 2; l++)
    out.push_back(make("histories " + N(l), "every sequence of " + N(l) + " earlier builds out of 20 (accepted, run, rejected in every phase), a reset after each, x 16 targets x optimisation x source manager and error object reused or not", hist(l, true), history));
  out.push_back(make("histories 3", "every sequence of 3 earlier builds out of 20 x 16 targets x optimisation" + std::string(th ? " x reuse" : ""), hist(3, th), history));
  out.push_back(make("shared texts", "every sequence of 3" + std::string(th ? " or 4" : "") + " builds out of 8 programs x optimisation that have strings, names and numbers in common, with one object or one each; all compared with a new process and the model", [th](Chooser &ch, Case &c) {
    c.p = {ch.choose(2)};
    int n = th ? 3 + ch.choose(2) : 3;
    for (int i = 0; i < n; i++) c.p.push_back(ch.choose(int(kin().size()) * 2));
    return true;
  }, kindred));
  out.push_back(make("registrations", "every sequence of 3 compiler objects (or resets of one) that register a host function with no, any or 0..3 arguments and call it with 0..3", [](Chooser &ch, Case &c) {
    c.p = {ch.choose(2)};
    for (int i = 0; i < 3; i++) {
      c.p.push_back(ch.choose(6) - 2);
      c.p.push_back(ch.choose(4));
    }
    return true;
  }, registrations));
  out.push_back(features_space(layouts));
  auto sc = scripts_space(layouts);
  out.push_back(sc);
  out.push_back(sizes_space(th, layouts, th ? 700 : 40));
  out.push_back(blocks_space(1, 2, 1, layouts));
  out.push_back(blocks_space(2, th ? 1 : 0, 1, layouts));
  // several errors: always the same one is reported
  static const Strs errs = {"var a1 = nosuch1\n", "function main()\nend\nfunction main()\nend\n", "function e2()\n return nosuch2\nend\n", "const c3 = 1 / 0\n", "const c4 = 4\nfunction e4()\n c4 = 1\nend\n",
                            "function e5(x, x)\nend\n", "function e6()\n e6(1)\nend\n", "var a7\nvar a7\n", "function e8()\n var y\n var y\nend\n", "const c9 = a1\nvar b9 = c9\n", "function e10()\n return 1 % 0\nend\n", "var a11 = e6()\n", "function e12()\n nosuch12.x = 3\nend\n", "function e13()\n for (nosuch13 = 0 to 2)\n end\nend\n"};
  out.push_back(make("several errors", "every ordered triple of 14 declarations, most of them wrong", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(errs) + ch.pick(errs) + ch.pick(errs)};
    return true;
  }, layouts));
  // shadowing and reuse of one name in many scopes
  out.push_back(make("many names", "1..4 functions x 0..3 locals of the same names x 0..3 globals x 0..3 constants", [](Chooser &ch, Case &c) {
    int f = 1 + ch.choose(4), l = ch.choose(4), g = ch.choose(4), k = ch.choose(4);
    std::string o;
    for (int i = 0; i < g; i++) o += "var n" + N(i) + " = " + N(i) + "\n";
    for (int i = 0; i < k; i++) o += "const m" + N(i) + " = " + N(i) + "\n";
    for (int i = 0; i < f; i++) {
      o += "function f" + N(i) + "(n0, m1)\n";
      for (int j = 0; j < l; j++) o += " if (n0)\n  var n" + N(j + 1) + " = m1\n  out(n" + N(j + 1) + " + " + (k ? "m0" : "1") + ")\n end\n";
      o += " return n0\nend\n";
    }
    c.files = {o + "function main()\n return f0(1, 2)\nend\n"};
    return true;
  }, layouts));
  auto pf = features_space(processes);
  pf.name = "features in another process";
  out.push_back(pf);
  out.push_back(make("errors in another process", "every ordered pair of 14 declarations, most of them wrong", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(errs) + ch.pick(errs)};
    return true;
  }, processes));
  auto ps = scripts_space(processes);
  ps.name = "repository scripts in another process";
  out.push_back(ps);
}
