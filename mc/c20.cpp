// C20: the command line tools, run as processes
#include <dirent.h>
#include <spawn.h>
#include <sys/stat.h>
#include "disassembler.h"
#include "harness.h"
using namespace impl;
using corpus::N;
using corpus::rep;

struct Ran { int code = -1, sig = 0; std::string out, err; };
static std::string dir() {
  static std::string d;
  if (d.empty()) { d = mc::scratch_dir() + "/tool" + std::to_string(getpid()); mkdir(d.c_str(), 0755); }
  return d;
}
static void wipe(const std::string &d) {  // everything below the scratch folder of this process
  DIR *p = opendir(d.c_str());
  if (!p) return;
  while (dirent *e = readdir(p)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string f = d + "/" + n;
    if (e->d_type == DT_DIR) { wipe(f); rmdir(f.c_str()); }
    else unlink(f.c_str());
  }
  closedir(p);
}
static std::string tool(const char *name) {
  const char *p = getenv((std::string("VERIF_TOOL_") + name).c_str());
  if (!p) { fprintf(stderr, "c20: no tool\n"); abort(); }
  return p;
}
static void put(const std::string &name, const std::string &data) {
  std::string path = dir() + "/" + name;
  for (size_t i = dir().size() + 1; i < path.size(); i++)
    if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755);
  write_file(path, data);
}
static Ran run(const std::string &exe, const std::vector<std::string> &args, const std::string &in, Result &r) {
  Ran x;
  const std::string base = mc::scratch_dir() + "/io" + std::to_string(getpid());
  write_file(base + ".in", in);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    if (chdir(dir().c_str()) != 0) _exit(120);
    int a = open((base + ".in").c_str(), O_RDONLY), b = open((base + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), c = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(a, 0);
    dup2(b, 1);
    dup2(c, 2);
    std::vector<char *> v{const_cast<char *>("tool")};
    for (auto &s : args) v.push_back(const_cast<char *>(s.c_str()));
    v.push_back(nullptr);
    execv(exe.c_str(), v.data());
    _exit(121);
  }
  const double end = mc::now() + 10;
  int st = 0;
  for (int k = 0;; k++) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    if (mc::now() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); x.sig = 9999; break; }
    usleep(k < 20 ? 200 : 2000);
  }
  if (x.sig == 0) {
    if (WIFSIGNALED(st)) x.sig = WTERMSIG(st);
    else x.code = WEXITSTATUS(st);
  }
  read_file(base + ".out", x.out);
  read_file(base + ".err", x.err);
  r.runs++;
  if (x.sig == 9999) r.fail("the tool hangs");
  else if (x.sig) r.fail("the tool crashes with signal " + N(x.sig) + ": " + x.err.substr(0, 300));
  return x;
}

// ---------------------------------------------------------------- runner
static const std::vector<ref::Sys> &runner_syscalls() {
  static std::vector<ref::Sys> s;
  if (s.empty()) {
    for (auto &x : std_syscalls()) if (x.name != "out" && x.name != "outv") s.push_back(x);
    s.push_back({"putc", 1});
    s.push_back({"getc", 0});
    s.push_back({"puts", 1});
    s.push_back({"gets", 0});
    s.push_back({"rand", 0});
    s.push_back({"print", 1});
  }
  return s;
}
struct Want { int code = 0, file = 0, line = 0; std::string out, exit; bool diverged = false, any_exit = false; uint64_t steps = 0; };
static Want runner_model(const std::vector<std::string> &files, const std::string &in, const program_t *addr) {
  Want w;
  std::vector<std::string> f = files;
  ref::Built b = ref::build(f, runner_syscalls(), true);
  if (!b.ok) { w.code = 1; w.file = b.err.file; w.line = b.err.line; return w; }
  auto it = b.prog->by_name.find("main");
  if (it == b.prog->by_name.end() || it->second->sys) { w.code = 252; return w; }
  ref::Machine m(*b.prog);
  m.fuel = 60000;
  if (addr) m.addr = [addr](const ref::Func *fn) { const function_t *x = addr->function_find(fn->name); return x ? x->code_start_ : -1; };
  size_t pos = 0;
  m.host = [&](ref::Machine &mm, const std::string &n, std::vector<ref::Val> &a, ref::Val &ret) {
    auto args = [&](size_t k) { if (a.size() != k) mm.fault(ref::F_NARGS); };
    if (n == "putc") { args(1); if (a[0].t != ref::V_INT) mm.fault(ref::F_ARG); w.out += char(a[0].i); ret = mm.I(0); return true; }
    if (n == "puts" || n == "print") { args(1); if (a[0].t != ref::V_STR) mm.fault(ref::F_ARG); w.out += *a[0].s + "\n"; ret = mm.I(0); return true; }
    if (n == "getc") { args(0); ret = mm.I(pos < in.size() ? int((unsigned char)in[pos++]) : -1); return true; }
    if (n == "gets") {
      args(0);
      std::string s;
      while (pos < in.size() && s.size() < 79) { char c = in[pos++]; s += c; if (c == '\n') { s.pop_back(); break; } }
      size_t z = s.find('\0');
      ret = mm.S(z == std::string::npos ? s : s.substr(0, z));
      return true;
    }
    if (n == "rand") { args(0); ret = mm.I(0); return true; }
    return false;
  };
  bool initing = true;
  try {
    m.init();
    initing = false;
    if (it->second->nargs != 0) { w.code = 250; return w; }
    ref::Val v = m.invoke(it->second, {});
    char buf[64];
    switch (v.t) {
    case ref::V_NONE: w.exit = "none"; break;
    case ref::V_INT: w.exit = N(v.i); break;
    case ref::V_FLT: snprintf(buf, sizeof buf, "%f", double(v.f)); w.exit = buf; break;
    case ref::V_STR: w.exit = "\"" + *v.s + "\""; break;
    case ref::V_ARR: w.exit = "array"; break;
    case ref::V_FUN: w.exit = "function"; break;
    default: w.any_exit = true; break;
    }
  } catch (const ref::Stop &) {
    w.code = initing ? 251 : 250;
  } catch (const ref::OutOfFuel &) {
    w.diverged = true;
  }
  w.steps = m.steps;
  return w;
}
static std::unique_ptr<Compiled> compile_as_runner(const std::vector<std::string> &files, bool opt, bool sys) {
  std::unique_ptr<Compiled> c(new Compiled);
  if (sys) {
    builtins_register(*c->nano);
    for (auto &s : runner_syscalls()) if (s.name == "putc" || s.name == "getc" || s.name == "puts" || s.name == "gets" || s.name == "rand" || s.name == "print") c->nano->syscall_register(s.name, s.nargs);
  }
  c->nano->optimize = opt;
  for (auto &f : files) c->sources.load_from_string(f.c_str());
  c->ok = c->nano->build(c->sources, c->err);
  return c;
}
static std::string trim_end(std::string s) { while (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
static void judge(const Want &w, const Ran &x, Result &r) {
  if (r.bad) return;
  if (x.code != w.code) { r.fail("exit code: expected " + N(w.code) + ", observed " + N(x.code) + "\n  stdout " + x.out.substr(0, 300) + "\n  stderr " + x.err.substr(0, 300)); return; }
  if (w.code == 1) {
    int f = -1, l = -1, n = 0;
    if (sscanf(x.err.c_str(), "file %d, line:%d - %n", &f, &l, &n) < 2) { r.fail("compile error without file and line: " + x.err.substr(0, 300)); return; }
    diff(r, "position of the compile error", N(w.file) + ":" + N(w.line), N(f) + ":" + N(l));
    if (trim_end(x.err.substr(size_t(n))).empty()) r.fail("compile error without a message");
    diff(r, "host output", w.out, x.out);
    return;
  }
  if (w.code == 0) {
    // host output, then the result on a line of its own
    std::string head = w.out + "exit: ";
    if (x.out.compare(0, head.size(), head) != 0) { diff(r, "output", head, x.out); return; }
    if (!w.any_exit) diff(r, "result", trim_end(w.exit), trim_end(x.out.substr(head.size())));
    if (x.out.empty() || x.out.back() != '\n') r.fail("the result line is not terminated");
    return;
  }
  diff(r, "host output", w.out, x.out);
  if ((w.code == 252 || w.code == 251) && x.err.empty()) r.fail("failure without a message");
}
static void runner(const std::vector<std::string> &files, const std::string &in, Result &r, const std::vector<std::string> &names = {}) {
  auto cc = compile_as_runner(files, true, true);
  Want w = runner_model(files, in, cc->ok ? &cc->prog : nullptr);
  r.model_steps += w.steps;
  if (w.diverged) { r.outcome = "DIVERGED"; return; }
  std::vector<std::string> args;
  for (size_t i = 0; i < files.size(); i++) {
    args.push_back(i < names.size() ? names[i] : "s" + N(long(i)) + ".nano");
    put(args.back(), files[i]);
  }
  Ran x = run(tool("DRIVER"), args, in, r);
  judge(w, x, r);
  wipe(dir());
  r.outcome = N(w.code) + w.out + w.exit;
}
// files: sources; note may hold the standard input
static void exec_runner(const Case &c, Result &r) { runner(c.files, c.note, r); }

static const char *out_file = "function out(x)\n puts(\"o\" + x)\n return x\nend\nfunction outv(x)\n puts(\"v\" + x)\n return x\nend\n";

// ---------------------------------------------------------------- compiler tool
static std::string slurp(std::function<void(FILE *)> fn) {
  char *p = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  fn(f);
  fclose(f);
  std::string s(p, n);
  free(p);
  return s;
}
// the tree the source denotes, in the notation of the tree dump
struct Tree {
  std::string out;
  int depth = 0;
  void line(const std::string &s) { for (int i = 0; i < depth; i++) out += ".  "; out += s + "\n"; }
  struct In { Tree &t; In(Tree &t_) : t(t_) { t.depth++; } ~In() { t.depth--; } };
  static std::string op(ref::Tk k) {
    switch (k) {
    case ref::K_ADD: return "+";
    case ref::K_SUB: return "-";
    case ref::K_MUL: return "*";
    case ref::K_DIV: return "/";
    case ref::K_MOD: return "%";
    case ref::K_LT: return "<";
    case ref::K_LEQ: return "<=";
    case ref::K_GT: return ">";
    case ref::K_GEQ: return ">=";
    case ref::K_EQ: return "==";
    case ref::K_AND: return "and";
    case ref::K_OR: return "or";
    default: return "?";
    }
  }
  void expr(const ref::Expr *e) {
    if (!e) return;
    char b[96];
    switch (e->k) {
    case ref::Expr::Int: line("ast_exp_lit_var_t {value: " + N(e->i) + "}"); return;
    case ref::Expr::Flt: snprintf(b, sizeof b, "ast_exp_lit_var_t {value: %f}", double(e->f)); line(b); return;
    case ref::Expr::Str: line("ast_exp_lit_str_t {value: " + e->s + "}"); return;
    case ref::Expr::None: line("ast_exp_none_t"); return;
    case ref::Expr::Id: line("ast_exp_ident_t {name: " + e->s + "}"); return;
    case ref::Expr::Mem: line("ast_exp_member_t {name: " + e->s + "}"); return;
    case ref::Expr::Arr: line("ast_exp_array_init_t"); break;
    case ref::Expr::Idx: line("ast_exp_deref_t"); break;
    case ref::Expr::Un: line("ast_exp_unary_op_t"); break;
    case ref::Expr::Bin: line("ast_exp_bin_op_t {op: " + op(e->op) + "}"); break;
    case ref::Expr::Call: {
      line("ast_exp_call_t");
      In in(*this);
      for (size_t i = 1; i < e->a.size(); i++) expr(e->a[i]);
      expr(e->a[0]);
      return;
    }
    }
    In in(*this);
    for (auto *x : e->a) expr(x);
  }
  void decl(const ref::Decl *d, const ref::Expr *e) { line("ast_decl_var_t {name: " + d->name + "}"); In in(*this); expr(e); }
  void block(const std::vector<ref::Stmt *> &b) { line("ast_block_t"); In in(*this); for (auto *s : b) stmt(s); }
  void stmt(const ref::Stmt *s) {
    switch (s->k) {
    case ref::Stmt::Var: decl(s->var, s->e); return;
    case ref::Stmt::Set: line("ast_stmt_assign_var_t {name: " + s->name + "}"); break;
    case ref::Stmt::SetIdx: line("ast_stmt_assign_array_t"); break;
    case ref::Stmt::SetMem: line("ast_stmt_assign_member_t"); break;
    case ref::Stmt::Call: line("ast_stmt_call_t"); break;
    case ref::Stmt::If: line("ast_stmt_if_t"); break;
    case ref::Stmt::While: line("ast_stmt_while_t"); break;
    case ref::Stmt::For: line("ast_stmt_for_t {name=" + s->name + "}"); break;
    case ref::Stmt::Ret: line("ast_stmt_return_t"); break;
    }
    In in(*this);
    if (s->k == ref::Stmt::SetIdx) { expr(s->e2); expr(s->e); return; }
    expr(s->e);
    if (s->k == ref::Stmt::For) expr(s->e2);
    if (s->k == ref::Stmt::If || s->k == ref::Stmt::While || s->k == ref::Stmt::For) block(s->body);
    if (s->has_else) block(s->els);
  }
  void program(const ref::Program &p) {
    line("ast_program_t");
    In in(*this);
    for (auto &t : p.tops) {
      if (t.var) decl(t.var, t.var->init);
      if (!t.fn || t.fn->sys) continue;
      line("ast_decl_func_t {name: " + t.fn->name + "}");
      In in2(*this);
      for (auto *a : t.fn->args) decl(a, nullptr);
      block(t.fn->body);
    }
  }
};
// the dump without the functions the compiler adds
static std::string own_tree(const std::string &dump) {
  size_t p = dump.find("\n.  ast_decl_func_t {name: @");
  return p == std::string::npos ? dump : dump.substr(0, p + 1);
}
static void exec_tree(const Case &c, Result &r) {
  auto cc = compile_as_runner(c.files, false, false);
  std::vector<std::string> f = c.files;
  ref::Built m = ref::build(f, {}, false);
  r.runs++;
  if (cc->ok != m.ok) r.fail(std::string("the model ") + (m.ok ? "accepts" : "rejects") + " the program, the compiler does not agree");
  if (m.ok && cc->ok) {
    Tree t;
    t.program(*m.prog);
    diff(r, "tree", t.out, own_tree(slurp([&](FILE *o) { cc->nano->ast().dump(o); })));
    r.outcome = N(long(t.out.size()));
  } else r.outcome = "rejected";
}
// p: options in order (0 n, 1 a, 2 d, 3 b)
static void exec_comp(const Case &c, Result &r) {
  bool opt = true, a = false, d = false, b = false;
  static const char *on[] = {"-n", "-a", "-d", "-b"};
  std::string name = c.note.empty() ? "x.nano" : c.note;
  std::vector<std::string> args{name};
  put(name, c.files[0]);
  for (long k : c.p) {
    args.push_back(on[k]);
    if (k == 0) opt = false;
    if (k == 1) a = true;
    if (k == 2) d = true;
    if (k == 3) b = true;
  }
  for (size_t i = 1; i < c.files.size(); i++) { args.push_back("more" + N(long(i))); put(args.back(), c.files[i]); }
  Ran x = run(tool("COMP"), args, "", r);
  auto cc = compile_as_runner(c.files, opt, false);
  std::vector<std::string> f = c.files;
  ref::Built m = ref::build(f, {}, opt);
  Want w;
  if (!m.ok) { w.code = 1; w.file = m.err.file; w.line = m.err.line; }
  if (!r.bad) {
    if (x.code != w.code) r.fail("exit code: expected " + N(w.code) + ", observed " + N(x.code) + " " + x.err.substr(0, 200));
    else if (w.code) judge(w, x, r);
  }
  if (!r.bad && w.code == 0) {
    struct { bool want; const char *ext; } fs[] = {{a, ".ast"}, {d, ".dis"}, {b, ".bin"}};
    for (auto &e : fs) {
      std::string got, exp;
      bool have = read_file(dir() + "/" + name + e.ext, got);
      if (have != e.want) { r.fail(std::string(e.ext) + (have ? " was written without being asked for" : " is missing")); break; }
      if (!have) continue;
      if (e.ext[1] == 'a') exp = slurp([&](FILE *o) { cc->nano->ast().dump(o); });
      else if (e.ext[1] == 'd') exp = slurp([&](FILE *o) { disassembler_t dis; dis.dump(cc->prog, o); });
      else exp.assign((const char *)cc->prog.data(), cc->prog.size());
      if (e.ext[1] == 'a' && !opt) {
        Tree t;
        t.program(*m.prog);
        diff(r, "tree", t.out, own_tree(got));
        if (r.bad) break;
      }
      if (exp != got) { r.fail(std::string(e.ext) + ": " + first_difference(exp, got)); break; }
      if (e.ext[1] != 'b' && exp.find("main") == std::string::npos && c.files[0].find("function main") != std::string::npos) { r.fail(std::string(e.ext) + " does not show main"); break; }
    }
    // nothing else is touched
    DIR *q = opendir(dir().c_str());
    int n = 0;
    while (dirent *e = readdir(q)) if (e->d_name[0] != '.') n++;
    closedir(q);
    std::string kept;
    read_file(dir() + "/" + name, kept);
    if (!r.bad && kept != c.files[0]) r.fail("the source file was changed");
    if (!r.bad && name.find('/') == std::string::npos && n != int(c.files.size()) + a + d + b) r.fail("unexpected files were written");
  }
  wipe(dir());
  r.outcome = N(w.code) + N(long(c.p.size()));
}

// ---------------------------------------------------------------- ways to name sources
struct Inv { std::vector<std::string> args; int code; };
static void exec_invocation(const Case &c, Result &r) {
  put("ok.nano", "function main()\n puts(\"hi\")\n return 3\nend\n");
  put("lib.nano", "function lib()\n return 4\nend\n");
  put("nomain.nano", "var x = 1\nfunction f()\n return 1\nend\n");
  put("empty.nano", "");
  put("bad.nano", "function main()\n\n return (\nend\n");
  put("bad1.nano", "\n\n\nfunction q(\n");
  put("args.nano", "function main(a)\n return a\nend\n");
  put("init.nano", "var z = none - 1\nfunction main()\n puts(\"never\")\nend\n");
  put("fail.nano", "function main()\n puts(\"before\")\n var z = 0\n return 1 / z\nend\n");
  put("sub/part.nano", "import \"deep/leaf.nano\"\nfunction part()\n return leaf() + 1\nend\n");
  put("sub/deep/leaf.nano", "function leaf()\n return 40\nend\n");
  put("imp.nano", "import \"sub/part.nano\"\nfunction main()\n return part()\nend\n");
  put("imp2.nano", "var k = 1\nimport \"sub/none.nano\"\nfunction main()\n return 1\nend\n");
  put("sub/up.nano", "import \"../lib.nano\"\nfunction main()\n return lib()\nend\n");
  put("cyc.nano", "import \"cyc2.nano\"\nfunction main()\n return two()\nend\n");
  put("cyc2.nano", "import \"cyc.nano\"\nfunction two()\n return 2\nend\n");
  put("name with space.nano", "function main()\n return \"sp\"\nend\n");
  std::string deep = "d";
  for (int i = 0; i < 40; i++) deep += "/dddddddddd";
  put(deep + "/far.nano", "function main()\n return 8\nend\n");
  struct Case_ { std::vector<std::string> args; int code; std::string out; int file, line; };
  const std::string abs = dir() + "/ok.nano";
  const std::vector<Case_> all = {
      {{}, 255, "", 0, 0},
      {{"missing.nano"}, 254, "", 0, 0},
      {{"ok.nano", "missing.nano"}, 254, "", 0, 0},
      {{"missing.nano", "ok.nano"}, 254, "", 0, 0},
      {{"sub"}, 254, "", 0, 0},
      {{"sub/"}, 254, "", 0, 0},
      {{"."}, 254, "", 0, 0},
      {{""}, 254, "", 0, 0},
      {{"ok.nano/x"}, 254, "", 0, 0},
      {{"ok.nano"}, 0, "hi\nexit: 3\n", 0, 0},
      {{abs}, 0, "hi\nexit: 3\n", 0, 0},
      {{"./ok.nano"}, 0, "hi\nexit: 3\n", 0, 0},
      {{"ok.nano", "lib.nano"}, 0, "hi\nexit: 3\n", 0, 0},
      {{"lib.nano", "ok.nano"}, 0, "hi\nexit: 3\n", 0, 0},
      {{"ok.nano", "ok.nano"}, 0, "hi\nexit: 3\n", 0, 0},
      {{"ok.nano", "./ok.nano"}, 0, "hi\nexit: 3\n", 0, 0},
      {{"empty.nano", "ok.nano"}, 254, "", 0, 0},
      {{"empty.nano"}, 254, "", 0, 0},
      {{"nomain.nano"}, 252, "", 0, 0},
      {{"bad.nano"}, 1, "", 0, 3},
      {{"ok.nano", "bad1.nano"}, 1, "", 1, 4},
      {{"lib.nano", "ok.nano", "bad1.nano"}, 1, "", 2, 4},
      {{"ok.nano", "fail.nano"}, 1, "", 1, 1},
      {{"args.nano"}, 250, "", 0, 0},
      {{"init.nano"}, 251, "", 0, 0},
      {{"fail.nano"}, 250, "before\n", 0, 0},
      {{"imp.nano"}, 0, "exit: 41\n", 0, 0},
      {{"imp.nano", "sub/part.nano"}, 0, "exit: 41\n", 0, 0},
      {{"sub/deep/leaf.nano", "imp.nano"}, 0, "exit: 41\n", 0, 0},
      {{"imp2.nano"}, 1, "", 0, 2},
      {{"sub/up.nano"}, 0, "exit: 4\n", 0, 0},
      {{"cyc.nano"}, 0, "exit: 2\n", 0, 0},
      {{"name with space.nano"}, 0, "exit: \"sp\"\n", 0, 0},
      {{deep + "/far.nano"}, 0, "exit: 8\n", 0, 0},
  };
  const Case_ &k = all[size_t(c.p[0]) % all.size()];
  if (size_t(c.p[0]) >= all.size()) { wipe(dir()); r.outcome = "none"; return; }
  if (c.p[1] == 0) {
    Ran x = run(tool("DRIVER"), k.args, "", r);
    if (!r.bad && x.code != k.code) r.fail("exit code: expected " + N(k.code) + ", observed " + N(x.code) + " " + x.err.substr(0, 200));
    diff(r, "output", k.out, x.out);
    if (!r.bad && k.code == 1) {
      int f = -1, l = -1;
      sscanf(x.err.c_str(), "file %d, line:%d", &f, &l);
      diff(r, "position", N(k.file) + ":" + N(k.line), N(f) + ":" + N(l));
    }
    if (!r.bad && k.code != 0 && k.code != 250 && x.err.empty()) r.fail("no message on the error stream");
  } else {
    // the compiler tool: same verdicts, no run
    std::vector<std::string> a = k.args;
    a.push_back("-d");
    Ran x = run(tool("COMP"), a, "", r);
    bool uses_sys = false;
    for (auto &n : k.args) if (n.find("ok.nano") != std::string::npos || n == "init.nano" || n == "fail.nano") uses_sys = true;
    int want = k.code == 254 ? 254 : uses_sys || k.code == 1 ? 1 : 0;
    if (!k.args.empty() && !r.bad && x.code != want) r.fail("compiler tool exit code: expected " + N(want) + ", observed " + N(x.code) + " " + x.err.substr(0, 200));
    std::string s;
    if (!r.bad && !k.args.empty() && want == 0 && k.args[0][0] != '/' && !read_file(dir() + "/" + k.args[0] + ".dis", s)) r.fail("no listing was written");
    if (!r.bad && k.args.empty()) run(tool("COMP"), {}, "", r);
  }
  wipe(dir());
  r.outcome = N(k.code) + k.out;
}

// arbitrary bytes: no crash, no hang, and the verdict of the grammar
static void exec_bytes(const Case &c, Result &r) {
  const std::string &text = c.files[0];
  const bool nul = text.find('\0') != std::string::npos;
  put("x.nano", text);
  Ran x = run(tool(c.p[0] ? "COMP" : "DRIVER"), {"x.nano"}, "", r);
  if (!r.bad && !nul) {
    std::vector<std::string> f = {text};
    ref::Built m = ref::build(f, c.p[0] ? std::vector<ref::Sys>() : runner_syscalls(), true);
    int want = !m.ok ? 1 : c.p[0] ? 0 : 252;
    if (m.ok && !c.p[0] && m.prog->by_name.count("main")) want = x.code;
    if (x.code != want) r.fail("exit code: expected " + N(want) + ", observed " + N(x.code) + " " + x.err.substr(0, 200));
  }
  wipe(dir());
  r.outcome = N(x.code);
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  auto push = [&](Space s) { s.hang_s = 60; out.push_back(s); };
  push(make("runner, features", "every feature program with its host calls printed, as one or two source files in both orders", [](Chooser &ch, Case &c) {
    std::string p = ch.pick(corpus::features());
    int k = ch.choose(3);
    if (k == 0) c.files = {p, out_file};
    if (k == 1) c.files = {out_file, p};
    if (k == 2) c.files = {p + "\n" + out_file};
    return true;
  }, exec_runner));
  push(make("runner, scripts", "every script of the repository's tests without imports, threads or random numbers", [](Chooser &ch, Case &c) {
    auto &v = corpus::repo_scripts();
    if (v.empty()) return false;
    auto &x = v[size_t(ch.choose(int(v.size())))];
    for (const char *w : {"new_thread", "import", "rand"}) if (x.second.find(w) != std::string::npos) return false;
    c.files = {x.second};
    c.note = "a line\nanother";
    return true;
  }, exec_runner));
  push(make("runner, blocks", "all function bodies of one or two statements over the statement grammar", [th](Chooser &ch, Case &c) {
    if (ch.flip()) { if (!corpus::block_program(ch, c, 1, th ? 1 : 0, 1)) return false; }
    else if (!corpus::block_program(ch, c, 2, -1, 1)) return false;
    c.files.push_back(out_file);
    c.p.clear();
    c.note.clear();
    return true;
  }, exec_runner));
  push(make("runner, expressions", "all operators x 11 x 11 operands as the result of main", [](Chooser &ch, Case &c) {
    std::string op = ch.pick(corpus::binops()), a = ch.pick(corpus::few_atoms()), b = ch.pick(corpus::few_atoms());
    c.files = {"function f(x)\n return x\nend\nfunction main()\n var a = " + a + "\n var b = " + b + "\n return a " + op + " b\nend\n", out_file};
    return true;
  }, exec_runner));
  push(make("results", "every kind of value as the result of main, from 6 sources", [](Chooser &ch, Case &c) {
    static const Strs v = {"0", "1", "-1", "2147483647", "-2147483647 - 1", "0.0", "0.5", "-1 * 2.25", "1.0 / 3", "123456789.0", "1.0 / z", "none", "\"\"", "\"a\"", "\"a b%d%s\"", "\"\\n\"", "[1]", "[[1], 2]", "new_array(3)", "f", "main", "abs", "puts", "chr(10)", "chr(200)", "\"x\" + 1.5", "len(\"abc\")", "1 == 1", "not 1", "f(7)", "\"" + rep("long ", 300) + "\""};
    std::string e = ch.pick(v);
    int how = ch.choose(6);
    std::string pre = "var z = 0.0\nfunction f(x)\n return x\nend\n";
    switch (how) {
    case 0: c.files = {pre + "function main()\n return " + e + "\nend\n"}; break;
    case 1: c.files = {pre + "function main()\n var v = " + e + "\n return v\nend\n"}; break;
    case 2: c.files = {pre + "var g\nfunction main()\n g = " + e + "\n return g\nend\n"}; break;
    case 3: c.files = {pre + "function main()\n return f(" + e + ")\nend\n"}; break;
    case 4: c.files = {pre + "function main()\n var a = [0, " + e + "]\n return a[1]\nend\n"}; break;
    case 5: c.files = {pre + "function main()\n puts(\"first\")\n putc(65)\n if (1)\n  return " + e + "\n end\n return 5\nend\n"}; break;
    }
    return true;
  }, exec_runner));
  push(make("host calls", "every host function of the runner x argument tuples of up to 2 values, direct and through a variable", [](Chooser &ch, Case &c) {
    static const Strs fn = {"putc", "puts", "print", "getc", "gets", "rand"};
    static const Strs v = {"none", "0", "65", "-1", "256", "321", "0.5", "\"\"", "\"a\"", "\"%s%d\"", "[1]", "main", "puts"};
    std::string f = ch.pick(fn), a;
    int n = ch.choose(3), how = ch.choose(2);
    for (int i = 0; i < n; i++) a += std::string(i ? ", " : "") + ch.pick(v);
    bool rnd = f == "rand";
    std::string call = how ? "h(" + a + ")" : f + "(" + a + ")";
    c.files = {"function main()\n var h = " + f + "\n puts(\"<\")\n var r = " + call + "\n puts(\">\")\n" + (rnd ? " return 5\n" : " return r\n") + "end\n"};
    c.note = "in\nput";
    return true;
  }, exec_runner));
  push(make("printed text", "puts, print and putc of every byte and of strings of every length 0.." + N(th ? 600 : 120), [th](Chooser &ch, Case &c) {
    int k = ch.choose(255 + 1 + (th ? 601 : 121));
    if (k < 256) c.files = {"function main()\n putc(" + N(k) + ")\n puts(\"<\" + chr(" + N(k) + ") + \">\")\n print(chr(" + N(k) + "))\n return chr(" + N(k) + ")\nend\n"};
    else c.files = {"function main()\n puts(\"" + rep("%", k - 256) + "\")\n return \"" + rep("x", k - 256) + "\"\nend\n"};
    return true;
  }, exec_runner));
  push(make("input", "every sequence of 3 reads over 18 input texts", [](Chooser &ch, Case &c) {
    static const Strs in = {"", "\n", "a", "a\n", "ab\ncd\n", "\n\n\n", rep("x", 78), rep("x", 79), rep("x", 80), rep("x", 81), rep("x", 78) + "\n", rep("x", 79) + "\nq", rep("x", 80) + "\n", rep("y", 200), "a\r\nb", std::string("\xff\xfe\x01"), "line one\nline two\nline three\n", "end"};
    c.note = ch.pick(in);
    std::string b;
    for (int i = 0; i < 3; i++) b += ch.flip() ? " r = gets()\n puts(\"[\" + r + \"]\")\n" : " r = getc()\n puts(\"(\" + r + \")\")\n";
    c.files = {"function main()\n var r\n" + b + " return r\nend\n"};
    return true;
  }, exec_runner));
  push(make("invocations", "34 ways to name sources x both tools", [](Chooser &ch, Case &c) {
    c.p = {ch.choose(34), ch.choose(2)};
    return true;
  }, exec_invocation));
  push(make("random numbers", "rand stays in range", [](Chooser &ch, Case &c) {
    int n = 1 + ch.choose(20);
    c.files = {"function main()\n var i\n var ok = 1\n for (i = 0 to " + N(n) + ")\n  var x = rand()\n  if (x < 0)\n   ok = 0\n  end\n  if (x > 8388607)\n   ok = 0\n  end\n end\n return ok\nend\n"};
    return true;
  }, exec_runner));
  static Strs comp_programs;
  if (comp_programs.empty()) {
    for (auto &p : corpus::features()) {
      bool sys = false;
      for (const char *w : {"out", "abs", "len", "new_array", "chr"}) if (p.find(w) != std::string::npos) sys = true;
      if (!sys) comp_programs.push_back(p);
    }
    for (const char *p : {"# nothing\n", "var a = 1\n", "const k = \"s\"\n", "function f()\nend\n", "function main()\n var a = [1, 2.5, \"s\", none, main]\n a[0] = -1 * 2\n a.q = a.r\n a += not 1\n return a(1, 2)\nend\n",
                          "function main()\n return x\nend\n", "function main()\n\n return 1 / 0\nend\n", "\n\nfunction\n", "function main()\n if (1)\n  return 2\n end\n return 3\nend\n", "function main()\n return abs(1)\nend\n"})
      comp_programs.push_back(p);
  }
  push(make("trees, statements", "the tree of all function bodies of up to two nested statements over the statement grammar", [th](Chooser &ch, Case &c) {
    if (ch.flip()) { if (!corpus::block_program(ch, c, 1, th ? 2 : 1, 1)) return false; }
    else if (!corpus::block_program(ch, c, 2, th ? 1 : 0, 1)) return false;
    c.files.push_back(out_file);
    c.files.push_back("function puts(x)\nend\n");
    c.p.clear();
    c.note.clear();
    return true;
  }, exec_tree));
  push(make("trees, expressions", "the tree of all expressions of up to " + std::string(th ? "4" : "3") + " operators over every kind of operand", [th](Chooser &ch, Case &c) {
    static const Strs at = {"1", "x", "2.5", "\"s\"", "none", "f", "k", "x.m", "[1, x]", "x[2]", "f(1)", "(x)", "-x", "not x"}, few = {"1", "x", "k", "-x"};
    int n = 1 + ch.choose(th ? 5 : 4);
    std::string e;
    for (int i = 0; i < n; i++) {
      std::string a = ch.pick(n > 2 ? few : at);
      if (i) e += " " + (n > 3 ? ch.pick(Strs{"+", "*", "<", "and"}) : ch.pick(corpus::binops())) + " ";
      e += a;
    }
    switch (ch.choose(6)) {
    case 0: e = " return " + e; break;
    case 1: e = " x = [" + e + ", (" + e + ")]"; break;
    case 2: e = " f(" + e + ", 1, " + e + ")"; break;
    case 3: e = " x[" + e + "] = " + e; break;
    case 4: e = " for (x = " + e + " to " + e + ")\n  x *= " + e + "\n end"; break;
    case 5: e = " if (" + e + ")\n  x.m = " + e + "\n else\n  while (" + e + ")\n   return\n  end\n end"; break;
    }
    c.files = {"const k = 5\nfunction f(x)\n" + e + "\nend\n"};
    return true;
  }, exec_tree));
  push(make("trees, nesting", "the tree of statements and of expressions nested to every depth up to 40, 9 ways, and of every literal as a constant, global and operand", [](Chooser &ch, Case &c) {
    static const Strs lit = {"0", "1", "-1", "2147483647", "-2147483647", "7 - 9", "1000000 * 10", "0.0", "2.5", "123456.75", "0.000001", "\"\"", "\"s\"", "\"%d %s\"", "none", "1 < 2", "not 1", "-(3)"};
    int how = ch.choose(10), n = ch.choose(how == 9 ? int(lit.size()) : 41);
    std::string a, z, e;
    switch (how) {
    case 0: a = rep("if (x)\n", n), z = rep("end\n", n); break;
    case 1: a = rep("if (x)\n else\n", n), z = rep("end\n", n); break;
    case 2: a = rep("while (x)\n x = 1\n", n), z = rep("end\n", n); break;
    case 3: a = rep("for (x = 0 to x)\n", n), z = rep("end\n", n); break;
    case 4: e = rep("f(", n) + "x" + rep(")", n); break;
    case 5: e = rep("[1, ", n) + "x" + rep(", 2]", n); break;
    case 6: e = "x" + rep("[x]", n); break;
    case 7: e = rep("(1 + ", n) + "x" + rep(")", n); break;
    case 8: e = rep("-", n) + "x"; break;
    case 9: {
      std::string l = lit[size_t(n)];
      bool k = ch.flip();
      c.files = {std::string(k ? "const" : "var") + " k = " + l + "\nfunction f(x)\n x = " + l + "\n return k\nend\n"};
      return true;
    }
    }
    c.files = {"function f(x)\n" + a + " x = " + (e.empty() ? "2" : e) + "\n" + z + " return x\nend\n"};
    return true;
  }, exec_tree));
  push(make("trees, programs", "the tree of every feature program and of every script of the repository", [](Chooser &ch, Case &c) {
    static Strs v;
    if (v.empty()) {
      v = corpus::features();
      for (auto &x : corpus::repo_scripts()) if (x.second.find("import") == std::string::npos) v.push_back(x.second);
    }
    static const char *stubs[] = {"abs", "min", "max", "bitand", "sin", "cos", "tan", "len", "chr", "round", "ceil", "floor", "sqrt", "new_thread", "wait", "new_array", "out", "outv", "putc", "getc", "puts", "gets", "rand", "print"};
    c.files = {ch.pick(v)};
    std::string s;
    for (const char *n : stubs)
      if (c.files[0].find(std::string("function ") + n + "(") == std::string::npos) s += std::string("function ") + n + "()\nend\n";
    if (ch.flip()) c.files.push_back(s);
    return true;
  }, exec_tree));
  push(make("compiler tool", "every program without system calls x all 65 sequences of distinct options -n -a -d -b", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(comp_programs)};
    bool used[4] = {};
    for (int k = 0; k < 4; k++) {
      std::vector<int> left{-1};
      for (int i = 0; i < 4; i++) if (!used[i]) left.push_back(i);
      int o = ch.pick(left);
      if (o < 0) break;
      used[o] = true;
      c.p.push_back(o);
    }
    return true;
  }, exec_comp));
  push(make("compiler tool, repeated options", "all sequences of 3 options with repetition", [](Chooser &ch, Case &c) {
    c.files = {comp_programs[size_t(ch.choose(3)) * 2]};
    for (int k = 0; k < 3; k++) c.p.push_back(ch.choose(4));
    return true;
  }, exec_comp));
  push(make("compiler tool, names", "output next to sources in folders and with names of 1 to 3600 characters, every length of 1000..1040", [](Chooser &ch, Case &c) {
    static const std::vector<int> n = {1, 10, 50, 100, 120, 200};
    int way = ch.choose(2);
    if (way) {
      // every path length around the round ones
      static const std::vector<int> more = {1500, 2030, 2044, 2048, 2052, 3000, 3600};
      int i = ch.choose(41 + int(more.size())), want = i < 41 ? 1000 + i : more[size_t(i - 41)];
      while (int(c.note.size()) + 150 < want) c.note += rep("d", 99) + "/";
      c.note += rep("f", want - int(c.note.size()));
      c.files = {"function main()\n return 1 + 2\nend\n"};
      c.p = {1, 2, 3};
      return true;
    }
    int len = ch.pick(n), depth = ch.choose(6);
    for (int i = 0; i < depth; i++) c.note += rep("d", len) + "/";
    c.note += rep("f", len);
    c.files = {"function main()\n return 1 + 2\nend\n"};
    c.p = {1, 2, 3};
    return c.note.size() < 1000;
  }, exec_comp));
  push(make("compiler tool, several files", "two and three sources, options -a -d -b", [](Chooser &ch, Case &c) {
    static const Strs extra = {"function g()\n return 1\nend\n", "var q = 3\n", "function h(\n", "\n", "const z = main\n"};
    c.files = {"function main()\n return 4\nend\n"};
    int n = 1 + ch.choose(2);
    for (int i = 0; i < n; i++) { std::string e = extra[size_t(ch.choose(int(extra.size())))]; c.files.push_back(e); }
    c.p = {1, 2, 3};
    if (ch.flip()) c.p.push_back(0);
    return true;
  }, exec_comp));
  push(make("bytes", "files of every single byte and every pair of 24 bytes, both tools", [](Chooser &ch, Case &c) {
    c.p = {ch.choose(2)};
    static const std::string al("\0\n\r\t \"#()[],+-*/%=<>.a1_\xff", 26);
    if (ch.flip()) c.files = {std::string(1, char(ch.choose(256)))};
    else { char a = al[size_t(ch.choose(int(al.size())))], b = al[size_t(ch.choose(int(al.size())))]; c.files = {std::string{a, b}}; }
    return true;
  }, exec_bytes));
  push(make("token files", "files of every sequence of up to " + N(th ? 4 : 3) + " tokens of 27, both tools", [th](Chooser &ch, Case &c) {
    static const Strs t = {"function", "var", "const", "if", "else", "while", "for", "to", "end", "return", "import", "not", "and", "none", "x", "1", "\"s\"", "(", ")", "[", "]", ",", "=", "+", "-", ".", "\n"};
    c.p = {ch.choose(2)};
    int n = 1 + ch.choose(th ? 4 : 3);
    std::string s;
    for (int i = 0; i < n; i++) s += ch.pick(t) + " ";
    c.files = {s};
    return true;
  }, exec_bytes));
}
