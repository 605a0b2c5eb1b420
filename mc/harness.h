// helpers shared by the drivers
#pragma once
#include "corpus.h"
#include "explore.h"
#include "impl.h"

using corpus::Strs;
using mc::Case;
using mc::Chooser;
using mc::Result;
using mc::Space;

// compare the implementation with the model on one program
struct Expect {
  bool globals = true;
  bool err_line = true;
};
inline void diff(Result &r, const std::string &what, const std::string &want, const std::string &got) {
  if (want != got) r.fail(what + ":\n  expected " + want + "\n  observed " + got);
}

// a program that goes on for longer than the model was allowed to: the implementation has to go on as well, doing the same
inline void still_running(Result &r, const std::string &what, const impl::Outcome &m, nano::program_t &prog) {
  if (r.bad || !m.endless) return;
  impl::RunOpts ro;
  ro.drive = [](nano::thread_t &t) { while (!t.finished() && t.get_cycle_count() < 6000) t.resume(int32_t(6000 - t.get_cycle_count())); };
  impl::Outcome o;
  impl::run_program(prog, o, ro);
  r.runs++;
  r.impl_steps += o.steps;
  const size_t n = std::min(o.trace.size(), m.trace.size());
  if (!o.diverged) r.fail(what + ": ends after " + std::to_string(o.steps) + " instructions with " + o.result + ", should go on for ever");
  else if (o.trace.compare(0, n, m.trace, 0, n)) diff(r, what + ", first part of an endless run", m.trace.substr(0, n), o.trace.substr(0, n));
  mc::outside()--;
}

// runs model + implementation for both optimisation settings given by mask (1: on, 2: off)
inline void conform(const Case &c, Result &r, int mask = 3, const impl::RunOpts &ro = impl::RunOpts(),
                    impl::ModelOpts mo = impl::ModelOpts()) {
  // only the size families need long runs
  if (c.p.empty() && mo.fuel > 20000 && c.note.empty()) mo.fuel = 20000;
  for (int k = 0; k < 2 && !r.bad; k++) {
    if (!(mask & (1 << k))) continue;
    const bool opt = k == 0;
    auto cc = impl::compile(c.files, opt);
    impl::Outcome m = impl::model(c.files, opt, cc->ok ? &cc->prog : nullptr, mo);
    r.model_steps += m.steps;
    if (m.diverged) {  // outside the bound: no terminating behaviour to compare
      r.outcome = "DIVERGED";
      if (cc->ok && !ro.drive && !ro.before) still_running(r, opt ? "optimised build" : "unoptimised build", m, cc->prog);
      continue;
    }
    impl::Outcome o;
    impl::compile_outcome(*cc, o);
    if (o.compiled && m.compiled) {
      impl::run_program(cc->prog, o, ro);
      r.impl_steps += o.steps;
    }
    r.runs++;
    if (!o.compiled && o.err.empty()) r.fail("compile error without a message");
    diff(r, opt ? "optimised build" : "unoptimised build", m.text(), o.text());
    r.outcome = m.text();
  }
}

inline Space make(const std::string &name, const std::string &bound, std::function<bool(Chooser &, Case &)> gen,
                  std::function<void(const Case &, Result &)> exec) {
  Space s;
  s.name = name;
  s.bound = bound;
  s.gen = gen;
  s.exec = exec;
  return s;
}
inline void plain(const Case &c, Result &r) { conform(c, r); }
inline void no_opt(const Case &c, Result &r) { conform(c, r, 2); }

inline Space features_space(std::function<void(const Case &, Result &)> exec) {
  return make("features", "every hand written feature program", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(corpus::features())};
    return true;
  }, exec);
}
inline Space scripts_space(std::function<void(const Case &, Result &)> exec) {
  return make("repository scripts", "every script of the repository's tests that uses only modelled system calls", [](Chooser &ch, Case &c) {
    auto &v = corpus::repo_scripts();
    if (v.empty()) return false;
    auto &x = v[ch.choose(int(v.size()))];
    if (x.second.find("new_thread") != std::string::npos || x.second.find("import") != std::string::npos) return false;
    c.files = {x.second};
    c.note = x.first;
    return true;
  }, exec);
}
inline Space sizes_space(bool thorough, std::function<void(const Case &, Result &)> exec, long cap = 1l << 40,
                         const Strs &skip = {}) {
  auto plan = std::make_shared<corpus::SizePlan>(thorough, cap, skip);
  return make("sizes", "every size family x every listed size (0..70 dense, then around powers of two)",
              [plan](Chooser &ch, Case &c) { return plan->gen(ch, c); }, exec);
}
inline Space blocks_space(int budget, int level, int depth, std::function<void(const Case &, Result &)> exec) {
  return make("blocks " + corpus::N(budget) + "/" + corpus::N(level) + "/" + corpus::N(depth),
              "all function bodies of exactly " + corpus::N(budget) + " statements over the statement grammar, expression level " + corpus::N(level) + ", nesting <= " + corpus::N(depth),
              [=](Chooser &ch, Case &c) { return corpus::block_program(ch, c, budget, level, depth); }, exec);
}
inline Space wide_space(bool thorough, long max, std::function<void(const Case &, Result &)> exec) {
  return make("wide", "calls through 6 kinds of callee, array literals and operator chains of n parts (34 sizes up to " + corpus::N(std::min(max, 257l)) + (thorough ? ", or all up to 140" : "") + ") x 13 contexts x 5 blocks x 3 numbers of locals",
              [=](Chooser &ch, Case &c) { return corpus::wide_program(ch, c, thorough, max); }, exec);
}
// op x operand x operand x how the operands reach the operator
inline Space binops_space(const std::string &name, const Strs &ops, const Strs &A, const Strs &B, std::vector<int> sa, std::vector<int> sb,
                          std::function<void(const Case &, Result &)> exec) {
  return make(name, "all operators x all operand pairs x all operand sources listed", [=](Chooser &ch, Case &c) {
    std::string op = ch.pick(ops), a = ch.pick(A), b = ch.pick(B);
    int x = ch.pick(sa), y = ch.pick(sb);
    if (x == corpus::S_CONST && !corpus::constable(a)) return false;
    if (y == corpus::S_CONST && !corpus::constable(b)) return false;
    c.files = {corpus::binop_program(a, b, op, x, y)};
    return true;
  }, exec);
}

// host functions with look-alike names, registered, bound and called in every order: each call reaches its own function
template <int I> void named_host(impl::thread_t &t, int32_t n) {
  std::string e = std::to_string(I) + "(";
  std::vector<std::string> a;
  for (int i = 0; i < n; i++) a.insert(a.begin(), impl::render(t.vm().program(), t.get_stack().pop()));
  for (auto &x : a) e += x + ",";
  impl::cur_trace()->t += e + ");";
  t.get_stack().push_int(I);
}
inline std::string letters(long n) {
  std::string o;
  for (long i = 0; i < n; i++) o += char('a' + (i * 7 + i / 26) % 26);
  return o;
}
// names that are alike: the same n characters before or after the one that makes the difference, one the beginning of
// the other, or different only in case
inline Space similar_names_space(long max) {
  return make("similar names", "every pair of kinds {function, global, constant, parameter, local, string, undeclared} of two names that differ only after, before or within n common characters, in one being longer, or in case; n = 0..40 and around powers of two up to " + corpus::N(max), [max](Chooser &ch, Case &c) {
    std::vector<long> ns;
    for (long n = 0; n <= max; n = n < 40 ? n + 1 : n + n / 3)
      ns.push_back(n);
    for (long k = 64; k <= max; k *= 2)
      for (long d = -1; d <= 1; d++) ns.push_back(k + d);
    // longer ones with fewer kinds
    for (long k = 256; k <= (max > 300 ? 65536 : 8192); k *= 2)
      for (long d = -1; d <= 1; d++) if (k + d > max) ns.push_back(k + d);
    long n = ch.pick(ns);
    int how = n > max ? ch.choose(2) : ch.choose(6), ka = n > max ? ch.choose(3) * 2 : ch.choose(6), kb = n > max ? (ch.flip() ? ka : 6) : ch.choose(7);
    const std::string P = letters(n), M = letters(n / 2), E = P.substr(size_t(n / 2));
    std::string a, b;
    if (how == 0) { a = "z" + P + "a"; b = "z" + P + "b"; }
    if (how == 1) { a = "z" + P; b = "z" + P + "q"; }
    if (how == 2) { a = "x" + P; b = "y" + P; }
    if (how == 3) { a = "z" + P + "k"; b = "z" + P + "K"; }
    if (how == 4) { a = "z" + M + "1" + E; b = "z" + M + "2" + E; }
    if (how == 5) { a = "z" + P + "_0"; b = "z" + P + "0_"; }
    std::string top, arg, par, loc, use, set;
    auto one = [&](const std::string &nm, int k, int v) {
      const std::string V = std::to_string(v);
      if (k == 0) top += "function " + nm + "(q)\n out(" + V + " + q)\n return " + V + "\nend\n";
      if (k == 1) top += "var " + nm + " = " + V + "\n";
      if (k == 2) top += "const " + nm + " = " + V + "\n";
      if (k == 3) { par += (par.empty() ? "" : ", ") + nm; arg += (arg.empty() ? "" : ", ") + V; }
      if (k == 4) loc += " var " + nm + " = " + V + "\n";
      use += k == 0 ? " out(" + nm + "(1000))\n" : k == 5 ? " out(\"" + nm + "\")\n" : " out(" + nm + ")\n";
      if (k == 1 || k == 3 || k == 4) set += " " + nm + " = " + nm + " + 50\n";
      if (k == 5) set += " var s" + V + "0 = \"" + nm + "\"\n out(s" + V + "0 == \"" + a + "\")\n out(len(s" + V + "0))\n";
    };
    one(a, ka, 3);
    one(b, kb, 4);
    c.files = {top + "function t(" + par + ")\n" + loc + use + set + use + " return 1\nend\nfunction main()\n return t(" + arg + ")\nend\n"};
    return true;
  }, plain);
}
inline std::string scratch_file(const char *name) { return mc::scratch_dir() + "/" + name + std::to_string(getpid()); }
// reload: the program is saved and loaded before it is bound and run
inline Space host_names_space(bool reload = false) {
  return make("host names", "every ordered choice of 3 of 10 look-alike host function names, registered in that order, bound in each order, called in each order directly or through variables; and of 4 of them before and after up to 300 common characters" + std::string(reload ? "; after saving and loading" : ""), [](Chooser &ch, Case &c) {
    static const std::vector<long> lens = {0, 7, 8, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 300};
    const long len = ch.pick(lens);
    std::vector<int> left, reg;
    for (int i = 0; i < (len ? 4 : 10); i++) left.push_back(i);
    for (int i = 0; i < 3; i++) {
      int k = ch.choose(int(left.size()));
      reg.push_back(left[k]);
      left.erase(left.begin() + k);
    }
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    int call = ch.choose(len ? 2 : 6), bind = ch.choose(len ? 1 : 3) * 2 + 1, how = ch.choose(len ? 2 : 3), side = len ? ch.choose(2) : 0;
    c.p = {reg[0], reg[1], reg[2], call, bind, how, len, side};
    return true;
  }, [reload](const Case &c, Result &r) {
    Strs names = {"put", "puts", "pu", "Put", "output", "put_", "_put", "put1", "p", "main_put"};
    for (auto &n : names) n = c.p[7] ? n + letters(c.p[6]) : letters(c.p[6]) + n;
    typedef void (*F)(impl::thread_t &, int32_t);
    static const F fn[10] = {named_host<0>, named_host<1>, named_host<2>, named_host<3>, named_host<4>, named_host<5>, named_host<6>, named_host<7>, named_host<8>, named_host<9>};
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    std::string body, want, sum;
    for (int i = 0; i < 3; i++) {
      int x = int(c.p[perm[c.p[3]][i]]);
      std::string n = names[x], v = std::to_string(i + 5);
      if (c.p[5] == 0) body += " s = s * 10 + " + n + "(" + v + ")\n";
      else if (c.p[5] == 1) body += " var v" + v + " = " + n + "\n s = s * 10 + v" + v + "(" + v + ")\n";
      else body += " s = s * 10 + (" + n + "(" + v + "))\n if (s < 0)\n  " + n + "(0)\n end\n";
      want += std::to_string(x) + "(" + v + ",);";
      sum += std::to_string(x);
    }
    want += " = " + std::to_string(atoi(sum.c_str()));
    for (int opt = 0; opt < 2; opt++) {
      impl::Compiled k;
      for (int i = 0; i < 3; i++) k.nano->syscall_register(names[c.p[i]], 1);
      k.nano->optimize = opt;
      k.sources.load_from_string(("function main()\n var s = 0\n" + body + " return s\nend\n").c_str());
      if (!k.nano->build(k.sources, k.err)) { r.fail("does not compile: " + k.err.error); return; }
      if (reload) {
        const std::string path = scratch_file("host");
        bool ok = k.prog.serial_save(path.c_str());
        k.prog.reset();
        ok = ok && k.prog.serial_load(path.c_str());
        unlink(path.c_str());
        if (!ok) { r.fail("cannot be saved and loaded"); return; }
      }
      // what is bound last counts
      for (int i = 0; i < 3 && opt; i++) k.prog.syscall_resolve(names[c.p[i]], fn[(c.p[i] + 1) % 10]);
      for (int i = 0; i < 3; i++) {
        int x = int(c.p[perm[c.p[4]][i]]);
        if (!k.prog.syscall_resolve(names[x], fn[x])) { r.fail("host function " + names[x] + " cannot be bound"); return; }
      }
      impl::Outcome o;
      impl::run_program(k.prog, o);
      r.runs++;
      diff(r, "calls of host functions in\n" + body, want, o.trace + " = " + o.result);
      r.outcome = want;
    }
  });
}

// a genuine defect that known-findings.txt lists is reported as known, anything else as a violation
inline void finding(Result &r, const std::string &prop, const std::string &what) {
  static std::string text;
  if (text.empty()) {
    const char *d = getenv("VERIF_DIR");
    FILE *f = fopen((std::string(d ? d : "/verif") + "/known-findings.txt").c_str(), "r");
    text = "\n";
    int ch;
    while (f && (ch = fgetc(f)) != EOF) text += char(ch);
    if (f) fclose(f);
  }
  if (text.find("\nfinding: property=" + prop + " " + what + " --") != std::string::npos) r.known.push_back(what);
  else r.fail(what);
}

// everything a program object holds, as text
inline std::string image(const impl::program_t &p) {
  std::string o = "code:";
  o.append((const char *)p.data(), p.size());
  auto num = [&](long v) { o += std::to_string(v); o += ','; };
  for (auto &f : p.functions()) {
    o += "\nfn " + f.name_ + ":";
    num(f.code_start_);
    num(f.code_end_);
    for (auto &i : f.locals_) { o += "L" + i.name_ + "="; num(i.offset_); }
    for (auto &i : f.args_) { o += "A" + i.name_ + "="; num(i.offset_); }
  }
  o += "\nglobals:";
  for (auto &i : p.globals()) { o += i.name_ + "="; num(i.offset_); }
  o += "\nsyscalls:";
  for (auto &s : const_cast<impl::program_t &>(p).syscalls()) o += s.name_ + ",";
  o += "\nstrings:";
  for (auto &s : p.strings()) { num(long(s.size())); o += s; }
  o += "\nlines:";
  for (auto &l : p.line_table()) { num(l.first); num(l.second.file); num(l.second.line); }
  return o;
}
inline std::string first_difference(const std::string &a, const std::string &b) {
  if (a == b) return "";
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i > 30 ? i - 30 : 0;
  auto clean = [](std::string x) { for (char &c : x) if (c < 32 || c > 126) c = '.'; return x; };
  return "sizes " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ", first difference at " + std::to_string(i) + ": '" + clean(a.substr(s, 80)) + "' / '" + clean(b.substr(s, 80)) + "'";
}
inline bool read_file(const std::string &path, std::string &out) {
  out.clear();
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return false;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
  fclose(f);
  return true;
}
inline void write_file(const std::string &path, const std::string &data) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) { perror(path.c_str()); abort(); }
  if (fwrite(data.data(), 1, data.size(), f) != data.size()) abort();
  fclose(f);
}
inline int open_files() {
  int n = 0;
  for (int i = 0; i < 256; i++)
    if (fcntl(i, F_GETFD) >= 0) n++;
  return n;
}
