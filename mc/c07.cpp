// C07: runtime faults stop one thread with the right error, never the host
#include "harness.h"
using namespace impl;
using corpus::N;

static const Strs &faults() {
  static const Strs f = {
      // operand types
      "r = [1] + 2", "r = none + 1", "r = f + 1", "r = [1] + \"s\"", "r = abs + \"s\"", "r = \"s\" - 1", "r = none - 1", "r = [1] * 2", "r = \"s\" * 2", "r = none / 2", "r = f / 2", "r = \"s\" / 1", "r = 1 % 2.0", "r = 1.5 % 2", "r = \"s\" % 2", "r = none % 1", "r = [1] % 1",
      "r = 1 < \"s\"", "r = none > 1", "r = [1] <= 1", "r = f >= 1", "r = \"a\" < \"b\"", "r = 1 == \"s\"", "r = [1] == [1]", "r = f == 1", "r = abs == abs", "r = [1] == \"x\"", "r = -\"s\"", "r = -1.5", "r = -none", "r = -[1]", "r = -f",
      // division
      "r = 1 / z", "r = 1 % z", "r = k / z", "r = (0 - k) % z", "k /= z", "r = -2147483647 / z", "r = z / z", "r = z % z",
      // the quotient that does not fit is no fault
      "k = 0 - 2147483647 - 1\n r = k / (z - 1)", "k = 0 - 2147483647 - 1\n r = k % (z - 1)", "k = 0 - 2147483647 - 1\n k /= z - 1\n r = k", "r = (0 - 2147483647 - 1) / -1", "r = (0 - 2147483647 - 1) % -1", "k = 0 - 2147483647 - 1\n r = k / -1.0", "k = 0 - 2147483647 - 1\n r = -k", "k = 0 - 2147483647 - 1\n r = abs(k)",
      // subscripts
      "r = a[3]", "r = a[0 - 1]", "r = a[2147483647]", "r = a[-2147483647 - 1]", "r = a[\"0\"]", "r = a[0.0]", "r = a[none]", "r = a[a]", "r = a[f]", "r = n[0]", "r = k[0]", "r = f[0]", "r = abs[0]", "r = fl[0]", "r = s[3]", "r = s[0 - 1]", "r = s[\"a\"]", "r = s[none]", "r = e[0]", "r = n[\"x\"]", "r = k[none]",
      "a[3] = 1", "a[0 - 1] = 1", "a[\"0\"] = 1", "a[0.0] = 1", "a[none] = 1", "a[a] = 1", "n[0] = 1", "k[0] = 1", "s[0] = 1", "f2[0] = 1", "a[2147483647] = 1", "a[-2147483647 - 1] = 1", "n[\"x\"] = 2",
      // calls
      "r = k(1)", "r = n(1)", "r = s(1)", "r = a(1)", "r = fl()", "r = f2()", "r = f2(1, 2)", "r = a[0](1)", "r = f3()(1)", "k()", "n()", "s(1, 2)", "f2(1, 2, 3)", "r = (1)(2)", "r = \"x\"(1)", "r = [1](1)", "r = none()", "r = f3(1)()",
      // built-ins
      "r = abs(\"s\")", "r = abs(n)", "r = abs(a)", "r = min(1, \"s\")", "r = min(n, 1)", "r = max(a, 1)", "r = bitand(1.5, 1)", "r = bitand(1, n)", "r = sin(\"s\")", "r = cos(n)", "r = tan(a)", "r = len(1)", "r = len(n)", "r = len(f)", "r = chr(\"a\")", "r = chr(n)", "r = chr(1.5)", "r = round(\"s\")", "r = ceil(n)", "r = floor(a)", "r = sqrt(\"s\")", "r = new_array(0)", "r = new_array(0 - 5)", "r = new_array(\"s\")", "r = new_array(n)", "wait(\"s\")", "wait(n)",
      "r = ab()", "r = ab(1, 2)", "r = ln(1, 2, 3)", "r = na()", "r = mn(1)", "r = mn(1, 2, 3)",
      // members
      "r = a.size", "r = k.length", "r = s.length", "r = n.length", "r = f2.x", "a.length = 1", "k.x = 1", "n.x = 1", "s.x = none",
  };
  return f;
}
// where the faulting statement sits
static const Strs &places() {
  static const Strs p = {
      "@", "if (k)\n @\n end", "if (z)\n out(8)\n else\n @\n end", "while (k > 0)\n k = k - 1\n if (k == 1)\n @\n end\n end", "var i\n for (i = 0 to 3)\n out(i)\n if (i == 1)\n @\n end\n end",
  };
  return p;
}
static std::string program(const std::string &f, const std::string &place, int depth) {
  std::string st = place;
  st.replace(st.find('@'), 1, f);
  std::string body = " var r\n var k = 3\n var z = 0\n var n\n var fl = 0.5\n var s = \"str\"\n var e = \"\"\n var a = [1, 2, 3]\n var f2 = f\n var ab = abs\n var ln = len\n var na = new_array\n var mn = min\n out(\"before\")\n g = g + 1\n sh[0] = a\n";
  std::string o = "var g = 10\nvar sh = [0, 0, 0]\nfunction f(x)\n return x\nend\nfunction f3()\n return f\nend\n";
  o += "function bad()\n" + body + st + "\n out(\"after\")\n g = 0 - 99\n sh[1] = 1\n return r\nend\n";
  for (int i = 0; i < depth; i++) o += "function d" + N(i) + "(p)\n var q = [p, out(p)]\n out(1 + f(2) * " + (i + 1 < depth ? "d" + N(i + 1) + "(p + 1)" : std::string("bad()")) + ")\n out(\"not reached\")\n return q\nend\n";
  o += std::string("function victim()\n return ") + (depth ? "d0(1)" : "bad()") + "\nend\n";
  o += "function other(x)\n var i\n var l = [x]\n for (i = 0 to 4)\n  l = [l[0] + i]\n  wait(1)\n end\n sh[2] = \"other\"\n return l[0]\nend\nfunction probe(x)\n g = g + x\n var t = [g, \"p\" + x]\n return t\nend\n";
  return o;
}

struct Want {
  std::string trace, res, globals, probe, after;
  int fault = 0;
};

static bool model_of(const Case &c, const program_t *addr, Want &w, Result &r, bool bystander) {
  std::vector<std::string> files = c.files;
  ref::Built b = ref::build(files, std_syscalls(), true);
  if (!b.ok) return false;
  ref::Machine m(*b.prog);
  m.addr = [addr](const ref::Func *f) { auto *x = addr->function_find(f->name); return x ? x->code_start_ : -1; };
  m.init();
  auto call = [&](const char *n, std::vector<ref::Val> a) {
    try {
      return ref::render(m.invoke(b.prog->by_name[n], a));
    } catch (const ref::Stop &s) {
      w.fault = s.f;
      m.depth = 0;
      return fault_text(s.f, s.file, s.line);
    }
  };
  auto globals = [&] { return globals_text(*b.prog, m.g); };
  w.res = call("victim", {});
  w.trace = m.trace;
  if (bystander) call("other", {m.I(7)});
  w.globals = globals();
  w.probe = call("probe", {m.I(5)});
  w.after = globals();
  r.model_steps += m.steps;
  return true;
}

static void fault_case(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) {
    std::vector<std::string> files = c.files;
    ref::Built b = ref::build(files, std_syscalls(), true);
    if (b.ok) r.fail("rejected: " + cc->err.error);
    r.outcome = "rejected";
    return;
  }
  for (int mode = 0; mode < 6 && !r.bad; mode++) {
    const bool by = mode == 2 || mode == 5;
    Want w;
    if (!model_of(c, &cc->prog, w, r, by)) { r.fail("the model rejects what the compiler accepts"); return; }
    r.outcome = w.res + w.globals;
    Trace tr;
    cur_trace() = &tr;
    vm_t vm(cc->prog);
    for (int again = 0; again < 2 && !r.bad; again++) {
      tr.t.clear();
      if (!vm.call_init()) { r.fail("init failed"); break; }
      function_t *f = cc->prog.function_find("victim");
      std::string got;
      thread_t *o = nullptr;
      auto res = [&](thread_t *t) {
        line_t l = t->get_source_line();
        return t->has_error() ? fault_text(fault_of(t->get_error()), l.file, l.line) : render(cc->prog, t->get_return_value());
      };
      const std::string M = "mode " + std::to_string(mode) + (again ? " after reset" : "");
      if (mode == 1) {
        value_t *ret = nullptr;
        thread_error_t err = thread_error_t::e_success;
        bool ok = vm.call_once(*f, 0, nullptr, ret, err);
        if (ok != (w.fault == 0)) r.fail(M + ": call_once returned " + (ok ? "true" : "false"));
        std::string code = ok ? "" : fault_text(fault_of(err), 0, 0);
        if (!ok) diff(r, M + " error of call_once", w.res.substr(0, w.res.find('@')), code.substr(0, code.find('@')));
        got = ok ? render(cc->prog, ret) : w.res;
      } else {
        if (by) {
          value_t x(7);
          const value_t *ax[1] = {&x};
          o = vm.new_thread(*cc->prog.function_find("other"), 1, ax);
        }
        thread_t *t = vm.new_thread(*f, 0, nullptr);
        if (!t) { r.fail("thread refused"); break; }
        bool seen = false;
        if (by) {
          // the VM deletes finished threads, so note results as they appear
          bool oseen = false;
          std::string ores = "unfinished";
          for (int k = 0; k < 4000 && !(seen && oseen); k++) {
            if (k) vm.resume(mode == 2 ? 1 : 40);
            if (!seen && t->finished()) { got = res(t); seen = true; }
            if (!oseen && o->finished()) { ores = res(o); oseen = true; }
          }
          diff(r, M + " other thread", "13", ores);
        } else {
          bool last = true;
          for (int k = 0; k < 20000 && !t->finished(); k++) last = mode == 0 ? t->resume(1 << 20) : mode == 3 ? t->step_inst() : t->step_line();
          if (!t->finished()) r.fail(M + ": not finished");
          if (last == (w.fault != 0)) r.fail(M + ": drive call returned " + (last ? "true" : "false"));
          if (t->has_error() != (w.fault != 0)) r.fail(M + ": has_error wrong");
          if (vm.has_error() != (w.fault != 0)) r.fail(M + ": VM does not report the error");
          // a stopped thread stays stopped
          uint32_t cyc = t->get_cycle_count();
          std::string tt = tr.t;
          if (t->resume(100) || t->step_inst() || t->step_line() || t->get_cycle_count() != cyc || tr.t != tt) r.fail(M + ": a finished thread ran on");
          got = res(t);
        }
        if (w.fault && !r.bad && !by) {
          const char *nm = get_thread_error(t->get_error());
          if (!nm || !*nm) r.fail("error without a name");
        }
      }
      diff(r, M + " result", w.res, got);
      diff(r, M + " trace", w.trace, tr.t);
      diff(r, M + " globals", w.globals, globals_text(cc->prog, vm));
      // the VM stays usable
      value_t x(5);
      const value_t *ax[1] = {&x};
      value_t *ret = nullptr;
      thread_error_t err = thread_error_t::e_success;
      if (!vm.call_once(*cc->prog.function_find("probe"), 1, ax, ret, err)) r.fail(M + ": VM unusable after the fault");
      else diff(r, M + " later call", w.probe, render(cc->prog, ret));
      diff(r, M + " globals after a later call", w.after, globals_text(cc->prog, vm));
      for (int k = 0; k < 50 && !vm.finished(); k++) vm.resume(100);
      vm.resume(1);
      if (vm.has_error() || !vm.finished()) r.fail(M + ": failed thread not removed");
      r.runs++;
      vm.reset();
    }
    cur_trace() = nullptr;
  }
}

// fault while initialising globals
static void init_fault(const Case &c, Result &r) { conform(c, r, 3); }

static void error_names(const Case &c, Result &r) {
  std::set<std::string> seen;
  for (int i = 0; i <= int(thread_error_t::e_bad_member_access); i++) {
    const char *n = get_thread_error(thread_error_t(i));
    if (!n || !*n) { r.fail("error code " + std::to_string(i) + " has no printable name"); return; }
    for (const char *p = n; *p; p++) if (*p < 32 || *p > 126) r.fail("unprintable name");
    if (!seen.insert(n).second) r.fail(std::string("two error codes are called ") + n);
    r.outcome += std::string(n) + ",";
  }
  r.runs++;
}

// the handlers are plain functions
static std::function<void(thread_t &)> saw_error, saw_end;
static void watch(vm_t &vm, std::function<void(thread_t &)> e, std::function<void(thread_t &)> f) {
  saw_error = e;
  saw_end = f;
  vm.handlers.on_thread_error = [](thread_t &t) { saw_error(t); return true; };
  vm.handlers.on_thread_finish = [](thread_t &t) { saw_end(t); return true; };
}
// p: kind, how many times, how it is run
static const Strs &short_faults() {
  static const Strs f = {"1 / z", "z % z", "none + 1", "-\"s\"", "a[5]", "a[none]", "z[0]", "z(1)", "fn(1, 2)", "abs(\"x\")", "a.size", "len(4)", "new_array(0)"};
  return f;
}
static void many_faults(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected: " + cc->err.error); return; }
  Trace tr;
  cur_trace() = &tr;
  vm_t vm(cc->prog);
  int errors = 0, ends = 0, code = -1;
  watch(vm, [&](thread_t &t) { errors++; code = fault_of(t.get_error()); }, [&](thread_t &) { ends++; });
  std::vector<std::string> files = c.files;
  ref::Built b = ref::build(files, std_syscalls(), true);
  ref::Machine m(*b.prog);
  m.addr = [&](const ref::Func *f) { auto *x = cc->prog.function_find(f->name); return x ? x->code_start_ : -1; };
  m.fuel = 100000000;
  m.arr_limit = m.str_limit = 1l << 30;
  m.init();
  if (!vm.call_init()) { r.fail("init failed"); cur_trace() = nullptr; return; }
  ends = 0;
  const long n = c.p[1];
  int want = 0;
  std::string wm;
  for (long k = 0; k < n && !r.bad; k++) {
    try { m.invoke(b.prog->by_name["bad"], {m.I(int(k))}); } catch (const ref::Stop &s) { want = s.f; m.depth = 0; }
    value_t x{int32_t(k)};
    const value_t *ax[1] = {&x};
    code = -1;
    if (c.p[2] == 0) {
      value_t *ret = nullptr;
      thread_error_t err = thread_error_t::e_success;
      if (vm.call_once(*cc->prog.function_find("bad"), 1, ax, ret, err)) r.fail("call " + N(k) + " succeeds");
      code = fault_of(err);
    } else {
      thread_t *t = vm.new_thread(*cc->prog.function_find("bad"), 1, ax);
      if (!t) { r.fail("thread " + N(k) + " refused"); break; }
      if (c.p[2] == 1) {
        while (!t->finished()) t->resume(7);
        vm.resume(1);  // which removes it
      }
      else for (int q = 0; q < 100000 && errors == k; q++) vm.resume(c.p[2] == 2 ? 9 : 1000);
    }
    if (code != want) r.fail("fault " + N(k) + ": expected " + ref::fault_name(want) + ", observed " + (code < 0 ? "none" : fault_text(code, 0, 0)));
    if (!r.bad && tr.t != m.trace) { const size_t q = m.trace.size() > 200 ? m.trace.size() - 200 : 0; diff(r, "host calls after fault " + N(k), m.trace.substr(q), tr.t.size() > q ? tr.t.substr(q) : tr.t); }
    if (tr.t.size() > 4000) { tr.t.clear(); m.trace.clear(); }
  }
  if (!r.bad && (errors != n || ends != n)) r.fail(N(n) + " faults were signalled as " + N(errors) + " errors and " + N(ends) + " ends");
  if (!r.bad) diff(r, "globals", globals_text(*b.prog, m.g), globals_text(cc->prog, vm));
  tr.t.clear();
  m.trace.clear();

  for (int k = 0; k < 3 && !r.bad; k++) {
    std::string want = ref::render(m.invoke(b.prog->by_name["probe"], {m.I(k)}));
    value_t x{k};
    const value_t *ax[1] = {&x};
    value_t *ret = nullptr;
    thread_error_t err = thread_error_t::e_success;
    if (!vm.call_once(*cc->prog.function_find("probe"), 1, ax, ret, err)) r.fail("VM unusable after " + N(n) + " faults");
    else diff(r, "later call", want, render(cc->prog, ret));
  }
  for (int k = 0; k < 3; k++) vm.resume(1);
  if (!r.bad && (!vm.thread().empty() || vm.has_error() || !vm.finished())) r.fail("failed threads are left behind");
  cur_trace() = nullptr;
  r.runs += n;
  r.model_steps += m.steps;
  r.outcome = N(want) + globals_text(*b.prog, m.g);
}
// several threads, each with a fault (or none) of its own at a time of its own; p: faults..., delays..., budget
static void several_threads(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected: " + cc->err.error); return; }
  const size_t n = c.p.size() / 2;
  std::vector<std::string> want(n);
  {
    std::vector<std::string> files = c.files;
    ref::Built b = ref::build(files, std_syscalls(), true);
    ref::Machine m(*b.prog);
    m.addr = [&](const ref::Func *f) { auto *x = cc->prog.function_find(f->name); return x ? x->code_start_ : -1; };
    m.init();
    for (size_t i = 0; i < n; i++)
      try { want[i] = ref::render(m.invoke(b.prog->by_name["t" + N(long(i))], {m.I(int(i))})); } catch (const ref::Stop &s) { want[i] = fault_text(s.f, s.file, s.line); m.depth = 0; }
    r.model_steps += m.steps;
  }
  for (int order = 0; order < 2 && !r.bad; order++) {
    Trace tr;
    cur_trace() = &tr;
    vm_t vm(cc->prog);
    std::map<thread_t *, size_t> who;
    std::vector<std::string> got(n), err(n);
    std::vector<int> ends(n);
    auto res = [&](thread_t &t) { line_t l = t.get_source_line(); return t.has_error() ? fault_text(fault_of(t.get_error()), l.file, l.line) : render(cc->prog, t.get_return_value()); };
    if (!vm.call_init()) { r.fail("init failed"); cur_trace() = nullptr; return; }
    watch(vm, [&](thread_t &t) { if (who.count(&t)) err[who[&t]] += "E"; }, [&](thread_t &t) { if (who.count(&t)) { ends[who[&t]]++; got[who[&t]] = res(t); } });
    for (size_t k = 0; k < n; k++) {
      const size_t i = order ? n - 1 - k : k;
      value_t x{int32_t(i)};
      const value_t *ax[1] = {&x};
      who[vm.new_thread(*cc->prog.function_find("t" + N(long(i))), 1, ax)] = i;
    }
    const uint32_t budget = uint32_t(c.p.back());
    for (int k = 0; k < 600 && !vm.finished(); k++) vm.resume(budget);
    vm.resume(1);
    for (size_t i = 0; i < n && !r.bad; i++) {
      diff(r, "thread " + N(long(i)) + " of " + N(long(n)), want[i], got[i]);
      if (ends[i] != 1 || err[i] != (want[i].rfind("fault:", 0) == 0 ? "E" : "")) r.fail("thread " + N(long(i)) + " was signalled " + err[i] + N(ends[i]));
      diff(r, "effects of thread " + N(long(i)), "7", render(cc->prog, vm.globals()[size_t(cc->prog.globals()[i].offset_)]));
    }
    if (!r.bad && (vm.has_error() || !vm.finished())) r.fail("threads are left behind");
    cur_trace() = nullptr;
    r.runs++;
  }
  for (auto &w : want) r.outcome += w;
}

// resource exhaustion, run apart: aborting the host is a known finding
static void exhaust(const Case &c, Result &r) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    mc::Runner::limits();
    auto cc = compile(c.files, true);
    if (!cc->ok) _exit(3);
    Outcome o;
    RunOpts ro;
    ro.limit = 3000000;
    run_program(cc->prog, o, ro);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  r.runs++;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) finding(r, "C07", "heap exhaustion aborts the host: " + c.note);
  else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) r.fail("exhaustion program ended with status " + std::to_string(st));
  r.outcome = std::to_string(st);
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  out.push_back(make("faults", "every fault statement x every place x call depth 0..3 x 6 ways of running (run, call, two schedules with a bystander, single and line steps), twice on the same VM", [th](Chooser &ch, Case &c) {
    std::string f = ch.pick(faults()), p = ch.pick(places());
    c.files = {program(f, p, th ? ch.choose(6) : ch.choose(3))};
    c.note = f;
    return true;
  }, fault_case));
  out.push_back(make("error names", "every error code", [](Chooser &, Case &) { return true; }, error_names));
  // every operator on every pair of value kinds: either a value or the matching fault
  out.push_back(binops_space("operators", binops(), few_atoms(), few_atoms(), {S_LOCAL, S_GLOBAL, S_CALL}, {S_LOCAL, S_ELEM}, no_opt));
  out.push_back(make("subscripts", "all bases x all indices x read/write", [](Chooser &ch, Case &c) {
    std::string b = ch.pick(atoms()), i = ch.pick(atoms());
    bool wr = ch.flip();
    c.files = {std::string(prelude()) + "function main()\n var b = " + b + "\n var i = " + i + "\n out(0)\n " + (wr ? "b[i] = 5\n out(b)\n" : "out(b[i])\n") + " out(1)\nend\n"};
    return true;
  }, no_opt));
  out.push_back(make("calls", "all callee values x 0..3 arguments, as expression and statement", [](Chooser &ch, Case &c) {
    std::string b = ch.pick(atoms());
    if (b == "out") b = "outv";
    int n = ch.choose(4);
    std::string a;
    for (int q = 0; q < n; q++) a += (q ? ", " : "") + N(q + 1);
    c.files = {std::string(prelude()) + "function main()\n var b = " + b + "\n out(0)\n " + (ch.flip() ? "var r = b(" + a + ")\n out(r)" : "b(" + a + ")") + "\n out(1)\nend\n"};
    return true;
  }, no_opt));
  out.push_back(make("argument counts", "functions of 0.." + N(th ? 20 : 12) + " arguments called with 0.." + N(th ? 40 : 20) + " through a variable, an element, a result and a parameter, as expression and statement", [th](Chooser &ch, Case &c) {
    static const Strs callee = {"q", "h[0]", "pick()", "p"};
    int m = ch.choose(th ? 21 : 13), n = ch.choose(th ? 41 : 21);
    std::string a, cl = ch.pick(callee);
    for (int q = 0; q < n; q++) a += (q ? ", " : "") + (q % 3 ? N(q) : "out(" + N(q) + ")");
    c.files = {"function w(" + names("a", m) + ")\n out(\"in\")\n return 3\nend\nvar h = [w]\nfunction pick()\n return w\nend\nfunction t(p)\n var q = w\n out(0)\n " + (ch.flip() ? "var r = 5 - " + cl + "(" + a + ")\n out(r)" : cl + "(" + a + ")") + "\n out(1)\n return 2\nend\nfunction main()\n out(8)\n return t(w)\nend\n"};
    return true;
  }, no_opt));
  out.push_back(make("init faults", "every fault kind in a global initialiser at position 0..2 of 3", [](Chooser &ch, Case &c) {
    static const Strs f = {"1 / z", "z % z", "none + 1", "-\"s\"", "z[0]", "arr[9]", "arr[\"a\"]", "arr(1)", "fn(1, 2)", "abs(\"x\")", "[1] + 2", "arr.size", "bad()", "len(4)"};
    std::string x = ch.pick(f);
    int pos = ch.choose(3);
    std::string o = "var z = 0\nvar arr = [1]\nvar fn = f\n";
    for (int i = 0; i < 3; i++) o += "var q" + N(i) + " = " + (i == pos ? x : "out(" + N(i) + ")") + "\n";
    c.files = {o + "function f(x)\n return x\nend\nfunction bad()\n out(\"bad\")\n return z[1]\nend\nfunction main()\n out(\"main\")\nend\n"};
    return true;
  }, init_fault));
  out.push_back(make("many faults", "every fault kind, up to " + N(th ? 20000 : 2000) + " times in a row on one VM, run in 4 ways", [th](Chooser &ch, Case &c) {
    static const std::vector<int> q = {1, 2, 3, 10, 64, 65, 130, 257, 300, 2000}, t = {1, 2, 3, 10, 64, 65, 130, 257, 300, 2000, 5000, 20000};
    int k = ch.choose(int(short_faults().size())), n = ch.pick(th ? t : q), how = ch.choose(4);
    c.files = {"var g = 0\nvar last\nvar z = 0\nvar fn = f\nfunction f(x)\n return x\nend\nfunction inner(k, a)\n var s = \"k\" + k\n last = [s, k, a]\n g = g + 1\n return [1, 2 + " + short_faults()[size_t(k)] + ", out(3)]\nend\nfunction bad(k)\n var a = [k, k + 1]\n var i\n for (i = 0 to 2)\n  out(k)\n  a = [i, f(1) + inner(k, a), out(5)]\n end\n return a\nend\nfunction probe(x)\n g = g + x\n var t = [g, \"p\" + x, last]\n return t\nend\n"};
    c.p = {k, n, how};
    return true;
  }, many_faults));
  out.push_back(make("deep faults", "a fault below 1.." + N(th ? 3000 : 1000) + " calls, with 0..40 operands waiting in each, then the VM is used again", [th](Chooser &ch, Case &c) {
    static const std::vector<int> d = {1, 2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 3000};
    int k = ch.choose(int(short_faults().size())), n = ch.choose(th ? 20 : 19), w = ch.choose(4) * 13 + 1;
    std::string arr, one = "[";
    for (int i = 0; i < w; i++) one += "n, ";
    c.files = {"var g = 0\nvar last\nvar z = 0\nvar fn = f\nfunction f(x)\n return x\nend\nfunction down(n, a)\n if (n == 0)\n  g = g + 1\n  return " + short_faults()[size_t(k)] + "\n end\n var l = n * 2\n return " + one + "down(n - 1, a)][0] + l\nend\nfunction bad(k)\n var a = [k, k]\n out(k)\n down(" + N(d[size_t(n)]) + ", a)\n out(5)\nend\nfunction probe(x)\n g = g + x\n var t = [g, \"p\" + x, last]\n return t\nend\n"};
    c.p = {k, 4, ch.choose(4)};
    return long(d[size_t(n)]) * w < 30000;
  }, many_faults));
  out.push_back(make("failing threads", "3 threads, each with one of 9 faults or none, after one of 3 delays, 3 budgets, both orders", [th](Chooser &ch, Case &c) {
    static const Strs f = {"k", "1 / z", "none + 1", "a[5]", "z[0]", "z(1)", "fn(1, 2)", "abs(\"x\")", "a.size", "a[none]"};
    static const Strs delay = {"", " var i\n for (i = 0 to 5)\n  a = [i, a[1]]\n end\n", " wait(2)\n wait(1)\n"};
    static const std::vector<int> budget = {1, 3, 50};
    std::string g, o = "var z = 0\nvar fn = f\nfunction f(x)\n return x\nend\n";
    for (int i = 0; i < 3; i++) {
      int q = ch.choose(int(f.size())), d = ch.choose(i == 2 && !th ? 1 : 3);
      c.p.push_back(q);
      c.p.push_back(d);
      g += "var e" + N(i) + " = 0\n";
      o += "function t" + N(i) + "(k)\n var a = [k, k]\n" + delay[size_t(d)] + " e" + N(i) + " = 7\n var r = [k + 1, " + f[size_t(q)] + "]\n if (r[0] > k + 1)\n  e" + N(i) + " = 8\n end\n return r\nend\n";
    }
    c.files = {g + o};
    c.p.push_back(ch.pick(budget));
    return true;
  }, several_threads));
  out.push_back(features_space(plain));
  out.push_back(scripts_space(plain));
  out.push_back(make("exhaustion", "the listed programs whose live data does not fit the heap", [](Chooser &ch, Case &c) {
    static const std::vector<std::pair<const char *, const char *>> p = {
        {"new_array(200000)", "function main()\n var a = new_array(200000)\n return len(a)\nend\n"},
        {"string doubled 22 times", "function main()\n var s = \"x\"\n var i\n for (i = 0 to 22)\n  s = s + s\n end\n return len(s)\nend\n"},
    };
    auto &x = p[size_t(ch.choose(int(p.size())))];
    c.note = x.first;
    c.files = {x.second};
    return true;
  }, exhaust));
}
