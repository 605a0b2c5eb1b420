// C18: the built-in functions, for all argument tuples
#include <cmath>
#include "harness.h"
using namespace impl;
using corpus::N;

static const Strs &fns() {
  static const Strs v = {"abs", "min", "max", "bitand", "sin", "cos", "tan", "len", "chr", "round", "ceil", "floor", "sqrt", "new_array", "new_thread", "wait"};
  return v;
}
static int arity(const std::string &f) { return f == "min" || f == "max" || f == "bitand" ? 2 : f == "new_thread" ? -1 : 1; }

static const Strs &values() {
  static const Strs v = {"none", "0", "1", "(-1)", "2", "5", "65", "255", "256", "321", "(-200)", "2147483647", "(-2147483647 - 1)", "16777217", "(-16777217)",
                         "0.0", "0.5", "1.5", "2.5", "(0.0 - 0.5)", "(0.0 - 1.5)", "3.999", "100000.25", "(1.0 / z)", "((0.0 - 1.0) / z)", "((0.0 * 1.0) / z)",
                         "\"\"", "\"a\"", "\"abc\"", "\"12\"", "[1]", "[1, [2], \"x\"]", "new_array(4)", "t0", "t1", "t2", "t3", "abs", "wait"};
  return v;
}
static const Strs &few() {
  static const Strs v = {"none", "0", "3", "(-2)", "1.5", "\"ab\"", "[1, 2]", "t0", "t1", "t2", "abs"};
  return v;
}
static bool nan(const std::string &v) { return v == "((0.0 * 1.0) / z)"; }
static bool big(const std::string &v) { return v == "2147483647" || v == "16777217" || v == "100000.25" || v == "(1.0 / z)" || v == "((0.0 - 1.0) / z)" || nan(v); }

// how the built-in is reached and where its arguments come from
enum Style { DIRECT, LOCAL, GLOBAL, ELEMENT, ARGUMENT, N_STYLES };
static const char *style_name[] = {"directly", "through a local", "through a global", "through an array element", "through an argument"};
static std::string program(const std::string &fn, const Strs &args, int style, int how) {
  std::string s = "var z = 0.0\nvar keep = [1, \"k\"]\nvar h = " + (style == GLOBAL ? fn : std::string("none")) + "\n";
  s += "function t0()\n out(100)\n return 0\nend\nfunction t1(a)\n outv(101, a)\n return a\nend\nfunction t2(a, b)\n outv(102, a, b)\n return b\nend\nfunction t3(a, b, c)\n outv(103, a, b, c)\nend\n";
  std::string pre, list;
  for (size_t i = 0; i < args.size(); i++) {
    std::string a = args[i];
    if (how == 1) { pre += " var v" + N(long(i)) + " = " + a + "\n"; a = "v" + N(long(i)); }
    list += (i ? ", " : "") + a;
  }
  std::string call;
  if (style == ARGUMENT) {
    std::string ps = "g";
    std::string body;
    for (size_t i = 0; i < args.size(); i++) { ps += ", p" + N(long(i)); body += (i ? ", p" : "p") + N(long(i)); }
    s += "function via(" + ps + ")\n return g(" + body + ")\nend\n";
    call = "via(" + fn + (list.empty() ? "" : ", " + list) + ")";
  } else if (style == DIRECT) call = fn + "(" + list + ")";
  else if (style == LOCAL) { pre += " var g = " + fn + "\n"; call = "g(" + list + ")"; }
  else if (style == GLOBAL) call = "h(" + list + ")";
  else { pre += " var e = [0, " + fn + "]\n"; call = "e[1](" + list + ")"; }
  s += "function main()\n" + pre + " out(1)\n var r = " + call + "\n out(r)\n out(keep)\n return [r]\nend\n";
  return s;
}

static void wait_event(Trace *tr, thread_t &t) {
  if (t.waits > 0) { tr->t += "wait " + N(t.waits) + ";"; t.waits = 0; }
}
static void exec_call(const Case &c, Result &r) {
  for (int opt = 0; opt < 2 && !r.bad; opt++) {
    auto cc = compile(c.files, opt);
    std::vector<std::string> f = c.files;
    ref::Built b = ref::build(f, std_syscalls(), opt);
    Outcome m, o;
    m.compiled = b.ok;
    m.err_file = b.err.file;
    m.err_line = b.err.line;
    int started = 0, got_started = 0;
    if (b.ok) {
      ref::Machine M(*b.prog);
      M.fuel = 20000;
      std::vector<std::pair<const ref::Func *, std::vector<ref::Val>>> pending;
      M.host = [&](ref::Machine &mm, const std::string &n, std::vector<ref::Val> &a, ref::Val &ret) {
        if (n == "new_thread") {
          if (a.empty() || a[0].t != ref::V_FUN || a[0].fn->nargs != int(a.size()) - 1) mm.fault(ref::F_ARG);
          pending.push_back({a[0].fn, std::vector<ref::Val>(a.begin() + 1, a.end())});
          ret = mm.I(0);
          return true;
        }
        if (n == "wait" && a.size() == 1 && ref::Machine::num(a[0])) {
          int w = a[0].t == ref::V_INT ? a[0].i : int(a[0].f);
          if (w > 0) mm.event("wait " + N(w));
          ret = mm.I(0);
          return true;
        }
        return false;
      };
      try {
        M.init();
        m.result = ref::render(M.invoke(b.prog->by_name.find("main")->second, {}));
      } catch (const ref::Stop &s) {
        m.result = fault_text(s.f, s.file, s.line);
      }
      for (size_t i = pending.size(); i-- > 0;) {
        M.event("thread");
        try { M.invoke(pending[i].first, pending[i].second); } catch (const ref::Stop &s) { M.event("failed"); }
      }
      started = int(pending.size());
      m.globals += globals_text(*b.prog, M.g);
      m.trace = M.trace;
      m.steps = M.steps;
    }
    r.model_steps += m.steps;
    compile_outcome(*cc, o);
    if (o.compiled && m.compiled) {
      RunOpts ro;
      ro.drive = [&](thread_t &t) {
        while (!t.finished()) {
          t.resume(1 << 16);
          wait_event(cur_trace(), t);
        }
        std::list<thread_t *> all = t.vm().thread();
        for (auto *x : all)
          if (x != &t && !x->finished()) {
            got_started++;
            cur_trace()->t += "thread;";
            while (!x->finished()) x->resume(1 << 16);
            if (x->has_error()) cur_trace()->t += "failed;";
          }
      };
      run_program(cc->prog, o, ro);
      r.impl_steps += o.steps;
    }
    r.runs++;
    diff(r, opt ? "optimised" : "unoptimised", m.text(), o.text());
    if (started != got_started) r.fail("threads started: expected " + N(started) + ", observed " + N(got_started));
    r.outcome = m.text();
  }
}

// ---------------------------------------------------------------- numeric sweeps: arguments supplied by the host
struct Bench {
  std::unique_ptr<Compiled> c;
  std::unique_ptr<vm_t> vm;
  Bench() {
    std::string s;
    for (auto &f : fns())
      if (arity(f) > 0) s += "function call_" + f + (arity(f) == 1 ? "(a)\n return " + f + "(a)\nend\n" : "(a, b)\n return " + f + "(a, b)\nend\n");
    c = compile({s}, true);
    if (!c->ok) { fprintf(stderr, "c18: %s\n", c->err.error.c_str()); abort(); }
    vm.reset(new vm_t(c->prog));
    vm->call_init();
  }
  // result as text
  std::string call(const std::string &f, const std::vector<value_t> &args) {
    value_t *v = nullptr;
    thread_error_t e;
    std::vector<const value_t *> a;
    for (auto &x : args) a.push_back(&x);
    if (!vm->call_once(*c->prog.function_find("call_" + f), int(a.size()), a.data(), v, e)) return "fault " + N(fault_of(e));
    return render(c->prog, v);
  }
};
static Bench &bench() { static Bench b; return b; }
struct FV : value_t { explicit FV(float x) : value_t(0) { f = x; type_ = val_type_float; } };
static value_t fval(float f) { return FV(f); }
static float from_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static std::string want1(const std::string &f, float x) {
  float y = f == "sin" ? sinf(x) : f == "cos" ? cosf(x) : f == "tan" ? tanf(x) : f == "round" ? roundf(x) : f == "ceil" ? ceilf(x) : f == "floor" ? floorf(x) : sqrtf(x);
  return ref::fbits(y);
}
static void sweep1(const Case &c, Result &r) {
  const std::string f = fns()[size_t(c.p[0])];
  const bool ints = c.p[1];
  const uint32_t hi = uint32_t(c.p[2]);
  for (uint32_t lo = 0; lo < 256 && !r.bad; lo++) {
    // the pattern's sixteen high bits vary, the low ones take a few values
    for (uint32_t tail : {0u, 1u, 0x8000u, 0xffffu}) {
      uint32_t bits = (hi << 24) | (lo << 16) | tail;
      std::string want, got;
      if (ints) {
        int32_t x = int32_t(bits);
        if (f == "abs") want = N(x < 0 ? int32_t(0u - bits) : x);
        else if (f == "chr") { char ch = char(bits); want = "\"" + (ch ? std::string(1, ch) : std::string()) + "\""; }
        else want = want1(f, float(x));
        value_t v(x);
        got = bench().call(f, {v});
      } else {
        float x = from_bits(bits);
        if (x != x) continue;
        if (x == 0 && f == "abs") continue;
        if (f == "abs") want = ref::fbits(x < 0 ? -x : x);
        else if (f == "chr") want = "fault " + N(ref::F_ARG);
        else want = want1(f, x);
        got = bench().call(f, {fval(x)});
      }
      r.runs++;
      if (want != got) { r.fail(f + "(" + (ints ? "int" : "float") + " with bits " + N(long(bits)) + "): expected " + want + ", observed " + got); break; }
    }
  }
  r.outcome = f + N(long(hi));
}
static const std::vector<uint32_t> &grid() {
  static std::vector<uint32_t> g;
  if (g.empty()) {
    for (uint32_t b : {0u, 1u, 2u, 3u, 7u, 8u, 127u, 128u, 255u, 256u, 32767u, 32768u, 65535u, 65536u, 16777215u, 16777216u, 16777217u, 2147483646u, 2147483647u}) {
      g.push_back(b);
      g.push_back(0u - b);
    }
    g.push_back(0x80000000u);
    for (int i = 0; i < 31; i += 3) g.push_back(0x55555555u >> i);
  }
  return g;
}
static const std::vector<float> &fgrid() {
  static const std::vector<float> g = {0.5f, -0.5f, 1.f, -1.f, 1.5f, -1.5f, 2.f, 1e-30f, -1e-30f, 1e30f, -1e30f, 16777216.f, 16777218.f, INFINITY, -INFINITY, 0.1f, 255.f};
  return g;
}
// p: fn, kind of a (0 int, 1 float), index a
static void sweep2(const Case &c, Result &r) {
  const std::string f = fns()[size_t(c.p[0])];
  auto check = [&](bool fa, size_t ia, bool fb, size_t ib) {
    value_t a = fa ? fval(fgrid()[ia]) : value_t(int32_t(grid()[ia])), b = fb ? fval(fgrid()[ib]) : value_t(int32_t(grid()[ib]));
    std::string want;
    if (f == "bitand") want = fa || fb ? "fault " + N(ref::F_ARG) : N(int32_t(grid()[ia] & grid()[ib]));
    else {
      float x = fa ? fgrid()[ia] : float(int32_t(grid()[ia])), y = fb ? fgrid()[ib] : float(int32_t(grid()[ib]));
      want = ref::fbits(f == "min" ? (x < y ? x : y) : (x > y ? x : y));
    }
    std::string got = bench().call(f, {a, b});
    r.runs++;
    if (want != got) r.fail(f + "(" + N(int(ia)) + (fa ? "f" : "i") + ", " + N(int(ib)) + (fb ? "f" : "i") + "): expected " + want + ", observed " + got);
  };
  const bool fa = c.p[1];
  const size_t ia = size_t(c.p[2]);
  for (size_t i = 0; i < grid().size() && !r.bad; i++) check(fa, ia, false, i);
  for (size_t i = 0; i < fgrid().size() && !r.bad; i++) check(fa, ia, true, i);
  r.outcome = f;
}
static void lengths(const Case &c, Result &r) {
  long n = c.p[0];
  auto cc = compile({"function s(x)\n return len(x)\nend\nfunction a(n)\n var x = new_array(n)\n var i = 0\n var bad = 0\n for (i = 0 to len(x))\n  if (not (x[i] == none))\n   bad += 1\n  end\n  x[i] = i\n end\n for (i = 0 to len(x))\n  if (not (x[i] == i))\n   bad += 1\n  end\n end\n return [len(x), x.length, bad]\nend\n"}, c.p[1]);
  if (!cc->ok) { r.fail("rejected"); return; }
  vm_t vm(cc->prog);
  vm.call_init();
  value_t *v = nullptr;
  thread_error_t e;
  auto once = [&](const char *f, const value_t *arg, const std::string &want) {
    const value_t *a[] = {arg};
    std::string got = vm.call_once(*cc->prog.function_find(f), 1, a, v, e) ? render(cc->prog, v) : "fault " + N(fault_of(e));
    r.runs++;
    diff(r, std::string(f) + " of " + N(n), want, got);
  };
  value_t iv((int32_t(n)));
  once("a", &iv, n <= 0 ? "fault " + N(ref::F_ARG) : "[" + N(n) + "," + N(n) + ",0]");
  value_t fv = fval(float(n) + 0.75f);
  if (n >= 0) once("a", &fv, n == 0 ? "fault " + N(ref::F_ARG) : "[" + N(n) + "," + N(n) + ",0]");
  r.outcome = N(n);
}
static void string_lengths(const Case &c, Result &r) { conform(c, r); }

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  auto tuples = [](int n, const Strs &vals, bool all_styles) {
    return [=](Chooser &ch, Case &c) {
      std::string f = ch.pick(fns());
      Strs a;
      for (int i = 0; i < n; i++) a.push_back(vals[size_t(ch.choose(int(vals.size())))]);
      for (auto &x : a) {
        if ((f == "new_array" || f == "wait") && big(x)) return false;  // outside what a 32-bit count or the heap can hold
        if ((f == "min" || f == "max") && nan(x)) return false;         // no order
      }
      int style = all_styles ? ch.choose(N_STYLES) : ch.choose(2), how = ch.choose(2);
      c.files = {program(f, a, style, how)};
      c.note = f + " " + style_name[style];
      return true;
    };
  };
  out.push_back(make("no arguments", "every built-in without arguments, every way to call it", tuples(0, values(), true), exec_call));
  out.push_back(make("one argument", "every built-in x 39 argument values x every way to call it", tuples(1, values(), true), exec_call));
  out.push_back(make("two arguments", "every built-in x 39 x 39 argument values, " + std::string(th ? "every way to call it" : "direct and through a local"), tuples(2, values(), th), exec_call));
  out.push_back(make("two arguments, all styles", "every built-in x 11 x 11 argument values x every way to call it", tuples(2, few(), true), exec_call));
  out.push_back(make("three arguments", "every built-in x 11^3 argument values, direct and through a local", tuples(3, few(), th), exec_call));
  out.push_back(make("four arguments", "new_thread and others with 4 of 5 argument values", tuples(4, {"none", "3", "\"s\"", "[1]", "t3"}, th), exec_call));
  out.push_back(make("numeric sweep", "each one-argument built-in over all 2^16 high halves of a word x 4 low halves, as int and as float", [](Chooser &ch, Case &c) {
    static const std::vector<int> f = {0, 4, 5, 6, 8, 9, 10, 11, 12};
    c.p = {ch.pick(f), ch.choose(2), ch.choose(256)};
    return true;
  }, sweep1));
  out.push_back(make("two-argument sweep", "min, max, bitand over 67 x 67 boundary ints and floats", [](Chooser &ch, Case &c) {
    c.p = {1 + ch.choose(3), ch.choose(2), 0};
    c.p[2] = ch.choose(int(c.p[1] ? fgrid().size() : grid().size()));
    return true;
  }, sweep2));
  out.push_back(make("array lengths", "new_array and len for every length -2.." + N(th ? 4000 : 700) + " (int and fractional)", [th](Chooser &ch, Case &c) {
    c.p = {ch.choose((th ? 4000 : 700) + 3) - 2, ch.choose(2)};
    return true;
  }, lengths));
  out.push_back(make("long arrays and strings", "new_array, len and .length around every power of two up to 65536, first, last and middle element; len of strings of those lengths", [](Chooser &ch, Case &c) {
    std::vector<long> ns;
    for (long q = 1024; q <= 65536; q *= 2) for (long d = -1; d <= 1; d++) ns.push_back(q + d);
    for (long q = 1000; q <= 60000; q += 1000) ns.push_back(q);
    long n = ch.pick(ns);
    int k = ch.choose(2);
    c.files = {k == 0 ? "function main()\n var x = new_array(" + N(n) + ")\n var m = len(x) / 2\n out(x[0])\n x[0] = 4\n x[m] = 5\n x[len(x) - 1] = 6\n out(x[0])\n out(x[m])\n out(x[m - 1])\n out(x[x.length - 1])\n out(x.length)\n return len(x)\nend\n"
                      : "function main()\n var s = \"\"\n var p = \"xy\"\n var n = " + N(n) + "\n while (n > 0)\n  if (n % 2)\n   s = s + p\n  end\n  p = p + p\n  n = n / 2\n  if (n == 0)\n   p = 0\n  end\n end\n out(s[len(s) - 1])\n out(s[0])\n out(s[len(s) / 4 * 2])\n return len(s)\nend\n"};
    c.p = {k, n};
    c.note = (k ? "string of 2 * " : "array of ") + N(n);
    return true;
  }, [](const Case &c, Result &r) {
    long n = c.p[1];
    auto cc = compile(c.files, n % 2 == 0);
    Outcome o;
    compile_outcome(*cc, o);
    if (o.compiled) run_program(cc->prog, o);
    r.runs++;
    r.impl_steps += o.steps;
    diff(r, "result", c.p[0] ? "out(121);out(120);out(120);" + N(2 * n) : "out(none);out(4);out(5);out(none);out(6);out(" + N(n) + ");" + N(n), o.trace + o.result);
    r.outcome = o.text();
  }));
  out.push_back(make("last bytes", "len of strings that end in one to three bytes of each value (made by chr), and that hold it first", [](Chooser &ch, Case &c) {
    int b = 1 + ch.choose(255), n = 1 + ch.choose(3), w = ch.choose(4);
    std::string x = "chr(" + N(long(b)) + ")", m;
    for (int i = 0; i < n; i++) m += (i ? " + " : "") + x;
    c.files = {"function main()\n var s = " + (w == 0 ? m : w == 1 ? "\"ab\" + " + m : w == 2 ? m + " + \"ab\"" : "\"a\" + " + m + " + \"b\"") + "\n out(len(s))\n out(s[len(s) - 1])\n out(s == s + \"\")\n var a = new_array(len(s))\n return len(a)\nend\n"};
    return true;
  }, string_lengths));
  out.push_back(make("many thread arguments", "new_thread with 0..40 arguments (and around 64, 128, 256) for a function of as many, one more or one fewer, directly and through a variable", [](Chooser &ch, Case &c) {
    std::vector<long> ns;
    for (long i = 0; i <= 40; i++) ns.push_back(i);
    for (long k = 64; k <= 256; k *= 2) for (long d = -1; d <= 1; d++) ns.push_back(k + d);
    long n = ch.pick(ns), d = ch.choose(3) - 1;
    int how = ch.choose(2);
    if (n + d < 0) return false;
    std::string ps, as, us;
    for (long i = 0; i < n + d; i++) ps += (i ? ", p" : "p") + N(i), us += ", p" + N(i);
    for (long i = 0; i < n; i++) as += ", " + (i % 5 == 4 ? "\"s" + N(i) + "\"" : i % 7 == 6 ? std::string("none") : N(i + 3));
    c.files = {"function job(" + ps + ")\n outv(77" + us + ")\nend\nfunction main()\n" + (how ? " var h = new_thread\n h" : " new_thread") + "(job" + as + ")\n out(8)\n return 2\nend\n"};
    return true;
  }, exec_call));
  out.push_back(make("string lengths", "len and chr over strings of every length 0.." + N(th ? 1500 : 400), [th](Chooser &ch, Case &c) {
    int n = ch.choose((th ? 1500 : 400) + 1);
    c.files = {"function main()\n var s = \"" + corpus::rep("y", n) + "\"\n out(len(s))\n var t = s + chr(65)\n out(len(t))\n out(t[len(t) - 1])\n return len(chr(" + N(n) + ") + s)\nend\n"};
    return true;
  }, string_lengths));
}
