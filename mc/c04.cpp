// C04: garbage collection is invisible
#include "harness.h"
using namespace impl;

// model result with the program's own addresses
static bool expect(const Case &c, Compiled &cc, Outcome &m, Result &r) {
  ModelOpts mo;
  if (c.p.empty()) mo.fuel = 20000;
  m = model(c.files, true, cc.ok ? &cc.prog : nullptr, mo);
  r.model_steps += m.steps;
  r.outcome = m.text();
  if (m.diverged || !m.compiled) return false;
  if (!cc.ok) { r.fail("program rejected: " + cc.err.error); return false; }
  return true;
}

// drive a thread: collect before instruction i when at(i)
template <class F> static void drive(thread_t &t, F at, uint64_t limit = 400000) {
  uint64_t i = 0;
  while (!t.finished() && i < limit) {
    if (at(i)) t.step_inst();
    else t.resume(1);
    i++;
  }
}
template <class F> static void once(const Case &c, Compiled &cc, const Outcome &m, Result &r, const char *what, F at, uint64_t *n = nullptr) {
  if (r.bad) return;
  Outcome o;
  o.compiled = true;
  RunOpts ro;
  ro.drive_init = true;
  ro.drive = [&](thread_t &t) { drive(t, at); if (n) *n = std::max(*n, uint64_t(t.get_cycle_count())); };
  run_program(cc.prog, o, ro);
  r.runs++;
  r.impl_steps += o.steps;
  diff(r, what, m.text(), o.text());
}

static void every(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  Outcome m;
  if (!expect(c, *cc, m, r)) return;
  once(c, *cc, m, r, "collection before every instruction", [](uint64_t) { return true; });
  once(c, *cc, m, r, "collection before every second instruction", [](uint64_t i) { return i & 1; });
  once(c, *cc, m, r, "no forced collection", [](uint64_t) { return false; });
}
// every single collection point, and every pair of points up to `pairs` instructions
static void points(const Case &c, Result &r, uint64_t pairs) {
  auto cc = compile(c.files, true);
  Outcome m;
  if (!expect(c, *cc, m, r)) return;
  uint64_t n = 0;
  once(c, *cc, m, r, "no forced collection", [](uint64_t) { return false; }, &n);
  if (n > 600) return;
  for (uint64_t p = 0; p < n && !r.bad; p++) {
    once(c, *cc, m, r, "one collection", [p](uint64_t i) { return i == p; });
    if (n <= pairs)
      for (uint64_t q = p + 1; q < n && !r.bad; q++) once(c, *cc, m, r, "two collections", [p, q](uint64_t i) { return i == p || i == q; });
  }
  for (uint64_t p = 0; p < n && !r.bad; p++) once(c, *cc, m, r, "collections from an instruction on", [p](uint64_t i) { return i >= p; });
}
// the heap is filled up, by the host, at instruction k so that the ordinary trigger fires d allocations later, wherever
// that is: in the middle of an instruction if the collector can be entered there
static void fill(thread_t &t, long chunks, long grains) {
  for (long i = 0; i < chunks; i++) t.gc().new_string(8000);
  for (long i = 0; i < grains; i++) t.gc().new_string(7);
}
static void filled(const Case &c, Result &r, int stride) {
  auto cc = compile(c.files, true);
  Outcome m;
  if (!expect(c, *cc, m, r)) return;
  uint64_t n = 0;
  once(c, *cc, m, r, "no forced collection", [](uint64_t) { return false; }, &n);
  auto run = [&](uint64_t k, std::function<void(thread_t &)> f, int whole) {
    Outcome o;
    o.compiled = true;
    RunOpts ro;
    ro.drive = [&](thread_t &t) {
      t.resume(int32_t(k));
      if (t.finished()) return;
      f(t);
      if (whole == 1) while (!t.finished() && t.get_cycle_count() < 400000) t.resume(100000);
      // what a collection inside this instruction lost shows at the next ones
      if (whole == 2) {
        t.resume(1);
        for (int i = 0; i < 4 && !t.finished(); i++) t.step_inst();
        while (!t.finished() && t.get_cycle_count() < 400000) t.resume(100000);
      }
    };
    run_program(cc->prog, o, ro);
    r.runs++;
    r.impl_steps += o.steps;
    return o;
  };
  const uint64_t st = stride > 0 ? uint64_t(stride) : n / uint64_t(-stride) + 1;
  for (uint64_t k = 1; k < n && !r.bad; k += st) {
    long chunks = 0, grains = 0;
    run(k, [&](thread_t &t) { while (!t.gc().should_collect() && chunks < 100) { fill(t, 1, 0); chunks++; } }, 0);
    if (!chunks || chunks >= 100) continue;
    run(k, [&](thread_t &t) { fill(t, chunks - 1, 0); while (!t.gc().should_collect() && grains < 2000) { fill(t, 0, 1); grains++; } }, 0);
    static const long ds[] = {0, 1, 2, 3, 4, 6, 9, 14, 30, 60, 120};
    for (long d : ds) {
      if (d > grains || r.bad) break;
      for (int whole = 1; whole <= 2 && !r.bad; whole++) {
        Outcome o = run(k, [&](thread_t &t) { fill(t, chunks - 1, grains - d); }, whole);
        diff(r, ("heap nearly full at instruction " + std::to_string(k) + ", " + std::to_string(d) + " small values left").c_str(), m.text(), o.text());
      }
    }
  }
}
static void subsets(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  Outcome m;
  if (!expect(c, *cc, m, r)) return;
  uint64_t n = 0;
  once(c, *cc, m, r, "no forced collection", [](uint64_t) { return false; }, &n);
  if (n > 14) { points(c, r, 40); return; }
  for (uint64_t s = 0; s < (1ull << n) && !r.bad; s++) once(c, *cc, m, r, "subset of collection points", [s](uint64_t i) { return (s >> i) & 1; });
}

// garbage: long runs must not exhaust the heap
static const Strs &garbage() {
  static const Strs g = {
      // each runs until several heaps of garbage were made
      "function main()\n var i\n var s = 0\n for (i = 0 to @)\n  s = s + 1\n end\n return s\nend\n",
      "function main()\n var i\n var s = \"\"\n for (i = 0 to @)\n  s = \"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz\" + i\n end\n return s\nend\n",
      "function main()\n var i\n var a\n for (i = 0 to @)\n  a = new_array(20)\n  a[0] = i\n end\n return a[0]\nend\n",
      "function main()\n var i\n var a\n for (i = 0 to @)\n  a = [i, [i, \"x\" + i], 0.5]\n  a[2] = a\n end\n return a[0]\nend\n",
      "var g\nfunction main()\n var i\n for (i = 0 to @)\n  g = [i, g]\n  if (i % 50 == 0)\n   g = none\n  end\n end\n return g == none\nend\n",
      "function f(x, y)\n var z = [x, y]\n return z[0]\nend\nfunction main()\n var i\n var s\n for (i = 0 to @)\n  s = f(i, \"argument\" + i)\n end\n return s\nend\n",
      "function main()\n var i\n for (i = 0 to @)\n  f([i, i, i])\n end\n return i\nend\nfunction f(a)\n return a\nend\n",
      "function main()\n var i = 0\n while (i < @)\n  out(0)\n  i += 1\n  [i]\n end\nend\n",
      "function main()\n var i\n var x = 0.5\n for (i = 0 to @)\n  x = x + 1.5\n  x = x - 1\n end\n return x\nend\n",
      "function main()\n var i\n var t = [abs, main, none]\n for (i = 0 to @)\n  t[2] = t[0]\n  t[1] = main\n  t[0] = abs\n end\n return t\nend\n",
      "var keep = [1, \"two\", [3]]\nfunction r(n)\n if (n == 0)\n  return \"\"\n end\n var l = [n]\n return chr(97 + n) + r(l[0] - 1)\nend\nfunction main()\n var i\n var s\n for (i = 0 to @ / 20)\n  s = r(12)\n end\n out(keep)\n return s\nend\n",
      "function main()\n var a = new_array(300)\n var i\n for (i = 0 to @)\n  a[i % 300] = \"slot \" + i\n end\n return a[7]\nend\n",
      "function main()\n var a = [0, 0]\n var i\n for (i = 0 to @)\n  var b = [a, i]\n  a[0] = b\n  b[0] = a\n end\n return a[0][1]\nend\n",
      "function main()\n var i\n var s = \"x\"\n for (i = 0 to @)\n  if (len(s) > 200)\n   s = \"x\"\n  end\n  s = s + s\n end\n return len(s)\nend\n",
      "function main()\n var i\n for (i = 0 to @)\n  var b = i < 5 and i == 3 or not i\n  var c = -i\n  var d = abs(c) + min(i, 2) + len(\"abc\") + sqrt(4)\n end\n return i\nend\n",
      // many live values at once while collecting (several hundred kB)
      "function main()\n var a = new_array(4000)\n var i\n for (i = 0 to 4000)\n  a[i] = \"value number \" + i\n end\n for (i = 0 to @)\n  a[i % 4000] = a[(i * 7) % 4000]\n end\n out(a[3999])\n return len(a)\nend\n",
      "function main()\n var a = none\n var i\n for (i = 0 to 5000)\n  a = [i, a]\n end\n for (i = 0 to @)\n  var z = [i]\n end\n var n = 0\n while (not a == none)\n  n = n + a[0]\n  a = a[1]\n end\n return n\nend\n",
  };
  return g;
}
static void long_run(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) {
    // expression statements of one family are not in the grammar
    r.outcome = "rejected";
    return;
  }
  ModelOpts mo;
  mo.fuel = 40000000;
  mo.before = [](ref::Machine &m) { m.str_limit = m.arr_limit = 4ull << 30; m.one_limit = 1u << 20; };
  Outcome m = model(c.files, true, &cc->prog, mo);
  r.model_steps += m.steps;
  r.outcome = m.text();
  if (m.diverged) { r.fail("harness: model did not finish"); return; }
  Outcome o;
  o.compiled = true;
  RunOpts ro;
  const long mode = c.p[1];
  ro.drive = [&](thread_t &t) {
    switch (mode) {
    case 0: while (!t.finished()) t.resume(1 << 30); break;
    case 1: while (!t.finished()) t.resume(1 << 16); break;
    case 2: while (!t.finished()) t.resume(97); break;
    case 3: while (!t.finished()) t.step_line(); break;
    case 4: while (!t.finished()) t.vm().resume(5000); break;
    case 5: while (!t.finished()) t.resume(1); break;
    }
  };
  if (mode == 4) {
    // the VM deletes finished threads on the next round only
  }
  run_program(cc->prog, o, ro);
  r.runs++;
  r.impl_steps += o.steps;
  diff(r, "long run", m.text(), o.text());
}

// many calls from the host into one VM
static void many_calls(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  Trace tr;
  cur_trace() = &tr;
  vm_t vm(cc->prog);
  if (!vm.call_init()) { r.fail("init failed"); return; }
  function_t *f = cc->prog.function_find("step");
  const long n = c.p[0], mode = c.p[1];
  long sum = 0;
  for (long i = 0; i < n && !r.bad; i++) {
    value_t arg(int32_t(i % 1000));
    const value_t *argv[1] = {&arg};
    std::string got;
    if (mode == 0) {
      value_t *ret = nullptr;
      thread_error_t err = thread_error_t::e_success;
      if (!vm.call_once(*f, 1, argv, ret, err)) { r.fail("call failed at " + std::to_string(i)); break; }
      got = render(cc->prog, ret);
    } else {
      thread_t *t = vm.new_thread(*f, 1, argv);
      if (!t) { r.fail("no thread"); break; }
      while (!t->finished()) vm.resume(1000);
      got = t->has_error() ? "fault" : render(cc->prog, t->get_return_value());
      vm.resume(1);  // drops the finished thread
    }
    sum += long(i % 1000) * 2 + 1;
    std::string want = "\"n" + std::to_string(int32_t(sum)) + "\"";
    if (got != want) r.fail("call " + std::to_string(i) + ": expected " + want + " got " + got);
    r.runs++;
  }
  cur_trace() = nullptr;
  r.outcome = std::to_string(sum);
}

// threads: values only another thread's stack, argument or pending expression holds
static void threads(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  // the reference execution: same schedule, nothing collected
  std::string ref;
  for (int mode = 0; mode < 4 && !r.bad; mode++) {
    Trace tr;
    cur_trace() = &tr;
    vm_t vm(cc->prog);
    if (!vm.call_init()) { r.fail("init failed"); break; }
    std::vector<thread_t *> ts;
    for (const char *n : {"ta", "tb"}) {
      function_t *f = cc->prog.function_find(n);
      value_t arg(5);
      const value_t *argv[1] = {&arg};
      thread_t *t = vm.new_thread(*f, 1, argv);
      if (!t) { r.fail("no thread"); return; }
      ts.push_back(t);
    }
    // schedule: p[0] steps of a, then p[1] of b, alternating
    uint64_t k = 0;
    for (int round = 0; round < 4000; round++) {
      bool live = false;
      for (int w = 0; w < 2; w++)
        for (long s = 0; s < c.p[size_t(w)]; s++) {
          if (ts[w]->finished()) break;
          live = true;
          bool gc = mode == 1 || (mode == 2 && (k & 1)) || (mode == 3 && w == 1);
          k++;
          if (gc) ts[w]->step_inst();
          else ts[w]->resume(1);
        }
      if (!live) break;
    }
    std::string res = tr.t;
    for (auto *t : ts) res += " | " + (t->finished() ? t->has_error() ? fault_text(fault_of(t->get_error()), 0, 0) : render(cc->prog, t->get_return_value()) : "unfinished");
    res += globals_text(cc->prog, vm);
    cur_trace() = nullptr;
    r.runs++;
    r.impl_steps += k;
    if (mode == 0) ref = res;
    else diff(r, "threads with collections", ref, res);
  }
  r.outcome = ref;
}

// threads that wait, holding values nothing else refers to, while others fill the heap; each must give what it gives alone
static void waiting(const Case &c, Result &r) {
  std::vector<std::string> files = c.files;
  ref::Built b = ref::build(files, std_syscalls(), true);
  if (!b.ok) { r.fail(std::string("model rejects: ") + b.err.why); return; }
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  // p[0]: budget, p[1]: how many times churners run before, between and after the holders are started; p[2..]: kinds in starting order
  static std::vector<std::string> got;
  static std::map<thread_t *, size_t> ids;
  std::vector<std::string> want;
  const size_t n = c.p.size() - 1;
  for (size_t i = 0; i < n; i++) {
    ref::Machine m(*b.prog);
    m.fuel = 100000000;
    m.str_limit = m.arr_limit = 1u << 30;
    m.one_limit = 1u << 20;
    m.init();
    try { want.push_back(ref::render(m.invoke(b.prog->by_name[c.p[i + 1] ? "churn" : "hold"], {m.I(int(i) + 1)}))); }
    catch (const ref::Stop &s) { want.push_back(fault_text(s.f, s.file, s.line)); }
    r.model_steps += m.steps;
  }
  Trace tr;
  cur_trace() = &tr;
  vm_t vm(cc->prog);
  if (!vm.call_init()) { r.fail("init failed"); return; }
  got.assign(n, "unfinished");
  ids.clear();
  vm.handlers.on_thread_finish = [](thread_t &t) {
    auto it = ids.find(&t);
    if (it == ids.end()) return true;
    got[it->second] = t.has_error() ? fault_text(fault_of(t.get_error()), t.get_source_line().file, t.get_source_line().line) : render(t.vm().program(), t.get_return_value());
    ids.erase(it);
    return true;
  };
  for (size_t i = 0; i < n; i++) {
    value_t x(int(i) + 1);
    const value_t *ax[1] = {&x};
    thread_t *t = vm.new_thread(*cc->prog.function_find(c.p[i + 1] ? "churn" : "hold"), 1, ax);
    if (!t) { r.fail("thread refused"); return; }
    ids[t] = i;
  }
  int rounds = 0;
  while (!vm.finished() && rounds++ < 200000) vm.resume(uint32_t(c.p[0]));
  cur_trace() = nullptr;
  for (size_t i = 0; i < n; i++) diff(r, "thread " + std::to_string(i), want[i], got[i]);
  r.runs++;
  for (auto &w : want) r.outcome += w + ";";
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  out.push_back(make("features", "every feature program x every single collection point x every suffix of points; pairs for runs <= 60 instructions", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(features())};
    return true;
  }, [th](const Case &c, Result &r) { points(c, r, th ? 200 : 60); }));
  // heap graphs: n arrays of 2 slots with every slot content, held by every kind of root
  out.push_back(make("heap shapes", "all graphs of 2 (thorough: 3) two-slot arrays over {none,int,string,any array} x kind of root holding them", [th](Chooser &ch, Case &c) {
    const int n = th ? 3 : 2;
    static const char *nm[] = {"a", "b", "d"};
    std::vector<std::string> val = {"none", "7", "\"s\" + k", "0.5"};
    for (int i = 0; i < n; i++) val.push_back(nm[i]);
    std::string set;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < 2; j++) set += std::string(" ") + nm[i] + "[" + N(j) + "] = " + ch.pick(val) + "\n";
    static const Strs root = {" g = a\n a = none\n b = none\n d = none\n out(g)\n", " b = none\n d = none\n out(a)\n", " var t = [a, b, d]\n a = none\n b = none\n d = none\n var z = \"zz\" + k\n out(t)\n", " out(hold(a, b) + 1)\n",
                              " return [a, hold(b, d), b]\n", " outv(a, b, [d], \"x\" + k, b)\n"};
    std::string rt = ch.pick(root);
    c.files = {"var g\nfunction hold(x, y)\n var l = [x, y]\n x = none\n y = none\n out(l)\n return len(l)\nend\nfunction main()\n var k = 3\n var a = new_array(2)\n var b = new_array(2)\n var d = new_array(2)\n" + set + rt + " return k\nend\n"};
    return true;
  }, every));
  out.push_back(make("temporaries", "values held only by the operand stack while their neighbours are evaluated: all pairs of value kinds x contexts, all subsets or points", [](Chooser &ch, Case &c) {
    static const Strs v = {"\"l\" + 1", "[1, \"e\"]", "mk()", "0.5 + 1", "f", "-3", "[mk(), mk()]", "a", "a[1]", "chr(65)"};
    static const Strs ctx = {"outv(@, #)", "out([@, #])", "out(pr(@, #))", "out([@, mk()])", "out([[@], [#]])", "a[0] = @\n out(#)\n out(a)", "var x = @\n var y = #\n out([x, y])", "out(pr(@, pr(#, mk())))", "gl = @\n out(#)\n out(gl)", "return [@, #]", "out([@, a, #, a])"};
    std::string e = ch.pick(ctx), x = ch.pick(v), y = ch.pick(v);
    for (size_t q = 0; (q = e.find('@', q)) != std::string::npos; q += x.size()) e.replace(q, 1, x);
    for (size_t q = 0; (q = e.find('#', q)) != std::string::npos; q += y.size()) e.replace(q, 1, y);
    c.files = {"var gl\nfunction f(x)\n return x\nend\nfunction mk()\n var l = [\"m\" + 1, 2]\n return l\nend\nfunction pr(p, q)\n var l = [q, p]\n return l\nend\nfunction main()\n var a = [1, \"el\"]\n " + e + "\n return a\nend\n"};
    return true;
  }, [](const Case &c, Result &r) { subsets(c, r); }));
  out.push_back(make("nearly full heap", "every feature program x every instruction at which the host leaves room for d more small values, d in 11 values 0..120", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(features())};
    return true;
  }, [](const Case &c, Result &r) { filled(c, r, -1000); }));
  out.push_back(make("nearly full heap: large values", "array literals, strings, new_array, calls and results of n = 1..129 (thorough: 300) elements x every instruction x d small values left", [th](Chooser &ch, Case &c) {
    static const std::vector<long> ns = {1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
    long n = ch.pick(ns);
    if (!th && n > 129) return false;
    int w = ch.choose(6);
    auto list = [&](const std::string &e) { std::string o; for (long i = 0; i < n; i++) o += (i ? ", " : "") + e; return o; };
    std::string b, top;
    if (w == 0) b = " out([" + list("\"e\" + k") + "])\n return [" + list("[k]") + "]\n";
    if (w == 1) b = " var s = \"" + std::string(size_t(n), 'x') + "\" + k\n out(s + s)\n return [s + 1, s + \"" + std::string(size_t(n), 'y') + "\"]\n";
    if (w == 2) b = " var a = [new_array(" + N(n) + "), new_array(" + N(n) + ")]\n var b = a[1]\n b[0] = \"q\" + k\n out(a)\n return a\n";
    if (w == 3) b = " outv(" + list("\"e\" + k") + ")\n return \"z\" + k\n";
    if (w == 4) { top = "function f(p0" + [&] { std::string o; for (long i = 1; i < n; i++) o += ", p" + N(i); return o; }() + ")\n return [p0, p" + N(n - 1) + ", \"r\"]\nend\n"; b = " return f(" + list("\"e\" + k") + ")\n"; }
    if (w == 5) b = " return " + [&] { std::string o = "\"h\""; for (long i = 0; i < n; i++) o += " + k"; return o; }() + "\n";
    c.files = {top + "function main()\n var k = 3\n" + b + "end\n"};
    return true;
  }, [](const Case &c, Result &r) { filled(c, r, -1000); }));
  // many roots at once
  Space deep = make("many roots", "recursion to depth n, n locals, n globals, n elements, n pending operands, n calls in flight with arguments, all holding values of their own, and one string, float, array or function shared by n frames and elements, for n around every power of two up to 8192; collections at the bottom", [th](Chooser &ch, Case &c) {
    static const std::vector<long> ns = {1, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193};
    long n = ch.pick(ns);
    int w = ch.choose(8);
    // three heaps of garbage
    std::string churn = "function churn()\n var i\n for (i = 0 to 300)\n  new_array(1000)\n end\n return 1\nend\n", s;
    // frames with 8 locals or arguments each
    if (w == 0) s = "function f(n)\n if (n <= 0)\n  return churn()\n end\n var a = [n]\n var b = \"\" + n\n var c = [n + 1]\n var d = \"x\" + n\n var e = [n + 2]\n var g = n * 3\n var h = [n + 3]\n var r = f(n - 8)\n return r * 3 + a[0] + len(b) + c[0] * 5 + len(d) + e[0] * 7 + g + h[0]\nend\nfunction main()\n return f(" + N(n) + ")\nend\n";
    if (w == 1) s = "function f(n, s, t, u, v, x, y, z)\n if (n <= 0)\n  return churn()\n end\n return f(n - 8, \"\" + n, [n], n + 1, [n + 2], \"x\" + n, [n + 3], n + 4) * 3 + len(s) + t[0] + u * 5 + v[0] * 7 + len(x) + y[0] * 11 + z\nend\nfunction main()\n return f(" + N(n) + ", \"q\", [1], 2, [3], \"\", [4], 5)\nend\n";
    if (w == 2) s = "function f(n)\n if (n == 0)\n  churn()\n  return \"\"\n end\n return chr(65 + n % 26) + f(n - 1)\nend\nfunction main()\n return len(f(" + N(n > 1025 ? 1025 : n) + "))\nend\n";
    if (w == 3) { s = "function main()\n"; for (long i = 0; i < n; i++) s += " var v" + N(i) + " = [" + N(i) + "]\n"; s += " churn()\n var s = 0\n"; for (long i = 0; i < n; i++) s += " s = s * 3 + v" + N(i) + "[0]\n"; s += " return s\nend\n"; }
    if (w == 4) { s = ""; for (long i = 0; i < n; i++) s += "var v" + N(i) + " = \"" + N(i) + "\"\n"; s += "function main()\n churn()\n var s = 0\n"; for (long i = 0; i < n; i += 1 + n / 500) s += " out(v" + N(i) + ")\n"; s += " out(v" + N(n - 1) + ")\n return s\nend\n"; }
    if (w == 5) s = "function main()\n var a = new_array(" + N(n) + ")\n var i\n for (i = 0 to " + N(n) + ")\n  a[i] = [i]\n end\n churn()\n var s = 0\n for (i = 0 to " + N(n) + ")\n  var e = a[i]\n  s = s * 3 + e[0]\n end\n return s\nend\n";
    if (w == 6) { s = "function main()\n var a = ["; for (long i = 0; i < n; i++) s += "\"\" + " + N(i) + ", "; s += "churn()]\n var s = 0\n var i\n for (i = 0 to " + N(n) + ")\n  s = s * 3 + len(a[i])\n end\n return s\nend\n"; }
    if (w == 7) {
      // a string long enough that n copies would not fit
      const long m = 2000000 / (n + 8);
      std::string text;
      for (long i = 0; i < m && i < 100000; i++) text += char('a' + i % 26);
      std::string kind = ch.pick(std::vector<std::string>{"\"" + text + "\" + 1", "0.5 + 1", "new_array(" + N(m < 60000 ? m / 8 + 1 : 5000) + ")"}), lits;
      const bool num = kind[0] == '0';
      s = "function f(n, x, y, z, k)\n var l = x\n var o = [l, y, x, z]\n if (n <= 0)\n  churn()\n  return 1\n end\n return f(n - 1, l, y, z, o) + " + std::string(num ? "l + y" : "len(l) + len(z)") + "\nend\nfunction main()\n var s = " + kind + "\n var r = f(" + N(n > 4097 ? 4097 : n) + ", s, s, s, none)\n out(r)\n return " + (num ? "s" : "len(s)") + "\nend\n";
    }
    c.files = {churn + s};
    c.p = {n, ch.choose(2) ? 4 : 0};
    return true;
  }, long_run);
  deep.hang_s = 120;
  out.push_back(deep);
  Space ls = make("long strings", "strings of n bytes, n around every power of two up to 65536 (and thirds of them), made by doubling, held by a local, global, element or pending operand while other text fills the heap several times over; then compared, joined, indexed and given to the host", [](Chooser &ch, Case &c) {
    std::vector<long> ns;
    for (long q = 4; q <= 65536; q *= 2) for (long d : {-1l, 0l, 1l, q / 3}) ns.push_back(q + d);
    long n = ch.pick(ns);
    int w = ch.choose(4);
    const std::string get = w == 0 ? "s" : w == 1 ? "g" : w == 2 ? "e[1]" : "s";
    std::string use = " out(" + get + " == mk(\"ab\", " + N(n) + "))\n out(len(" + get + " + \"!\"))\n out(" + get + " + \"!\" == mk(\"ab\", " + N(n) + ") + \"!\")\n out(\"<\" + " + get + ")\n out(" + get + ")\n";
    std::string keep = w == 0 ? " var s = mk(\"ab\", " + N(n) + ")\n churn()\n" : w == 1 ? " g = mk(\"ab\", " + N(n) + ")\n churn()\n" : w == 2 ? " var e = [0, mk(\"ab\", " + N(n) + ")]\n churn()\n" : " var s = mk(\"ab\", " + N(n) + ") + churn()\n s = mk(\"ab\", " + N(n) + ") + churn()\n out(s)\n s = mk(\"ab\", " + N(n) + ")\n";
    // n bytes of p, an odd one in front
    c.files = {"var g\nfunction mk(p, n)\n var r = \"\"\n if (n % 2)\n  r = \"o\"\n end\n n = n / 2\n while (n > 0)\n  if (n % 2)\n   r = r + p\n  end\n  p = p + p\n  n = n / 2\n end\n return r\nend\nfunction churn()\n var i\n var t\n for (i = 0 to 40)\n  t = mk(\"zy\", 16000 + i * 37)\n end\n return \"\"\nend\nfunction main()\n" + keep + use + " return 1\nend\n"};
    c.p = {n, ch.choose(2) ? 4 : 0};
    return true;
  }, long_run);
  ls.hang_s = 120;
  out.push_back(ls);
  out.push_back(make("straight subsets", "short programs x every subset of collection points (runs of at most 14 instructions)", [](Chooser &ch, Case &c) {
    static const Strs v = {"\"a\"", "[1]", "2", "none", "0.5", "[\"x\", 1]"};
    static const Strs s = {" return @\n", " out(@)\n", " var x = @\n return x\n", " return [@, #]\n", " outv(@, #)\n"};
    std::string e = ch.pick(s), x = ch.pick(v), y = ch.pick(v);
    for (size_t q = 0; (q = e.find('@', q)) != std::string::npos; q += x.size()) e.replace(q, 1, x);
    for (size_t q = 0; (q = e.find('#', q)) != std::string::npos; q += y.size()) e.replace(q, 1, y);
    c.files = {"function main()\n" + e + "end\n"};
    return true;
  }, [](const Case &c, Result &r) { subsets(c, r); }));
  out.push_back(blocks_space(1, 2, 2, [](const Case &c, Result &r) { points(c, r, 0); }));
  out.push_back(blocks_space(2, 2, 2, every));
  if (th) out.push_back(blocks_space(3, 0, 3, every));
  out.push_back(sizes_space(false, every, th ? 600 : 130, {"loop strings", "loop count"}));
  Space g = make("garbage", "every garbage family x every way of driving a thread, several heaps of garbage each", [](Chooser &ch, Case &c) {
    int f = ch.choose(int(garbage().size()));
    int mode = ch.choose(6);
    std::string s = garbage()[size_t(f)];
    const char *n = f == 2 || f == 3 || f == 12 ? "20000" : "60000";
    if (f >= 15) n = "20000";
    s.replace(s.find('@'), 1, n);
    c.files = {s};
    c.p = {f, mode};
    return true;
  }, long_run);
  g.hang_s = 120;
  out.push_back(g);
  Space ch4 = make("churn", "small live data, garbage in blocks of every size step up to 24% of the heap (arrays, strings, host made) x how it is held x ways of driving", [th](Chooser &ch, Case &c) {
    std::vector<long> sz;
    for (long k = 1; k <= 30000; k = k < 16 ? k + 5 : k * (th ? 11 : 13) / 10 + 7) sz.push_back(k);
    sz.push_back(30000);
    long n = ch.pick(sz);
    int kind = ch.choose(4);
    std::string b;
    long bytes = n * 8 + 32;
    if (kind == 0) b = "  a = new_array(" + N(n) + ")\n  a[" + N(n - 1) + "] = i\n  s = s + a[" + N(n - 1) + "]\n";
    if (kind == 1) b = "  new_array(" + N(n) + ")\n  a = [i, a0]\n  s = s + a[0]\n";
    if (kind == 2) b = "  s = s + f(new_array(" + N(n) + "), i)\n";
    if (kind == 3) {  // strings made by doubling
      std::string d;
      long m = 8;
      while (m * 2 <= n * 8 && m * 2 <= 240000) { d += "  t = t + t\n"; m *= 2; }
      b = "  t = \"01234567\"\n" + d + "  s = s + len(t)\n";
      bytes = 2 * m;
    }
    long reps = 5000000 / bytes + 3;
    if (reps > 12000) reps = 12000;
    c.files = {"var keep = [1, \"two\", [3]]\nfunction f(x, y)\n x[0] = y\n return x[0]\nend\nfunction main()\n var i\n var t\n var a\n var a0 = [0]\n var s = 0\n for (i = 0 to " + N(reps) + ")\n" + b + " end\n out(keep)\n return s\nend\n"};
    c.p = {kind, ch.choose(5)};
    c.note = N(n);
    return true;
  }, long_run);
  ch4.hang_s = 120;
  out.push_back(ch4);
  Space mcl = make("host calls", "host calls in a loop through call_once and through threads, small and large garbage per call", [th](Chooser &ch, Case &c) {
    static const Strs body = {" tot = tot + x * 2 + 1\n return \"n\" + tot\n", " tot = tot + x * 2 + 1\n var a = [x, \"some text \" + x, [x]]\n a[2] = a\n return \"n\" + tot\n",
                              " tot = tot + x * 2 + 1\n var a = new_array(100)\n var i\n for (i = 0 to 3)\n  a[i] = [a]\n end\n hist = a\n return \"n\" + tot\n"};
    c.files = {"var tot = 0\nvar hist\nfunction step(x)\n" + ch.pick(body) + "end\n"};
    c.p = {th ? 100000 : 20000, ch.choose(2)};
    return true;
  }, many_calls);
  mcl.hang_s = 120;
  out.push_back(mcl);
  out.push_back(make("threads", "two threads x all alternation granularities 1..6 x value holders, collections in either or both", [](Chooser &ch, Case &c) {
    static const Strs b = {" var l = [x, \"own\" + x]\n l[0] = l\n g = l\n out(l)\n return l\n", " var s = \"p\" + x\n return [s, s + g, q(s)]\n", " var i\n var a = [0, 0]\n for (i = 0 to 4)\n  a = [a, i]\n  g[i % 2] = a[1]\n end\n return a\n", " return pr([x, \"t\"], q([x + 1]))\n", " sh[0] = [x, sh]\n var k = sh[0]\n k[0] = \"w\" + x\n return k[0]\n"};
    std::string p = ch.pick(b), q = ch.pick(b);
    c.files = {"var g = [1, 2]\nvar sh = [0]\nfunction q(x)\n var z = \"q\"\n return [x, z]\nend\nfunction pr(m, n)\n return [n, m]\nend\nfunction ta(x)\n" + p + "end\nfunction tb(x)\n" + q + "end\n"};
    c.p = {1 + ch.choose(6), 1 + ch.choose(6)};
    return true;
  }, threads));
  Space w = make("waiting threads", "every way of holding a value across wait(n) x n x budgets x starting orders of 1-3 holders and 1-2 threads that fill the heap", [](Chooser &ch, Case &c) {
    static const Strs h = {
        " var l = [x, \"own\" + x]\n wait(@)\n return [l, l[1]]\n",
        " var s = \"p\" + x\n return s + id(x, @) + s\n",
        " return [\"t\" + x, id([x, \"in\"], @), [x]]\n",
        " return cat(\"a\" + x, \"b\" + x, wait(@))\n",
        " var i\n var a = [\"s\" + x]\n for (i = 0 to 4)\n  wait(@)\n  a = [a, \"n\" + i]\n end\n return a\n",
        " var f = 0.5 + x\n wait(@)\n var d = [f, f * 2]\n wait(@)\n return d\n",
        " x = [x, [x]]\n wait(@)\n return deep(x, 3, @)\n",
        " keep[x % 4] = [\"k\" + x]\n wait(@)\n return [\"z\", keep[x % 4]]\n"};
    static const Strs w = {"1", "2", "7"};
    std::string hold = ch.pick(h), n = ch.pick(w);
    for (size_t q = 0; (q = hold.find('@', q)) != std::string::npos;) hold.replace(q, 1, n);
    static const std::vector<std::vector<long>> order = {{0, 1}, {1, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 0, 1, 1}, {1, 0, 1}};
    static const std::vector<long> bs = {1, 3, 40, 100000};
    long bud = ch.pick(bs);
    bool strings = ch.flip();
    c.files = {"var keep = [0, 0, 0, 0]\nfunction id(v, n)\n wait(n)\n return v\nend\nfunction cat(p, q, r)\n return p + q + r\nend\nfunction deep(v, n, k)\n if (n == 0)\n  wait(k)\n  return [v]\n end\n var l = [v, n]\n return [deep(v, n - 1, k), l]\nend\nfunction hold(x)\n" + hold + "end\nfunction churn(x)\n var i\n var s = 0\n for (i = 0 to 60)\n" +
               (strings ? "  var t = \"0123456789abcdef\"\n  var j\n  for (j = 0 to 12)\n   t = t + t\n  end\n  s += len(t)\n" : "  var a = new_array(12000)\n  a[11999] = i\n  s += a[11999]\n") + "  wait(1)\n end\n return s\nend\n"};
    c.p = ch.pick(order);
    c.p.insert(c.p.begin(), bud);
    return true;
  }, waiting);
  w.hang_s = 120;
  out.push_back(w);
}
