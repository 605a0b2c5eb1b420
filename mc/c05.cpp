// C05: slicing, stepping and breakpoints never change results
#include "harness.h"
using namespace impl;

struct Ref {
  std::vector<std::pair<int, int>> line;  // line of the i-th executed instruction
  std::vector<int> pc;
  Outcome o;
  std::vector<std::pair<int, int>> lines;  // distinct source lines of the program text
};
static std::pair<int, int> lp(line_t l) { return {l.file, l.line}; }

static bool reference(const Case &c, Compiled &cc, Ref &f, Result &r, uint64_t cap) {
  ModelOpts mo;
  if (c.p.empty()) mo.fuel = 20000;
  Outcome m = model(c.files, true, cc.ok ? &cc.prog : nullptr, mo);
  r.model_steps += m.steps;
  r.outcome = m.text();
  if (m.diverged || !m.compiled) return false;
  if (!cc.ok) { r.fail("program rejected: " + cc.err.error); return false; }
  f.o.compiled = true;
  RunOpts ro;
  ro.drive = [&](thread_t &t) {
    while (!t.finished() && f.pc.size() < cap) {
      f.line.push_back(lp(t.get_source_line()));
      f.pc.push_back(t.get_pc());
      const uint32_t before = t.get_cycle_count();
      t.step_inst();
      if (t.get_cycle_count() != before + 1) r.fail("a single step executed " + std::to_string(t.get_cycle_count() - before) + " instructions");
    }
  };
  run_program(cc.prog, f.o, ro);
  r.runs++;
  r.impl_steps += f.o.steps;
  if (f.o.diverged) return false;
  diff(r, "single stepping", m.text(), f.o.text());
  std::set<std::pair<int, int>> s(f.line.begin(), f.line.end());
  f.lines.assign(s.begin(), s.end());
  return !r.bad;
}
static void same(Result &r, const std::string &what, const Ref &f, Compiled &cc, const Driver &d,
                 std::function<void(thread_t &)> on_call = nullptr) {
  if (r.bad) return;
  Outcome o;
  o.compiled = true;
  RunOpts ro;
  ro.drive = d;
  ro.on_call = on_call;
  run_program(cc.prog, o, ro);
  r.runs++;
  r.impl_steps += o.steps;
  diff(r, what, f.o.text(), o.text());
  if (!r.bad && o.steps != f.o.steps) r.fail(what + ": executed " + std::to_string(o.steps) + " instructions, expected " + std::to_string(f.o.steps));
}

// one bounded run: at most n instructions, exactly n unless the thread ends or halts
static void slice(thread_t &t, int n, Result &r) {
  const uint32_t b = t.get_cycle_count();
  t.resume(n);
  const uint32_t e = t.get_cycle_count() - b;
  if (e > uint32_t(n)) r.fail("a run with a budget of " + std::to_string(n) + " executed " + std::to_string(e) + " instructions");
  if (e < uint32_t(n) && !t.finished() && !t.waits) r.fail("a run with a budget of " + std::to_string(n) + " stopped after " + std::to_string(e));
}

static void slices(const Case &c, Result &r, int deep) {
  auto cc = compile(c.files, true);
  Ref f;
  if (!reference(c, *cc, f, r, 100000)) return;
  const int N = int(f.pc.size());
  const int cap = deep ? 40 : 6;
  // constant budgets
  for (int n = 1; n <= cap && !r.bad; n++)
    same(r, "budget " + std::to_string(n), f, *cc, [&](thread_t &t) { while (!t.finished() && !r.bad) slice(t, n, r); });
  same(r, "one run", f, *cc, [&](thread_t &t) { slice(t, N + 10, r); });
  same(r, "exact run", f, *cc, [&](thread_t &t) { slice(t, N, r); });
  same(r, "zero budgets", f, *cc, [&](thread_t &t) { while (!t.finished() && !r.bad) { t.resume(0); slice(t, 3, r); } });
  // periodic budget sequences of length 2 and 3 over {1,2,5}
  static const int b[] = {1, 2, 5};
  if (deep)
    for (int q = 0; q < 27 && !r.bad; q++)
      same(r, "mixed budgets", f, *cc, [&](thread_t &t) {
        int s[3] = {b[q % 3], b[q / 3 % 3], b[q / 9]}, k = 0;
        while (!t.finished() && !r.bad) slice(t, s[k++ % 3], r);
      });
  // line stepping: stops at the first instruction of a new line, or at the end
  auto line_steps = [&](thread_t &t, int i) {
    while (!t.finished() && !r.bad) {
      int j = i + 1;
      while (j < N && (f.line[j] == f.line[i] || f.line[j] == lp(line_t{}))) j++;
      t.step_line();
      const int at = int(t.get_cycle_count());
      if (at <= i) { r.fail("line step made no progress"); return; }
      if (at != j) { r.fail("line step from line " + std::to_string(f.line[i].second) + " executed " + std::to_string(at - i) + " instructions, expected " + std::to_string(j - i)); return; }
      if (!t.finished() && lp(t.get_source_line()) == f.line[i]) { r.fail("line step stayed on its line"); return; }
      i = at;
    }
  };
  same(r, "line stepping", f, *cc, [&](thread_t &t) { line_steps(t, 0); });
  // prefix of p instructions run in one way, the rest in another
  const int stride = N <= (deep ? 250 : 60) ? 1 : N / (deep ? 120 : 30) + 1;
  for (int p = 0; p <= N && !r.bad; p += stride) {
    same(r, "run then single steps", f, *cc, [&](thread_t &t) { slice(t, p, r); while (!t.finished()) t.step_inst(); });
    same(r, "run then line steps", f, *cc, [&](thread_t &t) { slice(t, p, r); line_steps(t, p); });
    same(r, "single steps then run", f, *cc, [&](thread_t &t) { for (int i = 0; i < p && !t.finished(); i++) t.step_inst(); while (!t.finished()) slice(t, 1000000, r); });
  }
}

// expected pauses with a set of breakpoints
static void breaks(const Case &c, Result &r, bool pairs) {
  auto cc = compile(c.files, true);
  Ref f;
  if (!reference(c, *cc, f, r, 20000)) return;
  const int N = int(f.pc.size());
  typedef std::set<std::pair<int, int>> Set;
  auto check = [&](const std::string &what, const Set &bp, int budget, int remove_at) {
    same(r, what, f, *cc, [&](thread_t &t) {
      Set live = bp;
      for (auto &b : bp) t.breakpoint_add(line_t{b.first, b.second});
      int i = 0, pauses = 0;
      bool start_seen = false;
      while (!t.finished() && !r.bad) {
        // simulate
        int j = i, left = budget;
        bool brk = false;
        if (j == 0 && !start_seen && live.count(f.line[0])) {
          start_seen = true;
          brk = true;
        } else
          while (left > 0 && j < N) {
            j++;
            left--;
            if (j < N && live.count(f.line[j]) && f.line[j] != f.line[j - 1]) { brk = true; break; }
          }
        t.resume(budget);
        const int at = int(t.get_cycle_count());
        if (at != j) {
          r.fail("breakpoints: resumed at instruction " + std::to_string(i) + " (line " + std::to_string(f.line[i].second) + ") and stopped at " + std::to_string(at) +
                 (at < N ? " (line " + std::to_string(f.line[at].second) + ")" : " (end)") + ", expected " + std::to_string(j) + (j < N ? " (line " + std::to_string(f.line[j].second) + ")" : " (end)"));
          return;
        }
        if (brk) {
          pauses++;
          if (lp(t.get_source_line()) != f.line[j]) { r.fail("paused thread reports a wrong line"); return; }
          if (t.get_pc() != f.pc[j]) { r.fail("paused thread reports a wrong instruction"); return; }
          if (pauses == remove_at) {
            t.breakpoint_remove(line_t{f.line[j].first, f.line[j].second});
            live.erase(f.line[j]);
          }
          if (remove_at < 0 && pauses == -remove_at) {
            t.breakpoint_clear();
            live.clear();
          }
        }
        i = at;
        if (pauses > 20000) { r.fail("no end of pauses"); return; }
      }
    });
  };
  Set all(f.lines.begin(), f.lines.end());
  check("all lines", all, 1 << 20, 0);
  check("all lines, budget 3", all, 3, 0);
  for (auto &l : f.lines) {
    if (r.bad) return;
    check("one breakpoint", {l}, 1 << 20, 0);
    check("one breakpoint, budget 2", {l}, 2, 0);
    check("breakpoint removed at first pause", {l}, 1 << 20, 1);
    check("breakpoint removed at second pause", {l}, 1 << 20, 2);
  }
  check("cleared at third pause", all, 1 << 20, -3);
  // lines without code and files that do not exist
  Set none = {{0, 100000}, {7, 1}, {0, 0}};
  check("breakpoints nowhere", none, 1 << 20, 0);
  if (pairs)
    for (size_t i = 0; i < f.lines.size() && !r.bad; i++)
      for (size_t j = i + 1; j < f.lines.size() && !r.bad; j++) {
        check("two breakpoints", {f.lines[i], f.lines[j]}, 1 << 20, 0);
        check("two breakpoints, one removed", {f.lines[i], f.lines[j]}, 1 << 20, 1);
      }
  // added in the middle: from instruction p on
  if (pairs)
    for (int p = 0; p <= N && p < 120 && !r.bad; p++)
      for (auto &l : f.lines) {
        same(r, "breakpoint added while running", f, *cc, [&](thread_t &t) {
          t.resume(p);
          int i = p;
          if (t.finished()) return;
          t.breakpoint_add(line_t{l.first, l.second});
          bool first = true;
          while (!t.finished() && !r.bad) {
            int j = i;
            if (first && i == 0 && f.line[0] == l) j = 0;
            else
              do j++;
              while (j < N && !(f.line[j] == l && f.line[j] != f.line[j - 1]));
            first = false;
            t.resume(1 << 20);
            if (int(t.get_cycle_count()) != j) { r.fail("breakpoint added while running: stopped at " + std::to_string(t.get_cycle_count()) + ", expected " + std::to_string(j)); return; }
            i = j;
          }
        });
        if (r.bad) return;
      }
}

// budgets of any size on a long run, through the thread and through the VM
static void large(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  const long n = c.p[0], how = c.p[1];
  ModelOpts mo;
  mo.fuel = 40000000;
  Outcome m = model(c.files, true, cc->ok ? &cc->prog : nullptr, mo);
  r.model_steps += m.steps;
  r.outcome = m.text();
  if (!cc->ok || m.diverged) { r.fail("harness: no reference run"); return; }
  Outcome o;
  o.compiled = true;
  RunOpts ro;
  ro.drive = [&](thread_t &t) {
    bool bp = how == 2;
    if (bp) t.breakpoint_add(line_t{0, 9});
    while (!t.finished() && !r.bad) {
      const uint32_t b = t.get_cycle_count();
      if (how == 1) t.vm().resume(uint32_t(n));
      else t.resume(int32_t(n));
      const uint32_t e = t.get_cycle_count() - b;
      if (e > uint32_t(n)) r.fail("a run with a budget of " + std::to_string(n) + " executed " + std::to_string(e) + " instructions");
      if (e < uint32_t(n) && !t.finished() && !(bp && t.get_source_line().line == 9)) r.fail("a run with a budget of " + std::to_string(n) + " stopped after " + std::to_string(e));
      if (e < uint32_t(n) && bp) bp = false;
    }
  };
  run_program(cc->prog, o, ro);
  r.runs++;
  r.impl_steps += o.steps;
  diff(r, "run in slices of " + std::to_string(n), m.text(), o.text());
}

// programs that throw away more than the heap holds within one slice, line or breakpoint stop
static void garbage(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  const long how = c.p[0];
  ModelOpts mo;
  mo.fuel = 40000000;
  mo.before = [](ref::Machine &m) { m.str_limit = m.arr_limit = 1l << 32; };
  Outcome m = model(c.files, true, cc->ok ? &cc->prog : nullptr, mo);
  r.model_steps += m.steps;
  r.outcome = m.text();
  if (!cc->ok || m.diverged) { r.fail("harness: no reference run"); return; }
  static const char *names[] = {"one run", "line steps", "slices of 7", "slices of 1000", "slices of 100000", "through the VM in slices of 20000", "a breakpoint on every line", "line steps and single runs in turn"};
  Outcome o;
  o.compiled = true;
  RunOpts ro;
  ro.drive = [&](thread_t &t) {
    if (how == 6) for (int l = 1; l < 20; l++) t.breakpoint_add(line_t{0, l});
    for (long n = 0; !t.finished() && n < 3000000; n++) {
      if (how == 0 || how == 6) t.resume(INT32_MAX);
      if (how == 1) t.step_line();
      if (how == 2) t.resume(7);
      if (how == 3) t.resume(1000);
      if (how == 4) t.resume(100000);
      if (how == 5) t.vm().resume(20000);
      if (how == 7) { if (n & 1) t.resume(50); else t.step_line(); }
    }
    if (!t.finished()) r.fail("the run does not end");
  };
  run_program(cc->prog, o, ro);
  r.runs++;
  r.impl_steps += o.steps;
  diff(r, names[how], m.text(), o.text());
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  auto sl = [](const Case &c, Result &r) { slices(c, r, 0); };
  auto sld = [](const Case &c, Result &r) { slices(c, r, 1); };
  auto br = [](const Case &c, Result &r) { breaks(c, r, false); };
  auto brp = [](const Case &c, Result &r) { breaks(c, r, true); };
  auto named = [](Space s, const char *n, const char *b) { s.name = std::string(n) + ": " + s.name; s.bound = std::string(b) + " x " + s.bound; return s; };
  const char *SB = "budgets 1..6 or 1..40, mixed budgets, single and line stepping, every switch point";
  const char *BB = "every single line, all lines, line pairs, removals, additions at every instruction";
  out.push_back(named(features_space(sld), "slices", SB));
  out.push_back(named(features_space(brp), "breakpoints", BB));
  out.push_back(named(scripts_space(sl), "slices", SB));
  out.push_back(named(scripts_space(br), "breakpoints", BB));
  out.push_back(named(blocks_space(1, 2, 2, sld), "slices", SB));
  out.push_back(named(blocks_space(1, 2, 2, brp), "breakpoints", BB));
  out.push_back(named(blocks_space(2, 0, 2, sl), "slices", SB));
  out.push_back(named(blocks_space(2, 0, 2, br), "breakpoints", BB));
  if (th) {
    out.push_back(named(blocks_space(2, 2, 2, sl), "slices", SB));
    out.push_back(named(blocks_space(2, 2, 2, brp), "breakpoints", BB));
    out.push_back(named(blocks_space(3, 0, 3, br), "breakpoints", BB));
  }
  // several statements and functions spread over lines and files
  auto files = [](Chooser &ch, Case &c) {
    static const Strs a = {"function fa(x)\n if (x)\n  return fb(x - 1)\n end\n\n return out(x)\nend\n", "var ga = out(3)\nfunction fa(x)\n var i\n for (i = 0 to 2)\n  out(i)\n end\n return i\nend\n", "\n\nfunction fa(x)\n while (x > 0)\n  x = fb(x) - 1\n end\nend\n"};
    static const Strs b = {"function fb(x)\n return x\nend\n", "# c\nfunction fb(x)\n out(x)\n if (not x)\n  return 0\n else\n  return x - 1\n end\nend\n", "function fb(x)\n var t = [x,\n 1]\n return x\nend\n"};
    static const Strs m = {"function main()\n fa(1)\n return fa(2)\nend\n", "function main()\n var q = [fa, fb]\n q[0](1)\n out(q[1](fa(1)))\nend\n", "function main()\n var k = 0\n while (k < 2) \n  k += 1\n  fa(k)\n end\n var z = 0\n return 4 / z\nend\n"};
    c.files = {ch.pick(a), ch.pick(b), ch.pick(m)};
    return true;
  };
  out.push_back(make("slices: files", "three files", files, sld));
  out.push_back(make("breakpoints: files", "three files", files, brp));
  out.push_back(named(sizes_space(false, sl, 70, {"integer literal", "integer computed", "string length", "string concat"}), "slices", SB));
  out.push_back(named(sizes_space(false, br, 24, {"integer literal", "integer computed", "string length", "string concat"}), "breakpoints", BB));
  static std::vector<long> pow;
  for (long k = 6; k <= (th ? 30 : 21); k++)
    for (long d = -1; d <= 1; d++) pow.push_back((1l << k) + d);
  pow.push_back(INT32_MAX);
  pow.push_back(1000000);
  // calls far below one another
  auto deep = [th](Chooser &ch, Case &c) {
    static const std::vector<int> q = {30, 63, 64, 65, 66, 100, 127, 128, 129, 200, 201, 255, 256, 257, 300}, t = {30, 63, 64, 65, 66, 100, 127, 128, 129, 200, 201, 255, 256, 257, 300, 511, 512, 513, 600};
    static const Strs sh = {"function r(n)\n if (n == 0)\n  return 0\n end\n return r(n - 1) + 1\nend\nfunction main()\n out(r(@))\n return 7\nend\n",
                            "var f\nfunction a(n, x)\n var y = x\n if (n)\n  y = b(n - 1, y)\n end\n return y\nend\nfunction b(n, x)\n if (n)\n  return f(n - 1, x + 1)\n end\n x = x + 1\n return x\nend\nfunction main()\n f = a\n return a(@, 0)\nend\n",
                            "function r(n)\n if (n)\n  r(n - 1)\n else\n  var z = 0\n  out(1 / z)\n end\nend\nfunction main()\n r(@)\nend\n"};
    std::string s = ch.pick(sh);
    s.replace(s.find('@'), 1, N(ch.pick(th ? t : q)));
    c.files = {s};
    c.p = {1};
    return true;
  };
  out.push_back(make("slices: deep", "3 kinds of recursion to 15 depths of 30..300", deep, sl));
  out.push_back(make("breakpoints: deep", "3 kinds of recursion to 15 depths of 30..300", deep, br));
  Space gb = make("garbage", "12 loops that discard 2 to 8 MB on one line or in what one line calls, x 8 ways of running", [](Chooser &ch, Case &c) {
    static const Strs body = {"a = [i, i, i, i]", "a = \"x\" + i", "a = new_array(50)", "a = [a]\n  a = none"};
    static const Strs shape = {
        "function work(n)\n var i = 0\n var a\n while (i < n)\n  i += 1\n  @\n end\n return i\nend\nfunction main()\n var keep = [1, \"k\"]\n out(work(60000))\n return keep\nend\n",
        "var keep = [1, \"k\"]\nfunction work(n)\n var a\n var i = n\n @\n return i\nend\nfunction main()\n var i = 0\n while (i < 3000)\n  i = i + 1 + work(1) + work(2) + work(3) + work(4) + work(5) + work(6) + work(7) - 28\n end\n return keep\nend\n",
        "function work(n, k)\n var a\n var i = n\n @\n if (n)\n  return work(n - 1, k) + 1\n end\n return k\nend\nfunction main()\n var j\n var keep = \"k\" + 1\n for (j = 0 to 2000)\n  out(work(20, j))\n end\n return keep\nend\n",
    };
    std::string s = ch.pick(shape);
    s.replace(s.find('@'), 1, ch.pick(body));
    c.files = {s};
    c.p = {ch.choose(8)};
    return true;
  }, garbage);
  gb.hang_s = 120;
  out.push_back(gb);
  Space lb = make("large budgets", "budgets around every power of two up to 2^" + N(th ? 30 : 21) + " and the largest one, on a run of 1.4 million instructions, through the thread, the VM, and with one breakpoint", [](Chooser &ch, Case &c) {
    c.p = {ch.pick(pow), ch.choose(3)};
    c.files = {"var g = 0\nfunction main()\n var i = 0\n while (i < 100000)\n  i = i + 1\n  g = g * 3 + i\n end\n\n out(g)\n return i\nend\n"};
    return true;
  }, large);
  lb.hang_s = 120;
  out.push_back(lb);
}
