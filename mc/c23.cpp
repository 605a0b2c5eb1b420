// C23: what a host sees of a stopped program
#include "harness.h"
using namespace impl;
using corpus::N;
using corpus::rep;

struct Var { std::string name, text, shown; bool arg; };
struct Fr { std::string fn; int file, line; std::vector<Var> vars; };  // line: of the call this frame makes (innermost: not used)
struct Snap { std::vector<Fr> fr; std::string globals; };              // innermost first

// a call without effect after every line of every function body, so that the program stops everywhere
static std::string stops(const std::string &s) {
  std::string o;
  int depth = 0;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(p, e - p);
    p = e + 1;
    size_t b = l.find_first_not_of(" \t");
    std::string w = b == std::string::npos ? "" : l.substr(b, l.find_first_of(" \t(#", b) - b);
    for (auto &ch : w) ch = char(tolower(ch));
    if (w == "function" || (depth && (w == "if" || w == "while" || w == "for"))) depth++;
    o += l;
    o += depth == 1 && w == "end" ? "\n" : depth ? " \n outv()\n" : "\n";
    if (depth && w == "end") depth--;
  }
  return o;
}
// to_string of a value
static std::string shown(ref::Machine &m, const program_t &p, const ref::Val &v) {
  switch (v.t) {
  case ref::V_NONE: return "none";
  case ref::V_INT: return N(v.i);
  case ref::V_FLT: return std::to_string(v.f);
  case ref::V_STR: return "\"" + *v.s + "\"";
  case ref::V_FUN: return "function@" + N(m.addr ? m.addr(v.fn) : -1);
  case ref::V_SYS: return "syscall@";
  case ref::V_ARR: return "array@";
  }
  (void)p;
  return "?";
}
static Snap snap(ref::Machine &m, const program_t &p) {
  Snap s;
  for (size_t i = m.live.size(); i-- > 0;) {
    auto &l = m.live[i];
    Fr f;
    f.fn = l.fn->name;
    f.file = i + 1 < m.live.size() ? m.live[i + 1].file : m.file;
    f.line = i + 1 < m.live.size() ? m.live[i + 1].line : m.line;
    for (auto *d : l.scope) f.vars.push_back({d->name, ref::render((*l.fr)[size_t(d->slot)]), shown(m, p, (*l.fr)[size_t(d->slot)]), d->kind == ref::Decl::Arg});
    s.fr.push_back(f);
  }
  s.globals = globals_text(m.P, m.g);
  return s;
}
static bool fits(const std::string &want, const std::string &got) {
  return want == got || ((want == "array@" || want == "syscall@") && got.compare(0, want.size(), want) == 0 && got.size() > want.size());
}
// the frames of the thread against what they should be; init: the program is running its initialisers
static void compare(const Snap &s, const thread_t &t, bool init, Result &r, const std::string &when) {
  const program_t &p = t.vm().program();
  const auto &frames = t.frames();
  const value_stack_t &stack = const_cast<thread_t &>(t).get_stack();
  auto bad = [&](const std::string &w) { r.fail(when + ": " + w); };
  if (frames.size() != s.fr.size() + init) return bad(N(long(frames.size())) + " frames, expected " + N(long(s.fr.size() + init)));
  for (size_t i = 0; i < frames.size(); i++) {
    const frame_t &f = frames[frames.size() - 1 - i];
    const function_t *fn = p.function_find(f.callee_);
    if (!fn) return bad("frame " + N(long(i)) + " names no function");
    const std::string name = i < s.fr.size() ? s.fr[i].fn : "@init";
    if (fn->name() != name) return bad("frame " + N(long(i)) + " is of " + fn->name() + ", expected " + name);
    if (f.terminal_ != (i + 1 == frames.size())) return bad("frame " + N(long(i)) + (f.terminal_ ? " is the last one" : " is not the last one"));
    if (i) {  // where it goes on: right behind the call
      const frame_t &in = frames[frames.size() - i];
      auto &lt = p.line_table();
      auto it = lt.lower_bound(in.return_);
      if (it == lt.begin()) return bad("frame " + N(long(i)) + " is called from nowhere");
      --it;
      if (in.return_ <= fn->code_start_ || in.return_ > fn->code_end_) return bad("frame " + N(long(i)) + " goes on outside of its function");
      if (i < s.fr.size() && (it->second.file != s.fr[i].file || it->second.line != s.fr[i].line))
        return bad("frame " + N(long(i)) + " is at line " + N(it->second.file) + ":" + N(it->second.line) + ", expected " + N(s.fr[i].file) + ":" + N(s.fr[i].line));
    }
    if (i >= s.fr.size()) continue;
    for (auto &v : s.fr[i].vars) {
      bool found = false, same = false;
      std::string got;
      for (auto &id : v.arg ? fn->args_ : fn->locals_) {
        if (id.name_ != v.name) continue;
        found = true;
        const value_t *x = stack.get(f.sp_ + id.offset_);
        const std::string a = render(p, x), b = x->to_string();
        if (a == v.text && fits(v.shown, b)) { same = true; break; }
        got += " " + a + " shown as " + b;
      }
      if (!found) return bad("frame " + N(long(i)) + " (" + fn->name() + ") has no variable " + v.name);
      if (!same) return bad("frame " + N(long(i)) + " (" + fn->name() + "): " + v.name + " is" + got + ", expected " + v.text + " shown as " + v.shown);
    }
  }
  std::string g = globals_text(p, t.vm());
  if (g != s.globals) bad("globals are " + g + ", expected " + s.globals);
}
// p: {} or the stop at which the host stores into a variable, the frame (innermost first) and the number of the variable
static void look(const Case &c, Result &r) {
  const size_t limit = 600;
  for (int k = 0; k < 2 && !r.bad; k++) {
    auto cc = compile(c.files, k == 0);
    std::vector<std::string> f = c.files;
    ref::Built b = ref::build(f, std_syscalls(), k == 0);
    r.outcome = "rejected";
    if (!b.ok || !cc->ok) continue;  // C08 and C09 decide acceptance
    std::vector<Snap> want;
    Snap at_fault;
    bool faulted = false, stored = false;
    size_t init_stops = 0, n_calls = 0;
    std::string sname, sfn;
    bool sarg = false;
    ModelOpts mo;
    mo.fuel = c.note.empty() ? 20000 : 300000;
    mo.before = [&](ref::Machine &m) {
      m.track = true;
      m.on_call = [&] {
        if (n_calls++ < limit) want.push_back(snap(m, cc->prog));
        if (m.live.empty()) init_stops = n_calls;
        else if (m.live.front().fn->name != "main") init_stops = n_calls;
        if (!c.p.empty() && long(n_calls) == c.p[0] + 1 && size_t(c.p[1]) < m.live.size()) {
          auto &l = m.live[m.live.size() - 1 - size_t(c.p[1])];
          if (size_t(c.p[2]) >= l.scope.size()) return;
          ref::Decl *d = l.scope[size_t(c.p[2])];
          const function_t *fn = cc->prog.function_find(l.fn->name);
          int same = 0;
          if (fn) { for (auto &id : fn->args_) same += id.name_ == d->name; for (auto &id : fn->locals_) same += id.name_ == d->name; }
          if (same != 1) return;  // several blocks declare it
          (*l.fr)[size_t(d->slot)] = m.I(777);
          stored = true;
          sname = d->name;
          sarg = d->kind == ref::Decl::Arg;
        }
      };
      m.on_fault = [&] { at_fault = snap(m, cc->prog); faulted = true; };
    };
    Outcome m, o;
    run_model(b, m, &cc->prog, mo);
    r.model_steps += m.steps;
    r.outcome = m.text();
    if (m.diverged) { r.outcome = "DIVERGED"; continue; }
    if (!c.p.empty() && !stored) { r.outcome = "nothing to store"; continue; }
    o.compiled = true;
    size_t seen = 0;
    bool aside = false;
    RunOpts ro;
    ro.on_call = [&](thread_t &t) {
      if (aside) return;
      if (seen < want.size() && !r.bad) compare(want[seen], t, seen < init_stops, r, "host call " + N(long(seen)));
      seen++;
      if (stored && long(seen) == c.p[0] + 1 && !r.bad) {
        const frame_t &fr = t.frames()[t.frames().size() - 1 - size_t(c.p[1])];
        const function_t *fn = t.vm().program().function_find(fr.callee_);
        for (auto &id : sarg ? fn->args_ : fn->locals_) if (id.name_ == sname) t.get_stack().set(fr.sp_ + id.offset_, t.gc().new_int(777));
      }
    };
    ro.drive = [&](thread_t &t) {
      drive_resume(t);
      if (t.has_error() && faulted && !r.bad) {
        compare(at_fault, t, false, r, "after the fault");
        if (t.get_return_value()) r.fail("a failed thread has a return value");
        // it stays to be looked at while others run and memory is collected
        const function_t *fn = cc->prog.function_find("main");
        if (thread_t *other = fn && !fn->num_args() ? t.vm().new_thread(*fn, 0, nullptr) : nullptr) {
          const std::string trace = cur_trace()->t;
          aside = true;
          for (int n = 0; n < 2; n++) {
            other->step_inst();
            if (other->finished()) break;
            // what was not kept is overwritten
            for (int q = 0; q < 10; q++) t.gc().new_string(std::string(50000, 'U'));
          }
          aside = false;
          cur_trace()->t = trace;
          if (!r.bad) compare(at_fault, t, false, r, "after the fault and a collection");
        }
      }
    };
    run_program(cc->prog, o, ro);
    r.runs++;
    r.impl_steps += o.steps;
    diff(r, k == 0 ? "optimised build" : "unoptimised build", m.text(), o.text());
    if (!r.bad && seen != n_calls) r.fail("a different number of host calls");
  }
}
// looking at everything after every instruction: always consistent, and without any effect
static void everywhere(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  ModelOpts mo;
  mo.fuel = 20000;
  Outcome m = model(c.files, true, cc->ok ? &cc->prog : nullptr, mo), o;
  r.model_steps += m.steps;
  r.outcome = m.text();
  if (!cc->ok || !m.compiled || m.diverged) return;
  for (int how = 0; how < 2 && !r.bad; how++) {
    o = Outcome();
    o.compiled = true;
    RunOpts ro;
    ro.drive_init = true;
    ro.drive = [&](thread_t &t) {
      const value_stack_t &stack = t.get_stack();
      while (!t.finished() && !r.bad && t.get_cycle_count() < 30000) {
        const program_t &p = t.vm().program();
        int32_t pc = t.get_pc();
        size_t terminal = 0;
        int32_t sp = stack.head();
        for (auto f = t.frames().rbegin(); f != t.frames().rend(); ++f) {
          const function_t *fn = p.function_find(f->callee_);
          if (!fn) { r.fail("a frame names no function"); break; }
          if (pc < fn->code_start_ || pc > fn->code_end_ || (f == t.frames().rbegin() && pc == fn->code_end_)) r.fail("at instruction " + N(pc) + " the frame is of " + fn->name());
          if (p.function_find(f == t.frames().rbegin() ? pc : pc - 1) != fn) r.fail("instruction " + N(pc) + " is not found to be in " + fn->name());
          if (f->sp_ > sp || f->sp_ < fn->num_args()) r.fail("the frame of " + fn->name() + " is at " + N(f->sp_) + " of " + N(sp));
          for (auto &a : fn->args_) stack.get(f->sp_ + a.offset_)->to_string();
          for (auto &a : fn->locals_) stack.get(f->sp_ + a.offset_)->to_string();
          sp = f->sp_;
          pc = f->return_;
          terminal += f->terminal_;
        }
        if (terminal != 1) r.fail(N(long(terminal)) + " frames are the last one");
        for (int32_t i = -1; i <= stack.head(); i++) stack.get(i)->to_string();
        for (auto *g : t.vm().globals()) g->to_string();
        t.get_source_line();
        if (t.get_return_value()) r.fail("a running thread has a return value");
        if (how) t.step_inst();
        else t.resume(1);
      }
    };
    run_program(cc->prog, o, ro);
    r.runs++;
    r.impl_steps += o.steps;
    diff(r, how ? "looking while stepping" : "looking while running", m.text(), o.text());
  }
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  auto stop = [](Space s, const char *n) {
    auto g = s.gen;
    s.name = std::string(n) + s.name;
    s.bound = "stopped after every line: " + s.bound;
    s.gen = [g](Chooser &ch, Case &c) {
      if (!g(ch, c)) return false;
      for (auto &f : c.files) f = stops(f);
      c.p.clear();
      return true;
    };
    return s;
  };
  out.push_back(features_space(look));
  out.push_back(stop(features_space(look), "stops, "));
  out.push_back(scripts_space(look));
  out.push_back(stop(scripts_space(look), "stops, "));
  for (int lv = 0; lv <= 2; lv++) out.push_back(stop(blocks_space(1, lv, 1, look), "stops, "));
  out.push_back(stop(blocks_space(2, th ? 1 : 0, 2, look), "stops, "));
  out.push_back(stop(blocks_space(3, th ? 0 : -1, 3, look), "stops, "));
  if (th) out.push_back(stop(blocks_space(4, -1, 3, look), "stops, "));
  {
    Space s = sizes_space(th, look, th ? 700 : 70);
    out.push_back(s);
  }
  out.push_back(stop(wide_space(th, th ? 41 : 25, look), "stops, "));
  out.push_back(features_space(everywhere));
  out.back().name = "every instruction, features";
  out.push_back(blocks_space(2, 0, 2, everywhere));
  out.back().name = "every instruction, " + out.back().name;
  // scopes: variables of several blocks, functions and depths
  out.push_back(make("scopes", "all sequences of 3 of 12 blocks declaring, shadowing by name in turn, nesting, calling and recursing, x 3 argument counts", [](Chooser &ch, Case &c) {
    static const Strs b = {"var @ = 1\n outv()", "if (p)\n  var @ = \"t\"\n  outv()\n else\n  var @ = \"e\"\n  outv()\n end", "if (not p)\n  var @ = 2\n  outv()\n else\n  var q = 3\n  var @ = 4\n  outv()\n end",
                           "var i@ = 0\n while (i@ < 2)\n  var w@\n  outv()\n  w@ = i@\n  outv()\n  i@ += 1\n end", "var j@\n for (j@ = 0 to 2)\n  var @x = [j@, p]\n  outv()\n  if (j@)\n   var @y = @x\n   outv()\n  end\n end\n outv()",
                           "p = deep(3, \"@\")\n outv()", "var @ = [p, deep(1, p)]\n outv(@)", "p = none\n outv()", "var @ = outv(p)\n @ = @ + 1\n outv()", "var z@ = main\n var y@ = outv\n outv()", "var @ = 1.5\n p = @ * 2\n outv()", "if (p)\n  outv()\n  return deep(2, [p])\n end"};
    std::string f, call;
    int n = 1 + ch.choose(3);
    for (int i = 0; i < n; i++) f += (i ? ", " : "") + std::string(1, "pqr"[i]), call += (i ? ", " : "") + N(i + 1);
    if (n > 1) { std::string a = "p"; f = "a1, p"; call = "9, 1"; if (n > 2) f += ", c3", call += ", \"z\""; }
    std::string body;
    static const char *nm[] = {"u", "v", "w"};
    for (int i = 0; i < 3; i++) {
      std::string x = ch.pick(b);
      std::string name = nm[i];
      for (size_t q; (q = x.find('@')) != std::string::npos;) x.replace(q, 1, name);
      body += " " + x + "\n";
    }
    c.files = {"var g = [1]\nvar h\nfunction deep(n, x)\n var here = n * 10\n if (n)\n  var inner = [n, x]\n  outv(n)\n  h = inner\n  return deep(n - 1, inner) \n end\n outv(x)\n return here\nend\nfunction f(" + f + ")\n" + body + " outv()\n return p\nend\nfunction main()\n var m1 = 5\n var m2 = f(" + call + ")\n outv()\n return [m1, m2]\nend\n"};
    return true;
  }, look));
  out.push_back(make("initialisers", "calls while the globals are being initialised: 3 globals of 7 initialisers, the first, all or none of them declared before the functions", [](Chooser &ch, Case &c) {
    static const Strs i = {"1", "f(2)", "[f(1), 2]", "f", "outv(\"x\")", "f(f(3))", "f(none - 1)"};
    std::string d[3];
    for (int k = 0; k < 3; k++) d[k] = "var g" + N(k) + " = " + ch.pick(i) + "\n";
    int w = ch.choose(3);
    std::string fn = "function f(x)\n var l = x\n outv()\n if (x)\n  var k = [l]\n  outv(g0, g1, g2)\n end\n return l\nend\nfunction main()\n outv()\n return f(7)\nend\n";
    c.files = {w == 0 ? d[0] + d[1] + d[2] + fn : w == 1 ? d[0] + fn + d[1] + d[2] : fn + d[0] + d[1] + d[2]};
    return true;
  }, look));
  out.push_back(make("calls", "a stop below every way to call (direct, through a local, global, array element, result) x position of the call in its expression x 0..5 arguments x 0..3 locals", [](Chooser &ch, Case &c) {
    int how = ch.choose(5), n = ch.choose(6), l = ch.choose(4), where = ch.choose(7);
    std::string ps, as;
    for (int i = 0; i < n; i++) ps += (i ? ", a" : "a") + N(i), as += (i ? ", " : "") + std::string(i % 3 == 0 ? N(i) : i % 3 == 1 ? "\"s" + N(i) + "\"" : "[" + N(i) + "]");
    static const Strs cal = {"f", "v", "gv", "arr[1]", "get()"};
    std::string call = cal[size_t(how)] + "(" + as + ")", loc;
    for (int i = 0; i < l; i++) loc += " var l" + N(i) + " = " + N(i * 7) + "\n";
    static const Strs w = {" @", " m = @", " return @", " m = 1 + @", " m = [1, @, 3]", " outv(5, @)", " m = arr[@]"};
    std::string st = w[size_t(where)];
    if (where == 0 && how > 2) st = " m = @";
    st.replace(st.find('@'), 1, call);
    c.files = {"var gv\nfunction get()\n return f\nend\nfunction f(" + ps + ")\n" + loc + " outv()\n return 1\nend\nfunction main()\n var m = \"m\"\n var v = f\n var arr = [0, f, 2]\n gv = f\n" + st + "\n outv()\nend\n"};
    return true;
  }, look));
  out.push_back(make("faults", "every kind of fault below 0..3 calls x 3 places: what the failed thread still shows", [](Chooser &ch, Case &c) {
    static const Strs f = {"r = 1 / z", "r = none + 1", "r = a[9]", "r = a[\"s\"]", "r = z[0]", "a[9] = 1", "z[0] = 1", "a[none] = 1", "r = z(1)", "r = h(1, 2, 3)", "r = abs(\"s\")", "abs(none)", "r = a.size", "a.q = 2", "return -\"s\"", "r = [1, 2, 3 / z]", "r = outv(1, 2 / z)", "for (r = 0 to none)\n end", "r = new_array(-1)", "r = 5 + (6 * (7 - none))"};
    std::string x = ch.pick(f);
    int d = ch.choose(4), w = ch.choose(3);
    std::string blk = w == 0 ? " " + x + "\n" : w == 1 ? " if (1)\n  var q = \"in\"\n  outv()\n  " + x + "\n end\n" : " var i\n for (i = 0 to 3)\n  var k = i * 2\n  outv()\n  if (i)\n   " + x + "\n  end\n end\n";
    std::string s = "var g = 1\nfunction h(x)\n return x\nend\nfunction d0(p)\n var r = 1\n var z = 0\n var a = [1, p]\n g += 1\n" + blk + " return r\nend\n";
    for (int i = 1; i <= d; i++) s += "function d" + N(i) + "(p)\n var own = " + N(i) + "\n return own + d" + N(i - 1) + "(own)\nend\n";
    c.files = {s + "function main()\n var top = \"t\"\n return d" + N(d) + "(top)\nend\n"};
    return true;
  }, look));
  out.push_back(make("stores", "the host stores into any variable of any frame at any stop of 8 programs", [](Chooser &ch, Case &c) {
    static const Strs p = {"function main()\n var a = 1\n outv()\n var b = a\n outv(a, b)\n return a + b\nend\n", "function f(x, y)\n outv()\n var z = x\n outv(x, y, z)\n return z\nend\nfunction main()\n var a = f(1, 2)\n outv(a)\n return f(a, 3)\nend\n",
                           "function f(n)\n var k = n\n if (n > 0)\n  var j = f(n - 1)\n  outv(n, k, j)\n  return k\n end\n outv()\n return n\nend\nfunction main()\n return f(3)\nend\n", "function main()\n var i\n for (i = 0 to 3)\n  var w = i * 2\n  outv(i)\n  outv(w)\n end\n return i\nend\n",
                           "function main()\n var a = [1, 2]\n var b = a\n outv()\n b = [b, a]\n outv(b)\n return b\nend\n", "function g(x)\n outv()\n return x\nend\nfunction main()\n var s = \"a\"\n s = s + g(s) + s\n outv(s)\n return s\nend\n",
                           "function main()\n var a = 1\n if (a)\n  var b = 2\n  outv()\n  if (b)\n   var c = 3\n   outv(a, b, c)\n  end\n  outv(a, b)\n end\n return a\nend\n", "function main()\n var n = 3\n while (n > 0)\n  var t = n\n  outv(t)\n  n = t - 1\n  if (n > 700)\n   return n\n  end\n end\n return n\nend\n"};
    c.files = {ch.pick(p)};
    c.p = {ch.choose(14), ch.choose(5), ch.choose(4)};
    return true;
  }, look));
  out.push_back(make("values", "every kind of value, integers and floats around every power of two, strings of every length up to " + N(th ? 3000 : 300) + ", in a local, an argument, a global and an array", [th](Chooser &ch, Case &c) {
    static const Strs v = {"none", "f", "abs", "outv", "[1, [2]]", "0.1", "1.0 / 3", "1.0 / 0.0", "-1.0 / 0.0", "\"\"", "\"%d%n\"", "chr(1)", "chr(200)", "new_array(3)", "1 == 2", "0.0", "0.0 * -1"};
    const int strs = th ? 3000 : 300;
    int k = ch.choose(int(v.size()) + 31 * 4 + 31 * 2 + strs);
    std::string e;
    if (k < int(v.size())) e = v[size_t(k)];
    else if ((k -= int(v.size())) < 31 * 4) e = std::string(k & 2 ? "-1 * " : "") + N((1l << (k / 4)) - (k & 1));
    else if ((k -= 31 * 4) < 62) e = std::string(k & 1 ? "-1 * " : "") + N(1l << (k / 2)) + ".5";
    else for (k -= 61, e = "\""; k > 0; k--) e += char('a' + k % 26);
    if (e[0] == '"' && e.size() > 1 && e.back() != '"') e += "\"";
    c.files = {"var g\nfunction f(x)\n var l = [x]\n g = x\n outv()\n return l\nend\nfunction main()\n var v = " + e + "\n var z = f(v)\n outv(z)\n return z[0]\nend\n"};
    return true;
  }, look));
  out.push_back(make("recursion", "all call graphs of main and two functions in which each calls itself or another once, in every order, up to 1..9 active calls", [](Chooser &ch, Case &c) {
    static const char *nm[] = {"main", "f", "g"};
    int to[3] = {ch.choose(3), ch.choose(3), ch.choose(3)}, n = 1 + ch.choose(9), how = ch.choose(2);
    std::string s = "var n = 0\nvar h\n";
    for (int i = 0; i < 3; i++) {
      auto arg = [&](int k) { return std::string(k ? "n" : ""); };
      s += std::string("function ") + nm[i] + "(" + (i ? "x" : "") + ")\n var l" + N(i) + " = n\n n += 1\n outv()\n if (n < " + N(n) + ")\n  var q = \"q\" + n\n" +
           (how ? std::string("  h = ") + nm[to[i]] + "\n  q = h(" + arg(to[i]) + ")\n" : std::string("  q = ") + nm[to[i]] + "(" + arg(to[i]) + ")\n") + "  outv(q)\n  return [q]\n end\n return l" + N(i) + "\nend\n";
    }
    c.files = {s};
    return true;
  }, look));
  out.push_back(make("deep", "stops below n active calls, n around every power of two up to " + N(th ? 4096 : 512), [th](Chooser &ch, Case &c) {
    static const std::vector<int> n = {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096};
    int k = ch.pick(n);
    if (k > (th ? 4096 : 512)) return false;
    int w = ch.choose(2);
    c.files = {"function f(n, s)\n var l = n + 1\n if (n)\n  var q = " + std::string(w ? "f(n - 1, l)" : "1 + f(n - 1, s)") + "\n  if (n == 3)\n   outv(q)\n  end\n  return q\n end\n outv(l)\n return l\nend\nfunction main()\n var t = f(" + N(k) + ", \"s\")\n outv(t)\n return t\nend\n"};
    c.note = "deep";
    return true;
  }, look));
}
