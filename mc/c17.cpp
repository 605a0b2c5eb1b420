// C17: host callbacks, for every sequence of answers the host can give
#include "harness.h"
using namespace impl;
using corpus::N;

// what the host answers to one callback
enum Answer { DECLINE, INT, FIRST, LAST, STR, NONE, ARRAY, RAISE, HALT_INT, HALT_DECLINE, FLOAT, RAISE_HALT, HALT_RAISE, N_ANSWERS };
static const char *answer_name[] = {"decline", "7", "first operand", "last operand", "\"h\"", "none", "new array", "raise", "halt+7", "halt+decline", "0.5", "raise+halt", "halt+raise"};

static const char *kinds[] = {"add", "sub", "mul", "div", "eq", "aget", "aset", "mget", "mset"};

static std::vector<ref::Sys> syscalls() {
  std::vector<ref::Sys> s = std_syscalls();
  s.push_back({"ask", -1});
  s.push_back({"ask2", 2});
  s.push_back({"ask0", 0});
  return s;
}

// ---------------------------------------------------------------- implementation side
struct Host {
  std::vector<int> table;
  size_t used = 0;
  int halts = 0;
  std::string log;
  int next() {
    int a = used < table.size() ? table[used] : int(DECLINE);
    used++;
    return a;
  }
};
static Host *H;
static void log_event(thread_t &t, const std::string &kind, const std::vector<const value_t *> &ops, const std::string &mem) {
  const program_t &p = t.vm().program();
  std::string e = kind + "(";
  std::vector<const value_t *> seen;
  for (size_t i = 0; i < ops.size(); i++) {
    if (i) e += "|";
    render(e, p, ops[i], seen);  // shared numbering shows aliases between operands
  }
  e += ")";
  if (!mem.empty()) e += "." + mem;
  H->log += e + " at " + std::to_string(t.get_source_line().line) + " with " + globals_text(p, t.vm()) + "\n";
}
// true: handled
static bool reply(thread_t &t, const std::vector<const value_t *> &ops, bool wants_value, bool syscall = false) {
  int a = H->next();
  value_stack_t &s = t.get_stack();
  switch (a) {
  case HALT_DECLINE: t.halt(); H->halts++;  // fall through
  case DECLINE:
    if (syscall) s.push(nullptr);
    return false;
  case RAISE: t.raise_error(thread_error_t::e_bad_syscall); return true;
  case RAISE_HALT: t.raise_error(thread_error_t::e_bad_syscall); t.halt(); return true;
  case HALT_RAISE: t.halt(); t.raise_error(thread_error_t::e_bad_syscall); return true;
  case HALT_INT: t.halt(); H->halts++; break;
  default: break;
  }
  if (!wants_value) return true;
  switch (a) {
  case INT: case HALT_INT: s.push_int(7); break;
  case FIRST: s.push(ops.empty() ? nullptr : const_cast<value_t *>(ops[0])); break;
  case LAST: s.push(ops.empty() ? nullptr : const_cast<value_t *>(ops.back())); break;
  case STR: s.push_string("h"); break;
  case NONE: s.push_none(); break;
  case FLOAT: s.push_float(0.5f); break;
  case ARRAY: {
    value_t *v = t.gc().new_array(2);
    v->array()[1] = t.gc().new_int(9);
    s.push(v);
  } break;
  }
  return true;
}
template <int K> static bool on_op(thread_t &t, const value_t *l, const value_t *r) {
  log_event(t, kinds[K], {l, r}, "");
  return reply(t, {l, r}, true);
}
static bool on_aget(thread_t &t, value_t *a, const value_t *i) {
  log_event(t, "aget", {a, i}, "");
  return reply(t, {a, i}, true);
}
static bool on_aset(thread_t &t, value_t *a, const value_t *i, value_t *v) {
  log_event(t, "aset", {a, i, v}, "");
  return reply(t, {a, i, v}, false);
}
static bool on_mget(thread_t &t, value_t *o, const std::string &m) {
  log_event(t, "mget", {o}, m);
  return reply(t, {o}, true);
}
static bool on_mset(thread_t &t, value_t *o, value_t *v, const std::string &m) {
  log_event(t, "mset", {o, v}, m);
  return reply(t, {o, v}, false);
}
static void sys_common(thread_t &t, int32_t n, const char *name) {
  std::vector<const value_t *> a(size_t(n > 0 ? n : 0));
  for (int i = n - 1; i >= 0; i--) a[size_t(i)] = t.get_stack().pop();
  log_event(t, name, a, "");
  reply(t, a, true, true);
}
static void sys_ask(thread_t &t, int32_t n) { sys_common(t, n, "ask"); }
static void sys_ask2(thread_t &t, int32_t n) { sys_common(t, n, "ask2"); }
static void sys_ask0(thread_t &t, int32_t n) { sys_common(t, n, "ask0"); }

static void install(vm_t &vm, int mask) {
  handlers_t &h = vm.handlers;
  if (mask & 1) h.on_add = on_op<0>;
  if (mask & 2) h.on_sub = on_op<1>;
  if (mask & 4) h.on_mul = on_op<2>;
  if (mask & 8) h.on_div = on_op<3>;
  if (mask & 16) h.on_equals = on_op<4>;
  if (mask & 32) h.on_array_get = on_aget;
  if (mask & 64) h.on_array_set = on_aset;
  if (mask & 128) h.on_member_get = on_mget;
  if (mask & 256) h.on_member_set = on_mset;
}

// ---------------------------------------------------------------- model side
struct MHost {
  std::string log;
  int halts = 0;
  std::function<int(bool wants, size_t nops)> next;
  ref::Program *P = nullptr;
  void event(ref::Machine &m, const std::string &kind, const std::vector<ref::Val> &ops, const std::string &mem) {
    std::string e = kind + "(";
    std::vector<const ref::Arr *> seen;
    for (size_t i = 0; i < ops.size(); i++) {
      if (i) e += "|";
      ref::render(e, ops[i], seen);
    }
    e += ")";
    if (!mem.empty()) e += "." + mem;
    std::string g;
    g += globals_text(*P, m.g);
    log += e + " at " + std::to_string(m.line) + " with " + g + "\n";
  }
  int reply(ref::Machine &m, const std::vector<ref::Val> &ops, bool wants, ref::Val &ret) {
    int a = next(wants, ops.size());
    ret = ref::Val();
    switch (a) {
    case HALT_DECLINE: halts++; return 0;
    case DECLINE: return 0;
    case RAISE: case RAISE_HALT: case HALT_RAISE: return 2;
    case HALT_INT: halts++; ret = m.I(7); return 1;
    case INT: ret = m.I(7); return 1;
    case FLOAT: ret = m.Fl(0.5f); return 1;
    case FIRST: if (!ops.empty()) ret = ops[0]; return 1;
    case LAST: if (!ops.empty()) ret = ops.back(); return 1;
    case STR: ret = m.S("h"); return 1;
    case ARRAY: ret = m.A(2); ret.a->v[1] = m.I(9); return 1;
    default: return 1;
    }
  }
  void bind(ref::Machine &m, int mask) {
    m.hooks.kinds.clear();
    for (int i = 0; i < 9; i++) if (mask & (1 << i)) m.hooks.kinds.insert(kinds[i]);
    if (mask)
      m.hooks.op = [this](ref::Machine &mm, const char *k, const std::vector<ref::Val> &ops, const std::string &mem, ref::Val &ret) {
        event(mm, k, ops, mem);
        return reply(mm, ops, std::string(k) != "aset" && std::string(k) != "mset", ret);
      };
    m.host = [this](ref::Machine &mm, const std::string &n, std::vector<ref::Val> &a, ref::Val &ret) {
      if (n != "ask" && n != "ask2" && n != "ask0") return false;
      event(mm, n, a, "");
      if (reply(mm, a, true, ret) == 2) mm.fault(ref::F_HOST);
      return true;
    };
  }
};

// ---------------------------------------------------------------- programs
// the result of every operation is visible: in host calls, globals and the return value
static const Strs &handler_programs() {
  static const Strs v = {
      // every operator with operands no default rule covers
      "var g = 1\nfunction main()\n  var a = [1, 2]\n  var b = a + 1\n  out(b)\n  g = b - a\n  out(g)\n  return g\nend\n",
      "var g = 1\nfunction main()\n  var a = [1]\n  g = 2 * a\n  out(g)\n  g = \"x\" / a\n  return g\nend\n",
      "var g = none\nfunction main()\n  var a = [1]\n  g = a == [1]\n  out(g)\n  g = a == a\n  out(g)\n  if (not (a == \"s\"))\n    out(1)\n  else\n    out(2)\n  end\n  return 5\nend\n",
      "var g = 0\nfunction main()\n  var a = [3, [4]]\n  a[0] = a[1]\n  out(a)\n  a[1] = 6\n  g = a[0]\n  out(g)\n  return a[1]\nend\n",
      "var g = 0\nfunction main()\n  var s = \"ab\"\n  out(s[1])\n  s[0] = 2\n  out(s[0])\nend\n",
      "var g = 4\nfunction main()\n  var a = [1, 2, 3]\n  out(a.length)\n  out(a.size)\n  g.x = a.y\n  out(g)\n  a.z = 3\n  return g.x\nend\n",
      "var g = none\nfunction main()\n  g.name = \"v\"\n  var q = g.name + 1\n  out(q)\n  var z = \"s\"\n  g = z.len\n  return g\nend\n",
      // nested uses: an answer becomes the operand of the next operation
      "var g = [5]\nfunction main()\n  return ((g + 1) - g) * (g / 2)\nend\n",
      "var g = [5]\nfunction f(a, b)\n  out(a)\n  return a - b\nend\nfunction main()\n  return f(g + g, 2 - g) + out(g.m)\nend\n",
      "var g = [[1], [2]]\nfunction main()\n  var e = g[0]\n  e[0] = g[1][0]\n  out(g)\n  g[e[0] - 1] = 3\n  out(g)\n  return g[0]\nend\n",
      // in conditions and loops
      "var g = [1]\nfunction main()\n  var i = 0\n  while (i < 2)\n    g = g + i\n    i = i + 1\n    out(g)\n  end\n  return i\nend\n",
      "var g = [2]\nfunction main()\n  var i = 0\n  for (i = 0 to g[0])\n    out(i)\n  end\n  if (g - 1)\n    return 1\n  end\n  return 2\nend\n",
      "var g = [2]\nfunction main()\n  if (not (g == 1) and (g.ok or g / 3))\n    out(1)\n  else\n    out(2)\n  end\n  g += [1]\n  g -= 1\n  return g\nend\n",
      // faults are never offered where a default rule exists, and default faults remain
      "var g = 3\nfunction main()\n  out(1 + 2.5)\n  out(\"a\" + g)\n  out(g == none)\n  out(g / 2)\n  out(\"a\" == \"a\")\n  out(main == main)\n  return g / 0\nend\n",
      "var g = 3\nfunction f()\n  return none * g\nend\nfunction main()\n  g = f() + 1\n  return g < [1]\nend\n",
      "function f(x)\n  return x[0] + x\nend\nfunction main()\n  var h = f\n  out(h([1]))\n  return h(\"a\") % 2\nend\n",
      // an unoptimised constant expression and initialisers
      "var g = [1]\nvar h = g\nfunction main()\n  h[0] = \"x\" - 1\n  out(h)\n  return 1 - \"x\"\nend\n",
      // argument and local operands keep their order
      "function sub(a, b, c)\n  out(a - c)\n  out(c - a)\n  out(b / c)\n  out(c / b)\n  return c * b\nend\nfunction main()\n  return sub(1, \"s\", [2])\nend\n",
      // far elements
      "var g = none\nfunction main()\n  var a = new_array(300)\n  a[0] = 1\n  a[255] = 2\n  a[256] = 3\n  a[299] = a[256]\n  g = a[255]\n  out(a[299])\n  return a[0]\nend\n",
      "var g = none\nfunction main()\n  var a = new_array(70000)\n  a[65535] = 2\n  a[65536] = 3\n  a[69999] = a[65536]\n  a = a[69999]\n  return a\nend\n",
      // an answer stored away must survive what follows
      "var g = none\nvar k = none\nfunction main()\n  var a = [1, none]\n  a[1] = a - 1\n  g = a.u\n  k = [g, a[1], a == 2]\n  out(k)\n  return a + k\nend\n",
  };
  return v;
}
static const Strs &call_programs() {
  static const Strs v = {
      "var g = 1\nfunction main()\n  return ask()\nend\n",
      "var g = 1\nfunction main()\n  g = ask(1)\n  out(g)\n  return ask(g, \"x\")\nend\n",
      "var g = [1]\nfunction main()\n  out(ask(g, g, 2, none, main))\n  g[0] = ask(1, 2)\n  return g\nend\n",
      "function main()\n  ask(1)\n  ask(2)\n  ask()\nend\n",
      "function main()\n  return ask(ask(1), ask(2, 3), ask())\nend\n",
      "function main()\n  return ask2(ask0(), ask0()) + 1\nend\n",
      "function f(a, b)\n  return ask(b, a)\nend\nfunction main()\n  var x = 3\n  return f(x, ask(x)) == 7\nend\n",
      "function main()\n  var h = ask\n  out(h(1, 2))\n  h = h(3)\n  return h\nend\n",
      "function go(h)\n  return h(h(), 1)\nend\nfunction main()\n  return go(ask)\nend\n",
      "function main()\n  var h = ask2\n  return [h(1, 2), h(1), ask0]\nend\n",
      "var g = ask(1)\nvar h = ask(g, 2)\nfunction main()\n  return [g, h, ask(h)]\nend\n",
      "function main()\n  var i = 0\n  while (ask(i))\n    i = i + 1\n    if (i == 3)\n      return i\n    end\n  end\n  return 9\nend\n",
      "function main()\n  var i = 0\n  for (i = ask(0) to ask(1))\n    out(i)\n    if (i == 8)\n      return 8\n    end\n  end\n  return 1\nend\n",
      "function main()\n  if (ask(1) and ask(2) or ask(3))\n    return 1\n  else\n    return ask(4)\n  end\nend\n",
      "var g = [0, 0]\nfunction main()\n  g[ask(0)] = ask(1)\n  return g[ask(2)]\nend\n",
      "function r(n)\n  if (n == 0)\n    return ask(n)\n  end\n  return ask(r(n - 1), n)\nend\nfunction main()\n  return r(3)\nend\n",
      "function main()\n  var a = ask(1)\n  return a.x\nend\n",
      "function main()\n  return -ask(1) + not ask(2)\nend\n",
      "function main()\n  return ask(1)(2)\nend\n",
      "function main()\n  var a = ask(1) - ask(2)\n  a += ask(3)\n  return a / ask(4)\nend\n",
  };
  return v;
}

// every operation on every pair of kinds of value, and many member names
static const Strs &matrix_programs() {
  static Strs v;
  if (v.empty()) {
    const Strs val = {"3", "0", "2.5", "\"str\"", "\"\"", "none", "[1, \"e\"]", "main", "out"};
    for (auto &x : val)
      for (auto &y : val) {
        for (const char *op : {"+", "-", "*", "/", "=="}) v.push_back("function main()\n  var a = " + x + "\n  var b = " + y + "\n  out(a " + op + " b)\n  return 1\nend\n");
        v.push_back("function main()\n  var a = " + x + "\n  var b = " + y + "\n  out(a[b])\n  return 1\nend\n");
        v.push_back("function main()\n  var a = " + x + "\n  var b = " + y + "\n  a[b] = [b]\n  out(a)\n  a[0] = b\n  return a\nend\n");
      }
    Strs names = {"length", "lengt", "lengths", "length1", "length_", "Length", "LENGTH", "xlength", "len", "size", "l", "x", "_", "a", "main", "out", "x1"};
    names.push_back(corpus::rep("m", 300));
    names.push_back("length" + corpus::rep("0", 58));
    for (auto &x : val)
      for (auto &n : names) {
        v.push_back("function main()\n  var a = " + x + "\n  out(a." + n + ")\n  var q = [a]\n  return q." + n + "\nend\n");
        v.push_back("function main()\n  var a = " + x + "\n  a." + n + " = 5\n  out(a)\n  a." + n + " = a\n  return a\nend\n");
      }
  }
  return v;
}

// ---------------------------------------------------------------- exploration
// the model itself asks the explorer for each answer, so exactly the reachable answer sequences are enumerated
static std::shared_ptr<ref::Built> built(const std::vector<std::string> &files, bool opt) {
  static std::map<std::pair<std::string, bool>, std::shared_ptr<ref::Built>> cache;
  auto k = std::make_pair(files[0], opt);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  std::vector<std::string> f = files;
  auto b = std::make_shared<ref::Built>(ref::build(f, syscalls(), opt));
  return cache[k] = b;
}
static Outcome model_run(const std::vector<std::string> &files, bool opt, int mask, MHost &h, const program_t *p = nullptr) {
  auto b = built(files, opt);
  Outcome o;
  ModelOpts mo;
  mo.fuel = 3000;
  h.P = b->prog.get();
  mo.before = [&](ref::Machine &m) { h.bind(m, mask); };
  run_model(*b, o, p, mo);
  return o;
}
static std::function<bool(Chooser &, Case &)> answers(const Strs &progs, std::vector<int> masks, size_t L, std::vector<int> alphabet) {
  return [=](Chooser &ch, Case &c) {
    c.files = {ch.pick(progs)};
    int mask = ch.pick(masks);
    c.p = {mask};
    MHost h;
    h.next = [&](bool wants, size_t) -> int {
      if (c.p.size() - 1 >= L) return INT;
      int a = alphabet[size_t(ch.choose(int(alphabet.size())))];
      // handlers that return nothing have fewer distinct answers
      if (!wants && a != DECLINE && a != RAISE && a != RAISE_HALT && a != HALT_RAISE && a != HALT_DECLINE && a != HALT_INT) a = INT;
      c.p.push_back(a);
      return a;
    };
    Outcome o = model_run(c.files, false, mask, h);
    if (o.diverged) return false;
    if (!o.compiled) { fprintf(stderr, "c17: rejected: %s\n%s\n", o.err.c_str(), c.files[0].c_str()); abort(); }
    c.note = "handlers " + N(mask) + ", answers:";
    for (size_t i = 1; i < c.p.size(); i++) c.note += std::string(i > 1 ? ", " : " ") + answer_name[c.p[i]];
    return true;
  };
}
static std::unique_ptr<Compiled> compile_ask(const std::vector<std::string> &files, bool opt) {
  std::unique_ptr<Compiled> c(new Compiled);
  std_register(*c->nano);
  c->nano->syscall_register("ask", -1);
  c->nano->syscall_register("ask2", 2);
  c->nano->syscall_register("ask0", 0);
  c->nano->optimize = opt;
  for (auto &f : files) c->sources.load_from_string(f.c_str());
  c->err.line = line_t{0, 0};
  c->ok = c->nano->build(c->sources, c->err);
  if (c->ok) {
    std_resolve(c->prog);
    c->prog.syscall_resolve("ask", sys_ask);
    c->prog.syscall_resolve("ask2", sys_ask2);
    c->prog.syscall_resolve("ask0", sys_ask0);
  }
  return c;
}
static void exec_answers(const Case &c, Result &r) {
  for (int opt = 0; opt < 2 && !r.bad; opt++) {
    auto cc = compile_ask(c.files, opt != 0);
    MHost mh;
    size_t used = 1;
    mh.next = [&](bool, size_t) -> int { size_t u = used++; return u < c.p.size() ? int(c.p[u]) : int(INT); };
    Outcome m = model_run(c.files, opt != 0, int(c.p[0]), mh, cc->ok ? &cc->prog : nullptr);
    r.model_steps += m.steps;
    if (m.diverged) return;
    // one go / one instruction at a time, with and without a collection at every instruction
    for (int mode = 0; mode < 3 && !r.bad; mode++) {
      Host h;
      H = &h;
      for (size_t i = 1; i < c.p.size(); i++) h.table.push_back(int(c.p[i]));
      while (h.table.size() < 64) h.table.push_back(INT);
      Outcome o;
      compile_outcome(*cc, o);
      uint64_t resumes = 0;
      int halts_before = 0;
      if (o.compiled) {
        RunOpts ro;
        ro.before = [&](vm_t &vm) { install(vm, int(c.p[0])); };
        ro.drive = [&](thread_t &t) {
          halts_before = h.halts;
          while (!t.finished() && t.get_cycle_count() < 100000) {
            if (mode == 0) t.resume(1 << 16);
            else if (mode == 1) t.resume(1);
            else t.step_inst();
            resumes++;
          }
        };
        run_program(cc->prog, o, ro);
        r.impl_steps += o.steps;
      }
      r.runs++;
      const char *how = mode == 0 ? "one run" : mode == 1 ? "runs of one instruction" : "instruction steps";
      diff(r, std::string("callbacks, ") + how, mh.log, h.log);
      diff(r, std::string("behaviour, ") + how, m.text(), o.text());
      if (!r.bad && mode == 0 && o.compiled && resumes) {
        // every halt ends the run it happens in, unless the thread is over at that point
        uint64_t expect = 1 + uint64_t(h.halts - halts_before);
        if (resumes != expect && !(h.halts > halts_before && resumes == expect - 1))
          r.fail("a halt requested by the host does not pause the thread: " + N(long(h.halts)) + " halts, " + N(long(resumes)) + " runs");
        if (resumes == expect - 1 && m.result.compare(0, 5, "fault") != 0)
          r.fail("a halt requested by the host does not pause the thread: " + N(long(h.halts)) + " halts, " + N(long(resumes)) + " runs");
      }
    }
    r.outcome = mh.log + m.text();
  }
}

// ---------------------------------------------------------------- notifications
static std::string notes;
static const char *who(thread_t &t) { return t.user_data ? (const char *)t.user_data : "?"; }
static void note_state(thread_t &t) {
  notes += std::string(t.finished() ? "" : " not-finished") + (t.has_error() ? std::string(" error ") + N(fault_of(t.get_error())) : " value " + render(t.vm().program(), t.get_return_value())) + ";";
}
static bool note_error_t(thread_t &t) { notes += std::string("error ") + who(t); note_state(t); return true; }
static bool note_error_f(thread_t &t) { notes += std::string("error ") + who(t); note_state(t); return false; }
static bool note_finish_t(thread_t &t) { notes += std::string("finish ") + who(t); note_state(t); return true; }
static bool note_finish_f(thread_t &t) { notes += std::string("finish ") + who(t); note_state(t); return false; }

struct Job { const char *fn; int instr; std::string end; };  // what the thread ends with
static const char *job_source =
    "var g = 0\n"
    "function quick()\n  return 1\nend\n"
    "function loop()\n  var i = 0\n  while (i < 3)\n    i = i + 1\n  end\n  return i\nend\n"
    "function fail()\n  return none - 1\nend\n"
    "function deepfail()\n  var x = 1\n  x = call3()\n  return x\nend\n"
    "function call3()\n  return [1][3]\nend\n"
    "function hostfail()\n  ask(1)\n  return 3\nend\n"
    "function hostboth()\n  ask(1, 2)\n  return 3\nend\n"
    "function hostboth2()\n  return [1, ask(1, 2, 3)]\nend\n"
    "function hosthalt()\n  ask0()\n  ask0()\n  return 4\nend\n"
    "function wrongargs()\n  var f = deepfail\n  return f(1, 2)\nend\n"
    "function badbuiltin()\n  return len(none)\nend\n"
    "function waits()\n  wait(2)\n  return 5\nend\n"
    "function waitfail()\n  wait(3)\n  return none - 1\nend\n";
static const std::vector<Job> &jobs() {
  static const std::vector<Job> v = {
      {"quick", 0, "finish %s value 1;"},
      {"loop", 0, "finish %s value 3;"},
      {"hosthalt", 0, "finish %s value 4;"},
      {"fail", 0, "error %s error T;finish %s error T;"},
      {"deepfail", 0, "error %s error B;finish %s error B;"},
      {"hostfail", 0, "error %s error H;finish %s error H;"},
      {"hostboth", 0, "error %s error H;finish %s error H;"},
      {"hostboth2", 0, "error %s error H;finish %s error H;"},
      {"wrongargs", 0, "error %s error N;finish %s error N;"},
      {"badbuiltin", 0, "error %s error A;finish %s error A;"},
      {"waits", 0, "finish %s value 5;"},
      {"waitfail", 0, "error %s error T;finish %s error T;"},
  };
  return v;
}
static std::string job_notes(const Job &j, const std::string &name, bool err, bool fin) {
  std::string o, part;
  auto flush = [&] {
    if (part.empty()) return;
    bool is_err = part.compare(0, 5, "error") == 0;
    if (is_err ? err : fin) o += part;
    part.clear();
  };
  for (const char *p = j.end.c_str(); *p; p++) {
    if (*p == '%') { part += name; p++; continue; }
    if (*p == 'T') part += N(ref::F_TYPE);
    else if (*p == 'B') part += N(ref::F_BOUNDS);
    else if (*p == 'H') part += N(ref::F_HOST);
    else if (*p == 'N') part += N(ref::F_NARGS);
    else if (*p == 'A') part += N(ref::F_ARG);
    else part += *p;
    if (*p == ';') flush();
  }
  return o;
}
// p: handlers(bit0 error, bit1 finish, bit2 handlers return false), how, budget, jobs...
static void exec_notes(const Case &c, Result &r) {
  auto cc = compile_ask({job_source}, c.p[0] & 8);
  if (!cc->ok) { r.fail("job program rejected: " + cc->err.error); return; }
  Host h;
  H = &h;
  vm_t vm(cc->prog);
  cur_trace() = nullptr;
  notes.clear();
  if (!vm.call_init()) { r.fail("initialisation failed"); return; }
  const bool err = c.p[0] & 1, fin = c.p[0] & 2, f = c.p[0] & 4;
  if (err) vm.handlers.on_thread_error = f ? note_error_f : note_error_t;
  if (fin) vm.handlers.on_thread_finish = f ? note_finish_f : note_finish_t;
  const int how = int(c.p[1]), budget = int(c.p[2]);
  std::vector<std::string> names;
  std::vector<const Job *> js;
  std::vector<thread_t *> ts;
  names.reserve(8);
  struct Sys {
    static void halt(thread_t &t, int32_t) { t.get_stack().push_int(0); t.halt(); }
    static void fail(thread_t &t, int32_t n) { for (int i = 0; i < n; i++) t.get_stack().pop(); if (n == 3) t.halt(); t.raise_error(thread_error_t::e_bad_syscall); if (n == 2) t.halt(); }
  };
  cc->prog.syscall_resolve("ask0", Sys::halt);
  cc->prog.syscall_resolve("ask", Sys::fail);
  for (size_t i = 3; i < c.p.size(); i++) {
    const Job &j = jobs()[size_t(c.p[i])];
    names.push_back("t" + N(int(i - 3)));
    js.push_back(&j);
  }
  std::vector<std::string> want(js.size());
  for (size_t i = 0; i < js.size(); i++) want[i] = job_notes(*js[i], how == 2 ? "?" : names[i], err, fin);
  std::string all;
  if (how == 2) {  // call_once, one after the other
    for (size_t i = 0; i < js.size(); i++) {
      value_t *v = nullptr;
      thread_error_t e;
      vm.call_once(*cc->prog.function_find(js[i]->fn), 0, nullptr, v, e);
      all += want[i];
    }
    diff(r, "notifications of call_once", all, notes);
    r.runs++;
    r.outcome = notes;
    return;
  }
  for (size_t i = 0; i < js.size(); i++) {
    thread_t *t = vm.new_thread(*cc->prog.function_find(js[i]->fn), 0, nullptr);
    if (!t) { r.fail("thread refused"); return; }
    t->user_data = (void *)names[i].c_str();
    ts.push_back(t);
  }
  if (how == 0) {
    for (int k = 0; k < 400 && !vm.finished(); k++) vm.resume(uint32_t(budget));
    for (int k = 0; k < 3; k++) vm.resume(uint32_t(budget));  // nothing is repeated
  } else {
    for (int k = 0; k < 400; k++)
      for (auto *t : ts) t->resume(budget);
  }
  // per thread order and count; nothing else
  size_t pos = 0, total = 0;
  std::vector<std::string> got(js.size());
  while (pos < notes.size()) {
    size_t e = notes.find(';', pos);
    std::string n = notes.substr(pos, e - pos + 1);
    pos = e + 1;
    total++;
    bool ok = false;
    for (size_t i = 0; i < names.size(); i++)
      if (n.find(" " + names[i] + " ") != std::string::npos) { got[i] += n; ok = true; }
    if (!ok) { r.fail("notification for an unknown thread: " + n); return; }
  }
  for (size_t i = 0; i < js.size(); i++) diff(r, std::string("notifications for ") + names[i] + " (" + js[i]->fn + ")", want[i], got[i]);
  r.runs++;
  r.outcome = notes;
}

// ---------------------------------------------------------------- strings of the host
// a host can hand over strings that no literal can spell; they are values like any other (the collector asserts that no
// string has a zero byte, so those are not part of the contract)
static std::vector<std::string> &host_strings() {
  static std::vector<std::string> v;
  if (v.empty()) {
    const std::vector<std::string> by = {"\x01", "a", "\xff", "\n", "\""};
    v = {""};
    v.insert(v.end(), by.begin(), by.end());
    for (auto &x : by) for (auto &y : by) v.push_back(x + y);
    for (auto &x : {by[0], by[1]}) for (auto &y : {by[0], by[1]}) for (auto &z : {by[0], by[1]}) v.push_back(x + y + z);
    v.push_back(std::string(300, '\xff'));
    v.push_back(std::string(299, '\xff') + "a");
    v.push_back(std::string(300, 'a'));
  }
  return v;
}
static const Case *strings_of;
static void sys_give(thread_t &t, int32_t n) {
  int k = 0;
  for (int i = 0; i < n; i++) k = t.get_stack().pop()->integer();
  t.get_stack().push_string(host_strings()[size_t(strings_of->p[size_t(k)])]);
}
static void exec_strings(const Case &c, Result &r) {
  strings_of = &c;
  for (int opt = 0; opt < 2 && !r.bad; opt++) {
    auto cc = compile_ask(c.files, opt != 0);
    if (!cc->ok) { r.fail("rejected: " + cc->err.error); return; }
    cc->prog.syscall_resolve("ask", sys_give);
    auto b = built(c.files, opt != 0);
    Outcome m;
    ModelOpts mo;
    mo.fuel = 20000;
    mo.before = [&](ref::Machine &mm) {
      mm.host = [&](ref::Machine &x, const std::string &n, std::vector<ref::Val> &a, ref::Val &ret) {
        if (n != "ask") return false;
        ret = x.S(host_strings()[size_t(c.p[size_t(a[0].i)])]);
        return true;
      };
    };
    run_model(*b, m, &cc->prog, mo);
    for (int mode = 0; mode < 2 && !r.bad; mode++) {
      Outcome o;
      compile_outcome(*cc, o);
      RunOpts ro;
      ro.drive = [&](thread_t &t) {
        while (!t.finished() && t.get_cycle_count() < 100000)
          if (mode == 0) t.resume(1 << 16); else t.step_inst();
      };
      run_program(cc->prog, o, ro);
      r.runs++;
      diff(r, mode ? "behaviour, instruction steps" : "behaviour", m.text(), o.text());
    }
    r.outcome = m.text();
  }
}

// installed handlers stay installed, whatever happens to the VM
static void exec_stay(const Case &c, Result &r) {
  static const Strs src = {"var g = [1, 2]\nfunction p0(x)\n return [x] + x\nend\nfunction p1(x)\n return [x] - x\nend\nfunction p2(x)\n return [x] * x\nend\nfunction p3(x)\n return [x] / x\nend\nfunction p4(x)\n return [x] == x\nend\nfunction p5(x)\n var a = [x]\n return a[0]\nend\nfunction p6(x)\n var a = [x]\n a[0] = 5\n return a\nend\nfunction p7(x)\n return x.y\nend\nfunction p8(x)\n x.m = 7\n return x\nend\nfunction bad(x)\n return 1 / (x - x)\nend\nfunction idle(x)\n wait(2)\n return x\nend\n"};
  auto cc = compile_ask(src, false);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  Host h;
  H = &h;
  cur_trace() = nullptr;
  vm_t vm(cc->prog);
  value_t x(3);
  const value_t *ax[1] = {&x};
  int mask = int(c.p[0]);
  auto call = [&](vm_t &m, const char *f) {
    value_t *v = nullptr;
    thread_error_t e;
    bool ok = m.call_once(*cc->prog.function_find(f), 1, ax, v, e);
    r.runs++;
    return ok ? render(cc->prog, v) : "fault " + N(int(e));
  };
  auto log_of = [&](vm_t &m) {
    h.log.clear(), h.used = 0, h.table.assign(64, INT);
    notes.clear();
    std::string v;
    for (int k = 0; k < 9; k++) v += call(m, ("p" + N(k)).c_str()) + ";";
    v += call(m, "bad") + ";";
    return h.log + v + notes;
  };
  auto listen = [&](vm_t &m, int set) {
    if (set & 1) m.handlers.on_thread_error = note_error_t;
    if (set & 2) m.handlers.on_thread_finish = note_finish_t;
  };
  int set = mask & 1 ? 1 : mask & 2 ? 2 : mask & 4 ? 0 : 3;
  vm.call_init();
  install(vm, mask);
  listen(vm, set);
  for (size_t i = 1; i < c.p.size() && !r.bad; i++) {
    h.table.clear(), h.used = 0;
    switch (c.p[i]) {
    case 0: vm.reset(); vm.call_init(); break;
    case 1: vm.call_init(); break;
    case 2: call(vm, "bad"); break;
    case 3: vm.new_thread(*cc->prog.function_find("idle"), 1, ax); vm.resume(4); vm.resume(100); break;
    case 4: { value_t *v = nullptr; thread_error_t e; vm.call_once(*cc->prog.function_find("idle"), 1, ax, v, e); } break;
    case 5: vm.new_thread(*cc->prog.function_find("bad"), 1, ax); vm.resume(100); vm.resume(100); break;
    case 6: vm.handlers = handlers_t(); mask = 511 & ~mask; set = 3 & ~set; install(vm, mask); listen(vm, set); break;
    case 7: vm.new_thread(*cc->prog.function_find("bad"), 1, ax); vm.resume(100); vm.reset(); vm.call_init(); break;
    }
    std::string got = log_of(vm);
    vm_t fresh(cc->prog);
    fresh.call_init();
    install(fresh, mask);
    listen(fresh, set);
    std::string want = log_of(fresh);
    // every installed handler is consulted for its operation
    static const std::vector<std::string> k(kinds, kinds + 9);
    for (size_t b = 0; b < k.size(); b++)
      if ((h.log.find(k[b] + "(") != std::string::npos) != bool(mask >> b & 1)) r.fail("handler " + k[b] + (mask >> b & 1 ? " is not asked" : " is asked though not installed"));
    diff(r, "callbacks after operation " + N(long(i)), want, got);
  }
  r.outcome = N(c.p[0]);
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  const std::vector<int> full = {DECLINE, INT, FIRST, LAST, STR, NONE, ARRAY, RAISE, HALT_INT, HALT_DECLINE, FLOAT, RAISE_HALT, HALT_RAISE};
  const std::vector<int> some = {DECLINE, INT, FIRST, ARRAY, RAISE, HALT_INT};
  const std::vector<int> calls = {INT, FIRST, LAST, STR, NONE, ARRAY, RAISE, HALT_INT, FLOAT, HALT_RAISE};
  const std::vector<int> few = {INT, LAST, NONE, ARRAY, RAISE};
  std::vector<int> single;
  for (int i = 0; i < 9; i++) single.push_back(1 << i);
  single.push_back(0);
  std::vector<int> every;
  for (int i = 0; i < 512; i++) every.push_back(i);
  out.push_back(make("handler answers 3", "all handlers installed, 21 programs, every sequence of the first 3 of 13 answers", answers(handler_programs(), {511}, 3, full), exec_answers));
  out.push_back(make("single handlers", "each handler alone (and none), every sequence of the first 3 of 13 answers", answers(handler_programs(), single, 3, full), exec_answers));
  out.push_back(make("operand matrix", "every operation on every pair of 9 values and 19 member names on 9 values, all handlers or none, every sequence of the first 2 of 6 answers", answers(matrix_programs(), {0, 511}, 2, some), exec_answers));
  out.push_back(make("handler sets", "all 512 sets of installed handlers, every first answer", answers(handler_programs(), every, 1, some), exec_answers));
  out.push_back(make("handler answers long", "all handlers installed, every sequence of the first " + N(th ? 7 : 6) + " of 6 answers", answers(handler_programs(), {511}, th ? 7 : 6, some), exec_answers));
  out.push_back(make("call answers", "20 programs, every sequence of the first " + N(th ? 5 : 4) + " of 10 answers", answers(call_programs(), {0, 511}, th ? 5 : 4, calls), exec_answers));
  out.push_back(make("call answers long", "20 programs, every sequence of the first " + N(th ? 8 : 6) + " of 5 answers", answers(call_programs(), {0}, th ? 8 : 6, few), exec_answers));
  auto notesgen = [](int n) {
    return [n](Chooser &ch, Case &c) {
      c.p = {ch.choose(16), ch.choose(3), ch.pick(std::vector<int>{1, 2, 3, 5, 1000})};
      for (int i = 0; i < n; i++) c.p.push_back(ch.choose(int(jobs().size())));
      c.note = c.p[1] == 0 ? "scheduler rounds" : c.p[1] == 1 ? "thread runs" : "single calls";
      for (size_t i = 3; i < c.p.size(); i++) c.note += std::string(" ") + jobs()[size_t(c.p[i])].fn;
      return true;
    };
  };
  for (int n = 1; n <= (th ? 4 : 3); n++)
    out.push_back(make("notifications " + N(n), "every set of installed notifications x every way to run x budgets 1,2,3,5,1000 x every " + N(n) + " of 12 thread bodies", notesgen(n), exec_notes));
  out.push_back(host_names_space());
  out.push_back(make("host strings", "every pair of 42 strings given by the host (with bytes 1, 10, 34, 255; lengths to 300): compared, joined, indexed, tested, stored",
    [](Chooser &ch, Case &c) {
      static const Strs progs = {
        "var g = none\nfunction main()\n  var a = ask(0)\n  var b = ask(1)\n  out(a == b)\n  out(b == a)\n  out(a == a)\n  out(a + b)\n  g = a + b\n  out(g == ask(0) + b)\n  out(g == b + a)\n  out(len(g))\n  return g\nend\n",
        "var g = [none, none]\nfunction f(x, y)\n  g[0] = x\n  g[1] = y\n  return [x, y, x + 1, 1.5 + y, none + x]\nend\nfunction main()\n  var a = ask(0)\n  var i = 0\n  if (a)\n    out(\"t\")\n  else\n    out(\"f\")\n  end\n  out(f(a, ask(1)))\n  a = g[0] + g[1] + g[0]\n  for (i = 0 to len(a))\n    out(a[i])\n  end\n  out(not g[1])\n  return g[0] == g[1]\nend\n"};
      c.files = {ch.pick(progs)};
      c.p = {ch.choose(int(host_strings().size())), ch.choose(int(host_strings().size()))};
      c.note = "strings " + N(int(c.p[0])) + ", " + N(int(c.p[1]));
      return true;
    }, exec_strings));
  out.push_back(make("wide host calls", "host calls of n arguments, n = 0..70 and around powers of two to " + N(th ? 16384 : 2048) + ", as a statement, value, operand, argument, from a deep frame, inside a loop, through a variable and as initialiser: the host sees exactly the arguments, the caller exactly the result", [th](Chooser &ch, Case &c) {
    std::vector<long> ns;
    for (long i = 0; i <= 70; i++) ns.push_back(i);
    for (long k = 128; k <= (th ? 16384 : 2048); k *= 2) for (long d = -1; d <= 1; d++) ns.push_back(k + d);
    ns.push_back(100), ns.push_back(200), ns.push_back(300), ns.push_back(1000);
    long n = ch.pick(ns);
    int kind = ch.choose(3), where = ch.choose(8);
    std::string a;
    for (long i = 0; i < n; i++) a += (i ? ", " : "") + (kind == 0 ? N(i * 7 + 1) : kind == 1 ? "x" : i % 3 ? "\"s" + N(i) + "\"" : "[" + N(i) + "]");
    std::string call = (where == 6 ? "h(" : "outv(") + a + ")", m;
    m = where == 7 ? "var x = 5\nvar g = " + call + "\nfunction main()\n var y = 6\n return [g, y]\nend\n"
                   : "function f(x, d)\n var y = [x]\n if (d)\n  return f(x, d - 1)\n end\n" + std::string(where == 6 ? " var h = outv\n" : "") +
                     (where == 0 ? " " + call + "\n out(y)\n" : where == 1 ? " var z = " + call + "\n out(z)\n out(y)\n" : where == 2 ? " out(1 + (" + call + " == none))\n out(y)\n" : where == 3 ? " outv(y, " + call + ", y)\n" : where == 4 ? " var i = 0\n while (i < 3)\n  " + call + "\n  i += 1\n end\n out(i)\n out(y)\n" : " var z = [x, " + call + "]\n out(z)\n") +
                     " return [x, y]\nend\nfunction main()\n var k = 9\n out(f(5, " + (where == 5 ? "20" : "0") + "))\n return k\nend\n";
    c.files = {m};
    return true;
  }, plain));
  out.push_back(make("handlers stay", "each handler alone, all, none x every sequence of " + N(th ? 5 : 4) + " of 8 operations on the VM (reset, initialise, failing call, waiting thread, waiting call, failing thread, replace the handlers, reset over a failed thread): exactly the installed handlers are asked afterwards, as on a new VM", [single, th](Chooser &ch, Case &c) {
    std::vector<int> m = single;
    m.push_back(511);
    c.p = {ch.pick(m)};
    for (int i = 0; i < (th ? 5 : 4); i++) c.p.push_back(ch.choose(8));
    for (size_t i = 1; i < c.p.size(); i++) c.note += N(c.p[i]) + " ";
    return true;
  }, exec_stay));
}
