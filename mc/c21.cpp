// C21: arrays are references, everything else is a value: all heap operation sequences
#include "harness.h"
using namespace impl;
using corpus::N;

// ---------------------------------------------------------------- a heap model of its own
struct V {
  int k = 0;  // 0 none, 1 int, 2 string, 3 array
  int i = 0;
  std::string s;
};
struct Heap {
  std::vector<std::vector<V>> arr;
  V v[4];  // a b c s
  bool fault = false;
  V I(int x) { V r; r.k = 1; r.i = x; return r; }
  V S(const std::string &x) { V r; r.k = 2; r.s = x; return r; }
  V A(const std::vector<V> &e) { arr.push_back(e); V r; r.k = 3; r.i = int(arr.size()) - 1; return r; }
  bool set(const V &a, int ix, const V &val) {
    if (a.k != 3 || ix < 0 || ix >= int(arr[size_t(a.i)].size())) { fault = true; return false; }
    arr[size_t(a.i)][size_t(ix)] = val;
    return true;
  }
  bool get(const V &a, int ix, V &out) {
    if (a.k == 2) {  // a string yields character codes
      if (ix < 0 || ix >= int(a.s.size())) { fault = true; return false; }
      out = I(int((unsigned char)a.s[size_t(ix)]));
      return true;
    }
    if (a.k != 3 || ix < 0 || ix >= int(arr[size_t(a.i)].size())) { fault = true; return false; }
    out = arr[size_t(a.i)][size_t(ix)];
    return true;
  }
  void render(std::string &o, const V &x, std::vector<int> &seen) const {
    switch (x.k) {
    case 0: o += "none"; return;
    case 1: o += N(x.i); return;
    case 2: o += "\"" + x.s + "\""; return;
    }
    for (size_t n = 0; n < seen.size(); n++) if (seen[n] == x.i) { o += "@" + N(long(n)); return; }
    seen.push_back(x.i);
    o += "[";
    for (size_t n = 0; n < arr[size_t(x.i)].size(); n++) { if (n) o += ","; render(o, arr[size_t(x.i)][n], seen); }
    o += "]";
  }
  // all roots with one numbering: shows content and sharing
  std::string text() const {
    std::string o;
    std::vector<int> seen;
    for (int i = 0; i < 4; i++) { o += "abcs"[i]; o += "="; render(o, v[i], seen); o += ";"; }
    return o;
  }
  void sweep() {  // keep only what is reachable, in canonical order
    std::vector<int> map(arr.size(), -1);
    std::vector<std::vector<V>> n;
    std::function<void(V &)> visit = [&](V &x) {
      if (x.k != 3) return;
      if (map[size_t(x.i)] >= 0) { x.i = map[size_t(x.i)]; return; }
      int id = int(n.size());
      int old = x.i;
      map[size_t(old)] = id;
      n.push_back(arr[size_t(old)]);
      for (size_t e = 0; e < n[size_t(id)].size(); e++) { V y = n[size_t(id)][e]; visit(y); n[size_t(id)][e] = y; }
      x.i = id;
    };
    for (auto &x : v) visit(x);
    arr = n;
  }
};
struct Op { const char *code; std::function<void(Heap &)> f; const char *extra; };
static const std::vector<Op> &ops() {
  static const std::vector<Op> o = {
      {"a = [1, 2]", [](Heap &h) { h.v[0] = h.A({h.I(1), h.I(2)}); }, ""},
      {"b = [0, a]", [](Heap &h) { h.v[1] = h.A({h.I(0), h.v[0]}); }, ""},
      {"c = new_array(2)", [](Heap &h) { h.v[2] = h.A({V(), V()}); }, ""},
      {"a = b", [](Heap &h) { h.v[0] = h.v[1]; }, ""},
      {"b = a", [](Heap &h) { h.v[1] = h.v[0]; }, ""},
      {"c = a", [](Heap &h) { h.v[2] = h.v[0]; }, ""},
      {"a = c", [](Heap &h) { h.v[0] = h.v[2]; }, ""},
      {"a[0] = b", [](Heap &h) { h.set(h.v[0], 0, h.v[1]); }, ""},
      {"b[1] = a", [](Heap &h) { h.set(h.v[1], 1, h.v[0]); }, ""},
      {"c[0] = c", [](Heap &h) { h.set(h.v[2], 0, h.v[2]); }, ""},
      {"a[1] = c", [](Heap &h) { h.set(h.v[0], 1, h.v[2]); }, ""},
      {"b = a[1]", [](Heap &h) { V t; if (h.get(h.v[0], 1, t)) h.v[1] = t; }, ""},
      {"a[0] = s", [](Heap &h) { h.set(h.v[0], 0, h.v[3]); }, ""},
      {"s = a[0]", [](Heap &h) { V t; if (h.get(h.v[0], 0, t)) h.v[3] = t; }, ""},
      {"s = 7", [](Heap &h) { h.v[3] = h.I(7); }, ""},
      {"s += 1", [](Heap &h) { V &s = h.v[3]; if (s.k == 1) s.i++; else if (s.k == 2) s.s += "1"; else h.fault = true; }, ""},
      {"s = \"t\"", [](Heap &h) { h.v[3] = h.S("t"); }, ""},
      {"b[0] = \"q\"", [](Heap &h) { h.set(h.v[1], 0, h.S("q")); }, ""},
      {"f1(a)", [](Heap &h) { h.set(h.v[0], 0, h.I(9)); }, "function f1(x)\n x[0] = 9\n x = [4]\n x[0] = 5\nend\n"},
      {"c = f2(b)", [](Heap &h) { h.v[2] = h.v[1]; }, "function f2(x)\n var y = x\n return y\nend\n"},
      {"f3(a)", [](Heap &h) { V p, q; if (h.get(h.v[0], 0, p) && h.get(h.v[0], 1, q) && h.set(h.v[0], 0, q)) h.set(h.v[0], 1, p); }, "function f3(x)\n var t = x[0]\n x[0] = x[1]\n x[1] = t\nend\n"},
      {"a[2] = 1", [](Heap &h) { h.set(h.v[0], 2, h.I(1)); }, ""},
      {"b[\"x\"] = 1", [](Heap &h) { h.fault = true; }, ""},
      {"s = c[0 - 1]", [](Heap &h) { h.fault = true; }, ""},
      {"a[0] = a[1]", [](Heap &h) { V t; if (h.get(h.v[0], 1, t)) h.set(h.v[0], 0, t); }, ""},
      {"c = [a, b]", [](Heap &h) { h.v[2] = h.A({h.v[0], h.v[1]}); }, ""},
      {"a = none", [](Heap &h) { h.v[0] = V(); }, ""},
      {"f4(c)", [](Heap &h) { V t; if (h.get(h.v[2], 0, t)) h.set(t, 0, h.I(3)); }, "function f4(x)\n var t = x[0]\n t[0] = 3\nend\n"},
      {"s = len(b)", [](Heap &h) { V &b = h.v[1]; if (b.k == 3) h.v[3] = h.I(int(h.arr[size_t(b.i)].size())); else if (b.k == 2) h.v[3] = h.I(int(b.s.size())); else h.fault = true; }, ""},
      {"s = a.length", [](Heap &h) { V &a = h.v[0]; if (a.k == 3) h.v[3] = h.I(int(h.arr[size_t(a.i)].size())); else h.fault = true; }, ""},
      {"b = f5(s)", [](Heap &h) { h.v[1] = h.A({h.v[3], h.v[3], h.v[3]}); }, "function f5(x)\n return [x, x, x]\nend\n"},
      {"a[1] = f6(s)", [](Heap &h) { V n = h.A({h.v[3]}); h.set(h.v[0], 1, n); }, "function f6(x)\n var r = new_array(1)\n r[0] = x\n x = 0\n return r\nend\n"},
  };
  return o;
}
static std::string world() {
  std::string s = "var a\nvar b\nvar c\nvar s\n";
  for (auto &o : ops()) s += o.extra;
  for (size_t i = 0; i < ops().size(); i++) s += "function op" + N(long(i)) + "()\n " + ops()[i].code + "\n return 0\nend\n";
  return s;
}

// ---------------------------------------------------------------- reachable states of the model
struct Graph {
  struct St { Heap h; int parent, op; };
  std::vector<St> st;
  size_t depth_end = 0;
  std::vector<std::pair<int, int>> edges;  // state, operation
  void explore(int depth, size_t cap) {
    std::unordered_set<uint64_t> seen;
    Heap h0;
    st.push_back({h0, -1, -1});
    seen.insert(mc::hash64(h0.text()));
    size_t from = 0;
    for (int d = 0; d < depth; d++) {
      size_t to = st.size();
      for (size_t i = from; i < to; i++)
        for (size_t k = 0; k < ops().size(); k++) {
          edges.push_back({int(i), int(k)});
          Heap h = st[i].h;
          h.fault = false;
          ops()[k].f(h);
          h.sweep();
          if (seen.insert(mc::hash64(h.text())).second && st.size() < cap) st.push_back({h, int(i), int(k)});
        }
      from = to;
    }
  }
  std::vector<int> path(int s) const {
    std::vector<int> p;
    for (; st[size_t(s)].parent >= 0; s = st[size_t(s)].parent) p.insert(p.begin(), st[size_t(s)].op);
    return p;
  }
};

struct Real {
  std::unique_ptr<Compiled> c[2];
  std::unique_ptr<vm_t> vm[2];
  Real() {
    for (int k = 0; k < 2; k++) {
      c[k] = compile({world()}, k);
      if (!c[k]->ok) { fprintf(stderr, "c21: %s line %d\n", c[k]->err.error.c_str(), c[k]->err.line.line); abort(); }
      vm[k].reset(new vm_t(c[k]->prog));
    }
  }
};
static Real &real() { static Real r; return r; }
static std::string globals_shared(const program_t &p, const vm_t &vm) {
  std::string o;
  std::vector<const value_t *> seen;
  for (auto &g : p.globals()) { o += g.name_ + "="; render(o, p, vm.globals()[size_t(g.offset_)], seen); o += ";"; }
  return o;
}
// p: mode, operations...
static void exec_path(const Case &c, Result &r) {
  const int mode = int(c.p[0]);
  const int k = mode & 1;
  const bool stepping = mode & 2;  // a collection before every instruction
  Real &R = real();
  vm_t &vm = *R.vm[k];
  program_t &p = R.c[k]->prog;
  vm.reset();
  if (!vm.call_init()) { r.fail("initialisation failed"); return; }
  Heap h;
  for (size_t i = 1; i < c.p.size() && !r.bad; i++) {
    const Op &o = ops()[size_t(c.p[i])];
    h.fault = false;
    o.f(h);
    const function_t *fn = p.function_find("op" + N(c.p[i]));
    bool ok;
    if (stepping) {
      thread_t *t = vm.new_thread(*fn, 0, nullptr);
      while (!t->finished()) t->step_inst();
      ok = !t->has_error();
      r.impl_steps += t->get_cycle_count();
      vm.resume(1);  // removes the finished thread
    } else {
      value_t *v = nullptr;
      thread_error_t e;
      ok = vm.call_once(*fn, 0, nullptr, v, e);
    }
    r.runs++;
    r.model_steps++;
    std::string want = (h.fault ? "fault " : "ok ") + h.text(), got = (ok ? "ok " : "fault ") + globals_shared(p, vm);
    if (want != got) r.fail("after " + N(long(i)) + " operations, '" + o.code + "':\n  expected " + want + "\n  observed " + got);
    r.outcome = want;
  }
}
static void describe(Case &c) {
  for (size_t i = 1; i < c.p.size(); i++) c.note += std::string(ops()[size_t(c.p[i])].code) + "; ";
  c.note += (c.p[0] & 1 ? "(optimised" : "(unoptimised") + std::string(c.p[0] & 2 ? ", collecting before every instruction)" : ")");
}

// ---------------------------------------------------------------- the same operations on locals, in one function
static void exec_locals(const Case &c, Result &r) {
  Heap h;
  std::string want;
  bool faulted = false;
  for (size_t i = 0; i < c.p.size(); i++) {
    ops()[size_t(c.p[i])].f(h);
    if (h.fault) { faulted = true; break; }
    want += "out([";
    std::vector<int> seen;
    for (int q = 0; q < 4; q++) { std::string o; if (q) want += ","; h.render(o, h.v[q], seen); want += o; }
    want += "]);";
  }
  // the host call prints an enclosing array: numbering starts one later
  std::string fixed;
  for (size_t i = 0; i < want.size(); i++) {
    fixed += want[i];
    if (want[i] == '@') { size_t j = i + 1; while (j < want.size() && isdigit((unsigned char)want[j])) j++; fixed += N(atol(want.substr(i + 1, j - i - 1).c_str()) + 1); i = j - 1; }
  }
  for (int opt = 0; opt < 2 && !r.bad; opt++) {
    auto cc = compile({c.files[0]}, opt);
    if (!cc->ok) { r.fail("rejected: " + cc->err.error); return; }
    for (int mode = 0; mode < 2 && !r.bad; mode++) {
      Outcome o;
      RunOpts ro;
      if (mode) ro.drive = [](thread_t &t) { while (!t.finished()) t.step_inst(); };
      run_program(cc->prog, o, ro);
      r.runs++;
      r.impl_steps += o.steps;
      diff(r, std::string(opt ? "optimised" : "unoptimised") + (mode ? ", collecting before every instruction" : ""), fixed + (faulted ? "fault" : "ok"), o.trace + (o.result.find("fault:") == 0 ? "fault" : "ok"));
    }
  }
  r.model_steps += c.p.size();
  r.outcome = fixed;
}
static std::function<bool(Chooser &, Case &)> locals(int len, int place) {
  return [=](Chooser &ch, Case &c) {
    Heap h;
    std::string body, extra;
    std::set<std::string> ex;
    for (int i = 0; i < len; i++) {
      if (h.fault) return false;  // covered by the shorter sequence
      int k = ch.choose(int(ops().size()));
      c.p.push_back(k);
      ops()[size_t(k)].f(h);
      body += " " + std::string(ops()[size_t(k)].code) + "\n out([a, b, c, s])\n";
      if (*ops()[size_t(k)].extra && ex.insert(ops()[size_t(k)].extra).second) extra += ops()[size_t(k)].extra;
    }
    if (place == 0) c.files = {extra + "function main()\n var a\n var b\n var c\n var s\n" + body + " return 0\nend\n"};
    if (place == 1) c.files = {extra + "function go(a, b, c, s)\n" + body + " return 0\nend\nfunction main()\n return go(none, none, none, none)\nend\n"};
    // inside a block, behind another frame with values of its own
    if (place == 2) c.files = {extra + "function go(n)\n var keep = [n]\n if (n > 0)\n  return go(n - 1) + keep[0]\n end\n var i = 0\n while (i < 1)\n var a\n var b\n var c\n var s\n" + body + " i += 1\n end\n return 0\nend\nfunction main()\n return go(3)\nend\n"};
    // mixed: two globals and two locals
    if (place == 3) c.files = {"var a\nvar s\n" + extra + "function main()\n var b\n var c\n" + body + " return 0\nend\n"};
    return true;
  };
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  const std::vector<int> all = {0, 1, 2, 3};
  auto seqs = [](int len, std::vector<int> modes) {
    return [=](Chooser &ch, Case &c) {
      c.p = {ch.pick(modes)};
      for (int i = 0; i < len; i++) c.p.push_back(ch.choose(int(ops().size())));
      describe(c);
      return true;
    };
  };
  for (int l = 1; l <= 3; l++) {
    Space s = make("operations " + N(l), "every sequence of " + N(l) + " of 32 heap operations on globals, both builds, with and without a collection before every instruction", seqs(l, all), exec_path);
    s.dedupe = false;
    out.push_back(s);
  }
  {
    Space s = make("operations 4", "every sequence of 4 of 32 heap operations on globals" + std::string(th ? ", all modes" : ", unoptimised build collecting before every instruction"), seqs(4, th ? all : std::vector<int>{2}), exec_path);
    s.dedupe = false;
    out.push_back(s);
  }
  {
    auto g = std::make_shared<Graph>();
    g->explore(th ? 7 : 6, th ? 400000 : 60000);
    Space s = make("reachable heaps", "every transition out of every distinct heap reachable by up to " + N(th ? 6 : 5) + " operations (first " + N(long(g->st.size())) + " of them), along a shortest path", [g](Chooser &ch, Case &c) {
      auto &e = g->edges[size_t(ch.choose(int(g->edges.size())))];
      c.p = {2};
      for (int o : g->path(e.first)) c.p.push_back(o);
      c.p.push_back(e.second);
      describe(c);
      return true;
    }, exec_path);
    s.dedupe = false;
    out.push_back(s);
  }
  for (int place = 0; place < 4; place++) {
    static const char *pn[] = {"locals", "arguments", "locals in nested blocks and frames", "globals and locals mixed"};
    for (int l = 1; l <= (th ? 4 : 3); l++)
      out.push_back(make(std::string(pn[place]) + " " + N(l), "every sequence of " + N(l) + " of 32 heap operations on " + pn[place], locals(l, place), exec_locals));
  }
  auto kinds = [](int len, bool all_pairs) {
    return [=](Chooser &ch, Case &c) {
      static const Strs k = {"3", "2.5", "\"str\"", "none", "fn", "len", "[8, 9]", "70000", "\"\"", "0", "0.0"};
      static const Strs few = {"2.5", "\"str\"", "[8, 9]"};
      std::string a = ch.pick(all_pairs ? k : few), b = ch.pick(all_pairs ? k : few);
      static const Strs ops = {"x = A", "x = B", "y = x", "x = p[0]", "p[0] = x", "p[0] = A", "p[0] = B", "p[1] = p[0]", "q = [x, p[0]]", "x += 1", "g = x", "x = g", "p[0] = g", "g = p[0]", "x = id(x)", "p[0] = id(p[1])", "mut(x, p)", "y = upd(p[0])", "x += A", "p = [x, y]"};
      std::string o;
      for (int i = 0; i < len; i++) {
        std::string l = ch.pick(ops);
        if (l.back() == 'A') l.replace(l.size() - 1, 1, a);
        if (l.back() == 'B') l.replace(l.size() - 1, 1, b);
        o += " " + l + "\n";
      }
      c.files = {"var g = " + a + "\nfunction fn(z)\n return z\nend\nfunction id(v)\n var w = v\n return w\nend\nfunction mut(v, w)\n v = " + b + "\n w[1] = v\n g = v\nend\nfunction upd(v)\n v += 1\n return v\nend\nfunction main()\n var x = " + a + "\n var y = " + b + "\n var p = [" + b + ", " + a + "]\n var q = p\n" + o + " outv(x, y, p, q, g)\n return [x, q]\nend\n"};
      return true;
    };
  };
  for (int l = 1; l <= 2; l++)
    out.push_back(make("kinds " + N(l), "every sequence of " + N(l) + " of 20 moves between variables, elements, globals, arguments and results x every pair of 11 kinds of value (among them empty and zero ones)", kinds(l, true), plain));
  out.push_back(make("kinds 3", "every sequence of 3 of 20 moves between variables, elements, globals, arguments and results x every pair of " + std::string(th ? "11" : "3") + " kinds of value", kinds(3, th), plain));
  if (th) out.push_back(make("kinds 4", "every sequence of 4 of 20 moves x every pair of 3 kinds of value", kinds(4, false), plain));
  out.push_back(make("frames", "an array that comes from a local, an argument (first or last), a global, an element or a new one returned from a function of n arguments and m locals, n and m of 0..12, 20, 40, 130, called directly, through a variable or from a nested block; then written through", [](Chooser &ch, Case &c) {
    static const std::vector<int> q = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 40, 130};
    const int n = ch.pick(q), m = ch.pick(q), from = ch.choose(6), how = ch.choose(3);
    if ((from == 1 || from == 2) && !n) return false;
    if (from == 0 && !m) return false;
    std::string a, b;
    for (int i = 0; i < n; i++) a += (i ? ", a" : "a") + N(i), b += std::string(i ? ", " : "") + (i == 0 || i == n - 1 ? "s" : N(i));
    const Strs src = {"v" + N(m - 1), "a0", "a" + N(n - 1), "g", "g[1]", "[g, 4]"};
    std::string o = "var g = [1, [5, 6], 3]\nfunction t(" + a + ")\n";
    for (int i = 0; i < m; i++) o += " var v" + N(i) + " = " + (i == m - 1 ? "g" : i == 0 ? "[7, 8]" : N(i)) + "\n";
    if (m) o += " v0[0] = 9\n";
    o += how == 2 ? " if (g)\n  var w = " + src[size_t(from)] + "\n  return w\n end\n" : " return " + src[size_t(from)] + "\n";
    o += "end\nfunction main()\n var s = [0, \"x\"]\n var f = t\n var r = " + std::string(how == 1 ? "f" : "t") + "(" + b + ")\n r[0] = 99\n out(s)\n out(g)\n g[0] = 98\n s[1] = 97\n out(r)\n var l = [t(" + b + ")]\n r = l[0]\n r[1] = \"z\"\n out(g)\n out(s)\n return r\nend\n";
    c.files = {o};
    c.p = {n, m};
    return true;
  }, plain));
  out.push_back(make("every element", "arrays of every length 1.." + N(th ? 600 : 120) + ": each element written once through an alias, all others unchanged", [th](Chooser &ch, Case &c) {
    int n = 1 + ch.choose(th ? 600 : 120);
    c.files = {"function chk(x, k, n)\n var i = 0\n var bad = 0\n while (i < n)\n  if (i < k)\n   if (not (x[i] == i * 3))\n    bad += 1\n   end\n  else\n   if (not (x[i] == none))\n    bad += 1\n   end\n  end\n  i += 1\n end\n return bad\nend\nfunction main()\n var n = " + N(n) + "\n var a = new_array(n)\n var b = [a]\n var k = 0\n var bad = 0\n while (k < n)\n  var t = b[0]\n  t[k] = k * 3\n  k += 1\n" + (n > 60 ? "  if (k % 17 == 0 or k == n)\n   bad += chk(a, k, n)\n  end\n" : "  bad += chk(a, k, n)\n") + " end\n out(bad)\n return len(a)\nend\n"};
    c.p = {n};
    return true;
  }, [](const Case &c, Result &r) {
    for (int opt = 0; opt < 2 && !r.bad; opt++) {
      auto cc = compile(c.files, opt);
      Outcome o;
      compile_outcome(*cc, o);
      if (o.compiled) run_program(cc->prog, o);
      r.runs++;
      r.impl_steps += o.steps;
      diff(r, "elements", "out(0);" + N(c.p[0]), o.trace + o.result);
    }
    r.outcome = N(c.p[0]);
  }));
  out.push_back(make("large arrays", "arrays of every length around each power of two up to 16384: every element written through an alias, with ints, strings or arrays, then all read back, in both directions", [](Chooser &ch, Case &c) {
    std::vector<long> ns;
    for (long q = 128; q <= 16384; q *= 2) for (long d = -1; d <= 1; d++) ns.push_back(q + d);
    ns.push_back(1000), ns.push_back(5000), ns.push_back(10000);
    int kind = ch.choose(3);
    long n = ch.pick(ns);
    if (kind && n > 8193) return false;
    bool up = ch.flip();
    const Strs val = {"k * 3", "\"s\" + k", "[k]"}, ok = {"x[i] == i * 3", "x[i] == \"s\" + i", "x[i][0] == i"};
    std::string w = up ? " var k = 0\n while (k < n)\n  t[k] = " + val[size_t(kind)] + "\n  k += 1\n end\n"
                       : " var k = n - 1\n while (k >= 0)\n  t[k] = " + val[size_t(kind)] + "\n  k -= 1\n end\n";
    c.files = {"function chk(x, n)\n var i = 0\n var bad = 0\n while (i < n)\n  if (not (" + ok[size_t(kind)] + "))\n   bad += 1\n  end\n  i += 1\n end\n return bad\nend\nfunction main()\n var n = " + N(n) + "\n var a = new_array(n)\n var b = [a]\n var t = b[0]\n" + w + " out(chk(a, n))\n return len(a)\nend\n"};
    c.p = {n};
    c.note = "length " + N(n);
    return true;
  }, [](const Case &c, Result &r) {
    auto cc = compile(c.files, true);
    Outcome o;
    compile_outcome(*cc, o);
    if (o.compiled) run_program(cc->prog, o);
    r.runs++;
    r.impl_steps += o.steps;
    diff(r, "elements", "out(0);" + N(c.p[0]), o.trace + o.result);
    r.outcome = N(c.p[0]);
  }));
}
