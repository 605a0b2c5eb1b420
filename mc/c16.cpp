// C16: the VM life cycle, for every history of host operations
#include <ucontext.h>
#include "harness.h"
using namespace impl;
using corpus::N;

// ------------------------------------------------------------------ model of a VM
struct Killed {};
struct Model {
  ref::Program &P;
  std::unique_ptr<ref::Machine> m;
  struct Co {
    ucontext_t ctx;
    std::vector<char> stack;
    const ref::Func *f;
    std::vector<ref::Val> args;
    bool started = false, done = false, failed = false, kill = false, once = false;
    int waits = 0;
    std::string res;
    int file = 0, line = 0, depth = 0;
  };
  std::vector<std::shared_ptr<Co>> q;  // newest first
  std::shared_ptr<Co> cur;
  ucontext_t main_ctx;
  bool inited = false;
  ref::Val last;        // last returned value
  bool last_ok = false;
  std::string *trace;
  static Model *&self() { static Model *s; return s; }
  Model(ref::Program &p, std::string *t) : P(p), trace(t) { fresh(); }
  ~Model() { reset(); }
  void fresh() {
    m.reset(new ref::Machine(P));
    m->fuel = 1u << 30;
    inited = false;
    last_ok = false;
    m->host = [this](ref::Machine &mm, const std::string &n, std::vector<ref::Val> &a, ref::Val &ret) {
      if (n == "new_thread") {
        if (a.empty() || a[0].t != ref::V_FUN || a[0].fn->nargs != int(a.size()) - 1) mm.fault(ref::F_ARG);
        start(a[0].fn, std::vector<ref::Val>(a.begin() + 1, a.end()));
        ret = mm.I(0);
        return true;
      }
      if (n == "wait") {
        ret = mm.I(0);
        int w = a[0].i;
        auto c = cur;
        if (w <= 0 || !c || c->once) return true;
        c->waits = w;
        swapcontext(&c->ctx, &main_ctx);
        if (c->kill) throw Killed{};
        return true;
      }
      return false;
    };
  }
  static void entry() {
    Model *x = self();
    Co &c = *x->cur;
    try {
      c.res = ref::render(x->call(c.f, c.args));
    } catch (const ref::Stop &s) {
      c.failed = true;
      c.res = s.f == ref::F_MAX ? "uninitialised" : ref::fault_name(s.f);
    } catch (const Killed &) {
    }
    c.done = true;
    c.args.clear();
    swapcontext(&c.ctx, &x->main_ctx);
  }
  bool touches(const ref::Func *f) const {
    static const std::set<std::string> free = {"add", "fail0", "waiter", "spin", "pair", "spawn", "same", "kind"};
    return !P.globals.empty() && !free.count(f->name);
  }
  ref::Val call(const ref::Func *f, std::vector<ref::Val> a) {
    if (!inited && touches(f)) throw ref::Stop{ref::F_MAX, 0, 0};
    return m->invoke(f, a);
  }
  std::shared_ptr<Co> start(const ref::Func *f, const std::vector<ref::Val> &a) {
    if (f->nargs != int(a.size())) return nullptr;
    std::shared_ptr<Co> c(new Co);
    c->f = f;
    c->args = a;
    q.insert(q.begin(), c);
    return c;
  }
  void run(std::shared_ptr<Co> c) {
    self() = this;
    if (!c->started) {
      c->started = true;
      c->stack.resize(96 * 1024);
      getcontext(&c->ctx);
      c->ctx.uc_stack.ss_sp = c->stack.data();
      c->ctx.uc_stack.ss_size = c->stack.size();
      c->ctx.uc_link = &main_ctx;
      makecontext(&c->ctx, (void (*)())entry, 0);
    }
    auto save = cur;
    cur = c;
    std::swap(m->file, c->file); std::swap(m->line, c->line); std::swap(m->depth, c->depth);
    swapcontext(&main_ctx, &c->ctx);
    std::swap(m->file, c->file); std::swap(m->line, c->line); std::swap(m->depth, c->depth);
    cur = save;
    flush();
  }
  void flush() {
    *trace += m->trace;
    m->trace.clear();
  }
  bool init() {
    inited = true;
    for (auto &g : m->g) g = ref::Val();
    bool ok = true;
    try {
      m->init();
    } catch (const ref::Stop &) {
      ok = false;
    }
    flush();
    return ok;
  }
  std::string once(const ref::Func *f, const std::vector<ref::Val> &a) {
    last_ok = false;
    if (f->nargs != int(a.size())) return "refused";
    std::string o;
    try {
      last = call(f, a);
      last_ok = true;
      o = "value " + ref::render(last);
    } catch (const ref::Stop &s) {
      o = std::string("fault ") + (s.f == ref::F_MAX ? "uninitialised" : ref::fault_name(s.f));
    }
    flush();
    return o;
  }
  // effective: the budget suffices to run to the end (or the next wait); otherwise nothing visible happens
  bool resume(bool effective) {
    bool ok = true;
    auto round = q;
    for (auto &c : round) {
      if (c->waits) { c->waits--; continue; }
      if (c->done) {
        for (size_t i = 0; i < q.size(); i++) if (q[i] == c) { q.erase(q.begin() + long(i)); break; }
        continue;
      }
      if (!effective) continue;
      run(c);
      if (c->failed) ok = false;
    }
    return ok;
  }
  void reset() {
    for (auto &c : q)
      if (c->started && !c->done) {
        c->kill = true;
        run(c);
      }
    q.clear();
    fresh();
  }
  std::string state() {
    std::string o;
    for (auto &c : q)
      if (!c->done) o += "{" + c->f->name + " waits " + N(c->waits) + "}";
    if (inited)
      o += globals_text(P, m->g);
    return o;
  }
  bool busy() const {
    for (auto &c : q) if (!c->done) return true;
    return false;
  }
};

// ------------------------------------------------------------------ operations
struct Op { const char *what; char kind; const char *fn; Strs args; };
// kind: i init, c call, n new thread, s short resume, r long resume, x reset
static const std::vector<Op> &ops() {
  static const std::vector<Op> v = {
      {"call_init", 'i', "", {}},
      {"call inc()", 'c', "inc", {}},
      {"call add(3, 4)", 'c', "add", {"3", "4"}},
      {"call add(3)", 'c', "add", {"3"}},
      {"call inc(3)", 'c', "inc", {"3"}},
      {"call fail(7)", 'c', "fail", {"7"}},
      {"call get()", 'c', "get", {}},
      {"call put(last)", 'c', "put", {"last"}},
      {"call waiter()", 'c', "waiter", {}},
      {"call spawn()", 'c', "spawn", {}},
      {"new_thread inc()", 'n', "inc", {}},
      {"new_thread add(5, 6)", 'n', "add", {"5", "6"}},
      {"new_thread add()", 'n', "add", {}},
      {"new_thread fail(1)", 'n', "fail", {"1"}},
      {"new_thread waiter()", 'n', "waiter", {}},
      {"resume(1)", 's', "", {}},
      {"resume(1000)", 'r', "", {}},
      {"reset", 'x', "", {}},
      // only in some spaces
      {"call spin(17000)", 'c', "spin", {"17000"}},
      {"call same(last)", 'c', "same", {"last"}},
      {"call fail0()", 'c', "fail0", {}},
      {"new_thread put(last)", 'n', "put", {"last"}},
      {"call add(last, 1)", 'c', "add", {"last", "1"}},
      {"call add(1, 2, 3)", 'c', "add", {"1", "2", "3"}},
      {"new_thread inc(1)", 'n', "inc", {"1"}},
      {"new_thread spawn()", 'n', "spawn", {}},
      {"call kind(0)", 'c', "kind", {"0"}},
      {"call kind(1)", 'c', "kind", {"1"}},
      {"call kind(2)", 'c', "kind", {"2"}},
      {"call kind(3)", 'c', "kind", {"3"}},
      {"call kind(4)", 'c', "kind", {"4"}},
      {"call kind(5)", 'c', "kind", {"5"}},
      {"new_thread same(last)", 'n', "same", {"last"}},
  };
  return v;
}
static const int N_BASE = 18;

// every function starts (and continues after a wait) with enough instructions for short resumes to have no effect
static std::string pad(const char *v) {
  std::string o;
  for (int i = 0; i < 4; i++) o += std::string(" ") + v + " = " + v + " + 1\n";
  return o;
}
static bool any_global(const vm_t &vm) {
  for (value_t *g : vm.globals()) if (g && g->type() != val_type_none) return true;
  return false;
}
static std::string functions(bool globals) {
  std::string o;
  auto fn = [&](const char *head, const std::string &body) { o += std::string("function ") + head + "\n var pd = 0\n" + pad("pd") + body + "end\n"; };
  if (globals) {
    fn("inc()", " g = g + 1\n u = [g, u]\n out(g)\n return g\n");
    fn("fail(x)", " g = g + 10\n out(\"f\")\n return [x][1]\n");
    fn("get()", " return h\n");
    fn("put(v)", " h[0] = v\n out(v)\n h = [h[0], h[1], g]\n return h\n");
  } else {
    fn("inc()", " out(\"i\")\n return 1\n");
    fn("fail(x)", " out(\"f\")\n return x / 0\n");
    fn("get()", " return [1, [2, \"s\"]]\n");
    fn("put(v)", " out(v)\n return [v, v]\n");
  }
  fn("add(a, b)", " out(a)\n return a + b\n");
  fn("fail0()", " out(\"f0\")\n return none(1)\n");
  fn("same(x)", " return x\n");
  fn("kind(n)", " var l = [0.5, \"text\" + n, inc, abs, none, 0]\n l[5] = [l, l[1]]\n return l[n]\n");
  fn("waiter()", " out(\"w1\")\n wait(2)\n" + pad("pd") + " out(\"w2\")\n wait(0)\n wait(1)\n" + pad("pd") + " out(\"w3\")\n return 5\n");
  fn("spawn()", " new_thread(inc)\n new_thread(add, 8, 9)\n return 1\n");
  fn("spin(n)", " while (n > 0)\n  n = n - 1\n end\n return n\n");
  return o;
}
static const Strs &programs() {
  static const Strs p = {
      "var g = out(1)\nvar u\nvar h = [g, \"x\", none]\n" + functions(true),
      functions(false),
      "var u\nvar g = out(1)\nvar bb = g % (g - 1)\nvar h = [out(3)]\n" + functions(true),
      "var h = [1, 2]\nvar u = 7\nvar g = spin(3000)\nvar z = waiter()\nvar last = out(\"end\")\n" + functions(true),
      "var g = 5\nvar h = [spawn(), new_thread(waiter)]\nvar u\n" + functions(true),
  };
  return p;
}

struct Pair {
  std::unique_ptr<vm_t> vm;
  std::unique_ptr<Model> mo;
  value_t *last = nullptr;
};

// c.p: program, vms, then (vm, op) coded as vm * 100 + op
static void history(const Case &c, Result &r) {
  static std::map<std::string, std::unique_ptr<Compiled>> cache;
  static std::map<std::string, ref::Built> mcache;
  auto &cc = cache[c.files[0]];
  auto &b = mcache[c.files[0]];
  if (!cc) {
    cc = compile(c.files, true);
    auto f = c.files;
    b = ref::build(f, std_syscalls(), true);
  }
  if (!cc->ok || !b.ok) { r.fail("rejected: " + cc->err.error); return; }
  Trace tr;
  std::string mt;
  cur_trace() = &tr;
  std::vector<Pair> v(size_t(c.p[0]));
  for (auto &x : v) {
    x.vm.reset(new vm_t(cc->prog));
    x.mo.reset(new Model(*b.prog, &mt));
  }
  auto fault = [&](thread_error_t e) -> std::string {
    if (e == thread_error_t::e_bad_get_global || e == thread_error_t::e_bad_set_global) return "uninitialised";
    return fault_of(e) < 100 ? ref::fault_name(fault_of(e)) : "code" + N(int(e));
  };
  auto step = [&](size_t which, const Op &op) {
    Pair &x = v[which];
    std::vector<value_t> ints;
    ints.reserve(8);
    std::vector<const value_t *> av;
    std::vector<ref::Val> mv;
    for (auto &a : op.args) {
      if (a == "last" && x.mo->last_ok && x.last) {
        av.push_back(x.last);
        mv.push_back(x.mo->last);
      } else {
        int n = a == "last" ? 9 : atoi(a.c_str());
        ints.push_back(value_t(n));
        av.push_back(&ints.back());
        mv.push_back(x.mo->m->I(n));
      }
    }
    std::string want, got;
    const ref::Func *mf = *op.fn ? b.prog->by_name[op.fn] : nullptr;
    function_t *f = *op.fn ? cc->prog.function_find(op.fn) : nullptr;
    const size_t before = x.vm->thread().size();
    switch (op.kind) {
    case 'i':
      want = x.mo->init() ? "initialised" : "init failed";
      got = x.vm->call_init() ? "initialised" : "init failed";
      x.mo->last_ok = false;
      break;
    case 'c': {
      const size_t threads = x.mo->q.size();
      want = x.mo->once(mf, mv);
      value_t *ret = (value_t *)-1;
      thread_error_t e = thread_error_t::e_bad_opcode;
      bool ok = x.vm->call_once(*f, int(av.size()), av.data(), ret, e);
      if (ok) {
        got = "value " + render(cc->prog, ret);
        x.last = ret;
        if (e != thread_error_t::e_success) r.fail("a successful call reports error " + N(int(e)));
      } else if (f->num_args() != int(av.size())) {
        got = e == thread_error_t::e_bad_num_args ? "refused" : "refused with error " + N(int(e));
        if (x.vm->thread().size() != before) r.fail("a refused call leaves a thread behind");
      } else
        got = "fault " + fault(e);
      if (!ok && ret) r.fail("a failed call returns a value");
      if (x.vm->thread().size() > before + (x.mo->q.size() - threads)) r.fail("a call leaves its thread behind");
    } break;
    case 'n': {
      auto t = x.mo->start(mf, mv);
      want = t ? "started" : "refused";
      thread_t *n = x.vm->new_thread(*f, int(av.size()), av.data());
      got = n ? "started" : "refused";
      if (n && (n->finished() || n->has_error())) r.fail("a new thread is already finished");
      if (!n && x.vm->thread().size() != before) r.fail("a refused thread is kept");
      x.mo->last_ok = false;
    } break;
    case 's': case 'r':
      want = x.mo->resume(op.kind == 'r') ? "fine" : "some failed";
      got = x.vm->resume(op.kind == 'r' ? 1000 : 1) ? "fine" : "some failed";
      x.mo->last_ok = false;
      break;
    case 'x':
      x.mo->reset();
      x.vm->reset();
      want = got = "";
      if (!x.vm->thread().empty() || any_global(*x.vm)) r.fail("after a reset threads or globals are left");
      break;
    }
    diff(r, std::string("result of ") + op.what, want, got);
    diff(r, std::string("host calls up to ") + op.what, mt, tr.t);
    for (size_t k = 0; k < v.size(); k++) {
      vm_t &vm = *v[k].vm;
      std::string st;
      bool fin = true, err = false;
      for (thread_t *t : vm.thread()) {
        if (!t->finished()) {
          fin = false;
          st += "{" + (t->frames().empty() ? std::string("?") : cc->prog.function_find(t->frames().front().callee_)->name_) + " waits " + N(t->waits) + "}";
        }
        err |= t->has_error();
      }
      if (v[k].mo->inited) st += globals_text(cc->prog, vm);
      else if (any_global(vm)) r.fail("globals exist before initialisation");
      diff(r, "threads and globals of vm " + N(long(k)) + " after " + op.what, v[k].mo->state(), st);
      if (vm.finished() != fin) r.fail(std::string("finished() is wrong after ") + op.what);
      if (vm.has_error() != err) r.fail(std::string("has_error() is wrong after ") + op.what);
    }
    r.states++;
    return !r.bad;
  };
  bool go = true;
  for (size_t i = 1; i < c.p.size() && go; i++) go = step(size_t(c.p[i] / 100), ops()[size_t(c.p[i] % 100)]);
  // run everything that is left
  static const Op drain = {"resume(1000) at the end", 'r', "", {}};
  for (int k = 0; k < 12 && go; k++)
    for (size_t w = 0; w < v.size() && go; w++)
      if (v[w].mo->busy() || k < 1) go = step(w, drain);
  for (auto &x : v)
    if (go && (x.mo->busy() || !x.vm->finished())) { r.fail("threads left over"); go = false; }
  for (auto &x : v) r.model_steps += x.mo->m->steps;
  // a reset VM is as good as new
  if (go && c.p.size() > 1) {
    static const Op rs = {"final reset", 'x', "", {}};
    go = step(0, rs) && step(0, ops()[0]) && step(0, ops()[1]) && step(0, ops()[14]) && step(0, drain);
  }
  cur_trace() = &tr;
  v.clear();
  cur_trace() = nullptr;
  r.runs++;
  r.outcome = mt;
}

// a thread that is prepared again does what a new thread does
static const Strs &again_functions() {
  static const Strs f = {
      "function leaf(x, y)\n return [x, y]\nend\n", "function calls(x, y)\n var l = sub(x)\n return l + sub(y)\nend\n", "function waits2(x, y)\n out(x)\n wait(2)\n out(y)\n return x + y\nend\n",
      "function fault(x, y)\n var q = sub(x)\n out(q)\n return sub(y / (x - x))\nend\n", "function loop(x, y)\n var i\n var s = \"\"\n for (i = x to y)\n  s = s + sub(i)\n end\n return s\nend\n",
      "function deepw(x, y)\n if (x == 0)\n  wait(3)\n  return y\n end\n return deepw(x - 1, y)\nend\n"};
  return f;
}
// c.p: first function, instructions of its run, how they are run, reset or not, second function, how it is run, arguments
static void again(const Case &c, Result &r) {
  static const char *nm[] = {"leaf", "calls", "waits2", "fault", "loop", "deepw"};
  static std::unique_ptr<Compiled> cc;
  if (!cc) cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  static int finishes, errors;
  auto go = [&](bool twice) {
    Trace tr;
    cur_trace() = &tr;
    std::string o;
    vm_t vm(cc->prog);
    vm.call_init();
    vm.resume(1);
    vm.handlers.on_thread_finish = [](thread_t &) { finishes++; return true; };
    vm.handlers.on_thread_error = [](thread_t &) { errors++; return true; };
    value_t x(2), y(5);
    const value_t *av[2] = {&x, &y};
    thread_t *t = vm.new_thread(*cc->prog.function_find(nm[twice ? c.p[0] : c.p[4]]), 2, av);
    if (!t) { r.fail("thread refused"); return std::string(); }
    // breakpoints: on all lines (4, 5) or the first line of the second function (6, 7); set before the first run and kept (4, 6) or set after it (5, 7)
    const bool kept = c.p[5] == 4 || c.p[5] == 6;
    auto breaks = [&] {
      const line_t first = cc->prog.get_line(cc->prog.function_find(nm[c.p[4]])->code_start_);
      if (c.p[5] >= 6) t->breakpoint_add(first);
      else if (c.p[5] >= 4) for (int l = 1; l < 60; l++) t->breakpoint_add(line_t{0, l});
    };
    if (twice && kept) breaks();
    if (twice) {
      if (c.p[2] == 0) { if (c.p[1]) t->resume(int32_t(c.p[1])); }
      else if (c.p[2] == 1) for (long i = 0; i < c.p[1] && !t->finished(); i++) t->step_inst();
      else if (c.p[1]) vm.resume(uint32_t(c.p[1]));
      if (c.p[3]) {
        t->reset();
        if (t->finished() || t->has_error() || !t->frames().empty() || t->waits) r.fail("after a reset a thread is finished, failed, has frames or waits");
      }
      if (c.p[6]) {  // a refused preparation first
        if (t->prepare(*cc->prog.function_find(nm[c.p[4]]), 1, av)) r.fail("a thread is prepared with a missing argument");
        if (!t->finished() || t->get_error() != thread_error_t::e_bad_num_args) r.fail("a refused preparation is not reported by the thread");
      }
      if (!t->prepare(*cc->prog.function_find(nm[c.p[4]]), 2, av)) r.fail("preparing a thread again is refused");
    }
    if (!twice || !kept) breaks();
    tr.t.clear();
    finishes = errors = 0;
    for (int i = 0; i < 400; i++) {
      line_t l = t->get_source_line();
      o += N(t->get_pc()) + "@" + N(l.line) + " frames " + N(long(t->frames().size())) + " waits " + N(t->waits) + " cycles " + N(long(t->get_cycle_count())) + (t->finished() ? " finished " : " ") + N(int(t->get_error())) + " " + tr.t + "\n";
      if (t->finished()) break;
      r.impl_steps++;
      bool ok = true;
      if (c.p[5] == 0) ok = vm.resume(1);
      else if (c.p[5] == 1) ok = t->step_inst();
      else if (c.p[5] == 2) ok = t->step_line();
      else ok = vm.resume(1000);
      o += ok ? "+" : "-";
    }
    o += t->finished() ? (t->has_error() ? "failed" : render(cc->prog, t->get_return_value())) : "unfinished";
    o += " finishes " + N(finishes) + " errors " + N(errors);
    cur_trace() = nullptr;
    r.runs++;
    return o;
  };
  std::string want = go(false), got = r.bad ? "" : go(true);
  std::string d = r.bad ? "" : first_difference(want, got);
  if (!d.empty()) r.fail("a thread prepared again differs from a new one: " + d);
  r.outcome = want;
}

static void no_program(const Case &c, Result &r) {
  program_t p;
  if (c.p[0] == 1) {
    nano_t n(p);
    source_manager_t s;
    s.load_from_string("function main(\n");
    cerror_t e;
    n.build(s, e);
    n.reset();
  }
  vm_t vm(p);
  if (vm.call_init()) r.fail("initialising without a program succeeds");
  if (!vm.finished() || vm.has_error()) r.fail("an empty vm is not finished");
  if (!vm.resume(10)) r.fail("an empty round fails");
  vm.reset();
  if (vm.call_init()) r.fail("initialising without a program succeeds");
  r.runs++;
  r.outcome = "no program";
}

// waits and halts hold up neither initialisation nor a single call, however many or long
static void held_up(const Case &c, Result &r) {
  const long n = c.p[0], how = c.p[1];
  for (int opt = 0; opt < 2 && !r.bad; opt++) {
    auto cc = compile(c.files, opt != 0);
    if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
    cc->prog.syscall_resolve("abs", [](thread_t &t, int32_t k) { while (k-- > 0) t.get_stack().pop(); t.get_stack().push_int(1); t.halt(); });
    Trace tr;
    cur_trace() = &tr;
    vm_t vm(cc->prog);
    if (!vm.call_init()) r.fail("initialisation fails");
    const std::string out = how == 2 ? "out(" + N(n) + ");" : "out(" + N(n) + ");out(" + N(n + 1) + ");";
    if (!r.bad) diff(r, "output of the initialiser", out, tr.t);
    if (!r.bad) diff(r, "globals", "a=1;b=" + N(n + 1) + ";c=3;", globals_text(cc->prog, vm));
    for (int k = 0; k < 2 && !r.bad; k++) {
      tr.t.clear();
      value_t x{int32_t(n)};
      const value_t *ax[1] = {&x};
      value_t *v = nullptr;
      thread_error_t e;
      if (!vm.call_once(*cc->prog.function_find("slow"), 1, ax, v, e)) r.fail("the call fails");
      else diff(r, "result of the call", N(n + 1), render(cc->prog, v));
      if (!r.bad) diff(r, "output of the call", out, tr.t);
    }
    vm.resume(10), vm.resume(10);
    if (!r.bad && !vm.finished()) r.fail("a thread is left behind");
    cur_trace() = nullptr;
    r.runs++;
  }
  r.outcome = N(n) + " " + N(how);
}

// ------------------------------------------------------------------ threads driven one by one as well as by the VM
// a thread is a list of parts: each ends in a wait of n rounds, the end or a fault
static const std::vector<std::vector<int>> &parts() {
  static const std::vector<std::vector<int>> k = {{-1}, {-2}, {2, -1}, {2, -2}, {1, 3, -2}, {0, 1, -1}};
  return k;
}
static void by_hand(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected: " + cc->err.error); return; }
  Trace tr;
  cur_trace() = &tr;
  vm_t vm(cc->prog);
  if (!vm.call_init()) { r.fail("init failed"); return; }
  vm.resume(1);
  struct Th { thread_t *t; int kind; size_t at; int waits; bool done, bad, gone; };
  std::vector<Th> th;
  for (int i = 0; i < 2; i++) {
    const int kind = int(c.p[size_t(i)]);
    th.push_back({vm.new_thread(*cc->prog.function_find("k" + N(kind)), 0, nullptr), kind, 0, 0, false, false, false});
  }
  std::string want;
  std::function<void(Th &)> run = [&](Th &x) {
    if (x.done) return;
    want += "out(" + N(x.kind * 10 + int(x.at)) + ");";
    const int e = parts()[size_t(x.kind)][x.at++];
    if (e < 0) x.done = true, x.bad = e == -2;
    else if (e) x.waits = e;
    else {
      // nothing to wait for
      x.waits = 0;
      run(x);
    }
  };
  for (size_t i = 2; i < c.p.size() && !r.bad; i++) {
    const int op = int(c.p[i]);
    if (op < 2) {
      if (th[size_t(op)].gone) continue;
      run(th[size_t(op)]);
      th[size_t(op)].t->resume(1000);
    } else {
      for (int j = 1; j >= 0; j--) {
        Th &x = th[size_t(j)];
        if (x.gone) continue;
        if (x.waits) { x.waits--; continue; }
        if (x.done) { x.gone = true; continue; }
        run(x);
      }
      vm.resume(1000);
    }
    r.runs++;
    bool fin = true, bad = false;
    for (auto &x : th) {
      if (x.gone) continue;
      fin &= x.done;
      bad |= x.bad;
      if (x.t->finished() != x.done) r.fail("after operation " + N(long(i) - 2) + ": a thread that has " + (x.done ? "" : "not ") + "ended says otherwise");
      if (x.t->has_error() != x.bad) r.fail("after operation " + N(long(i) - 2) + ": a thread that has " + (x.bad ? "" : "not ") + "failed says otherwise");
      if (int(x.t->waits) != x.waits) r.fail("after operation " + N(long(i) - 2) + ": a thread waits " + N(int(x.t->waits)) + " rounds, expected " + N(x.waits));
    }
    if (vm.finished() != fin) r.fail("after operation " + N(long(i) - 2) + ": finished() is " + N(vm.finished()) + ", expected " + N(fin));
    if (vm.has_error() != bad) r.fail("after operation " + N(long(i) - 2) + ": has_error() is " + N(vm.has_error()) + ", expected " + N(bad));
    diff(r, "trace after operation " + N(long(i) - 2), want, tr.t);
  }
  r.outcome = want;
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  auto seqs = [](int len, int nops, int vms, std::vector<int> progs) {
    return [=](Chooser &ch, Case &c) {
      int p = ch.pick(progs);
      c.p = {vms};
      for (int i = 0; i < len; i++) {
        int w = vms > 1 ? (i == 0 ? 0 : ch.choose(vms)) : 0;
        c.p.push_back(w * 100 + ch.choose(nops));
      }
      c.files = {programs()[size_t(p)]};
      for (size_t i = 1; i < c.p.size(); i++) c.note += (c.p[i] >= 100 ? "[2nd vm] " : "") + std::string(ops()[size_t(c.p[i] % 100)].what) + "; ";
      return true;
    };
  };
  const int all = int(ops().size());
  out.push_back(make("no program", "operations on a VM without a program", [](Chooser &ch, Case &c) { c.p = {ch.choose(2)}; return true; }, no_program));
  out.push_back(make("threads prepared again", "every one of 6 functions run for every number of instructions 0..24 or to its end in 3 ways, then reset or not, refused once or not, then every function prepared and run in 4 ways or with breakpoints set before or after on all lines or its first; compared with a new thread", [](Chooser &ch, Case &c) {
    long f = ch.choose(6), k = ch.choose(26), how = ch.choose(3), rs = ch.choose(2), f2 = ch.choose(6), how2 = ch.choose(8), bad = ch.choose(2);
    c.p = {f, k == 25 ? 1000 : k, how, rs, f2, how2, bad};
    std::string o = "function sub(n)\n var z = n\n return z\nend\n";
    for (auto &x : again_functions()) o += x;
    c.files = {o};
    return true;
  }, again));
  for (int l = 1; l <= 2; l++)
    out.push_back(make("histories " + N(l), "every sequence of " + N(l) + " of 33 host operations x 5 programs", seqs(l, all, 1, {0, 1, 2, 3, 4}), history));
  out.push_back(make("histories 3", "every sequence of 3 of 33 host operations, programs 0 and 4", seqs(3, all, 1, {0, 4}), history));
  out.push_back(make("histories 3 of 18", "every sequence of 3 of 18 host operations, programs 1 to 3", seqs(3, N_BASE, 1, {1, 2, 3}), history));
  out.push_back(make("two VMs", "every sequence of 3 of 18 host operations spread over two VMs of the same program", seqs(3, N_BASE, 2, {0}), history));
  out.push_back(make("histories 4", "every sequence of 4 of 18 host operations", seqs(4, N_BASE, 1, {0}), history));
  {
    out.push_back(make("histories 4 all", "every sequence of 4 of 18 host operations, the other programs", seqs(4, N_BASE, 1, {1, 2, 3, 4}), history));
    out.push_back(make("histories 5", "every sequence of 5 of 18 host operations", seqs(5, N_BASE, 1, {0}), history));
    if (th) out.push_back(make("histories 4 of 33", "every sequence of 4 of 33 host operations, programs 0 and 1", seqs(4, all, 1, {0, 1}), history));
    if (th) out.push_back(make("two VMs 4", "every sequence of 4 of 18 host operations spread over two VMs", seqs(4, N_BASE, 2, {0, 4}), history));
  }
  auto hand = [](int len) {
    return [len](Chooser &ch, Case &c) {
      std::string s;
      for (size_t k = 0; k < parts().size(); k++) {
        s += "function k" + N(long(k)) + "()\n var z = 0\n";
        for (size_t i = 0; i < parts()[k].size(); i++) {
          const int e = parts()[k][i];
          s += " out(" + N(long(k * 10 + i)) + ")\n" + (e == -1 ? std::string(" return 1\n") : e == -2 ? std::string(" return 1 / z\n") : " wait(" + N(e) + ")\n");
        }
        s += "end\n";
      }
      c.files = {s};
      c.p = {ch.choose(int(parts().size())), ch.choose(int(parts().size()))};
      for (int i = 0; i < len; i++) c.p.push_back(ch.choose(3));
      return true;
    };
  };
  out.push_back(make("by hand", "two threads of 6 kinds (waiting, failing, ending) x every sequence of " + N(th ? 8 : 6) + " resumptions of the first, the second or the VM", hand(th ? 8 : 6), by_hand));
  out.push_back(make("held up", "initialisers and single calls that wait n rounds twice, wait one round n times, or are halted by the host n times, n = 0..20 and around powers of two to 2^20 (2^11 repeated)", [](Chooser &ch, Case &c) {
    std::vector<long> ns;
    for (long i = 0; i <= 20; i++) ns.push_back(i);
    for (long k = 32; k <= 1 << 20; k *= 2) for (long d = -1; d <= 1; d++) ns.push_back(k + d);
    long n = ch.pick(ns);
    int how = ch.choose(3);
    if (how && n > 2049) return false;
    c.p = {n, how};
    static const Strs body = {" wait(n)\n out(n)\n wait(n)\n out(n + 1)\n", " var i = 0\n while (i < n)\n  wait(1)\n  i += 1\n end\n out(i)\n wait(1)\n out(i + 1)\n", " var i = 0\n while (i < n)\n  i += abs(i)\n end\n out(i)\n"};
    c.files = {"var a = 1\nvar b = slow(" + N(n) + ")\nvar c = 3\nfunction slow(n)\n" + body[size_t(how)] + " return n + 1\nend\n"};
    return true;
  }, held_up));
}
