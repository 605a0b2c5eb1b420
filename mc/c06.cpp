// C06: threads and the scheduler
#include <ucontext.h>

#include <algorithm>

#include "harness.h"
using namespace impl;

// ------------------------------------------------------------------ scheduler model
// An independent scheduler that owns the run queue and the wait counters and advances threads one instruction at a
// time.  It never calls vm_t::resume.
struct Sched {
  vm_t vm;
  Trace tr;
  struct T { thread_t *t; int waits = 0; };
  std::vector<T> q;  // newest first
  std::set<thread_t *> known;
  uint64_t steps = 0;
  explicit Sched(program_t &p) : vm(p) {}
  T *find(thread_t *t) {
    for (auto &x : q) if (x.t == t) return &x;
    return nullptr;
  }
  void discover() {
    std::vector<T> fresh;
    for (thread_t *t : vm.thread())
      if (known.insert(t).second) {
        T n;
        n.t = t;
        fresh.push_back(n);
      }
    q.insert(q.begin(), fresh.begin(), fresh.end());
  }
  // run a thread for at most n instructions; stops at a wait
  int turn(thread_t *t, uint64_t n, bool ignore_wait = false) {
    cur_trace() = &tr;
    int waits = 0;
    for (uint64_t i = 0; i < n && !t->finished(); i++) {
      t->step_inst();
      steps++;
      discover();
      if (t->waits) {
        waits = t->waits;
        t->waits = 0;
        if (!ignore_wait) break;
      }
    }
    cur_trace() = nullptr;
    return waits;
  }
  void round(uint32_t n) {
    std::vector<thread_t *> order;
    for (auto &x : q) order.push_back(x.t);
    for (thread_t *t : order) {
      T *x = find(t);
      if (x->waits > 0) { x->waits--; continue; }
      if (t->finished()) {
        q.erase(q.begin() + (x - q.data()));
        continue;
      }
      int w = turn(t, n);
      find(t)->waits = w;
    }
  }
  std::string state() {
    std::string o = tr.t + "#";
    for (auto &x : q) one(o, x.t, x.waits);
    return o + globals_text(vm.program(), vm);
  }
  static void one(std::string &o, thread_t *t, int waits) {
    o += "{" + std::to_string(t->get_cycle_count()) + "," + (t->finished() ? t->has_error() ? "err" + std::to_string(int(t->get_error())) : "done " + render(t->vm().program(), t->get_return_value()) : "run@" + std::to_string(t->get_pc())) +
         ",w" + std::to_string(waits) + "}";
  }
};
static std::string vm_state(vm_t &vm, const std::string &trace) {
  std::string o = trace + "#";
  for (thread_t *t : vm.thread()) Sched::one(o, t, t->waits);
  return o + globals_text(vm.program(), vm);
}

// host operations
enum { OP_RESUME1, OP_RESUME2, OP_RESUME5, OP_RESUME_BIG, OP_NEW_A, OP_NEW_B, OP_CALL_A, OP_CALL_B, OP_STEP_FIRST, OP_STEP_LAST };
static const char *op_name[] = {"resume(1)", "resume(2)", "resume(5)", "resume(1000)", "new_thread(a)", "new_thread(b)", "call_once(a)", "call_once(b)", "step newest", "step oldest"};

static bool apply(const Case &c, Compiled &cc, Result &r, const std::vector<long> &ops, bool drain) {
  Sched s(cc.prog);
  Trace tr;
  vm_t vm(cc.prog);
  cur_trace() = &tr;
  bool ok = vm.call_init();
  cur_trace() = &s.tr;
  ok = ok && s.vm.call_init();
  if (!ok) { r.fail("init failed"); return false; }
  s.discover();
  int serial = 0;
  auto step = [&](long op) {
    cur_trace() = &tr;
    value_t arg(100 + serial);
    const value_t *argv[1] = {&arg};
    auto fn = [&](bool b) { return cc.prog.function_find(b ? "tb" : "ta"); };
    switch (op) {
    case OP_RESUME1: case OP_RESUME2: case OP_RESUME5: case OP_RESUME_BIG: {
      const uint32_t n = op == OP_RESUME1 ? 1 : op == OP_RESUME2 ? 2 : op == OP_RESUME5 ? 5 : 1000;
      const bool res = vm.resume(n);
      s.round(n);
      (void)res;
      break;
    }
    case OP_NEW_A: case OP_NEW_B: {
      serial++;
      thread_t *a = vm.new_thread(*fn(op == OP_NEW_B), 1, argv);
      thread_t *b = s.vm.new_thread(*fn(op == OP_NEW_B), 1, argv);
      if (!a || !b) r.fail("thread refused");
      s.discover();
      break;
    }
    case OP_CALL_A: case OP_CALL_B: {
      serial++;
      value_t *ret = nullptr;
      thread_error_t err = thread_error_t::e_success;
      bool good = vm.call_once(*fn(op == OP_CALL_B), 1, argv, ret, err);
      std::string got = good ? render(cc.prog, ret) : "err" + std::to_string(int(err));
      thread_t *b = s.vm.new_thread(*fn(op == OP_CALL_B), 1, argv);
      s.known.insert(b);
      s.turn(b, 100000, true);
      std::string want = b->has_error() ? "err" + std::to_string(int(b->get_error())) : render(cc.prog, b->get_return_value());
      diff(r, "result of call", want, got);
      break;
    }
    case OP_STEP_FIRST: case OP_STEP_LAST: {
      if (vm.thread().empty()) break;
      thread_t *a = op == OP_STEP_FIRST ? vm.thread().front() : vm.thread().back();
      thread_t *b = op == OP_STEP_FIRST ? s.q.front().t : s.q.back().t;
      const bool w = a->waits != 0;
      if (a->finished() || w) break;
      a->step_inst();
      int wt = s.turn(b, 1);
      s.find(b)->waits = wt;
      break;
    }
    }
    cur_trace() = nullptr;
    r.states++;
    diff(r, std::string("after ") + op_name[op], s.state(), vm_state(vm, tr.t));
    return !r.bad;
  };
  for (long op : ops)
    if (!step(op)) break;
  // then until everything has run to completion
  size_t k = 0;
  for (; drain && !r.bad && k < 3000; k++) {
    if (s.q.empty()) break;
    if (!step(ops.empty() ? long(OP_RESUME5) : std::vector<long>{OP_RESUME1, OP_RESUME2, OP_RESUME5, OP_RESUME_BIG}[size_t(ops[0]) % 4])) break;
  }
  if (drain && !r.bad && !vm.thread().empty() && k < 3000) r.fail("threads left over");
  if (!r.bad && s.q.empty() && !(vm.finished() && !vm.has_error())) r.fail("vm does not report completion");
  r.runs += 2;
  r.impl_steps += 2 * s.steps;
  r.outcome = s.state();
  return !r.bad;
}

static void history(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  apply(c, *cc, r, c.p, true);
}

// budgets only: main creates threads, the host resumes with the given periodic budgets
static void budgets(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  Sched s(cc->prog);
  Trace tr;
  vm_t vm(cc->prog);
  cur_trace() = &tr;
  bool ok = vm.call_init();
  cur_trace() = &s.tr;
  ok = ok && s.vm.call_init();
  function_t *m = cc->prog.function_find("main");
  thread_t *a = ok ? vm.new_thread(*m, 0, nullptr) : nullptr;
  thread_t *b = ok ? s.vm.new_thread(*m, 0, nullptr) : nullptr;
  if (!a || !b) { r.fail("main refused"); return; }
  s.discover();
  size_t k = 0;
  std::string last;
  for (; k < 2000 && !r.bad; k++) {
    const uint32_t n = uint32_t(c.p[k % c.p.size()]);
    cur_trace() = &tr;
    vm.resume(n);
    s.round(n);
    cur_trace() = nullptr;
    r.states++;
    last = s.state();
    diff(r, "after round " + std::to_string(k + 1), last, vm_state(vm, tr.t));
    if (s.q.empty()) break;
  }
  if (k >= 2000) { r.fail("not finished after 2000 rounds"); return; }
  r.runs += 2;
  r.impl_steps += 2 * s.steps;
  r.outcome = last;
}

// ------------------------------------------------------------------ interleaving semantics
// The AST model runs threads as coroutines that can switch before every access to shared state; all interleavings are
// enumerated and the set of outcomes collected.
struct Inter {
  ref::Program &P;
  std::unique_ptr<ref::Machine> m;
  struct Co {
    ucontext_t ctx;
    std::vector<char> stack;
    bool done = false;
    std::string res = "?";
    const ref::Func *f;
    std::vector<ref::Val> args;
    int file = 0, line = 0, depth = 0;
  };
  std::vector<std::unique_ptr<Co>> co;
  ucontext_t main_ctx;
  int cur = -1;
  static Inter *&self() { static Inter *s; return s; }
  explicit Inter(ref::Program &p) : P(p) {}
  static void entry() {
    Inter *x = self();
    Co &c = *x->co[size_t(x->cur)];
    try {
      c.res = ref::render(x->m->invoke(c.f, c.args));
    } catch (const ref::Stop &s) {
      c.res = std::string("fault:") + ref::fault_name(s.f);
    } catch (const ref::OutOfFuel &) {
      c.res = "diverged";
    }
    c.done = true;
    swapcontext(&c.ctx, &x->main_ctx);
  }
  void spawn(const ref::Func *f, const std::vector<ref::Val> &args) {
    co.emplace_back(new Co);
    Co &c = *co.back();
    c.f = f;
    c.args = args;
    c.stack.resize(256 * 1024);
    getcontext(&c.ctx);
    c.ctx.uc_stack.ss_sp = c.stack.data();
    c.ctx.uc_stack.ss_size = c.stack.size();
    c.ctx.uc_link = &main_ctx;
    makecontext(&c.ctx, (void (*)())entry, 0);
  }
  std::string run(Chooser &ch, const std::vector<std::pair<std::string, int>> &start, const ModelOpts &mo) {
    m.reset(new ref::Machine(P));
    co.clear();
    cur = -1;
    self() = this;
    m->init();
    m->yield = [this] {
      if (cur < 0) return;
      Co &c = *co[size_t(cur)];
      swapcontext(&c.ctx, &main_ctx);
    };
    m->host = [this](ref::Machine &mm, const std::string &n, std::vector<ref::Val> &a, ref::Val &ret) {
      if (n != "new_thread") return false;
      if (a.empty() || a[0].t != ref::V_FUN || a[0].fn->nargs != int(a.size()) - 1) mm.fault(ref::F_ARG);
      spawn(a[0].fn, std::vector<ref::Val>(a.begin() + 1, a.end()));
      ret = mm.I(0);
      return true;
    };
    for (auto &s : start) spawn(P.by_name[s.first], {m->I(s.second)});
    for (;;) {
      std::vector<int> run;
      for (size_t i = 0; i < co.size(); i++) if (!co[i]->done) run.push_back(int(i));
      if (run.empty()) break;
      cur = run[size_t(ch.choose(int(run.size())))];
      Co &c = *co[size_t(cur)];
      std::swap(m->file, c.file); std::swap(m->line, c.line); std::swap(m->depth, c.depth);
      swapcontext(&main_ctx, &c.ctx);
      std::swap(m->file, c.file); std::swap(m->line, c.line); std::swap(m->depth, c.depth);
    }
    cur = -1;
    std::string o = m->trace + "#";
    std::vector<std::string> res;
    for (auto &c : co) res.push_back(c->res);
    std::sort(res.begin(), res.end());
    for (auto &x : res) o += "{" + x + "}";
    o += globals_text(P, m->g);
    return o;
  }
};

static void inclusion(const Case &c, Result &r) {
  std::vector<std::string> files = c.files;
  ref::Built b = ref::build(files, std_syscalls(), true);
  if (!b.ok) { r.fail(std::string("model rejects: ") + b.err.why); return; }
  std::set<std::string> allowed;
  Inter in(*b.prog);
  Chooser ch;
  std::vector<std::pair<std::string, int>> start = {{"ta", 1}, {"tb", 2}};
  uint64_t n = 0;
  do {
    allowed.insert(in.run(ch, start, ModelOpts()));
    n++;
    r.model_steps += in.m->steps;
  } while (ch.next() && n < 60000);
  const bool complete = n < 60000;
  r.states += n;
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  std::set<std::string> reached;
  // implementation: every schedule of (budget of a, budget of b) for the first rounds, through vm.resume with uneven
  // progress obtained by stepping
  auto go = [&](std::function<void(vm_t &, thread_t *, thread_t *)> drive, const std::string &what) {
    if (r.bad) return;
    Trace tr;
    cur_trace() = &tr;
    vm_t vm(cc->prog);
    static std::vector<std::string> res;
    res.clear();
    vm.call_init();
    vm.handlers.on_thread_finish = [](thread_t &t) { res.push_back(t.has_error() ? std::string("fault:") + (fault_of(t.get_error()) < 100 ? ref::fault_name(fault_of(t.get_error())) : "?") : render(t.vm().program(), t.get_return_value())); return true; };
    value_t x(1), y(2);
    const value_t *ax[1] = {&x}, *ay[1] = {&y};
    thread_t *ta = vm.new_thread(*cc->prog.function_find("ta"), 1, ax);
    thread_t *tb = vm.new_thread(*cc->prog.function_find("tb"), 1, ay);
    if (!ta || !tb) { r.fail("thread refused"); return; }
    drive(vm, ta, tb);
    for (int i = 0; i < 3000 && !vm.finished(); i++) vm.resume(50);
    cur_trace() = nullptr;
    if (!vm.finished()) { r.fail(what + ": threads never finish"); return; }
    std::string o = tr.t + "#";
    std::sort(res.begin(), res.end());
    for (auto &q : res) o += "{" + q + "}";
    o += globals_text(cc->prog, vm);
    r.runs++;
    reached.insert(o);
    if (complete && !allowed.count(o)) r.fail(what + ": outcome is not one of the " + std::to_string(allowed.size()) + " interleavings:\n  " + o);
  };
  // a runs i instructions, b runs j, then round robin with budget k
  for (int i = 0; i <= 30; i += 1)
    for (int j = 0; j <= 30; j += 1)
      for (int k : {1, 3})
        go([&](vm_t &vm, thread_t *a, thread_t *bt) {
          if (i) a->resume(i);
          if (j) bt->resume(j);
          for (int q = 0; q < 40 && !vm.finished(); q++) vm.resume(uint32_t(k));
        }, "a:" + std::to_string(i) + " b:" + std::to_string(j) + " then rounds of " + std::to_string(k));
  r.outcome = std::to_string(allowed.size()) + " interleavings, " + std::to_string(reached.size()) + " reached " + (reached.empty() ? "" : *reached.begin());
}

// threads that share nothing: each gives what it gives alone
static void isolated(const Case &c, Result &r) {
  std::vector<std::string> files = c.files;
  ref::Built b = ref::build(files, std_syscalls(), true);
  if (!b.ok) { r.fail(std::string("model rejects: ") + b.err.why); return; }
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  const int n = int(c.p[0]);
  std::vector<std::string> want;
  for (int i = 0; i < n; i++) {
    ref::Machine m(*b.prog);
    m.init();
    try {
      want.push_back(ref::render(m.invoke(b.prog->by_name[i & 1 ? "tb" : "ta"], {m.I(i + 1)})));
    } catch (const ref::Stop &s) {
      want.push_back(fault_text(s.f, s.file, s.line));
    }
    r.model_steps += m.steps;
  }
  Trace tr;
  cur_trace() = &tr;
  vm_t vm(cc->prog);
  vm.call_init();
  vm.resume(1);
  static std::map<thread_t *, int> ids;
  static std::vector<std::string> got;
  static std::vector<int> times;
  ids.clear();
  got.assign(size_t(n), "unfinished");
  times.assign(size_t(n), 0);
  vm.handlers.on_thread_finish = [](thread_t &t) {
    auto it = ids.find(&t);
    if (it == ids.end()) return true;
    times[size_t(it->second)]++;
    line_t l = t.get_source_line();
    got[size_t(it->second)] = t.has_error() ? fault_text(fault_of(t.get_error()), l.file, l.line) : render(t.vm().program(), t.get_return_value());
    ids.erase(it);
    return true;
  };
  for (int i = 0; i < n; i++) {
    value_t x(i + 1);
    const value_t *ax[1] = {&x};
    thread_t *t = vm.new_thread(*cc->prog.function_find(i & 1 ? "tb" : "ta"), 1, ax);
    if (!t) { r.fail("thread refused"); return; }
    ids[t] = i;
    if (c.p[2]) vm.resume(uint32_t(c.p[1]));  // started at different times
  }
  int rounds = 0;
  while (!vm.finished() && rounds++ < 200000) vm.resume(uint32_t(c.p[1]));
  cur_trace() = nullptr;
  for (int i = 0; i < n; i++) diff(r, "thread " + std::to_string(i), want[size_t(i)], got[size_t(i)]);
  for (int i = 0; i < n; i++) if (times[size_t(i)] != 1 && !r.bad) r.fail("thread " + std::to_string(i) + " finished " + std::to_string(times[size_t(i)]) + " times");
  r.runs++;
  for (auto &w : want) r.outcome += w + ";";
}

// waits of any length: the thread acts in exactly the round after the n it is skipped for
static void long_wait(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  const long n = c.p[0], budget = c.p[1];
  Trace tr;
  cur_trace() = &tr;
  vm_t vm(cc->prog);
  vm.call_init();
  vm.resume(1);
  value_t x{int32_t(n)};
  const value_t *ax[1] = {&x};
  thread_t *a = vm.new_thread(*cc->prog.function_find("sleep"), 1, ax);
  thread_t *b = vm.new_thread(*cc->prog.function_find("count"), 0, nullptr);
  if (!a || !b) { r.fail("thread refused"); return; }
  // until it goes to sleep
  for (int i = 0; i < 1000 && tr.t.empty(); i++) vm.resume(uint32_t(budget));
  for (int i = 0; i < 1000 && !a->waits && budget < 1000; i++) vm.resume(uint32_t(budget));
  const uint32_t at = a->get_cycle_count();
  uint32_t other = b->get_cycle_count();
  const std::string before = tr.t;
  for (long i = 0; i < n && !r.bad; i++) {
    vm.resume(uint32_t(budget));
    if (a->get_cycle_count() != at) r.fail("a thread that waits " + std::to_string(n) + " rounds ran in round " + std::to_string(i + 1));
    if (b->get_cycle_count() != other + uint32_t(budget)) r.fail("the other thread ran " + std::to_string(b->get_cycle_count() - other) + " instructions in round " + std::to_string(i + 1));
    other = b->get_cycle_count();
  }
  if (!r.bad && tr.t != before) r.fail("something was output during the wait");
  if (!r.bad) {
    vm.resume(uint32_t(budget));
    if (a->get_cycle_count() == at) r.fail("a thread that waits " + std::to_string(n) + " rounds did not run after them");
  }
  cur_trace() = nullptr;
  r.runs++;
  r.outcome = "woke after " + std::to_string(n);
}

// rounds and runs of any budget: exactly that many instructions
static void big_budget(const Case &c, Result &r) {
  auto cc = compile(c.files, true);
  if (!cc->ok) { r.fail("rejected " + cc->err.error); return; }
  const long n = c.p[0];
  Trace tr;
  cur_trace() = &tr;
  vm_t vm(cc->prog);
  vm.call_init();
  vm.resume(1);
  std::vector<thread_t *> ts;
  for (long i = 0; i < c.p[1]; i++) {
    thread_t *t = vm.new_thread(*cc->prog.function_find("count"), 0, nullptr);
    if (!t) { r.fail("thread refused"); return; }
    ts.push_back(t);
  }
  for (int k = 1; k <= 2 && !r.bad; k++) {
    vm.resume(uint32_t(n));
    for (auto *t : ts)
      if (t->get_cycle_count() != uint32_t(n * k)) r.fail("after " + std::to_string(k) + " rounds of " + std::to_string(n) + " a thread has run " + std::to_string(t->get_cycle_count()) + " instructions");
  }
  cur_trace() = nullptr;
  r.runs++;
  r.outcome = std::to_string(n) + "x" + std::to_string(c.p[1]);
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  // thread bodies used from the host histories
  static const Strs bodies = {
      " out(x)\n g = x\n return x\n",
      " wait(2)\n out(x)\n return [x, g]\n",
      " var i\n for (i = 0 to 3)\n  out(x * 10 + i)\n  wait(i)\n end\n return i\n",
      " new_thread(child, x + 50)\n out(x)\n return 1\n",
      " var z = 0\n out(x)\n wait(1)\n return x / z\n",
      " wait(0)\n g = g + 1\n wait(0 - 3)\n out(g)\n return g\n",
      " var l = [x]\n sh[0] = l\n wait(1)\n l[0] = l[0] + 1\n out(sh[0])\n return l[0]\n",
      " while (g < 40)\n  g = g + 7\n end\n out(g)\n return g\n",
  };
  auto prog = [](const std::string &a, const std::string &b) {
    return "var g = 1\nvar sh = [0, 0]\nfunction child(y)\n out(y)\n wait(1)\n out(y + 1)\n if (y < 160)\n  new_thread(child, y + 100)\n end\nend\nfunction ta(x)\n" + a + "end\nfunction tb(x)\n" + b + "end\n";
  };
  out.push_back(make("histories/4", "all host operation histories of length 4 (then drained) over 10 operations x all pairs of 8 thread bodies", [prog](Chooser &ch, Case &c) {
    std::string a = ch.pick(bodies), b = ch.pick(bodies);
    c.files = {prog(a, b)};
    for (int i = 0; i < 3; i++) c.p.push_back(ch.choose(10));
    c.p.insert(c.p.begin(), OP_NEW_A);
    return true;
  }, history));
  out.push_back(make("histories/6", "all host operation histories of length 6 (then drained) over 10 operations, selected body pairs", [prog, th](Chooser &ch, Case &c) {
    static const int pr[][2] = {{2, 4}, {3, 1}, {6, 5}, {7, 2}};
    int w = ch.choose(th ? 4 : 2);
    c.files = {prog(bodies[size_t(pr[w][0])], bodies[size_t(pr[w][1])])};
    for (int i = 0; i < (th ? 6 : 5); i++) c.p.push_back(ch.choose(10));
    c.p.insert(c.p.begin(), OP_NEW_B);
    return true;
  }, history));
  // scripts creating threads
  static const Strs mains = {
      " new_thread(a, 1)\n new_thread(b, 2)\n return 0\n",
      " new_thread(a, 1)\n wait(3)\n out(g)\n new_thread(b, 2)\n wait(1)\n out(g)\n",
      " var i\n for (i = 0 to 3)\n  new_thread(a, i)\n  new_thread(b, i)\n  wait(i)\n end\n out(g)\n",
      " var f = new_thread\n f(a, 5)\n f(b, sh)\n out(sh)\n wait(4)\n out(sh)\n",
      " new_thread(two, 1, 2)\n new_thread(zero)\n new_thread(b, [1, 2])\n wait(2)\n out(g)\n",
      " new_thread(a, 1)\n var q = none\n q[0] = 1\n",
      " new_thread(three, 1, g, \"s\")\n new_thread(four, sh, 2, none, 4.5)\n new_thread(five, 1, 2, 3, sh, a)\n new_thread(b, 6)\n wait(2)\n out(g)\n",
  };
  static const Strs tb = {
      " out(x)\n", " g = g + 1\n out(g)\n", " wait(1)\n out(x)\n wait(2)\n out(g)\n", " var n = 0\n while (n < 4)\n  n = n + 1\n  g = g + n\n end\n out(g)\n", " new_thread(zero)\n out(x)\n",
      " sh[1] = x\n wait(2)\n out(sh)\n", " out(x)\n out(x / 0.0)\n out(none + none)\n", " return rec(4)\n",
  };
  out.push_back(make("budgets", "script created threads: 7 mains x 8x8 bodies x all periodic budget sequences of length 2 over {1,2,3,5,9,100}", [](Chooser &ch, Case &c) {
    std::string m = ch.pick(mains), a = ch.pick(tb), b = ch.pick(tb);
    c.files = {"var g = 0\nvar sh = [7, 8]\nfunction rec(n)\n if (n == 0)\n  return g\n end\n g = g + n\n return rec(n - 1)\nend\nfunction zero()\n out(\"z\")\n wait(1)\n g = g + 100\nend\nfunction two(p, q)\n out([p, q])\nend\nfunction three(p, q, r)\n out([p, q, r])\n wait(1)\n out([r, p])\nend\nfunction four(p, q, r, s)\n var l = [s, r, q, p]\n out(l)\n g = g + q\nend\nfunction five(p, q, r, s, t)\n g = g + p * 100 + q * 10 + r\n out([p, q, r, s, t])\n t(g)\nend\nfunction a(x)\n" + a + "end\nfunction b(x)\n" + b + "end\nfunction main()\n" + m + "end\n"};
    static const long bs[] = {1, 2, 3, 5, 9, 100};
    c.p = {bs[ch.choose(6)], bs[ch.choose(6)]};
    return true;
  }, budgets));
  out.push_back(make("waits", "wait(n) for n in -2..8 and floats, sequences of 3 waits, next to a counting thread; every budget 1..12", [](Chooser &ch, Case &c) {
    static const Strs w = {"0 - 2", "0", "1", "2", "3", "8", "1.9", "0.5"};
    std::string b;
    for (int i = 0; i < 3; i++) b += " wait(" + ch.pick(w) + ")\n out(\"w" + N(i) + "\" + t)\n";
    c.files = {"var t = 0\nfunction clock()\n while (t < 30)\n  t = t + 1\n  wait(1)\n end\nend\nfunction sleeper(k)\n" + b + "end\nfunction main()\n new_thread(clock)\n new_thread(sleeper, 1)\n wait(2)\n new_thread(sleeper, 2)\nend\n"};
    c.p = {1 + ch.choose(12)};
    return true;
  }, budgets));
  static std::vector<long> pow;
  for (long k = 4; k <= (th ? 20 : 17); k++)
    for (long d = -1; d <= 1; d++) pow.push_back((1l << k) + d);
  pow.push_back(70000);
  pow.push_back(100000);
  out.push_back(make("long waits", "wait(n) for n around every power of two up to 2^" + N(th ? 20 : 17) + ", from a literal or computed, next to a counting thread, budgets 1,3,40", [](Chooser &ch, Case &c) {
    static const std::vector<long> bs = {1, 3, 40};
    c.p = {ch.pick(pow), ch.pick(bs)};
    static const Strs w = {"n", "@", "@.0", "n + 0.5"};
    std::string e = ch.pick(w);
    size_t q = e.find('@');
    if (q != std::string::npos) e.replace(q, 1, N(c.p[0]));
    c.files = {"function sleep(n)\n out(n)\n wait(" + e + ")\n out(1)\n return n\nend\nfunction count()\n var i = 0\n while (1)\n  i = i + 1\n end\nend\n"};
    return true;
  }, long_wait));
  out.push_back(make("large budgets", "rounds of n instructions for n around every power of two up to 2^" + N(th ? 20 : 17) + " over 1..3 endless threads", [](Chooser &ch, Case &c) {
    c.p = {ch.pick(pow), 1 + ch.choose(3)};
    c.files = {"function count()\n var i = 0\n while (1)\n  i = i + 1\n end\nend\n"};
    return true;
  }, big_budget));
  // outcome of races: within the interleavings of the language-level model
  static const Strs race = {
      " g = g + x\n return g\n",
      " g = x\n var v = g\n return v\n",
      " sh[0] = x\n return sh[0]\n",
      " var a = sh\n a[1] = g\n g = 5\n return a[1]\n",
      " if (g == 0)\n  g = x\n end\n return g\n",
      " out(x)\n g = x\n out(g)\n",
      " wait(1)\n g = g * 2 + x\n return g\n",
      " new_thread(tc, x)\n return g\n",
      " var l = [g, x]\n g = l\n return l[1]\n",
      " return sh[g]\n",
  };
  out.push_back(make("races", "all pairs of 10 racing bodies: every interleaving of shared accesses in the model; the implementation under every pair of first budgets 0..30 x round robin 1,3", [](Chooser &ch, Case &c) {
    std::string a = ch.pick(race), b = ch.pick(race);
    c.files = {"var g = 0\nvar sh = [10, 11]\nfunction tc(y)\n g = g + y\nend\nfunction ta(x)\n" + a + "end\nfunction tb(x)\n" + b + "end\n"};
    return true;
  }, inclusion));
  out.push_back(make("thread arguments", "script threads with 0..6 parameters given 0..7 arguments of rotating kinds, directly or through variables: outcome against the interleaving model", [](Chooser &ch, Case &c) {
    static const Strs v = {"x", "\"s\" + x", "sh", "4.5", "none", "tb", "[x, sh]"};
    int np = ch.choose(7), na = ch.choose(8), rot = ch.choose(7), how = ch.choose(3);
    std::string ps, use, as;
    for (int i = 0; i < np; i++) { ps += std::string(i ? ", " : "") + char('p' + i); use += std::string(", ") + char('p' + i); }
    for (int i = 0; i < na; i++) as += ", " + v[size_t(i + rot) % v.size()];
    std::string call = how == 0 ? " out(new_thread(tn" + as + "))\n" : how == 1 ? " var k = new_thread\n k(tn" + as + ")\n" : " var k = [tn]\n new_thread(k[0]" + as + ")\n";
    c.files = {"var g = 0\nvar sh = [10, 11]\nfunction tn(" + ps + ")\n out([0" + use + "])\n g = g + 1\n return [1" + use + "]\nend\nfunction ta(x)\n" + call + " return 5\nend\nfunction tb(x)\n return x\nend\n"};
    return true;
  }, inclusion));
  out.push_back(make("many thread arguments", "script and host threads with n parameters, n = 7..40 and around powers of two to 512, given one too few, n, one too many: all of them arrive in order", [](Chooser &ch, Case &c) {
    std::vector<int> ns;
    for (int i = 7; i <= 40; i++) ns.push_back(i);
    for (int k = 64; k <= 512; k *= 2) for (int d = -1; d <= 1; d++) ns.push_back(k + d);
    int n = ch.pick(ns), na = n - 1 + ch.choose(3), how = ch.choose(2), kind = ch.choose(2);
    std::string ps, as, sum;
    for (int i = 0; i < n; i++) { ps += (i ? ", p" : "p") + N(i); sum += (i ? ", p" : "p") + N(i); }
    for (int i = 0; i < na; i++) as += ", " + (kind ? (i % 4 == 0 ? "\"s" + N(i) + "\"" : i % 4 == 1 ? "[x, " + N(i) + "]" : i % 4 == 2 ? "sh" : "x + " + N(i)) : N(i * 3));
    std::string call = how == 0 ? " out(new_thread(tn" + as + "))\n" : " var k = new_thread\n k(tn" + as + ")\n";
    c.files = {"var g = 0\nvar sh = [10, 11]\nfunction tn(" + ps + ")\n out([" + sum + "])\n g = g + 1\n return p" + N(n - 1) + "\nend\nfunction ta(x)\n" + call + " return 5\nend\nfunction tb(x)\n return x\nend\n"};
    return true;
  }, inclusion));
  out.push_back(make("adjacent functions", "1..6 thread functions in a row, each of the sizes {empty, one statement, several}, the k-th started by a thread directly, through a variable or an array, alone or with its neighbours", [](Chooser &ch, Case &c) {
    static const Strs body = {"", " g = g * 10 + @\n", " var l = [@, y]\n out(l)\n g = g * 10 + @\n return l\n"};
    int n = 1 + ch.choose(6), k = ch.choose(n), how = ch.choose(4), shape = ch.choose(4);
    std::string fs;
    for (int i = 0; i < n; i++) {
      int w = shape < 3 ? shape : i % 3;
      if (i == k && w == 0) w = 1;
      std::string b = body[size_t(w)];
      for (size_t q; (q = b.find('@')) != std::string::npos;) b.replace(q, 1, N(i + 1));
      fs += "function t" + N(i) + "(y)\n" + b + "end\n";
    }
    std::string f = "t" + N(k), call = how == 0 ? " new_thread(" + f + ", x)\n" : how == 1 ? " var v = " + f + "\n new_thread(v, x)\n" : how == 2 ? " var v = [0, " + f + "]\n new_thread(v[1], x)\n" : " var v = new_thread\n v(" + f + ", x)\n";
    if (ch.flip()) call += " new_thread(t" + N((k + 1) % n) + ", x + 20)\n";
    bool before = ch.flip();
    c.files = {"var g = 0\n" + (before ? fs : std::string()) + "function ta(x)\n" + call + " return 5\nend\nfunction tb(x)\n return x\nend\n" + (before ? std::string() : fs)};
    return true;
  }, inclusion));
  static const Strs iso = {
      " var a = [x, x + 1]\n var s = \"\"\n var i\n for (i = 0 to 6)\n  a = [a[1], a[0] + a[1]]\n  s = s + a[0] + \",\"\n end\n return [s, a]\n",
      " return f(x, 5)\n",
      " var i = 0\n var s = 0\n while (i < x * 3)\n  i = i + 1\n  if (i % 2)\n   wait(i % 3)\n   s = s + f(i, 2)\n  end\n end\n return s\n",
      " var l = new_array(4)\n l[x % 4] = \"v\" + x\n wait(1)\n return [l, l[0]]\n",
      " var q = x - 2\n out(x)\n return 10 / q\n",
      " var k = f\n return k(k(x, 1), k(x, 2))\n",
      " var p = \"\" + x\n wait(2)\n var q = p + p\n wait(1)\n return q + x\n",
  };
  out.push_back(make("isolation", "all pairs of 7 bodies that share nothing x 2..7 threads x budgets 1..6,17,1000 x started together or staggered", [](Chooser &ch, Case &c) {
    std::string a = ch.pick(iso), b = ch.pick(iso);
    c.files = {"function f(p, n)\n if (n == 0)\n  return p\n end\n var l = [p, n]\n return f(l[0] + l[1], n - 1)\nend\nfunction ta(x)\n" + a + "end\nfunction tb(x)\n" + b + "end\n"};
    static const long bs[] = {1, 2, 3, 4, 5, 6, 17, 1000};
    c.p = {2 + ch.choose(6), bs[ch.choose(8)], ch.choose(2)};
    return true;
  }, isolated));
  out.push_back(make("many threads", "1..200 threads at once, budgets 1,7", [th](Chooser &ch, Case &c) {
    int k = ch.choose(int(iso.size()));
    c.files = {"function f(p, n)\n if (n == 0)\n  return p\n end\n var l = [p, n]\n return f(l[0] + l[1], n - 1)\nend\nfunction ta(x)\n" + iso[size_t(k)] + "end\nfunction tb(x)\n" + iso[size_t(k + 1) % iso.size()] + "end\n"};
    static const long ns[] = {1, 8, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200};
    c.p = {ns[ch.choose(13)], ch.flip() ? 7 : 1, ch.choose(2)};
    return true;
  }, isolated));
}
