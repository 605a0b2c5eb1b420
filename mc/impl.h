// Adapter: drives the real compiler and VM of /repo through their public headers.
#pragma once
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "ref.h"

#include "builtin.h"
#include "codegen.h"
#include "errors.h"
#include "lexer.h"
#include "parser.h"
#include "nano.h"
#include "program.h"
#include "source.h"
#include "thread.h"
#include "thread_error.h"
#include "vm.h"
#include "vm_gc.h"

namespace impl {
using namespace nano;
typedef nano::error_t cerror_t;

// system calls every harness program can use: built-ins + traced host calls
inline const std::vector<ref::Sys> &std_syscalls() {
  static const std::vector<ref::Sys> s = {
      {"abs", 1}, {"min", 2}, {"max", 2}, {"bitand", 2}, {"sin", 1}, {"cos", 1}, {"tan", 1}, {"len", 1}, {"chr", 1},
      {"round", 1}, {"ceil", 1}, {"floor", 1}, {"sqrt", 1}, {"new_thread", -1}, {"wait", 1}, {"new_array", 1},
      {"out", 1}, {"outv", -1}};
  return s;
}

inline void render(std::string &o, const program_t &prog, const value_t *v, std::vector<const value_t *> &seen) {
  char buf[32];
  switch (v->type()) {
  case val_type_none: o += "none"; break;
  case val_type_int: snprintf(buf, sizeof buf, "%d", v->v); o += buf; break;
  case val_type_float: o += ref::fbits(v->f); break;
  case val_type_string: o += '"'; o.append(v->string(), v->strlen()); o += '"'; break;
  case val_type_func: {
    o += "fn:";
    bool ok = false;
    for (auto &f : prog.functions())
      if (f.code_start_ == v->v) { o += f.name_; ok = true; break; }
    if (!ok) { snprintf(buf, sizeof buf, "?%d", v->v); o += buf; }
  } break;
  case val_type_syscall: {
    o += "sys:";
    auto &sc = const_cast<program_t &>(prog).syscalls();
    if (v->v >= 0 && size_t(v->v) < sc.size()) o += sc[v->v].name_;
    else { snprintf(buf, sizeof buf, "?%d", v->v); o += buf; }
  } break;
  case val_type_array: {
    for (size_t i = 0; i < seen.size(); i++)
      if (seen[i] == v) {
        snprintf(buf, sizeof buf, "@%d", int(i));
        o += buf;
        return;
      }
    seen.push_back(v);
    o += '[';
    for (int i = 0; i < v->array_size(); i++) {
      if (i) o += ',';
      render(o, prog, v->array()[i], seen);
    }
    o += ']';
  } break;
  default: snprintf(buf, sizeof buf, "?type%d", int(v->type())); o += buf;
  }
}
inline std::string render(const program_t &prog, const value_t *v) {
  std::string o;
  std::vector<const value_t *> seen;
  render(o, prog, v, seen);
  return o;
}

inline int fault_of(thread_error_t e) {
  switch (e) {
  case thread_error_t::e_success: return ref::F_FINE;
  case thread_error_t::e_bad_type_operation: return ref::F_TYPE;
  case thread_error_t::e_bad_divide_by_zero: return ref::F_DIV0;
  case thread_error_t::e_bad_array_bounds: return ref::F_BOUNDS;
  case thread_error_t::e_bad_array_index: return ref::F_INDEX;
  case thread_error_t::e_bad_array_object: return ref::F_OBJECT;
  case thread_error_t::e_bad_num_args: return ref::F_NARGS;
  case thread_error_t::e_bad_argument: return ref::F_ARG;
  case thread_error_t::e_bad_member_access: return ref::F_MEMBER;
  case thread_error_t::e_bad_syscall: return ref::F_HOST;  // what harness handlers raise
  default: return 100 + int(e);
  }
}

// trace of the harness' host calls (reset per run)
struct Trace {
  std::string t;
  std::function<void(thread_t &)> on_call;  // observer, called at each host call
};
inline Trace *&cur_trace() {
  static Trace *t = nullptr;
  return t;
}
inline void host_out_n(thread_t &t, int32_t nargs, const char *name) {
  Trace *tr = cur_trace();
  std::vector<value_t *> a(nargs > 0 ? nargs : 0);
  for (int i = nargs - 1; i >= 0; i--) a[i] = t.get_stack().pop();
  std::string e = name;
  e += "(";
  for (int i = 0; i < nargs; i++) {
    if (i) e += "|";
    e += render(t.vm().program(), a[i]);
  }
  tr->t += e + ");";
  t.get_stack().push(nargs > 0 ? a[0] : nullptr);
  if (tr->on_call) tr->on_call(t);
}
inline void host_out(thread_t &t, int32_t nargs) { host_out_n(t, nargs, "out"); }
inline void host_outv(thread_t &t, int32_t nargs) { host_out_n(t, nargs, "outv"); }

inline void std_register(nano_t &n) {
  builtins_register(n);
  n.syscall_register("out", 1);
  n.syscall_register("outv", -1);
}
inline void std_resolve(program_t &p) {
  builtins_resolve(p);
  p.syscall_resolve("out", host_out);
  p.syscall_resolve("outv", host_outv);
}

struct Compiled {
  program_t prog;
  std::unique_ptr<nano_t> nano;
  source_manager_t sources;
  cerror_t err;
  bool ok = false, loaded = true;
  Compiled() { nano.reset(new nano_t(prog)); }
};

inline std::unique_ptr<Compiled> compile(const std::vector<std::string> &files, bool optimize,
                                         bool std_sys = true) {
  std::unique_ptr<Compiled> c(new Compiled);
  if (std_sys) std_register(*c->nano);
  c->nano->optimize = optimize;
  for (auto &f : files)
    if (!c->sources.load_from_string(f.c_str())) c->loaded = false;
  c->err.line = line_t{0, 0};
  c->ok = c->nano->build(c->sources, c->err);
  if (c->ok && std_sys) std_resolve(c->prog);
  return c;
}

// ---- outcome of one run, comparable with the model's
struct Outcome {
  bool compiled = false;
  int err_file = 0, err_line = 0;
  std::string err;      // message (impl) or reason (model)
  std::string trace;    // host events
  std::string result;   // value, or fault:<name>@file:line, or nomain
  std::string globals;  // final globals
  uint64_t steps = 0;   // model steps or executed instructions
  bool diverged = false;
  bool endless = false;  // the model ran out of steps in main: trace is what it did until then
  std::string text(bool with_globals = true) const {
    if (diverged) return "DIVERGED";
    if (!compiled) return "REJECT " + std::to_string(err_file) + ":" + std::to_string(err_line);
    return "TRACE " + trace + " RESULT " + result + (with_globals ? " GLOBALS " + globals : "");
  }
};

inline std::string fault_text(int fault, int file, int line) {
  return std::string("fault:") + (fault < 100 ? ref::fault_name(fault) : ("code" + std::to_string(fault - 100)).c_str()) +
         "@" + std::to_string(file) + ":" + std::to_string(line);
}

inline std::string globals_text(const program_t &p, const vm_t &vm) {
  std::map<std::string, std::string> by_name;  // the order of the table means nothing
  for (auto &g : p.globals())
    by_name[g.name_] += g.offset_ >= 0 && size_t(g.offset_) < vm.globals().size() ? render(p, vm.globals()[g.offset_]) : "unset";
  std::string o;
  for (auto &g : by_name) o += g.first + "=" + g.second + ";";
  return o;
}

template <class P, class G> std::string globals_text(const P &prog, const G &g) {  // the model's
  std::map<std::string, std::string> by_name;
  for (auto *d : prog.globals) by_name[d->name] += ref::render(g[size_t(d->slot)]);
  std::string o;
  for (auto &x : by_name) o += x.first + "=" + x.second + ";";
  return o;
}

// how the host drives the main thread
typedef std::function<void(thread_t &)> Driver;
inline void drive_resume(thread_t &t, uint64_t limit = 4000000) {
  while (!t.finished() && t.get_cycle_count() < limit) t.resume(1 << 16);
}

struct RunOpts {
  Driver drive;
  uint64_t limit = 4000000;
  std::function<void(vm_t &)> before;  // install handlers
  std::function<void(thread_t &)> on_call;
  bool init = true;
  bool drive_init = false;  // drive @init with the driver instead of call_init
};

inline void run_program(program_t &prog, Outcome &o, const RunOpts &opt = RunOpts()) {
  Trace tr;
  tr.on_call = opt.on_call;
  cur_trace() = &tr;
  vm_t vm(prog);
  if (opt.before) opt.before(vm);
  auto finish = [&](thread_t *t) {
    o.steps = t->get_cycle_count();
    if (!t->finished()) o.diverged = true;
    else if (t->has_error()) {
      line_t l = t->get_source_line();
      o.result = fault_text(fault_of(t->get_error()), l.file, l.line);
    } else
      o.result = render(prog, t->get_return_value());
    o.trace = tr.t;
    o.globals = globals_text(prog, vm);
    cur_trace() = nullptr;
  };
  if (opt.init) {
    if (opt.drive_init) {
      function_t *f = prog.function_find("@init");
      thread_t *t = f ? vm.new_thread(*f, 0, nullptr) : nullptr;
      if (!t) { o.result = "noinit"; o.trace = tr.t; cur_trace() = nullptr; return; }
      opt.drive(*t);
      if (!t->finished() || t->has_error()) { finish(t); o.result = "init " + o.result; return; }
    } else if (!vm.call_init()) {
      if (vm.thread().empty()) { o.result = "noinit"; o.trace = tr.t; cur_trace() = nullptr; return; }
      finish(vm.thread().back());
      o.result = "init " + o.result;
      return;
    }
  }
  function_t *m = prog.function_find("main");
  if (!m) {
    o.result = "nomain";
    o.trace = tr.t;
    o.globals = globals_text(prog, vm);
    cur_trace() = nullptr;
    return;
  }
  thread_t *t = vm.new_thread(*m, 0, nullptr);
  if (!t) {
    o.result = "badmain";
    o.trace = tr.t;
    o.globals = globals_text(prog, vm);
    cur_trace() = nullptr;
    return;
  }
  if (opt.drive) opt.drive(*t);
  else drive_resume(*t, opt.limit);
  finish(t);
}

inline void compile_outcome(const Compiled &c, Outcome &o) {
  o.compiled = c.ok;
  if (!c.ok) {
    o.err = c.err.error;
    o.err_file = c.err.line.file;
    o.err_line = c.err.line.line;
  }
}

inline Outcome run_impl(const std::vector<std::string> &files, bool optimize, const RunOpts &opt = RunOpts()) {
  Outcome o;
  auto c = compile(files, optimize);
  compile_outcome(*c, o);
  if (c->ok) run_program(c->prog, o, opt);
  return o;
}

// ---- the model's outcome for the same program
struct ModelOpts {
  std::function<void(ref::Machine &)> before;
  uint64_t fuel = 300000;
};
inline void run_model(ref::Built &b, Outcome &o, const program_t *addr_src, const ModelOpts &mo = ModelOpts()) {
  o.compiled = b.ok;
  if (!b.ok) {
    o.err_file = b.err.file;
    o.err_line = b.err.line;
    o.err = b.err.why;
    return;
  }
  ref::Machine m(*b.prog);
  m.fuel = mo.fuel;
  if (addr_src)
    m.addr = [addr_src](const ref::Func *f) {
      const function_t *x = addr_src->function_find(f->name);
      return x ? x->code_start_ : -1;
    };
  if (mo.before) mo.before(m);
  auto globals = [&] {
    o.globals = globals_text(*b.prog, m.g);
  };
  bool initing = true;
  try {
    m.init();
    initing = false;
    auto it = b.prog->by_name.find("main");
    if (it == b.prog->by_name.end() || it->second->sys) o.result = "nomain";
    else if (it->second->nargs != 0) o.result = "badmain";
    else o.result = ref::render(m.invoke(it->second, {}));
  } catch (const ref::Stop &s) {
    o.result = (initing ? "init " : "") + fault_text(s.f, s.file, s.line);
  } catch (const ref::OutOfFuel &e) {
    o.diverged = true;
    o.endless = e.steps && !initing;
  }
  globals();
  o.trace = m.trace;
  o.steps = m.steps;
}
inline Outcome model(const std::vector<std::string> &files, bool optimize, const program_t *addr_src = nullptr,
                     const ModelOpts &mo = ModelOpts()) {
  std::vector<std::string> f = files;
  ref::Built b = ref::build(f, std_syscalls(), optimize);
  Outcome o;
  run_model(b, o, addr_src, mo);
  return o;
}

}  // namespace impl
