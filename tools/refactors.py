#!/usr/bin/env python3
"""behaviour-preserving rewrites of /repo: every check must stay quiet on each of them.
usage (in tools/iso.sh): refactors.py NAME [CHECK...]      list: refactors.py"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/repo/source/"
def rd(f): return open(S + f).read()
def wr(f, s): open(S + f, "w").write(s)
def ed(f, *pairs):
    s = rd(f)
    for a, b in pairs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    wr(f, s)
def cut(f, start, end, new):
    s = rd(f)
    assert s.count(start) == 1, (f, start, s.count(start))
    i = s.index(start); j = s.index(end, i)
    wr(f, s[:i] + new + s[j:])
R = {}
def ref(fn): R[fn.__name__] = fn; return fn

@ref
def thread_arith():
    f = "lib_vm/thread.cpp"
    helpers = '''
template <typename op_t>
bool arith(value_stack_t &stack, const value_t *l, const value_t *r, op_t op) {
  if (!l->is_number() || !r->is_number()) {
    return false;
  }
  const bool both_int = l->is_a<val_type_int>() && r->is_a<val_type_int>();
  if (both_int) {
    stack.push_int(op(l->v, r->v));
  } else {
    stack.push_float(op(l->as_float(), r->as_float()));
  }
  return true;
}

template <typename op_t>
bool compare(value_stack_t &stack, const value_t *l, const value_t *r, op_t op) {
  if (!(l->is_number() && r->is_number())) {
    return false;
  }
  bool res;
  if (l->is_a<val_type_int>() && r->is_a<val_type_int>()) {
    res = op(l->v, r->v);
  } else {
    res = op(l->as_float(), r->as_float());
  }
  stack.push_int(res ? 1 : 0);
  return true;
}

value_t *concat(value_gc_t &gc, const std::string &a, const std::string &b) {
  return gc.new_string(a + b);
}

} // namespace {}
'''
    ed(f, ("} // namespace {}\n", helpers))
    cut(f, "void thread_t::do_INS_ADD_() {", "void thread_t::do_INS_DIV_", '''void thread_t::do_INS_ADD_() {
  const value_t *r = stack_.pop();
  const value_t *l = stack_.pop();
  if (arith(stack_, l, r, [](auto a, auto b) { return a + b; })) {
    return;
  }
  std::string lt, rt;
  const bool any = l->is_a<val_type_string>() || r->is_a<val_type_string>();
  if (any && to_string(lt, l) && to_string(rt, r)) {
    stack_.push(concat(gc_, lt, rt));
    return;
  }
  const auto &handler = vm_.handlers.on_add;
  if (!handler || !handler(*this, l, r)) {
    raise_error(thread_error_t::e_bad_type_operation);
  }
}

void thread_t::do_INS_SUB_() {
  const value_t *r = stack_.pop();
  const value_t *l = stack_.pop();
  if (arith(stack_, l, r, [](auto a, auto b) { return a - b; })) {
    return;
  }
  const auto &handler = vm_.handlers.on_sub;
  if (!handler || !handler(*this, l, r)) {
    raise_error(thread_error_t::e_bad_type_operation);
  }
}

void thread_t::do_INS_MUL_() {
  const value_t *r = stack_.pop();
  const value_t *l = stack_.pop();
  if (arith(stack_, l, r, [](auto a, auto b) { return a * b; })) {
    return;
  }
  const auto &handler = vm_.handlers.on_mul;
  if (!handler || !handler(*this, l, r)) {
    raise_error(thread_error_t::e_bad_type_operation);
  }
}

''')
    body = ""
    for n, o in (("LT", "<"), ("GT", ">"), ("LEQ", "<="), ("GEQ", ">=")):
        body += '''void thread_t::do_INS_%s_() {
  const value_t *r = stack_.pop();
  const value_t *l = stack_.pop();
  if (!compare(stack_, l, r, [](auto a, auto b) { return a %s b; })) {
    set_error_(thread_error_t::e_bad_type_operation);
  }
}

''' % (n, o)
    cut(f, "void thread_t::do_INS_LT_() {", "void thread_t::do_INS_EQ_", body)
    cut(f, "void thread_t::do_INS_EQ_() {", "void thread_t::do_INS_JMP_", '''void thread_t::do_INS_EQ_() {
  const value_t *r = stack_.pop();
  const value_t *l = stack_.pop();
  if (l->is_a<val_type_none>() || r->is_a<val_type_none>()) {
    stack_.push_int(l->type() == r->type());
    return;
  }
  if (compare(stack_, l, r, [](auto a, auto b) { return a == b; })) {
    return;
  }
  if (l->type() == r->type()) {
    switch (l->type()) {
    case val_type_string:
      stack_.push_int(std::string(l->string(), l->strlen()) == std::string(r->string(), r->strlen()));
      return;
    case val_type_func:
      stack_.push_int(l->v == r->v);
      return;
    default:
      break;
    }
  }
  if (vm_.handlers.on_equals && vm_.handlers.on_equals(*this, l, r)) {
    return;
  }
  raise_error(thread_error_t::e_bad_type_operation);
}

''')

@ref
def thread_control():
    f = "lib_vm/thread.cpp"
    ed(f, ('''  // check for any breakpoints
  if (!breakpoints_.empty()) {
    // check if the source line is in our list
    const line_t l = get_source_line();
    if (breakpoints_.count(l)) {
      if (l != last_line_) {
        halted_ = true;
      }
    }
    // keep track of the last source line we were on
    last_line_ = l;
  }
  // increment cycle count
  ++cycles_;
}
''', '''  ++cycles_;
  check_breakpoints_();
}

void thread_t::check_breakpoints_() {
  if (breakpoints_.empty()) {
    return;
  }
  const line_t l = get_source_line();
  const bool moved = l != last_line_;
  last_line_ = l;
  if (moved && breakpoints_.find(l) != breakpoints_.end()) {
    halted_ = true;
  }
}
'''), ('''  for (; cycles; --cycles) {
    tick_gc_(cycles);
    step_imp_();
    if (finished_) {
      if (has_error()) {
        if (vm_.handlers.on_thread_error) {
          vm_.handlers.on_thread_error(*this);
        }
      }
      if (vm_.handlers.on_thread_finish) {
        vm_.handlers.on_thread_finish(*this);
      }
      break;
    }
    if (halted_) {
      break;
    }
  }
''', '''  int32_t left = cycles;
  while (left != 0 && !finished_ && !halted_) {
    tick_gc_(left);
    step_imp_();
    left -= 1;
  }
  if (finished_) {
    notify_finished_();
  }
'''), ('''value_t *thread_t::getv_(''', '''void thread_t::notify_finished_() {
  if (has_error() && vm_.handlers.on_thread_error) {
    vm_.handlers.on_thread_error(*this);
  }
  if (vm_.handlers.on_thread_finish) {
    vm_.handlers.on_thread_finish(*this);
  }
}

value_t *thread_t::getv_('''),
 ('''  // create a new stack frame
  f_.emplace_back();
  frame_().sp_ = sp;
  frame_().return_ = pc;
  frame_().terminal_ = false;
  frame_().callee_ = callee;
''', '''  frame_t frame;
  frame.callee_ = callee;
  frame.return_ = pc;
  frame.sp_ = sp;
  frame.terminal_ = false;
  f_.push_back(frame);
'''), ('''  do {
    tick_gc_(1);
    step_imp_();
    if (finished_) {
      break;
    }
    assert(!f_.empty());
    assert(!has_error());
    // skip over any code that has no source line
  } while (line == get_source_line() || get_source_line() == line_t{});
''', '''  for (;;) {
    tick_gc_(1);
    step_imp_();
    if (finished_) {
      break;
    }
    const line_t now = get_source_line();
    if (now != line && now != line_t{}) {
      break;
    }
  }
'''), ('''  auto itt = breakpoints_.find(line);
  if (itt != breakpoints_.end()) {
    breakpoints_.erase(itt);
  }
''', '''  breakpoints_.erase(line);
'''))
    ed("lib_vm/thread.h", ("  // frame control\n", "  void check_breakpoints_();\n  void notify_finished_();\n\n  // frame control\n"))

@ref
def thread_table():
    """dispatch by a table of member pointers; operands read by memcpy; arrays initialised forward"""
    f = "lib_vm/thread.cpp"
    s = rd(f)
    names = re.findall(r"case INS_(\w+): +do_INS_\w+\(\); +break;", s)
    rows = "".join("    t[INS_%s] = &thread_t::do_INS_%s_;\n" % (n, n) for n in names)
    i = s.index("  // dispatch\n  switch (opcode) {"); j = s.index("  inst_pc_ = -1;\n  // stay")
    s = s[:i] + '''  typedef void (thread_t::*handler_t)();
  static const std::vector<handler_t> table = [] {
    std::vector<handler_t> t(256, nullptr);
%s    return t;
  }();
  if (handler_t h = table[opcode]) {
    (this->*h)();
  } else {
    set_error_(thread_error_t::e_bad_opcode);
  }
''' % rows + s[j:]
    wr(f, s)
    ed(f, ("  const int32_t val = *(int32_t *)(c + pc_);\n", "  int32_t val = 0;\n  memcpy(&val, c + pc_, sizeof(val));\n"),
       ('''  for (int i = operand - 1; i >= 0; --i) {
    value_t *obj = stack_.pop();
    data[i] = obj;
  }
  stack_.push(array);
''', '''  const int32_t base = stack_.head() - operand;
  for (int32_t i = 0; i < operand; ++i) {
    data[i] = stack_.get(base + i);
  }
  stack_.discard(operand);
  stack_.push(array);
'''), ('''  for (int32_t i = 0; i < operand; ++i) {
    stack_.pop();
  };
''', "  stack_.discard(operand);\n"), ('''    vm_.g_.resize(operand);
    memset(vm_.g_.data(), 0, sizeof(value_t*) * operand);
''', "    vm_.g_.assign(operand, nullptr);\n"))

@ref
def vm_rewrite():
    f = "lib_vm/vm.cpp"
    ed(f, ('''  // traverse globals
  gc_->trace(g_.data(), g_.size());
  // traverse thread stack
  for (thread_t *t : threads_) {
    gc_->trace(t->stack_.data(), t->stack_.head());
  }
''', '''  for (auto i = threads_.rbegin(); i != threads_.rend(); ++i) {
    value_stack_t &s = (*i)->stack_;
    gc_->trace(s.data(), s.head());
  }
  gc_->trace(g_.data(), g_.size());
'''), ('''  bool success = true;
  auto itt = threads_.begin();
  for (; itt != threads_.end();) {
    thread_t *t = *itt;
    assert(t);
    if (t->waits) {
      --t->waits;
      ++itt;
      continue;
    }
    if (t->finished() || t->has_error()) {
      // delete the thread
      delete t;
      itt = threads_.erase(itt);
      continue;
    }
    // we will be advancing regardless
    ++itt;
    if (!t->resume(cycles)) {
      // thread has an error
      assert(t->has_error());
      // note: the other threads must still get their turn
      success = false;
    }
  }
  return success;
''', '''  int failed = 0;
  // new threads are added at the front so they are not part of this round
  const std::vector<thread_t *> round(threads_.begin(), threads_.end());
  for (thread_t *t : round) {
    if (t->waits != 0) {
      t->waits -= 1;
    } else if (t->finished() || t->has_error()) {
      threads_.remove(t);
      delete t;
    } else if (!t->resume(cycles)) {
      ++failed;
    }
  }
  return failed == 0;
'''), ('''  for (const auto &t : threads_) {
    if (t->has_error()) {
      return true;
    }
  }
  return false;
''', '''  return std::any_of(threads_.begin(), threads_.end(), [](const thread_t *t) { return t->has_error(); });
'''), ('''  for (const auto &t : threads_) {
    if (!t->finished()) {
      return false;
    }
  }
  return true;
''', '''  return std::all_of(threads_.begin(), threads_.end(), [](const thread_t *t) { return t->finished(); });
'''), ("#include <climits>\n", "#include <algorithm>\n#include <climits>\n#include <vector>\n"),
  ('''  while (!t->finished()) {
    if (!t->resume(1024 * 8)) {
      return false;
    }
  }
  return true;
''', '''  bool ok = true;
  while (ok && !t->finished()) {
    ok = t->resume(4096);
  }
  return ok;
'''), ("thread->resume(128 * 1024)", "thread->resume(1000)"),
  ('''  std::unique_ptr<thread_t> t(new thread_t(*this));
  if (!t->prepare(func, argc, argv)) {
    return nullptr;
  }
  thread_t *inst = t.get();
  // insert into the thread list
  threads_.push_front(t.release());
  return inst;
''', '''  thread_t *t = new thread_t(*this);
  if (!t->prepare(func, argc, argv)) {
    delete t;
    return nullptr;
  }
  threads_.insert(threads_.begin(), t);
  return t;
'''))

@ref
def gc_rewrite():
    """breadth first, one allocation helper, threshold by multiplication, clears in the other order"""
    f = "lib_vm/vm_gc.cpp"
    cut(f, "void value_gc_t::trace(", "} // namespace nano", '''static size_t extra_bytes(const value_t *v) {
  switch (v->type()) {
  case val_type_string: return size_t(v->v) + 1;
  case val_type_array:  return size_t(v->v) * sizeof(value_t *);
  default:              return 0;
  }
}

void value_gc_t::trace(value_t **list, size_t num) {
  arena_t &to = space_from();
  std::deque<std::pair<value_t **, size_t>> todo;
  todo.emplace_back(list, num);
  while (!todo.empty()) {
    value_t **cur = todo.front().first;
    const size_t count = todo.front().second;
    todo.pop_front();
    for (value_t **p = cur; p != cur + count; ++p) {
      value_t *v = *p;
      if (!v || to.owns(v)) {
        continue;
      }
      value_t *n = forward_find(v);
      if (!n) {
        const size_t extra = extra_bytes(v);
        n = to.alloc<value_t>(extra);
        memcpy((void *)n, (const void *)v, sizeof(value_t) + extra);
        forward_add(v, n);
        if (n->is_a<val_type_array>()) {
          todo.emplace_back(n->array(), size_t(n->array_size()));
        }
      }
      *p = n;
    }
  }
}

''')
    ed(f, ('#include <string.h>\n', '#include <string.h>\n#include <deque>\n'),
       ('''  const size_t x = (space_to().size() * 100) / space_to().capacity();
''', ""), ("  return x > 75;\n", "  const size_t percent = space_to().size() * 100 / space_to().capacity();\n  return !(percent <= 75);\n"),
       ('''  swap();
  space_from().clear();
  forward_clear();
''', '''  forward_clear();
  space_to().clear();
  swap();
'''), ('''  const int32_t size = int32_t(value.size());
  value_t *v = space_to().alloc<value_t>(value.size() + 1);
  assert(v);
  v->type_ = val_type_string;
  v->v = size;
  // copy string
  memcpy((char *)(v + 1), value.data(), size);
  // insert '\\0' terminator
  v->string()[size] = 0;
  return v;
''', '''  value_t *v = new_string(int32_t(value.size()));
  char *dst = v->string();
  for (char c : value) {
    *dst++ = c;
  }
  *dst = 0;
  return v;
'''), ('''    value_t *v = new_string(a.strlen());
    memcpy(v->string(), a.string(), a.strlen());
    v->string()[a.strlen()] = 0;
    return v;
''', "    return new_string(std::string(a.string(), a.strlen()));\n"))

@ref
def gc_other_shape():
    """values padded to eight bytes and an earlier collection: placement is not part of the behaviour"""
    ed("lib_vm/vm_gc.h", ("      head_ += size + extra;\n", "      head_ += (size + extra + 7) & ~size_t(7);\n"))
    ed("lib_vm/vm_gc.cpp", ("  return x > 75;", "  return x > 50;"))

@ref
def value_rewrite():
    f = "lib_vm/value.h"
    ed(f, ('''    for (uint32_t i = 0; i < operand; ++i) {
      stack_.emplace_back(nullptr);
    }
''', "    stack_.insert(stack_.end(), operand, nullptr);\n"),
     ('''    for (uint32_t i = 0; i < num; ++i) {
      assert(!stack_.empty());
      stack_.pop_back();
    }
''', "    assert(stack_.size() >= num);\n    stack_.resize(stack_.size() - num);\n"),
     ('''    value_t *out = stack_.back();
    stack_.pop_back();
    return out;
''', '''    value_t *out = peek();
    stack_.resize(stack_.size() - 1);
    return out;
'''),
     ('''    return type() == val_type_float ||
           type() == val_type_int;
''', '''    switch (type()) {
    case val_type_int:
    case val_type_float: return true;
    default:             return false;
    }
'''),
     ('''    if (index >= 0 && index < head()) {
      stack_[index] = val;
    }
    else {
      set_error(thread_error_t::e_bad_setv);
    }
''', '''    if (index < 0 || index >= head()) {
      set_error(thread_error_t::e_bad_setv);
      return;
    }
    stack_.at(index) = val;
'''))
    ed("lib_vm/value.cpp", ('''  const int32_t len = int32_t(v.size());
  value_t *s = gc_.new_string(len);
  memcpy(s->string(), v.data(), len);
  s->string()[len] = '\\0';
  push(s);
''', "  push(gc_.new_string(v));\n"))

@ref
def program_rewrite():
    f = "lib_common/program.cpp"
    ed(f, ('''  // emit locals
  emit(fd, int32_t(f.locals_.size()));
  for (const auto &i : f.locals_) {
    emit(fd, i.name_);
    emit(fd, i.offset_);
  }
  // emit args
  emit(fd, int32_t(f.args_.size()));
  for (const auto &i : f.args_) {
    emit(fd, i.name_);
    emit(fd, i.offset_);
  }
''', '''  emit(fd, f.locals_);
  emit(fd, f.args_);
'''), ("void emit(FILE *fd, const nano::function_t &f) {", '''void emit(FILE *fd, const std::vector<nano::identifier_t> &ids) {
  emit(fd, int32_t(ids.size()));
  for (size_t i = 0; i < ids.size(); ++i) {
    emit(fd, ids[i].name_);
    emit(fd, ids[i].offset_);
  }
}

void emit(FILE *fd, const nano::function_t &f) {'''),
   ('''  emit(fd, int32_t(globals_.size()));
  for (const auto &g : globals_) {
    emit(fd, g.name_);
    emit(fd, g.offset_);
  }
''', "  emit(fd, globals_);\n"),
   ('''  // emit locals
  int32_t num_locals = 0;
  TRY(consume_size(fd, num_locals));
  for (int i = 0; i < num_locals; ++i) {
    f.locals_.emplace_back();
    auto &local = f.locals_.back();
    TRY(consume(fd, local.name_));
    TRY(consume(fd, local.offset_));
  }
  // emit args
  int32_t num_args = 0;
  TRY(consume_size(fd, num_args));
  for (int i = 0; i < num_args; ++i) {
    f.args_.emplace_back();
    auto &arg = f.args_.back();
    TRY(consume(fd, arg.name_));
    TRY(consume(fd, arg.offset_));
  }
  return true;
''', "  return consume(fd, f.locals_) && consume(fd, f.args_);\n"),
   ("bool consume(FILE *fd, nano::function_t &f) {", '''bool consume(FILE *fd, std::vector<nano::identifier_t> &ids) {
  int32_t num = 0;
  TRY(consume_size(fd, num));
  while (num-- > 0) {
    nano::identifier_t id;
    TRY(consume(fd, id.name_) && consume(fd, id.offset_));
    ids.push_back(id);
  }
  return true;
}

bool consume(FILE *fd, nano::function_t &f) {'''),
   ('''  int32_t num_globals = 0;
  TRY(consume_size(fd, num_globals));
  for (int32_t i = 0; i < num_globals; ++i) {
    globals_.emplace_back();
    TRY(consume(fd, globals_.back().name_));
    TRY(consume(fd, globals_.back().offset_));
  }
  // done
  return true;
''', "  return consume(fd, globals_);\n"))
    s = rd(f)
    i = s.index("function_t *program_t::function_find(const std::string &name) {"); j = s.index("const function_t *program_t::function_find(int32_t pc) const")
    s = s[:i] + '''function_t *program_t::function_find(const std::string &name) {
  const program_t &self = *this;
  return const_cast<function_t *>(self.function_find(name));
}

function_t *program_t::function_find(int32_t pc) {
  const program_t &self = *this;
  return const_cast<function_t *>(self.function_find(pc));
}

''' + s[j:]
    wr(f, s)

@ref
def program_format():
    """the sections of the file in another order, another magic number: only save-then-load is promised"""
    f = "lib_common/program.cpp"
    s = rd(f)
    def move(start, end, before):
        nonlocal s
        i = s.index(start); j = s.index(end, i)
        t = s[i:j]; s = s[:i] + s[j:]
        k = s.index(before)
        s = s[:k] + t + s[k:]
    move("  // emit the string table\n  emit(fd, int32_t(strings_.size()));", "  // emit the globals\n", "  // emit syscalls\n")
    move("  // emit the string table\n  int32_t strings_size", "  // read the globals\n", "  // read syscalls\n")
    wr(f, s)

@ref
def codegen_helpers():
    f = "lib_compiler/codegen.cpp"
    ed(f, ('''    if (n->expr) {
      dispatch(n->expr);
    } else {
      emit(INS_NEW_NONE, n->token);
    }
    const auto *func = stack.front()->cast<ast_decl_func_t>();
    assert(func);
    const int32_t space = int32_t(func->args.size()) + func->stack_size;
    emit(INS_RET, space, n->token);
''', '''    if (!n->expr) {
      emit(INS_NEW_NONE, n->token);
    } else {
      dispatch(n->expr);
    }
    emit(INS_RET, frame_size_(), n->token);
'''), ('''      emit(INS_NEW_INT, 0, n->end);
      const auto *f = stack.front()->cast<ast_decl_func_t>();
      const int32_t operand = int32_t(f->args.size()) + f->stack_size;
      emit(INS_RET, operand, n->end);
''', '''      emit(INS_NEW_INT, 0, n->end);
      emit(INS_RET, frame_size_(), n->end);
'''), ('''    const auto *ast_func = stack.front()->cast<ast_decl_func_t>();
    const int32_t operand = int32_t(ast_func->args.size()) + ast_func->stack_size;
    emit(INS_RET, operand, nullptr);
''', "    emit(INS_RET, frame_size_(), nullptr);\n"), ('''    int32_t offset = 0;
    for (ast_node_t *n : nano_.ast().program.children) {
      if (auto *d = n->cast<ast_decl_var_t>()) {
        if (d->is_const) {
          continue;
        }
        ++offset;
      }
    }

''', ""), ('''  // return the current output head
''', '''  // number of arguments and locals of the current function
  int32_t frame_size_() const {
    const auto *func = stack.front()->cast<ast_decl_func_t>();
    return func->stack_size + int32_t(func->args.size());
  }

  // return the current output head
'''), ('''    bool is_return = false;
    dispatch(n->body);
    if (n->body) {
      for (ast_node_t *c : n->body->nodes) {
        is_return = c->is_a<ast_stmt_return_t>();
      }
    }
''', '''    dispatch(n->body);
    const bool is_return = n->body && !n->body->nodes.empty() &&
                           n->body->nodes.back()->is_a<ast_stmt_return_t>();
'''), ('''    const int32_t index = int32_t(strings_.size());
    strings_.push_back(str);
    return index;
''', '''    // share equal strings
    for (size_t i = 0; i < strings_.size(); ++i) {
      if (strings_[i] == str) {
        return int32_t(i);
      }
    }
    strings_.push_back(str);
    return int32_t(strings_.size()) - 1;
'''), ('''  int32_t add_string_(const std::string &str) {
''', '''  int32_t add_string_(const std::string &str) {
'''), ('''    dispatch(n->left);
    dispatch(n->right);
    emit(tok_to_ins_(n->op), n->token);
''', '''    const instruction_e ins = tok_to_ins_(n->op);
    dispatch(n->left);
    dispatch(n->right);
    emit(ins, n->token);
'''))

@ref
def codegen_loops():
    """while as test-at-top, if without else through the common path"""
    f = "lib_compiler/codegen.cpp"
    cut(f, "    // initial jump to L1 --->\n    emit(INS_JMP, 0, n->token);\n    uint32_t to_L1 = get_fixup();\n\n    // L0 <---\n    const int32_t L0 = pos();\n    // emit the while loop body", "  void visit(ast_stmt_for_t* n) override", '''    const int32_t top = pos();
    dispatch(n->expr);
    emit(INS_FJMP, 0, n->token);
    const uint32_t to_end = get_fixup();
    dispatch(n->body);
    emit(INS_JMP, top, n->token);
    stream_.apply_fixup(to_end, pos());
  }

''')

@ref
def pregen_rewrite():
    """every local gets its own slot, globals keep theirs"""
    f = "lib_compiler/pre_codegen.cpp"
    ed(f, ('''        n->offset = offset_.back();
        offset_.back()++;
        stack_size_ = std::max<int32_t>(stack_size_, offset_.back());
''', '''        n->offset = stack_size_++;
'''))

@ref
def pregen_globals():
    """globals numbered from the end of the file"""
    f = "lib_compiler/pre_codegen.cpp"
    ed(f, ('''    for (auto &f : a->children) {
      // collect global offsets
''', '''    int32_t count = 0;
    for (auto &f : a->children) {
      auto *n = f->cast<ast_decl_var_t>();
      count += n && !n->is_const;
    }
    for (auto &f : a->children) {
      // collect global offsets
'''), ('''          n->offset = global_offset_;
          ++global_offset_;
''', '''          ++global_offset_;
          n->offset = count - global_offset_;
'''))

@ref
def functions_order():
    """@init first, functions emitted in reverse order"""
    f = "lib_compiler/codegen.cpp"
    ed(f, ('''    for (ast_node_t *c : n->children) {
      if (c->is_a<ast_decl_func_t>()) {
        dispatch(c);
      }
      if (c->is_a<ast_decl_var_t>()) {
        dispatch(c);
      }
    }
''', '''    for (ast_node_t *c : n->children) {
      if (c->is_a<ast_decl_var_t>()) {
        dispatch(c);
      }
    }
    for (auto i = n->children.rbegin(); i != n->children.rend(); ++i) {
      if ((*i)->is_a<ast_decl_func_t>()) {
        dispatch(*i);
      }
    }
'''))

@ref
def lexer_table():
    f = "lib_compiler/lexer.cpp"
    cut(f, "    // parse keywords\n    switch (tolower(*s)) {", "    case '(':\n", '''    // parse keywords
    if (keyword_(s)) {
      continue;
    }
    switch (*s) {
''')
    ed(f, ("void lexer_t::push_(token_e tok) {", '''bool lexer_t::keyword_(const char *&s) {
  static const struct { const char *text; token_e tok; } words[] = {
    {"and", TOK_AND}, {"const", TOK_CONST}, {"else", TOK_ELSE}, {"end", TOK_END},
    {"for", TOK_FOR}, {"function", TOK_FUNC}, {"if", TOK_IF}, {"import", TOK_IMPORT},
    {"none", TOK_NONE}, {"not", TOK_NOT}, {"or", TOK_OR}, {"return", TOK_RETURN},
    {"to", TOK_TO}, {"var", TOK_VAR}, {"while", TOK_WHILE},
  };
  for (const auto &w : words) {
    if (munch(s, w.text)) {
      push_(w.tok);
      return true;
    }
  }
  return false;
}

void lexer_t::push_(token_e tok) {'''), ('''    if (*s == ' ') {
      continue;
    }
    if (*s == '\\r') {
      continue;
    }
    if (*s == '\\t') {
      continue;
    }
''', '''    if (is_space(*s)) {
      continue;
    }
'''), ("bool is_numeric(const char t) {", '''bool is_space(const char t) {
  return t == ' ' || t == '\\r' || t == '\\t';
}

bool is_numeric(const char t) {'''),
 ('''      const char *b = s + 1;
      for (++s; ; ++s) {
        if (*s == '"') {
          break;
        }
        if (*s == '\\n' || *s == '\\0') {
          // raise an error
          nano_.errors().string_quote_mismatch(line_);
          return false;
        }
      }
      push_string_(b, s);
''', '''      const char *b = ++s;
      s += strcspn(s, "\\"\\n");
      if (*s != '"') {
        nano_.errors().string_quote_mismatch(line_);
        return false;
      }
      push_string_(b, s);
'''), ("#include <cstdlib>\n", "#include <cstdlib>\n#include <cstring>\n"),
 ('''      for ( ;is_numeric(*t); ++t);
      if (*t == '.') {
        ++t;
        for ( ;is_numeric(*t); ++t);
      }

      if (t != s) {
        push_val_(s, t);
        s = t - 1; // (-1 because of ++ in forloop)
        continue;
      }
''', '''      while (is_numeric(*t)) {
        ++t;
      }
      if (*t == '.') {
        do {
          ++t;
        } while (is_numeric(*t));
      }
      push_val_(s, t);
      s = t - 1; // (-1 because of ++ in forloop)
      continue;
'''))
    ed("lib_compiler/lexer.h", ("  void push_(token_e);\n", "  bool keyword_(const char *&s);\n  void push_(token_e);\n"))

@ref
def parser_helpers():
    f = "lib_compiler/parser.cpp"
    s = rd(f)
    # blank lines
    s = s.replace('''  stream_.pop(TOK_EOL);
  // consume any blank lines
  while (stream_.found(TOK_EOL));
''', "  expect_lines_();\n")
    s = s.replace('''      stream_.pop(TOK_EOL);
      // consume any blank lines
      while (stream_.found(TOK_EOL));
''', "      expect_lines_();\n")
    body = '''  stmt->body = ast.alloc<ast_block_t>();
  while (!stream_.found(TOK_END)) {
    ast_node_t *child = parse_stmt_();
    stmt->body->add(child);
  }
'''
    assert s.count(body) == 2
    s = s.replace(body, "  stmt->body = parse_body_();\n")
    e = '''    stmt->else_block = ast.alloc<ast_block_t>();
    while (!stream_.found(TOK_END)) {
      ast_node_t *s = parse_stmt_();
      stmt->else_block->add(s);
    }
'''
    assert s.count(e) == 1
    s = s.replace(e, "    stmt->else_block = parse_body_();\n")
    s = s.replace("ast_node_t* parser_t::parse_if_(", '''// one or more ends of line
void parser_t::expect_lines_() {
  token_stream_t &stream_ = nano_.lexer().stream();
  stream_.pop(TOK_EOL);
  while (stream_.found(TOK_EOL)) {
    // skip
  }
}

// statements up to an end
ast_block_t *parser_t::parse_body_() {
  token_stream_t &stream_ = nano_.lexer().stream();
  ast_block_t *block = nano_.ast().alloc<ast_block_t>();
  for (; !stream_.found(TOK_END);) {
    block->add(parse_stmt_());
  }
  return block;
}

ast_node_t* parser_t::parse_if_(''')
    lhs0 = s.index("  do {\n\n    // [ <expr> , <expr> , ... ]\n"); lhs1 = s.index("void parser_t::parse_expr_ex_(")
    s = s[:lhs0] + '''  const token_t *t = stream_.pop();
  ast_node_t *expr = nullptr;
  switch (t->type_) {
  case TOK_LBRACKET:
    expr = parse_array_init_(*t);
    stream_.pop(TOK_RBRACKET);
    break;
  case TOK_LPAREN:
    expr = parse_expr_();
    stream_.pop(TOK_RPAREN);
    break;
  case TOK_IDENT:
    if (stream_.found(TOK_DOT)) {
      expr = ast.alloc<ast_exp_member_t>(t, stream_.pop(TOK_IDENT));
    } else {
      expr = ast.alloc<ast_exp_ident_t>(t);
    }
    break;
  case TOK_INT:
    expr = ast.alloc<ast_exp_lit_var_t>(t);
    break;
  case TOK_FLOAT:
    expr = ast.alloc<ast_exp_lit_float_t>(t);
    break;
  case TOK_STRING:
    expr = ast.alloc<ast_exp_lit_str_t>(t);
    break;
  case TOK_NONE:
    expr = ast.alloc<ast_exp_none_t>(t);
    break;
  default:
    nano_.errors().expecting_lit_or_ident(*t);
  }
  exp_stack_.push_back(expr);
}

''' + s[lhs1:]
    wr(f, s)
    ed("lib_compiler/parser.h", ("  // expressions parsing helpers\n", "  void expect_lines_();\n  ast_block_t *parse_body_();\n\n  // expressions parsing helpers\n"))

@ref
def sema_rewrite():
    f = "lib_compiler/sema.cpp"
    s = rd(f)
    a = '''    for (auto s = scope_.rbegin(); s != scope_.rend(); ++s) {
      for (auto d : *s) {
        if (auto *m = d->cast<ast_decl_func_t>()) {
          if (m->name.c_str() == name)
            return m;
          else
            continue;
        }
        if (auto *m = d->cast<ast_decl_var_t>()) {
          if (m->name->str_ == name)
            return m;
          else
            continue;
        }
      }
    }
    return out;
'''
    assert s.count(a) == 1
    s = s.replace(a, '''    for (size_t k = scope_.size(); k-- > 0;) {
      for (ast_node_t *d : scope_[k]) {
        const auto *func = d->cast<ast_decl_func_t>();
        const auto *var = d->cast<ast_decl_var_t>();
        if ((func && func->name == name) || (var && var->name->str_ == name)) {
          return d;
        }
      }
    }
    return out;
''')
    for k in ("var", "array", "member"):
        err = {"var": "unknown_variable", "array": "unknown_array", "member": "unknown_identifier"}[k]
        a = '''    ast_node_t *found = find_decl(n->name->str_);
    if (!found) {
      errs_.%s(*n->name);
    }
    n->decl = found->cast<ast_decl_var_t>();
    if (!n->decl) {
      errs_.%s(*n->name);
    }
''' % (err, err)
        assert s.count(a) == 1
        s = s.replace(a, '''    n->decl = find_var_(*n->name);
    if (!n->decl) {
      errs_.%s(*n->name);
    }
''' % err)
    s = s.replace("  ast_node_t *find_decl(const std::string &name) {", '''  ast_decl_var_t *find_var_(const token_t &name) {
    ast_node_t *found = find_decl(name.str_);
    return found ? found->cast<ast_decl_var_t>() : nullptr;
  }

  ast_node_t *find_decl(const std::string &name) {''')
    a = '''    for (const auto &s : scope_) {
      for (const auto &n : s) {
        if (n == name) {
          return true;
        }
      }
    }
    return false;
'''
    assert s.count(a) == 1
    s = s.replace(a, '''    bool found = false;
    for (const auto &s : scope_) {
      found |= s.count(name) > 0;
    }
    return found;
''')
    a = '''    if (n->decl->is_const) {
      errs_.cant_assign_const(*n->name);
    }
    ast_visitor_t::visit(n);
'''
    assert s.count(a) == 4
    s = s.replace(a, '''    check_not_const_(*n->decl, *n->name);
    ast_visitor_t::visit(n);
''').replace("  // copy a literal, placing it where", '''  void check_not_const_(const ast_decl_var_t &decl, const token_t &name) {
    if (decl.is_const) {
      errs_.cant_assign_const(name);
    }
  }

  // copy a literal, placing it where''')
    wr(f, s)

@ref
def opt_rewrite():
    f = "lib_compiler/optimize.cpp"
    s = rd(f)
    a = '''    int32_t v = 0;
    if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
      if (eval_(e, v)) {
        s->expr = literal_(v, e->token);
      }
    }
'''
    assert s.count(a) == 4
    s = s.replace(a, "    s->expr = fold_(s->expr);\n")
    s = s.replace("  // create a literal which keeps the source line", '''  ast_node_t *fold_(ast_node_t *n) {
    int32_t v = 0;
    if (auto *e = n->cast<ast_exp_bin_op_t>()) {
      return eval_(e, v) ? literal_(v, e->token) : n;
    }
    return n;
  }

  // create a literal which keeps the source line''')
    a = s[s.index("    bool found_return = false;"):s.index("protected:\n  error_manager_t &errs_;\n};\n\n// ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----\n//\n// remove unreachable")]
    s = s.replace(a, '''    auto &nodes = n->nodes;
    auto last = nodes.begin();
    while (last != nodes.end() && !(*last)->is_a<ast_stmt_return_t>()) {
      ++last;
    }
    if (last != nodes.end()) {
      nodes.erase(last + 1, nodes.end());
    }
  }

''')
    wr(f, s)

@ref
def opt_stronger():
    """unary operators fold too, dead code is removed in nested blocks: the optimiser may do more"""
    f = "lib_compiler/optimize.cpp"
    ed(f, ('''        found_return = (*i)->is_a<ast_stmt_return_t>();
        ++i;
      }
    }
''', '''        found_return = (*i)->is_a<ast_stmt_return_t>();
        ++i;
      }
    }
    ast_visitor_t::visit(n);
'''))

@ref
def opt_less():
    """the optimiser may do less"""
    ed("lib_compiler/optimize.cpp", ("    opt_if_remove_t   (nano).visit(&(nano.ast().program));\n", ""))

@ref
def builtins_table():
    f = "lib_builtins/builtin.cpp"
    s = rd(f)
    for n in ("sin", "cos", "tan", "round", "floor", "ceil", "sqrt"):
        a = '''  const nano::value_t *v = t.get_stack().pop();
  if (v && (v->is_number())) {
    const float x = v->as_float();
    t.get_stack().push_float(%sf(x));
    return;
  }
  t.raise_error(thread_error_t::e_bad_argument);
''' % n
        assert s.count(a) == 1
        s = s.replace(a, "  apply(t, [](float x) { return %sf(x); });\n" % n)
    s = s.replace("static void builtin_abs(", '''template <typename fn_t>
static void apply(struct nano::thread_t &t, fn_t fn) {
  value_stack_t &stack = t.get_stack();
  const nano::value_t *v = stack.pop();
  if (!v->is_number()) {
    t.raise_error(thread_error_t::e_bad_argument);
    return;
  }
  stack.push_float(fn(v->as_float()));
}

static void builtin_abs(''')
    i = s.index("  for (auto &itt : prog.syscalls()) {"); j = s.index("} // namespace nano", i)
    s = s[:i] + '''  for (const auto &i : map) {
    prog.syscall_resolve(i.first, i.second);
  }
}

''' + s[j:]
    a = '''    const int32_t res = (v->v < 0) ? (-v->v) : (v->v);
    t.get_stack().push_int(res);
'''
    assert s.count(a) == 1
    s = s.replace(a, '''    int32_t res = v->v;
    if (res < 0) {
      res = -res;
    }
    t.get_stack().push_int(res);
''')
    a = '''  std::vector<const value_t *> args;
  args.resize(nargs - 1);
  for (int i = 1; i < nargs; ++i) {
    args[args.size() - i] = t.get_stack().pop();
  }
'''
    assert s.count(a) == 1
    s = s.replace(a, '''  std::vector<const value_t *> args;
  while (int32_t(args.size()) < nargs - 1) {
    args.insert(args.begin(), t.get_stack().pop());
  }
''')
    wr(f, s)

@ref
def source_rewrite():
    f = "lib_common/source.cpp"
    ed(f, ('''  const size_t last1 = in.rfind('/');
  const size_t last2 = in.rfind('\\\\');
  const size_t last = std::max(last1 == std::string::npos ? 0 : last1,
                               last2 == std::string::npos ? 0 : last2);
  in.resize(last);
  return in;
''', '''  const size_t last = in.find_last_of("/\\\\");
  return in.substr(0, last == std::string::npos ? 0 : last);
'''), ('''  std::string base = base_path(s.file_path());
  in_out = base + "/" + in_out;
''', '''  in_out.insert(0, base_path(s.file_path()) + "/");
'''))
    f = "lib_common/source.h"
    ed(f, ('''    if (num + 1 == _lines.size()) {
      out.assign(_lines[num]);
      return true;
    }
    if (num < _lines.size()) {
      out.assign(_lines[num], _lines[num + 1]);
      return true;
    }
    return false;
''', '''    if (num >= _lines.size()) {
      return false;
    }
    const bool last = num == _lines.size() - 1;
    const char *end = last ? _lines[num] + strlen(_lines[num]) : _lines[num + 1];
    out = std::string(_lines[num], end);
    return true;
'''), ('''    _lines.clear();
    const char *ptr = _data.get();
    _lines.push_back(ptr);
    for (; *ptr != '\\0'; ++ptr) {
      switch (*ptr) {
      case '\\n':
        _lines.push_back(ptr + 1);
        break;
      case '\\0':
        _lines.push_back(ptr);
        return;
      }
    }
''', '''    const char *ptr = _data.get();
    _lines.assign(1, ptr);
    while (const char *nl = strchr(ptr, '\\n')) {
      ptr = nl + 1;
      _lines.push_back(ptr);
    }
'''))

@ref
def driver_rewrite():
    f = "driver/driver.cpp"
    s = rd(f)
    s = s.replace('''  if (res->is_a<val_type_int>()) {
    fprintf(fd, "%d", int32_t(res->v));
  }
  if (res->is_a<val_type_string>()) {
    fprintf(fd, "\\"%s\\"", res->string());
  }
  if (res->is_a<val_type_array>()) {
    fprintf(fd, "array");
  }
  if (res->is_a<val_type_float>()) {
    fprintf(fd, "%f", res->as_float());
  }
  if (res->is_a<val_type_func>()) {
    fprintf(fd, "function");
  }
''', '''  switch (res->type()) {
  case val_type_int:    fprintf(fd, "%d", int32_t(res->v)); break;
  case val_type_string: fprintf(fd, "\\"%s\\"", res->string()); break;
  case val_type_array:  fputs("array", fd); break;
  case val_type_float:  fprintf(fd, "%f", res->as_float()); break;
  case val_type_func:   fputs("function", fd); break;
  default: break;
  }
''')
    s = s.replace('''  nano::value_t *res = nullptr;
  {
    thread_error_t error = thread_error_t::e_success;
    if (!vm.call_once(*func, 0, nullptr, res, error)) {

        // XXX: 

//      on_runtime_error(error, sources);
      return -6;
    }
  }
''', '''  nano::value_t *res = nullptr;
  thread_error_t error = thread_error_t::e_success;
  const bool ok = vm.call_once(*func, 0, nullptr, res, error);
  if (!ok) {
    return -6;
  }
''')
    s = s.replace('''  char buffer[80] = {'\\0'};
  fgets(buffer, sizeof(buffer), stdin);
  for (size_t i = 0; i < sizeof(buffer); ++i) {
    buffer[i] = (buffer[i] == '\\n') ? '\\0' : buffer[i];
  }
  buffer[79] = '\\0';
  t.get_stack().push_string(std::string{buffer});
''', '''  char buffer[80] = {'\\0'};
  std::string line;
  if (fgets(buffer, sizeof(buffer), stdin)) {
    line = buffer;
  }
  const size_t nl = line.find('\\n');
  if (nl != std::string::npos) {
    line.resize(nl);
  }
  t.get_stack().push_string(line);
''')
    assert s != rd(f)
    wr(f, s)

@ref
def nano_rewrite():
    f = "lib_compiler/nano.cpp"
    ed(f, ('''    int32_t index = 0;
    for (; index < sources.count(); ++index) {
      // find the next uncompiled source
      const source_t &src = sources.get_source(index);
      source_ = &src;
      // create a lexer for this file
      lexer_.emplace_back(new lexer_t(*this));
      // lex this source file into tokens
      if (!lexer().lex(src.data(), index)) {
        return false;
      }
      // parse into instructions
      if (!parser_->parse(error)) {
        return false;
      }
    }
''', '''    for (int32_t index = 0; index < sources.count(); ++index) {
      if (!compile_source_(sources.get_source(index), index, error)) {
        return false;
      }
    }
'''), ("void nano_t::reset() {", '''bool nano_t::compile_source_(const source_t &src, int32_t index, error_t &error) {
  source_ = &src;
  std::unique_ptr<lexer_t> lex(new lexer_t(*this));
  lexer_.push_back(std::move(lex));
  return lexer().lex(src.data(), index) && parser_->parse(error);
}

void nano_t::reset() {'''), ('''  if (num_args < 0) {
    // this signals var args
    func->is_varargs = true;
  }
  else {
    for (int32_t i = 0; i < num_args; ++i) {
      func->args.emplace_back(nullptr);
    }
  }
  auto &prog = ast_->program;
  prog.children.push_back(func);
''', '''  func->is_varargs = num_args < 0;
  func->args.resize(num_args > 0 ? num_args : 0, nullptr);
  ast_->program.children.push_back(func);
'''))
    ed("lib_compiler/nano.h", ("  // the current program we are building\n", "  bool compile_source_(const source_t &src, int32_t index, error_t &error);\n\n  // the current program we are building\n"))

@ref
def ast_rewrite():
    """the syntax tree: gc by a sorted list, reset through the destructor path"""
    f = "lib_compiler/ast.cpp"
    ed(f, ('''  for (auto itt = allocs_.begin(); itt != allocs_.end();) {
    if (!visitor.found(*itt)) {
      delete *itt;
      itt = allocs_.erase(itt);
    }
    else {
      ++itt;
    }
  }
''', '''  decltype(allocs_) keep;
  for (auto *x : allocs_) {
    if (visitor.found(x)) {
      keep.insert(keep.end(), x);
    } else {
      delete x;
    }
  }
  allocs_.swap(keep);
'''))

@ref
def error_texts():
    """other wording of the compile errors' texts is NOT behaviour-preserving for a user of messages; only the order of the checks inside one call here"""
    f = "lib_compiler/sema.cpp"
    ed(f, ('''          if (call->args.size() > callee->args.size()) {
            errs_.too_many_args(*ident->name);
          }
          if (call->args.size() < callee->args.size()) {
            errs_.not_enought_args(*ident->name);
          }
''', '''          const size_t have = call->args.size();
          const size_t want = callee->args.size();
          if (have < want) {
            errs_.not_enought_args(*ident->name);
          } else if (have > want) {
            errs_.too_many_args(*ident->name);
          }
'''))

@ref
def sdl_rewrite():
    f = "driver_sdl/driver.cpp"
    cut(f, "  const char *s = key->string();\n  if (strcmp(s, \"up\") == 0) {", "void vm_plot(", '''  static const struct {
    const char *name;
    SDL_Scancode code;
  } table[] = {
    {"space", SDL_SCANCODE_SPACE}, {"escape", SDL_SCANCODE_ESCAPE}, {"left", SDL_SCANCODE_LEFT},
    {"right", SDL_SCANCODE_RIGHT}, {"up", SDL_SCANCODE_UP}, {"down", SDL_SCANCODE_DOWN}};
  for (const auto &e : table) {
    if (std::string(e.name) == key->string()) {
      t.get_stack().push(t.gc().new_int(keys[e.code] != 0));
      return;
    }
  }
  t.get_stack().push(t.gc().new_none());
}

''')
    cut(f, "  const uint32_t w = global.width_;\n  const uint32_t h = global.height_;\n\n  const uint32_t p0", "    SDL_UpdateWindowSurface(", '''  if (SDL_Surface *screen = global.screen_) {
    const uint32_t w = global.width_, h = global.height_;
    for (uint32_t y = 0; y < h * 3; ++y) {
      uint32_t *d = (uint32_t *)((uint8_t *)screen->pixels + y * screen->pitch);
      const uint32_t *s = global.video_.get() + (y / 3) * w;
      for (uint32_t x = 0; x < w * 3; ++x) {
        d[x] = s[x / 3];
      }
    }
''')
    cut(f, "  bool yLonger = false;", "void vm_line(", '''  const int32_t dx = x1 - x0, dy = y1 - y0;
  const bool steep = abs(dy) > abs(dx);
  const int32_t major = steep ? dy : dx, minor = steep ? dx : dy;
  const int32_t n = abs(major), dir = major < 0 ? -1 : 1;
  const int32_t step = n ? (minor << 16) / n : 0;
  for (int32_t k = 0; k < n; ++k) {
    const int32_t m = (k * step) >> 16;
    if (steep) {
      plot(x0 + m, y0 + dir * k);
    } else {
      plot(x0 + dir * k, y0 + m);
    }
  }
}

''')
    cut(f, "    SDL_Event event;\n    while (SDL_PollEvent(&event)) {", "  }\n\n  if (vm.has_error()) {", '''    for (SDL_Event event; active && SDL_PollEvent(&event);) {
      switch (event.type) {
      case SDL_QUIT: active = false; break;
      default: break;
      }
    }
''')
    cut(f, "  uint32_t *v = global.video_.get();\n  for (uint32_t y = 0; y < global.height_; ++y) {", "  // return value", '''  if (global.video_) {
    std::fill_n(global.video_.get(), size_t(global.width_) * global.height_, 0u);
  }
''')
    ed(f, ("    span(xC - x, xC + x, yC + y);\n    span(xC - x, xC + x, yC - y);\n    span(xC - y, xC + y, yC + x);\n    span(xC - y, xC + y, yC - x);\n", "    for (int32_t s = -1; s <= 1; s += 2) {\n      span(xC - y, xC + y, yC + s * x);\n      span(xC - x, xC + x, yC + s * y);\n    }\n"),
       ("    global.video_.reset(new uint32_t[(uint32_t)(w->v * h->v)]);\n    memset(global.video_.get(), 0, w->v * h->v * sizeof(uint32_t));\n", "    global.video_.reset(new uint32_t[size_t(w->v) * h->v]());\n"),
       ("    if (SDL_GetTicks() > tick_mark) {\n      if (!vm.resume(1024)) {\n        break;\n      }\n    }\n    else {\n      SDL_Delay(1);\n    }\n", "    if (SDL_GetTicks() <= tick_mark) {\n      SDL_Delay(1);\n    } else if (!vm.resume(777)) {\n      break;\n    }\n"))

if len(sys.argv) < 2:
    print("\n".join(R)); sys.exit(0)
name = sys.argv[1]
checks = sys.argv[2:] or ["C%02d" % i for i in range(1, 24)]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
assert "/repo" in open("/proc/mounts").read().split("\n")[-2] or " /repo " in open("/proc/mounts").read(), "run in tools/iso.sh"
for n in name.split('+'): R[n]()
b = sh("bash /opt/vp/build.sh")
if b.returncode: print(name, "DOES NOT BUILD", b.stdout[-1500:], b.stderr[-1500:]); sys.exit(1)
out = "/tmp/rf%d.json" % os.getpid()
sh("bash /opt/vp/test.sh " + out)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(next(v for v in base.values() if isinstance(v, list) and len(v) > 100))
broken = sorted(stable - set(json.load(open(out))["passed"]))
os.remove(out)
print(name, "tests", "ok" if not broken else "BROKEN %d %s" % (len(broken), broken[:3]), flush=True)
for c in [c for c in checks if c != "-"]:
    t0 = time.time()
    r = sh("python3 %s/check.py %s" % (V, c), env=dict(os.environ, VERIF_TIER="quick"))
    if r.returncode:
        print(name, c, "ALARM" if r.returncode == 1 else "NO ANSWER", "rc=%d %.0fs" % (r.returncode, time.time() - t0), r.stdout[-1500:], r.stderr[-800:], flush=True)
print(name, "done", flush=True)
