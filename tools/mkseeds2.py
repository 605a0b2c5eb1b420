#!/usr/bin/env python3
"""second batch of planted bugs"""
from seedlib import seed
T = "lib_vm/thread.cpp"
# ---------------------------------------------------------------- C01
seed("C01-str-eq-prefix", "C01", [(T, "      if (strcmp(l->string(), r->string()) == 0) {", "      if (strncmp(l->string(), r->string(), 64) == 0) {")],
 "two strings of equal length that agree on their first 64 characters", "such strings compare equal",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = "0123456789abcdef"
  a = a + a
  a = a + a
  return (a + "x") == (a + "y")
end
X
expect "$(run t.nano | tail -1)" "exit: 0"
''')
seed("C01-lt-overflow", "C01", [(T, "    stack_.push_int(l->v < r->v ? 1 : 0);", "    stack_.push_int(l->v - r->v < 0 ? 1 : 0);")],
 "an integer comparison < whose operands differ by more than 2^31", "the comparison wraps",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = 2000000000
  var b = -2000000000
  return (a < b) + (b < a) * 2
end
X
expect "$(run t.nano | tail -1)" "exit: 2"
''')
# ---------------------------------------------------------------- C02
seed("C02-deep-locals", "C02", [("lib_compiler/pre_codegen.cpp", "        stack_size_ = std::max<int32_t>(stack_size_, offset_.back());",
 "        // the outer blocks can not get any larger from in here\n        stack_size_ = std::max<int32_t>(stack_size_, offset_[std::min<size_t>(offset_.size() - 1, 6)]);")],
 "a local declared four or more blocks deep", "no slot is reserved for it, so it overlaps the operand stack",
 script=r'''
cat > t.nano <<'X'
function id(x)
  return x
end
function main()
  var r = 0
  if (1 == id(1))
    if (1 == id(1))
      if (1 == id(1))
        if (1 == id(1))
          if (1 == id(1))
            var a = 5
            var b = 7
            r = id(a) * 10 + id(b)
          end
        end
      end
    end
  end
  return r
end
X
expect "$(run t.nano | tail -1)" "exit: 57"
''')
seed("C02-literal-hoist", "C02", [("lib_compiler/pre_codegen.cpp",
 "    for (auto *n : p->children) {\n      if (auto *d = n->cast<ast_decl_var_t>()) {\n        on_global(d);\n      }\n    }\n",
 "    // literals are cheap so set those up first\n    for (int pass = 0; pass < 2; ++pass) {\n      for (auto *n : p->children) {\n        if (auto *d = n->cast<ast_decl_var_t>()) {\n          const bool lit = d->expr && d->expr->is_a<ast_exp_lit_str_t>();\n          if (lit == (pass == 0)) {\n            on_global(d);\n          }\n        }\n      }\n    }\n")],
 "a global initialised by a call that reads a string global declared later", "the later global is already set",
 script=r'''
cat > t.nano <<'X'
var a = get()
var b = "late"
function get()
  return b == none
end
function main()
  return a
end
X
expect "$(run t.nano | tail -1)" "exit: 1"
''')
# ---------------------------------------------------------------- C03
seed("C03-return-branch", "C03", [("lib_compiler/optimize.cpp", "        found_return = (*i)->is_a<ast_stmt_return_t>();",
 "        found_return = (*i)->is_a<ast_stmt_return_t>();\n        // an if statement can return too\n        if (auto *s = (*i)->cast<ast_stmt_if_t>()) {\n          if (s->else_block && !s->then_block->nodes.empty()) {\n            found_return = s->then_block->nodes.back()->is_a<ast_stmt_return_t>();\n          }\n        }")],
 "an if/else whose then branch ends in return but whose else branch does not, followed by code", "the code after it is removed",
 script=r'''
cat > t.nano <<'X'
function f(x)
  var r = 1
  if (x)
    return 5
  else
    r = 2
  end
  return r + 10
end
function main()
  return f(0) + f(1) * 100
end
X
expect "$(run t.nano | tail -1)" "exit: 512"
''')
seed("C03-leq-overflow", "C03", [("lib_compiler/optimize.cpp", "      case TOK_LEQ: v = a <= b; break;", "      case TOK_LEQ: v = (a - b) <= 0; break;")],
 "a folded <= of two constants more than 2^31 apart", "the folded result differs from the run time result",
 script=r'''
cat > t.nano <<'X'
function main()
  if (2000000000 <= -2000000000)
    return 1
  end
  return 0
end
X
expect "$(run t.nano | tail -1)" "exit: 0"
''')
seed("C03-shortcut-effects", "C03", [("lib_compiler/optimize.cpp", "#if 0\n    // note: disabled because it could skip function calls\n    if (op == TOK_AND) {\n      if ((vl && a == 0) || (vb && b == 0) {",
 "#if 1\n    if (op == TOK_AND) {\n      if ((vl && a == 0) || (vb && b == 0)) {")],
 "and/or with a constant operand that decides it and an operand with an effect, in an if, while, return or assignment", "the effect is dropped",
 script=r'''
cat > t.nano <<'X'
var n = 0
function f()
  n = n + 1
  return 1
end
function main()
  var x = 0
  x = 0 and f()
  return n
end
X
expect "$(run t.nano | tail -1)" "exit: 1"
''')
# ---------------------------------------------------------------- C04
seed("C04-waiting-roots", "C04", [("lib_vm/vm.cpp", "  for (thread_t *t : threads_) {\n    gc_->trace(t->stack_.data(), t->stack_.head());",
 "  for (thread_t *t : threads_) {\n    if (t->waits && t->stack_.head() > 2) {\n      // cant have allocated anything since the last collection\n      continue;\n    }\n    gc_->trace(t->stack_.data(), t->stack_.head());")],
 "a collection while a thread waits with live values on its stack", "the waiting thread's values are lost",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function slow()\n  var a = \"x\" + 1\n  var b = \"y\" + 2\n  var c = \"z\" + 3\n  wait(3)\n  log(a + b + c)\nend\nfunction churn()\n  var i\n  for (i = 0 to 60000)\n    var s = \"garbage garbage garbage \" + i\n  end\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  vm.new_thread(*p.function_find("slow"), 0, nullptr);
  vm.resume(1000);
  vm.new_thread(*p.function_find("churn"), 0, nullptr);
  while (!vm.finished()) vm.resume(100000);
  return check(log_text(), "\"x1y2z3\" ");
}
''')
seed("C04-single-global", "C04", [("lib_vm/vm.cpp", "  gc_->trace(g_.data(), g_.size());", "  if (g_.size() > 1) {\n    gc_->trace(g_.data(), g_.size());\n  }")],
 "a program with exactly one global, across a collection", "the global's value is lost",
 script=r'''
cat > t.nano <<'X'
var g = "keep"
function main()
  var i
  for (i = 0 to 60000)
    var s = "garbage garbage garbage" + i
  end
  return g + "!"
end
X
expect "$(run t.nano | tail -1)" 'exit: "keep!"'
''')
# ---------------------------------------------------------------- C05
seed("C05-last-line", "C05", [(T, "    // keep track of the last source line we were on\n    last_line_ = l;", "    // keep track of the last source line we stopped on\n    if (halted_) {\n      last_line_ = l;\n    }")],
 "a breakpoint line that is reached again (a loop) with no other breakpoint hit in between", "the second arrival does not pause",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n  var i = 0\n  while (i < 3)\n    log(i)\n    i = i + 1\n  end\n  return i\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->breakpoint_add(line_t{0, 4});
  int stops = 0;
  for (int i = 0; i < 50 && !t->finished(); ++i) {
    t->resume(100000);
    if (!t->finished()) ++stops;
  }
  return check(std::to_string(stops) + " " + log_text(), "3 0 1 2 ");
}
''')
seed("C05-step-count", "C05", [(T, "  // increment cycle count\n  ++cycles_;\n", ""), (T, "    tick_gc_(cycles);\n    step_imp_();\n", "    tick_gc_(cycles);\n    step_imp_();\n    // increment cycle count\n    ++cycles_;\n")],
 "single instruction or line stepping", "the instructions executed by stepping are not counted",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n  var i = 0\n  i = i + 1\n  return i\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  thread_t *u = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(1000);
  while (!u->finished()) u->step_inst();
  return check(std::to_string(u->get_cycle_count()), std::to_string(t->get_cycle_count()));
}
''')
# ---------------------------------------------------------------- C06
seed("C06-starve", "C06", [("lib_vm/vm.cpp", "    if (!t->resume(cycles)) {", "    // share the budget between all of the threads\n    if (!t->resume(cycles / uint32_t(threads_.size()))) {")],
 "a round whose budget is smaller than the number of threads", "no thread makes any progress",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f(x)\n  log(x)\n  return 0\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  for (int i = 0; i < 3; ++i) {
    value_t x(i);
    const value_t *a[1] = {&x};
    vm.new_thread(*p.function_find("f"), 1, a);
  }
  for (int i = 0; i < 200 && !vm.finished(); ++i) vm.resume(2);
  return check(std::to_string(logged.size()), "3");
}
''')
seed("C06-adjacent-function", "C06", [("lib_common/program.cpp",
 "const function_t *program_t::function_find(int32_t pc) const {\n  for (const function_t &f : functions_) {\n    if (pc >= f.code_start_ && pc < f.code_end_) {",
 "const function_t *program_t::function_find(int32_t pc) const {\n  for (const function_t &f : functions_) {\n    if (pc >= f.code_start_ && pc <= f.code_end_) {")],
 "new_thread of a function that directly follows another one with the same number of arguments", "the thread runs the wrong function",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function one()\n  log(1)\nend\nfunction two()\n  log(2)\nend\nfunction main()\n  new_thread(two)\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  vm.new_thread(*p.function_find("main"), 0, nullptr);
  for (int i = 0; i < 50; ++i) vm.resume(100);
  return check(log_text(), "2 ");
}
''')
# ---------------------------------------------------------------- C07
seed("C07-set-bound", "C07", [(T, "  if (index < 0 || index >= a->array_size()) {\n    raise_error(thread_error_t::e_bad_array_bounds);\n    return;\n  }\n  if (v->is_a<val_type_array>()) {",
 "  if (index < 0 || index > a->array_size()) {\n    raise_error(thread_error_t::e_bad_array_bounds);\n    return;\n  }\n  if (v->is_a<val_type_array>()) {")],
 "an element assignment whose index equals the length", "no error is raised and memory is overwritten",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = new_array(4)
  a[4] = 1
  return 1
end
X
run t.nano > out; rc=$?
expect "$rc" "250"
''')
seed("C07-icall-zero", "C07", [(T, "    if (int32_t(func->num_args()) != num_args) {", "    if (num_args && int32_t(func->num_args()) != num_args) {")],
 "an indirect call without arguments of a function that takes some", "the callee runs and reads whatever is below on the stack",
 cpp=r"""
int main() {
  program_t p;
  if (!build(p, "function f(a)\n  log(7)\n  return 7\nend\nfunction main()\n  var g = f\n  return g()\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  value_t *r; thread_error_t er;
  vm.call_once(*p.function_find("main"), 0, nullptr, r, er);
  return check(log_text() + get_thread_error(er), "e_bad_num_args");
}
""")
# ---------------------------------------------------------------- C08
seed("C08-trailing-comma", "C08", [("lib_compiler/parser.cpp", "    do {\n      auto *arg = parse_expr_();\n", "    do {\n      if (stream_.type() == TOK_RPAREN) {\n        break;\n      }\n      auto *arg = parse_expr_();\n")],
 "a call whose argument list ends in a comma", "it is accepted",
 script=r'''
cat > t.nano <<'X'
function f(a)
  return a
end
function main()
  return f(1,)
end
X
run t.nano > out; rc=$?
expect "$rc" "1"
''')
seed("C08-eof-line", "C08", [("lib_compiler/lexer.cpp", "  stream_.push(token_t{TOK_EOF, line_});", "  stream_.push(token_t{TOK_EOF, line_t{file_no, 0}});")],
 "a source that ends where something is still missing", "the error is reported on line 0",
 script=r'''
printf 'function main()\n  return 1\n' > t.nano
run t.nano > out; rc=$?
expect "$rc" "1"
grep -q "line:0 " err && { cat err; exit 1; }
exit 0
''')
# ---------------------------------------------------------------- C09
seed("C09-deep-redeclare", "C09", [("lib_compiler/sema.cpp", "    for (const auto &s : scope_) {\n      for (const auto &n : s) {\n        if (n == name) {\n          return true;\n        }\n      }\n    }\n    return false;",
 "    for (size_t i = 0; i < scope_.size() && i < 4; ++i) {\n      if (scope_[i].count(name)) {\n        return true;\n      }\n    }\n    return false;")],
 "a name declared twice three blocks deep", "the redeclaration is accepted",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = 1
  if (a)
    if (a)
      if (a)
        var b = 2
        var b = 3
        return b
      end
    end
  end
  return 0
end
X
run t.nano > out; rc=$?
expect "$rc" "1"
''')
# ---------------------------------------------------------------- C10
seed("C10-line-file", "C10", [("lib_common/program.cpp", "    TRY(consume(fd, file));\n    TRY(consume(fd, line));\n    s[pc] = nano::line_t{file, line};", "    TRY(consume(fd, file));\n    TRY(consume(fd, line));\n    s[pc] = nano::line_t{file > 0, line};")],
 "a program of three or more files", "positions in the third file are attributed to the second after loading",
 cpp=r'''
int main() {
  program_t p, q;
  source_manager_t s;
  s.load_from_string("function main()\n  return 1\nend\n");
  s.load_from_string("function two()\n  return 2\nend\n");
  s.load_from_string("function three()\n  return 3\nend\n");
  nano_t n(p);
  nano::error_t e;
  if (!n.build(s, e)) return 1;
  if (!p.serial_save("p.bin") || !q.serial_load("p.bin")) return 1;
  int bad = 0;
  for (int i = 0; i < int(p.size()); ++i) {
    line_t a = p.get_line(i), b = q.get_line(i);
    if (a.file != b.file || a.line != b.line) ++bad;
  }
  return check(std::to_string(bad), "0");
}
''')
# ---------------------------------------------------------------- C11
seed("C11-last-global", "C11", [("lib_common/program.cpp", "    TRY(consume(fd, globals_.back().offset_));", "    consume(fd, globals_.back().offset_);")],
 "a file cut inside the offset of the last global", "the truncated file loads",
 cpp=r'''
int main() {
  program_t p, q;
  if (!build(p, "var g = 1\nfunction main()\n  return g\nend\n")) return 1;
  p.serial_save("p.bin");
  FILE *f = fopen("p.bin", "rb");
  std::string s(100000, 0);
  s.resize(fread(&s[0], 1, s.size(), f));
  fclose(f);
  f = fopen("q.bin", "wb");
  fwrite(s.data(), 1, s.size() - 2, f);
  fclose(f);
  return check(q.serial_load("q.bin") ? "loaded" : "refused", "refused");
}
''')
seed("C11-magic", "C11", [("lib_common/program.cpp", "  TRY(magic_no == magic);", "  TRY((magic_no ^ magic) >> 8 == 0);")],
 "a file whose first byte is damaged", "the damaged header is accepted",
 cpp=r'''
int main() {
  program_t p, q;
  if (!build(p, "var g = 1\nfunction main()\n  return g\nend\n")) return 1;
  p.serial_save("p.bin");
  FILE *f = fopen("p.bin", "r+b");
  fputc('X', f);
  fclose(f);
  return check(q.serial_load("p.bin") ? "loaded" : "refused", "refused");
}
''')
# ---------------------------------------------------------------- C12
seed("C12-scall-line", "C12", [("lib_compiler/codegen.cpp", "          emit(INS_SCALL, int32_t(num_args), index, ident->name);", "          emit(INS_SCALL, int32_t(num_args), index, n->args.empty() ? nullptr : ident->name);")],
 "a system call without arguments", "the host sees no source line for the call",
 cpp=r'''
static line_t seen;
static void host_where(thread_t &t, int32_t) { seen = t.get_source_line(); t.get_stack().push_int(0); }
int main() {
  program_t p;
  source_manager_t s;
  s.load_from_string("function main()\n  var a = 1\n  where()\n  return a\nend\n");
  nano_t n(p);
  n.syscall_register("where", 0);
  nano::error_t e;
  if (!n.build(s, e)) return 1;
  p.syscall_resolve("where", host_where);
  vm_t vm(p);
  vm.call_init();
  value_t *r; thread_error_t er;
  vm.call_once(*p.function_find("main"), 0, nullptr, r, er);
  return check(std::to_string(seen.line), "3");
}
''')
# ---------------------------------------------------------------- C13
seed("C13-mnemonic", "C13", [("lib_compiler/disassembler.cpp", '  "INS_GETM", "INS_SETM",', '  "INS_SETM", "INS_GETM",')],
 "a program with member access", "the listing shows reads as writes and writes as reads",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = 1
  return a.b
end
X
comp t.nano -d
grep -q INS_GETM t.nano.dis || { cat t.nano.dis; exit 1; }
exit 0
''')
seed("C13-init-end", "C13", [("lib_compiler/codegen.cpp", "    emit(INS_RET, operand, nullptr);\n\n    func->code_end_ = pos();", "    func->code_end_ = pos();\n    emit(INS_RET, operand, nullptr);")],
 "the end of the code", "the last instruction belongs to no function",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "var g = 1\nfunction main()\n  return g\nend\n")) return 1;
  return check(p.function_find(int32_t(p.size()) - 1) ? "found" : "none", "found");
}
''')
# ---------------------------------------------------------------- C14
# ---------------------------------------------------------------- C15
seed("C15-string-cache", "C15", [("lib_compiler/codegen.cpp", "    const int32_t index = int32_t(strings_.size());\n    strings_.push_back(str);\n    return index;\n  }\n\n  void get_func_",
 "    // share equal strings\n    static std::map<std::string, int32_t> cache;\n    auto itt = cache.find(str);\n    if (itt != cache.end() && itt->second < int32_t(strings_.size())) {\n      return itt->second;\n    }\n    const int32_t index = int32_t(strings_.size());\n    strings_.push_back(str);\n    cache[str] = index;\n    return index;\n  }\n\n  void get_func_")],
 "two compilations in one process that use the same string in different places", "the second program uses the wrong string",
 cpp=r'''
int main() {
  program_t p, q;
  if (!build(p, "function main()\n  return \"a\" + \"b\"\nend\n")) return 1;
  if (!build(q, "function main()\n  var x = \"c\"\n  var y = \"d\"\n  return \"b\"\nend\n")) return 1;
  vm_t vm(q);
  vm.call_init();
  value_t *r; thread_error_t er;
  vm.call_once(*q.function_find("main"), 0, nullptr, r, er);
  return check(r->to_string(), "\"b\"");
}
''')
# ---------------------------------------------------------------- C16
seed("C16-has-error-first", "C16", [("lib_vm/vm.cpp", "    if (t->has_error()) {\n      return true;\n    }\n  }\n  return false;", "    if (t->has_error()) {\n      return true;\n    }\n    if (!t->finished()) {\n      break;\n    }\n  }\n  return false;")],
 "a failed thread that is older than one still running", "has_error does not report it",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function bad()\n  return 1 / log(1)\nend\nfunction good()\n  while (1)\n  end\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  vm.new_thread(*p.function_find("bad"), 0, nullptr);
  vm.new_thread(*p.function_find("good"), 0, nullptr);
  vm.resume(100);
  return check(vm.has_error() ? "error" : "none", "error");
}
''')
seed("C16-frames-left", "C16", [(T, "  stack_.clear();\n  f_.clear();\n  halted_ = false;", "  stack_.clear();\n  halted_ = false;")],
 "host calls thread reset on a thread that was inside a function", "its old frames stay",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f()\n  log(1)\n  return 2\nend\nfunction main()\n  return f()\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(2);
  t->reset();
  return check(std::to_string(t->frames().size()), "0");
}
''')
# ---------------------------------------------------------------- C17
seed("C17-div-decline", "C17", [(T, "    if (vm_.handlers.on_div(*this, l, r)) {\n      return;\n    }", "    vm_.handlers.on_div(*this, l, r);\n    return;")],
 "an on_div handler that declines", "the thread goes on without a value instead of raising the type error",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n  var a = \"x\"\n  var b = 1\n  log(a / b)\n  return 0\nend\n")) return 1;
  vm_t vm(p);
  vm.handlers.on_div = [](thread_t &, const value_t *, const value_t *) { return false; };
  vm.call_init();
  value_t *r; thread_error_t er;
  vm.call_once(*p.function_find("main"), 0, nullptr, r, er);
  return check(get_thread_error(er), "e_bad_type_operation");
}
''')
seed("C17-member-length", "C17", [(T, "  if (obj->is_a<val_type_array>()) {\n    if (member == \"length\") {", "  if (obj->is_a<val_type_array>()) {\n    if (member.compare(0, 6, \"length\") == 0) {")],
 "a member whose name starts with length", "the host's member handler is not asked",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n  var a = [1, 2]\n  return a.lengths\nend\n")) return 1;
  vm_t vm(p);
  vm.handlers.on_member_get = [](thread_t &t, value_t *, const std::string &m) { t.get_stack().push_string(m); return true; };
  vm.call_init();
  value_t *r; thread_error_t er;
  vm.call_once(*p.function_find("main"), 0, nullptr, r, er);
  return check(r->to_string(), "\"lengths\"");
}
''')
# ---------------------------------------------------------------- C18
seed("C18-floor-large", "C18", [("lib_builtins/builtin.cpp", "    t.get_stack().push_float(floorf(x));", "    const int32_t i = int32_t(x);\n    t.get_stack().push_float(float(x < float(i) ? i - 1 : i));")],
 "floor of a value outside the range of an integer", "a wrong value is returned",
 script=r'''
cat > t.nano <<'X'
function main()
  return floor(5000000000.0) == 5000000000.0
end
X
expect "$(run t.nano | tail -1)" "exit: 1"
''')
seed("C18-chr-ascii", "C18", [("lib_builtins/builtin.cpp", "    char x[2] = {char(v->v), 0};", "    char x[2] = {char(v->v & 0x7f), 0};")],
 "chr of 128 to 255", "the wrong character is returned",
 script=r'''
cat > t.nano <<'X'
function main()
  var s = chr(200)
  return s[0]
end
X
expect "$(run t.nano | tail -1)" "exit: 200"
''')
# ---------------------------------------------------------------- C19
seed("C19-string-pool", "C19", [("lib_compiler/codegen.cpp", "    const int32_t index = int32_t(strings_.size());\n    strings_.push_back(str);\n    return index;\n  }\n\n  void get_func_",
 "    // share equal strings\n    for (size_t i = 0; i < strings_.size(); ++i) {\n      if (strings_[i].size() == str.size() && strings_[i].compare(0, 24, str, 0, 24) == 0) {\n        return int32_t(i);\n      }\n    }\n    const int32_t index = int32_t(strings_.size());\n    strings_.push_back(str);\n    return index;\n  }\n\n  void get_func_")],
 "two string literals of equal length that differ only after 24 characters", "one is replaced by the other",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = "the quick brown fox jumps over"
  var b = "the quick brown fox jumps ovex"
  return a == b
end
X
expect "$(run t.nano | tail -1)" "exit: 0"
''')
seed("C19-float-manual", "C19", [("lib_compiler/lexer.cpp", "    const float x = strtof(str.c_str(), nullptr);", "    float scale = 1.f;\n    for (size_t i = str.find('.') + 1; i < str.size(); ++i) {\n      scale *= 10.f;\n    }\n    const float x = float(v) / scale;")],
 "a decimal literal with more digits than fit in 32 bits", "it denotes a different value",
 script=r'''
cat > t.nano <<'X'
function main()
  return 3.14159265358979
end
X
expect "$(run t.nano | tail -1)" "exit: 3.141593"
''')
# ---------------------------------------------------------------- C20
seed("C20-long-gets", "C20", [("driver/driver.cpp", "    fprintf(fd, \"\\\"%s\\\"\", res->string());", "    fprintf(fd, \"\\\"%.64s\\\"\", res->string());")],
 "main returns a string longer than 64 characters", "the printed result is cut off",
 script=r'''
cat > t.nano <<'X'
function main()
  var s = "0123456789abcdef"
  s = s + s
  s = s + s
  return s + s
end
X
expect "$(run t.nano | tail -1 | wc -c)" "137"
''')
seed("C20-second-file", "C20", [("driver/driver.cpp", "  for (int i = 1; i < argc; ++i) {\n    if (!sources.load(argv[i])) {\n      fprintf(stderr, \"unable to load input '%s'\\n\", argv[i]);\n      return -2;", "  for (int i = 1; i < argc; ++i) {\n    if (!sources.load(argv[i]) && sources.count() == 0) {\n      fprintf(stderr, \"unable to load input '%s'\\n\", argv[i]);\n      return -2;")],
 "several input files of which a later one can not be loaded", "the missing file is ignored",
 script=r'''
cat > t.nano <<'X'
function main()
  return 1
end
X
run t.nano missing.nano > out; rc=$?
expect "$rc" "254"
''')
# ---------------------------------------------------------------- C21
seed("C21-float-in-place", "C21", [(T, "  else {\n    a->array()[index] = gc_.copy(*v);\n  }", "  else if (v->is_a<val_type_float>() && a->array()[index]->is_a<val_type_float>()) {\n    // reuse the storage of the element\n    a->array()[index]->f = v->f;\n  }\n  else {\n    a->array()[index] = gc_.copy(*v);\n  }")],
 "a float element is read into a variable and then overwritten in the array", "the variable changes with the array",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = new_array(2)
  a[0] = 1.5
  var x = a[0]
  a[0] = 2.5
  return x
end
X
expect "$(run t.nano | tail -1)" "exit: 1.500000"
''')
seed("C21-global-reuse", "C21", [(T, "    vm_.g_[operand] = stack_.pop();", "    value_t *v = stack_.pop();\n    value_t *&g = vm_.g_[operand];\n    if (v->is_a<val_type_array>() && g->is_a<val_type_array>() && g->array_size() == v->array_size()) {\n      // no need for another array\n      memcpy(g->array(), v->array(), sizeof(value_t *) * v->array_size());\n    } else {\n      g = v;\n    }")],
 "a global holding an array is assigned another array of the same length", "the global does not alias the new array, and aliases of the old one change",
 script=r'''
cat > t.nano <<'X'
var g
function main()
  g = [1, 2]
  var old = g
  var b = [3, 4]
  g = b
  b[0] = 9
  return old[0] * 100 + g[0]
end
X
expect "$(run t.nano | tail -1)" "exit: 109"
''')
