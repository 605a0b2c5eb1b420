#!/usr/bin/env python3
"""third batch of planted bugs"""
from seedlib import seed
T = "lib_vm/thread.cpp"
G = "lib_vm/vm_gc.cpp"
CG = "lib_compiler/codegen.cpp"
OP = "lib_compiler/optimize.cpp"
LX = "lib_compiler/lexer.cpp"
BU = "lib_builtins/builtin.cpp"

seed("C01-high-char", "C01", [(T, "    const uint32_t ch = (uint8_t)(a->string()[index]);", "    const int32_t ch = a->string()[index];")],
 "a subscript of a string at a character outside ASCII", "the element is negative",
 script=r'''
printf 'function main()\n  var s = "a\351b"\n  return s[1]\nend\n' > t.nano
expect "$(run t.nano | tail -1)" "exit: 233"
''')
seed("C01-int-float-eq", "C01", [(T, "      l->as_float() == r->as_float() ? 1 : 0);", "      l->as_int() == r->as_int() ? 1 : 0);")],
 "an int compared with a float that is not whole", "the fraction is ignored",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = 2
  var b = 2.5
  return (a == b) + 10 * (a == 2.0)
end
X
expect "$(run t.nano | tail -1)" "exit: 10"
''')
seed("C02-for-order", "C02", [(CG, """    get_decl_(n->decl, n->token);
    dispatch(n->end);
    emit(INS_LT, n->token);""", """    dispatch(n->end);
    get_decl_(n->decl, n->token);
    emit(INS_GT, n->token);""")],
 "a for loop whose end expression changes the (global) loop variable", "the loop variable is read after the end",
 script=r'''
cat > t.nano <<'X'
var i
var n = 0
function stop()
  n = n + 1
  i = i + 1
  return 3
end
function main()
  var c = 0
  for (i = 0 to stop())
    c = c + 1
  end
  return c * 100 + n * 10 + i
end
X
expect "$(run t.nano | tail -1)" "exit: 235"
''')
seed("C02-syscall-prefix", "C02", [("lib_compiler/program_builder.h", "      if (sys[i].name_ == name) {", "      if (sys[i].name_.compare(0, name.size(), name) == 0) {")],
 "two host functions, one of whose names starts with the other's, the longer registered first", "the call of the shorter reaches the longer",
 cpp=r'''
static void h_long(thread_t &t, int32_t) { t.get_stack().pop(); logged.push_back("long"); t.get_stack().push_int(0); }
static void h_short(thread_t &t, int32_t) { t.get_stack().pop(); logged.push_back("short"); t.get_stack().push_int(0); }
int main() {
  program_t p;
  source_manager_t s;
  s.load_from_string("function main()\n send(1)\n send_all(2)\n var f = send\n f(3)\nend\n");
  nano_t n(p);
  n.syscall_register("send_all", 1);
  n.syscall_register("send", 1);
  nano::error_t e;
  if (!n.build(s, e)) return 2;
  p.syscall_resolve("send", h_short);
  p.syscall_resolve("send_all", h_long);
  vm_t vm(p);
  vm.call_init();
  value_t *r; thread_error_t te;
  vm.call_once(*p.function_find("main"), 0, nullptr, r, te);
  return check(log_text(), "short long short ");
}
''')
seed("C03-mul-zero", "C03", [(OP, "    if (vl && vb) {\n      // check for constant division", """    // anything times zero is zero
    if (op == TOK_MUL && ((vl && a == 0 && o->right->is_a<ast_exp_ident_t>()) || (vb && b == 0 && o->left->is_a<ast_exp_ident_t>()))) {
      v = 0;
      val_[o] = v;
      return true;
    }
    if (vb && vl) {
      // check for constant division""")],
 "a literal zero multiplied by a variable that does not hold an int", "the result is the int 0 instead of a float, or of an error",
 script=r'''
cat > t.nano <<'X'
function main()
  var f = 2.5
  return f * 0
end
X
expect "$(run t.nano | tail -1)" "exit: 0.000000"
''')
seed("C03-if-string", "C03", [(OP, "    if (auto *c = s->expr->cast<ast_exp_lit_var_t>()) {\n\n      if (c->val != 0) {", """    if (s->expr->is_a<ast_exp_lit_str_t>() || s->expr->is_a<ast_exp_lit_float_t>()) {
      // always true
      s->else_block = nullptr;
    }
    if (auto *c = s->expr->cast<ast_exp_lit_var_t>()) {
      if (c->val) {""")],
 "an if with an else whose condition is the literal \"\" or 0.0", "the else branch is dropped",
 script=r'''
cat > t.nano <<'X'
function main()
  if (0.0)
    return 1
  else
    return 2
  end
end
X
expect "$(run t.nano | tail -1)" "exit: 2"
''')
seed("C04-array-clear", "C04", [(G, "  memset(v->array(), 0, size);", "  memset(v->array(), 0, value);")],
 "new_array in memory that was used before a collection", "elements hold stale pointers",
 script=r'''
cat > t.nano <<'X'
function main()
  var i
  var s = ""
  for (i = 0 to 60000)
    s = "text" + i
  end
  for (i = 0 to 3000)
    var a = new_array(8)
    var j
    for (j = 0 to 8)
      if (not (a[j] == none))
        return 1
      end
    end
  end
  return 0
end
X
expect "$(run t.nano | tail -1)" "exit: 0"
''')
seed("C05-file-breakpoint", "C05", [("lib_common/types.h", "    if (file < rhs.file) {\n      return true;\n    }\n    if (file == rhs.file) {\n      return line < rhs.line;\n    }\n    return false;", "    return line < rhs.line;")],
 "a breakpoint in one file and code on the same line number of another", "the thread is paused there too",
 cpp=r'''
int main() {
  FILE *f = fopen("a.nano", "w");
  fputs("import \"b.nano\"\nfunction main()\n b()\n b()\n return 1\nend\n", f);
  fclose(f);
  f = fopen("b.nano", "w");
  fputs("\nfunction b()\n log(1)\n log(2)\nend\n", f);
  fclose(f);
  program_t p;
  source_manager_t s;
  if (!s.load("a.nano")) return 2;
  nano_t n(p);
  n.syscall_register("log", 1);
  nano::error_t e;
  if (!n.build(s, e)) return 2;
  p.syscall_resolve("log", host_log);
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->breakpoint_add(line_t{0, 4});
  std::string o;
  for (int i = 0; i < 20 && !t->finished(); i++) {
    if (!t->resume(1000)) break;
    if (!t->finished()) o += std::to_string(t->get_source_line().file) + ":" + std::to_string(t->get_source_line().line) + " ";
  }
  return check(o, "0:4 0:4 ");
}
''')
seed("C06-lone-wait", "C06", [("lib_vm/vm.cpp", "    if (t->waits) {\n      --t->waits;", "    // there is nobody to wait for if this is the only thread\n    if (t->waits && threads_.size() > 1) {\n      --t->waits;")],
 "a thread that waits while it is the only one", "it is not skipped",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n log(1)\n wait(3)\n log(2)\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  vm.resume(1);
  vm.new_thread(*p.function_find("main"), 0, nullptr);
  std::string o;
  for (int i = 0; i < 8 && logged.size() < 2; i++) { vm.resume(1000); o += std::to_string(logged.size()) + " "; }
  return check(o, "1 1 1 1 2 ");
}
''')
seed("C06-thread-front", "C06", [("lib_vm/vm.cpp", "    // we will be advancing regardless\n    ++itt;\n    if (!t->resume(cycles)) {", "    const size_t before = threads_.size();\n    const bool ok = t->resume(cycles);\n    // we will be advancing regardless, past any thread this one has started\n    for (size_t i = threads_.size() - before + 1; i && itt != threads_.end(); --i) {\n      ++itt;\n    }\n    if (!ok) {")],
 "a thread that starts another one while others follow it in the list", "the followers miss that round",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function a()\n new_thread(c)\n log(\"a\")\nend\nfunction b()\n log(\"b\")\nend\nfunction c()\n log(\"c\")\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  vm.resume(1);
  vm.new_thread(*p.function_find("b"), 0, nullptr);
  vm.new_thread(*p.function_find("a"), 0, nullptr);
  vm.resume(1000);
  return check(log_text(), "\"a\" \"b\" ");
}
''')
seed("C07-icall-none-args", "C07", [(T, "  set_error_(thread_error_t::e_bad_type_operation);\n}\n\nvoid thread_t::do_INS_POP_", "  if (callee->is_a<val_type_none>() && num_args == 0) {\n    // calling nothing is a no-op\n    stack_.push(callee);\n    return;\n  }\n  raise_error(thread_error_t::e_bad_type_operation);\n}\n\nvoid thread_t::do_INS_POP_")],
 "calling none without arguments", "no error is raised",
 script=r'''
cat > t.nano <<'X'
function main()
  var f
  f()
  return 1
end
X
run t.nano > /dev/null
expect "$?" "250"
''')
seed("C08-op-limit", "C08", [("lib_compiler/parser.cpp", "  // push this token on the top of the stack\n  op_stack_.push_back(op);", "  // the stack can only get this deep if something went wrong\n  if (op_stack_.size() > 240) {\n    nano_.errors().unexpected_token(*op);\n  }\n  op_stack_.push_back(op);")],
 "an expression with more than 240 operators pending", "a valid program is rejected",
 script=r'''
python3 - <<'X'
open("t.nano","w").write("function main()\n return " + "(1 + " * 300 + "0" + ")" * 300 + "\nend\n")
X
expect "$(run t.nano | tail -1)" "exit: 300"
''')
seed("C08-const-init", "C08", [("lib_compiler/parser.cpp", "  stmt->member = stream_.pop(TOK_IDENT);\n\n  stream_.pop(TOK_ASSIGN);", "  stmt->member = stream_.pop(TOK_IDENT);\n\n  if (!stream_.found(TOK_EQ)) {\n    stream_.pop(TOK_ASSIGN);\n  }")],
 "a member assignment written with ==", "it is accepted",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = 1
  if (0)
    a.x == 2
  end
  return 1
end
X
run t.nano > /dev/null
expect "$?" "1"
''')
seed("C09-arg-shadow", "C09", [("lib_compiler/sema.cpp", "    for (const auto &a : func->args) {\n      dispatch(a);\n    }\n    dispatch(func->body);", "    // arguments have a scope of their own\n    for (const auto &a : func->args) {\n      dispatch(a);\n    }\n    if (func->args.size() > 3) {\n      scope_.back().erase(func->args.back()->name->str_);\n    }\n    dispatch(func->body);")],
 "a function with four or more parameters that declares a local with the name of the last", "it is accepted",
 script=r'''
cat > t.nano <<'X'
function f(a, b, c, d)
  var d = 1
  return d
end
function main()
  return f(1, 2, 3, 4)
end
X
run t.nano > /dev/null
expect "$?" "1"
''')
seed("C10-long-string", "C10", [("lib_common/program.cpp", "  emit(fd, int32_t(s.size()));\n  emit(fd, s.data(), s.size());", "  // nobody writes longer strings\n  const size_t size = s.size() < 65536 ? s.size() : 65535;\n  emit(fd, int32_t(size));\n  emit(fd, s.data(), size);")],
 "a string literal of 65536 or more characters", "it comes back truncated",
 cpp=r'''
int main() {
  program_t p, q;
  if (!build(p, ("function main()\n return len(\"" + std::string(70000, 'x') + "\")\nend\n").c_str())) return 2;
  if (!p.serial_save("x.bin") || !q.serial_load("x.bin")) return 3;
  builtins_resolve(q);
  vm_t vm(q);
  vm.call_init();
  value_t *r; thread_error_t te;
  if (!vm.call_once(*q.function_find("main"), 0, nullptr, r, te)) return 4;
  return check(r->to_string(), "70000");
}
''')
seed("C12-line-16", "C12", [("lib_common/program.h", "    line_table_[pc] = line;", "    line_table_[pc] = line_t{line.file, int32_t(uint16_t(line.line))};")],
 "code after line 65535", "the reported line wraps",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, (std::string(70000, '\n') + "function main()\n var a = 0\n return 1 / a\nend\n").c_str())) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(1000);
  return check(std::to_string(t->get_source_line().line), "70003");
}
''')
seed("C12-file-8", "C12", [("lib_common/types.h", "  line_t(int32_t f, int32_t l): file(f), line(l) {}", "  line_t(int32_t f, int32_t l): file(int8_t(f)), line(l) {}")],
 "a program of more than 128 files", "the file number of a position wraps",
 cpp=r'''
int main() {
  for (int i = 0; i < 140; i++) {
    FILE *f = fopen(("f" + std::to_string(i) + ".nano").c_str(), "w");
    if (i < 139) fprintf(f, "import \"f%d.nano\"\nfunction g%d()\n return g%d()\nend\n", i + 1, i, i + 1);
    else fprintf(f, "function g%d()\n var a = 0\n return 1 / a\nend\n", i);
    fclose(f);
  }
  program_t p;
  source_manager_t s;
  if (!s.load("f0.nano")) return 2;
  nano_t n(p);
  nano::error_t e;
  if (!n.build(s, e)) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("g0"), 0, nullptr);
  t->resume(10000);
  return check(std::to_string(t->get_source_line().file), "139");
}
''')
seed("C13-dump-sign", "C13", [("lib_compiler/disassembler.cpp", "    out += std::to_string(val1);\n    out += \" \";", "    out += std::to_string(uint8_t(val1));\n    out += \" \";")],
 "the listing of a call with 256 or more arguments", "the count shown wraps",
 cpp=r'''
int main() {
  program_t p;
  std::string a, b;
  for (int i = 0; i < 300; i++) { a += (i ? ", a" : "a") + std::to_string(i); b += i ? ", 1" : "1"; }
  if (!build(p, ("function f(" + a + ")\n return a0\nend\nfunction main()\n return f(" + b + ")\nend\n").c_str())) return 2;
  FILE *f = fopen("x.dis", "w+");
  disassembler_t d;
  d.dump(p, f);
  rewind(f);
  char line[256];
  std::string o;
  while (fgets(line, sizeof line, f)) if (!strncmp(line, "INS_CALL", 8)) o += line;
  return check(o, "INS_CALL 300 0\n");
}
''')
seed("C15-syscall-once", "C15", [("lib_compiler/nano.cpp", "  ast_decl_func_t *func = ast_->alloc<ast_decl_func_t>(name);\n  func->is_syscall = true;\n  if (num_args < 0) {", "  ast_decl_func_t *func = ast_->alloc<ast_decl_func_t>(name);\n  func->is_syscall = true;\n  // keep the first signature\n  static std::map<std::string, int32_t> known;\n  num_args = known.emplace(name, num_args).first->second;\n  if (num_args < 0) {")],
 "two compiler objects that register a host function of one name with different argument counts", "the second is checked against the first's",
 cpp=r'''
int main() {
  std::string o;
  for (int k = 1; k <= 2; k++) {
    program_t p;
    source_manager_t s;
    s.load_from_string(k == 1 ? "function main()\n send(1)\nend\n" : "function main()\n send(1, 2)\nend\n");
    nano_t n(p);
    n.syscall_register("send", k);
    nano::error_t e;
    o += n.build(s, e) ? "ok " : e.error + " ";
  }
  return check(o, "ok ok ");
}
''')
seed("C16-finished-waiting", "C16", [("lib_vm/vm.cpp", "    if (!t->finished()) {\n      return false;", "    if (!t->finished() && !t->waits) {\n      return false;")],
 "finished() asked while the only unfinished threads are waiting", "it answers true",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n log(1)\n wait(3)\n log(2)\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  vm.new_thread(*p.function_find("main"), 0, nullptr);
  std::string o;
  for (int i = 0; i < 6; i++) { vm.resume(1000); o += vm.finished() ? "1" : "0"; }
  return check(o, "000011");
}
''')
seed("C17-finish-budget", "C17", [(T, "    step_imp_();\n    if (finished_) {\n      if (has_error()) {", "    step_imp_();\n    if (cycles == 1 && !has_error()) {\n      break;\n    }\n    if (finished_) {\n      if (has_error()) {")],
 "a thread that finishes on the last instruction of its budget", "thread-finish is not signalled",
 cpp=r'''
static int done;
static bool fin(thread_t &) { done++; return true; }
int main() {
  program_t p;
  if (!build(p, "function main()\n return 1\nend\n")) return 2;
  std::string o;
  for (int b = 1; b <= 4; b++) {
    vm_t vm(p);
    vm.call_init();
    vm.handlers.on_thread_finish = fin;
    done = 0;
    thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
    while (!t->finished()) t->resume(b);
    o += std::to_string(done);
  }
  return check(o, "1111");
}
''')
seed("C18-new-thread-args", "C18", [(BU, "  if (func->args_.size() + 1 != nargs) {", "  if (func->args_.size() + 1 > size_t(nargs)) {")],
 "new_thread with more arguments than the function takes", "no error is raised",
 script=r'''
cat > t.nano <<'X'
function f(a)
  return a
end
function main()
  new_thread(f, 1, 2)
  return 1
end
X
run t.nano > /dev/null
expect "$?" "250"
''')
seed("C19-comment-cr", "C19", [(LX, "      for (; *s && *s != '\\n'; ++s) {", "      for (; *s && *s != '\\n' && *s != '\\r'; ++s) {")],
 "a comment in a file with carriage returns", "the comment ends at the carriage return and the line is counted twice",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "# one\r\n# two\r\nfunction main() # three\r\n var a = 0\r\n return 1 / a\r\nend\r\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(1000);
  return check(std::to_string(t->get_source_line().line), "5");
}
''')
seed("C20-getc-high", "C20", [("driver/driver.cpp", "  const int32_t ch = getchar();", "  const char ch = getchar();")],
 "an input byte of 128 or more", "getc returns a negative number",
 script=r'''
cat > t.nano <<'X'
function main()
  return getc()
end
X
expect "$(printf '\351' | run t.nano | tail -1)" "exit: 233"
''')
seed("C21-half-clear", "C21", [(G, "  memset(v->array(), 0, size);", "  memset(v->array(), 0, value * sizeof(int32_t));")],
 "new_array in memory that was used before a collection", "the upper half of the elements hold stale pointers",
 script=r'''
cat > t.nano <<'X'
function main()
  var i
  var s = ""
  for (i = 0 to 60000)
    s = "text" + i
  end
  for (i = 0 to 3000)
    var a = new_array(8)
    var j
    for (j = 0 to 8)
      if (not (a[j] == none))
        return 1
      end
    end
  end
  return 0
end
X
expect "$(run t.nano | tail -1)" "exit: 0"
''')
