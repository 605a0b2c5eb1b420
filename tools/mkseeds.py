#!/usr/bin/env python3
"""the planted bugs (writes seeded/<id>/ against /repo's HEAD)"""
from seedlib import seed

# ---- C01
seed("C01-leq-nan", "C01", [("lib_vm/thread.cpp",
 "stack_.push_int(l->as_float() <= r->as_float() ? 1 : 0);", "stack_.push_int(l->as_float() > r->as_float() ? 0 : 1);")],
 "a float comparison with <= where an operand is not a number (0.0 / 0.0)",
 "<= is no longer false for an unordered pair, so it disagrees with the language's float comparison",
 script=r'''
cat > t.nano <<'X'
function main()
  var z = 0.0
  var n = z / z
  return (n <= 1.0) + (n <= n) * 2
end
X
expect "$(run t.nano | tail -1)" "exit: 0"
''')
seed("C01-float-truth", "C01", [("lib_vm/value.h",
 "case val_type_float:   return f != 0.f;", "case val_type_float:   return as_int() != 0;")],
 "a condition, and/or/not over a float strictly between -1 and 1 that is not zero",
 "0.5 counts as false",
 script=r'''
cat > t.nano <<'X'
function main()
  var f = 0.5
  if (f)
    return 1
  end
  return 2
end
X
expect "$(run t.nano | tail -1)" "exit: 1"
''')
seed("C01-mod-assoc", "C01", [("lib_compiler/parser.cpp",
 "    if (op_type_(op->type_) > op_type_(top->type_)) {\n      break;",
 "    if (op_type_(op->type_) > op_type_(top->type_) ||\n        (op->type_ == TOK_MOD && top->type_ == TOK_DIV)) {\n      break;")],
 "a / directly followed by a % of the same precedence: a / b % c",
 "a / b % c groups to the right",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = 20
  return a / 6 % 4
end
X
expect "$(run t.nano | tail -1)" "exit: 3"
''')

# ---- C02
seed("C02-for-end", "C02", [("lib_compiler/codegen.cpp",
 "    // initial jump to L1 --->\n    emit(INS_JMP, 0, n->token);\n    uint32_t to_L1 = get_fixup();\n\n    // L0 <---\n    const int32_t L0 = pos();\n    // emit the for loop body\n    dispatch(n->body);\n",
 "    // a non empty constant range needs no initial test\n    const auto *lo = n->start->cast<ast_exp_lit_var_t>();\n    const auto *hi = n->end->cast<ast_exp_lit_var_t>();\n    const bool skip = lo && hi && lo->val <= hi->val;\n\n    // initial jump to L1 --->\n    emit(INS_JMP, 0, n->token);\n    uint32_t to_L1 = get_fixup();\n\n    // L0 <---\n    const int32_t L0 = pos();\n    if (skip) {\n      stream_.apply_fixup(to_L1, L0);\n    }\n    // emit the for loop body\n    dispatch(n->body);\n"),
 ("lib_compiler/codegen.cpp",
 "    emit(INS_LT, n->token);\n\n    // true jump to L0 --->\n    emit(INS_TJMP, 0, n->token);\n    uint32_t to_L0 = get_fixup();\n\n    // apply fixups\n    stream_.apply_fixup(to_L0, L0);\n    stream_.apply_fixup(to_L1, L1);\n",
 "    emit(INS_LT, n->token);\n\n    // true jump to L0 --->\n    emit(INS_TJMP, 0, n->token);\n    uint32_t to_L0 = get_fixup();\n\n    // apply fixups\n    stream_.apply_fixup(to_L0, L0);\n    if (!skip) {\n      stream_.apply_fixup(to_L1, L1);\n    }\n")],
 "a for loop with literal and equal bounds, such as 3 to 3",
 "the body of an empty range runs once",
 script=r'''
cat > t.nano <<'X'
function main()
  var n = 0
  var i
  for (i = 3 to 3)
    n = n + 1
  end
  return n
end
X
expect "$(run t.nano | tail -1)" "exit: 0"
''')

# ---- C03
seed("C03-fold-and", "C03", [("lib_compiler/optimize.cpp", "case TOK_AND: v = a && b; break;", "case TOK_AND: v = (a & b) != 0; break;")],
 "a condition or returned expression that is 'and' of two literals without a common bit, e.g. 1 and 2",
 "the folded value is 0 where the program computes 1",
 script=r'''
cat > t.nano <<'X'
function main()
  if (1 and 2)
    return 7
  end
  return 8
end
X
expect "$(run t.nano | tail -1)" "exit: 7"
''')
seed("C03-while-negative", "C03", [("lib_compiler/optimize.cpp", "      if (c->val == 0) {\n        s->body = nullptr;", "      if (c->val <= 0) {\n        s->body = nullptr;")],
 "a while loop whose condition folds to a negative constant",
 "the body of while (1 - 2) is removed although the condition is true",
 script=r'''
cat > t.nano <<'X'
function main()
  while (1 - 2)
    return 7
  end
  return 8
end
X
got=$(timeout 5 "$R/_build/nano_driver" t.nano 2>/dev/null | tail -1)
expect "$got" "exit: 7"
''')

# ---- C04
seed("C04-finished-root", "C04", [("lib_vm/vm.cpp",
 "  for (thread_t *t : threads_) {\n    gc_->trace(t->stack_.data(), t->stack_.head());",
 "  for (thread_t *t : threads_) {\n    // a finished thread will never run again\n    if (t->finished_) {\n      continue;\n    }\n    gc_->trace(t->stack_.data(), t->stack_.head());")],
 "the host reads the return value of a finished thread after another thread's run collected garbage",
 "the return value is reclaimed and overwritten although the thread still owns it",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f()\n return \"hello\" + \" world\"\nend\nfunction g()\n var i\n var s\n for (i = 0 to 5)\n  s = \"garbage\" + i\n end\n return 0\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *a = vm.new_thread(*p.function_find("f"), 0, nullptr);
  while (!a->finished()) a->resume(10);
  thread_t *b = vm.new_thread(*p.function_find("g"), 0, nullptr);
  while (!b->finished()) b->step_inst();
  return check(a->get_return_value()->to_string(), "\"hello world\"");
}
''')
seed("C04-threshold", "C04", [("lib_vm/vm_gc.cpp", "  // collect if over 75%\n  return x > 75;", "  // collect if over 95%\n  return x > 95;")],
 "allocations of more than 5% of the heap, repeated until the heap is nearly full",
 "garbage is not reclaimed in time, so a program with small live data aborts",
 script=r'''
cat > t.nano <<'X'
function main()
  var i
  var a
  for (i = 0 to 200)
    a = new_array(11000)
    a[0] = i
  end
  return a[0]
end
X
expect "$(run t.nano | tail -1)" "exit: 199"
''')

# ---- C05
seed("C05-breakpoint-remove", "C05", [("lib_vm/thread.cpp", "breakpoints_.erase(itt);", "breakpoints_.erase(itt, breakpoints_.end());")],
 "two breakpoints are set and the one on the earlier line is removed before the later line is reached",
 "the other breakpoint is lost too",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n var a = 1\n a = 2\n a = 3\n a = 4\n return a\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->breakpoint_add(line_t{0, 3});
  t->breakpoint_add(line_t{0, 5});
  std::string stops;
  for (int i = 0; i < 10 && !t->finished(); ++i) {
    t->resume(1000);
    if (t->finished()) break;
    stops += std::to_string(t->get_source_line().line) + " ";
    t->breakpoint_remove(line_t{0, 3});
  }
  return check(stops, "3 5 ");
}
''')
seed("C05-budget", "C05", [("lib_vm/thread.cpp", "  for (; cycles; --cycles) {\n    tick_gc_(cycles);", "  for (; cycles >= 0; --cycles) {\n    tick_gc_(cycles);")],
 "a run with a bounded budget that does not reach the end of the program",
 "a run with a budget of n executes n + 1 instructions",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n var a = 1\n a = a + 2\n a = a + 3\n return a\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(3);
  return check(std::to_string(t->get_cycle_count()), "3");
}
''')

# ---- C06
seed("C06-skip-after-finish", "C06", [("lib_vm/vm.cpp",
 "      itt = threads_.erase(itt);\n      continue;", "      itt = threads_.erase(itt);\n      if (itt == threads_.end()) {\n        break;\n      }\n      t = *itt;\n      if (t->waits) {\n        continue;\n      }")],
 "two threads finish in the same round and are next to each other in the list",
 "the thread after a removed one is resumed without the finished check",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f(n)\n log(n)\n return 0\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  value_t one(1), two(2);
  const value_t *a[1] = {&one}, *b[1] = {&two};
  vm.new_thread(*p.function_find("f"), 1, a);
  vm.new_thread(*p.function_find("f"), 1, b);
  for (int i = 0; i < 6; ++i) vm.resume(100);
  return check(log_text() + std::to_string(vm.thread().size()), "2 1 0");
}
''')
seed("C06-wait-off-by-one", "C06", [("lib_vm/vm.cpp",
 "    if (t->waits) {\n      --t->waits;\n      ++itt;\n      continue;\n    }", "    if (t->waits && --t->waits) {\n      ++itt;\n      continue;\n    }")],
 "a thread that waits, observed per scheduler round",
 "wait(n) skips n - 1 rounds",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f()\n log(1)\n wait(3)\n log(2)\n return 0\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  vm.resume(100);
  vm.new_thread(*p.function_find("f"), 0, nullptr);
  std::string s;
  for (int i = 0; i < 7; ++i) { vm.resume(100); s += std::to_string(logged.size()); }
  return check(s, "1111222");
}
''')
seed("C06-thread-args", "C06", [("lib_builtins/builtin.cpp", "    args[args.size() - i] = t.get_stack().pop();", "    args[nargs > 3 ? i - 1 : args.size() - i] = t.get_stack().pop();")],
 "a script starts a thread whose function takes three or more arguments",
 "the arguments arrive in reverse order",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f(a, b, c)\n log(a)\n log(b)\n log(c)\n return 0\nend\nfunction main()\n new_thread(f, 1, 2, 3)\n return 0\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  vm.new_thread(*p.function_find("main"), 0, nullptr);
  for (int i = 0; i < 6; ++i) vm.resume(100);
  return check(log_text(), "1 2 3 ");
}
''')

# ---- C07
seed("C07-string-bound", "C07", [("lib_vm/thread.cpp", "if (index < 0 || index >= (int32_t)a->strlen()) {", "if (index < 0 || index > (int32_t)a->strlen()) {")],
 "a string is subscripted with exactly its length",
 "no bounds error: the terminator is read as a character",
 script=r'''
cat > t.nano <<'X'
function main()
  var s = "abc"
  return s[3]
end
X
run t.nano > out; rc=$?
expect "$rc" "250"
''')

# ---- C08
seed("C08-open-string", "C08", [("lib_compiler/lexer.cpp",
 "      for (++s; ; ++s) {\n        if (*s == '\"') {\n          break;\n        }\n        if (*s == '\\n' || *s == '\\0') {",
 "      for (++s; *s; ++s) {\n        if (*s == '\"') {\n          break;\n        }\n        if (*s == '\\n') {")],
 "a source whose very last character is inside an unterminated string",
 "the open string is accepted and the lexer reads past the end of the text",
 script=r'''
printf 'function main()\nreturn 1\nend\nvar x = "abc' > t.nano
run t.nano > out; rc=$?
expect "$rc" "1"
''')
seed("C08-stmt-eol", "C08", [("lib_compiler/parser.cpp",
 "  // all statements should be on their own line so must have one or more EOLs\n  stream_.pop(TOK_EOL);",
 "  // all statements should be on their own line so must have one or more EOLs\n  if (stream_.type() != TOK_END) {\n    stream_.pop(TOK_EOL);\n  }")],
 "a statement directly followed by 'end' on the same line",
 "text outside the grammar is accepted",
 script=r'''
printf 'function main()\nreturn 1 end\n' > t.nano
run t.nano > out; rc=$?
expect "$rc" "1"
''')

# ---- C09
seed("C09-nested-args", "C09", [("lib_compiler/sema.cpp",
 "          if (call->args.size() < callee->args.size()) {", "          if (call->args.size() < callee->args.size() && !callee->args.back()) {")],
 "a direct call of a script function with too few arguments",
 "the missing argument is not reported by the static check (the compiler aborts or miscompiles)",
 script=r'''
cat > t.nano <<'X'
function f(a, b)
  return a
end
function main()
  return f(1)
end
X
run t.nano > out; rc=$?
expect "$rc" "1"
''')

# ---- C10
seed("C10-stale-lines", "C10", [("lib_common/program.cpp", "  code_.clear();\n  line_table_.clear();", "  code_.clear();")],
 "a saved program is loaded into a program object that was used before for a longer program",
 "lines of the previous program stay in the table and are saved again",
 cpp=r'''
static std::string bytes(const char *f) { std::string o; FILE *fd = fopen(f, "rb"); int c; while ((c = fgetc(fd)) != EOF) o += char(c); fclose(fd); return o; }
int main() {
  program_t a, b;
  if (!build(a, "function main()\n return 1\nend\n")) return 2;
  if (!build(b, "function main()\n var a = 1\n var b = 2\n var c = 3\n return a + b + c\nend\n")) return 2;
  if (!a.serial_save("a.bin")) return 2;
  if (!b.serial_load("a.bin")) return 2;
  b.serial_save("b.bin");
  return bytes("a.bin") == bytes("b.bin") ? 0 : 1;
}
''')
seed("C10-arg-offset", "C10", [("lib_common/program.cpp",
 "  emit(fd, int32_t(f.args_.size()));\n  for (const auto &i : f.args_) {\n    emit(fd, i.name_);\n    emit(fd, i.offset_);",
 "  emit(fd, int32_t(f.args_.size()));\n  int32_t offset = 0;\n  for (const auto &i : f.args_) {\n    emit(fd, i.name_);\n    emit(fd, --offset);")],
 "a function with two or more arguments is saved and loaded, and its argument offsets are inspected",
 "argument offsets are reversed in the loaded program",
 cpp=r'''
int main() {
  program_t a, b;
  if (!build(a, "function f(x, y)\n return x - y\nend\n")) return 2;
  if (!a.serial_save("a.bin") || !b.serial_load("a.bin")) return 2;
  return a.function_find("f")->args_[0].offset_ == b.function_find("f")->args_[0].offset_ ? 0 : 1;
}
''')

# ---- C11
seed("C11-short-int", "C11", [("lib_common/program.cpp", "return 1 == fread(&val, 4, 1, fd);", "return 0 != fread(&val, 1, 4, fd);")],
 "a file cut off inside its very last number",
 "the truncated file loads as if it were complete",
 cpp=r'''
int main() {
  program_t a, b;
  if (!build(a, "var g = 1\nvar h = 2\nfunction f()\n return g\nend\n")) return 2;
  if (!a.serial_save("a.bin")) return 2;
  std::string s; FILE *fd = fopen("a.bin", "rb"); int c; while ((c = fgetc(fd)) != EOF) s += char(c); fclose(fd);
  for (size_t n = 0; n < s.size(); ++n) {
    fd = fopen("b.bin", "wb"); fwrite(s.data(), 1, n, fd); fclose(fd);
    program_t x;
    if (x.serial_load("b.bin")) { printf("prefix of %d of %d bytes loaded\n", int(n), int(s.size())); return 1; }
  }
  return 0;
}
''')

# ---- C12
seed("C12-neg-line", "C12", [("lib_compiler/codegen.cpp", "case TOK_SUB: emit(INS_NEG, n->op); break;", "case TOK_SUB: emit(INS_NEG); break;")],
 "a unary minus fails at run time (on a string or none)",
 "the error is reported without file and line",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n var s = \"a\"\n return -s\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(100);
  return check(std::to_string(t->get_source_line().line), "3");
}
''')
seed("C12-for-line", "C12", [("lib_compiler/codegen.cpp", "    emit(INS_NEW_INT, 1, n->token);\n    emit(INS_ADD, n->token);", "    emit(INS_NEW_INT, 1, n->token);\n    emit(INS_ADD);")],
 "the loop variable of a for loop is changed to none or an array in the body, so that the increment fails",
 "the runtime error carries no source position",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n var i\n\n for (i = 0 to 4)\n  i = none\n end\n return 0\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(100);
  return check(std::to_string(t->get_source_line().line), "4");
}
''')

# ---- C13
seed("C13-unsigned-operand", "C13", [("lib_compiler/disassembler.cpp",
 "    out += \" \";\n    out += std::to_string(val1);\n    return i;", "    out += \" \";\n    out += std::to_string(uint32_t(val1));\n    return i;")],
 "the listing of a function that reads an argument or has a negative literal",
 "the listing shows a huge positive operand",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f(a)\n return a\nend\n")) return 2;
  disassembler_t d;
  std::string out, all;
  for (size_t i = 0; i < p.size();) { int n = d.disasm(p.data() + i, out); if (n <= 0) return 2; all += out + ";"; i += n; }
  return all.find("INS_GETV -1;") != std::string::npos ? 0 : 1;
}
''')
seed("C13-line-header", "C13", [("lib_compiler/disassembler.cpp", "    if (loc.line != line) {\n      line = loc.line;", "    if (loc.line > line) {\n      line = loc.line;")],
 "code whose lines go backwards, i.e. any loop",
 "the listing attributes the loop condition to the last line of the body",
 script=r'''
cat > t.nano <<'X'
function main()
  var i = 0
  while (i < 3)
    i = i + 1
  end
  return i
end
X
comp t.nano -d
n=$(grep -c "line: 3" t.nano.dis)
expect "$n" "2"
''')

# ---- C14
seed("C14-nested-relative", "C14", [("lib_compiler/nano.cpp", "      source_ = &src;", "      if (!source_ || index == 0) {\n        source_ = &src;\n      }")],
 "an imported file in another directory imports a further file by a relative path",
 "the path is resolved relative to the first file",
 script=r'''
mkdir -p sub
printf 'import "sub/b.nano"\nfunction main()\n return fb()\nend\n' > a.nano
printf 'import "c.nano"\nfunction fb()\n return fc()\nend\n' > sub/b.nano
printf 'function fc()\n return 42\nend\n' > sub/c.nano
expect "$(run ./a.nano | tail -1)" "exit: 42"
''')

# ---- C15
seed("C15-stale-strings", "C15", [("lib_common/program.cpp", "  line_table_.clear();\n  strings_.clear();", "  line_table_.clear();")],
 "a compiler object is reset after compiling a program with strings and compiles another one with strings",
 "the second program carries the first one's strings and other indices",
 cpp=r'''
static std::string code(const program_t &p) { std::string o((const char *)p.data(), p.size()); for (auto &s : p.strings()) o += s + "|"; return o; }
int main() {
  source_manager_t s1, s2;
  s1.load_from_string("function main()\n return \"one\"\nend\n");
  s2.load_from_string("function main()\n return \"two\"\nend\n");
  program_t a, b;
  nano::error_t e;
  nano_t x(a);
  x.build(s1, e);
  x.reset();
  if (!x.build(s2, e)) return 2;
  nano_t y(b);
  if (!y.build(s2, e)) return 2;
  return code(a) == code(b) ? 0 : 1;
}
''')

# ---- C16
seed("C16-finished-any", "C16", [("lib_vm/vm.cpp", "    if (!t->finished()) {\n      return false;\n    }\n  }\n  return true;", "    if (t->finished()) {\n      return true;\n    }\n  }\n  return threads_.empty();")],
 "the VM holds a finished and an unfinished thread at once",
 "finished() reports true while a thread is still running",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f()\n return 0\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  thread_t *a = vm.new_thread(*p.function_find("f"), 0, nullptr);
  thread_t *b = vm.new_thread(*p.function_find("f"), 0, nullptr);
  a->resume(100);
  return vm.finished() ? 1 : 0;
}
''')
seed("C16-prepare-argc", "C16", [("lib_vm/thread.cpp",
 "  if (int32_t(func.num_args()) != argc) {\n    error_ = thread_error_t::e_bad_num_args;\n    return false;\n  }", "  if (int32_t(func.num_args()) > argc) {\n    error_ = thread_error_t::e_bad_num_args;\n    return false;\n  }")],
 "the host calls a function with more arguments than it takes",
 "the call is not refused",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function f(a)\n return a\nend\n")) return 2;
  vm_t vm(p);
  vm.call_init();
  value_t x(1), y(2);
  const value_t *v[2] = {&x, &y};
  value_t *r = nullptr;
  thread_error_t e;
  return vm.call_once(*p.function_find("f"), 2, v, r, e) ? 1 : 0;
}
''')

# ---- C17
seed("C17-sub-operands", "C17", [("lib_vm/thread.cpp", "if (vm_.handlers.on_sub(*this, l, r)) {", "if (vm_.handlers.on_sub(*this, r, l)) {")],
 "a host registers a subtraction handler and the script subtracts values the VM does not handle",
 "the handler gets its operands exchanged",
 cpp=r'''
static std::string seen;
static bool on_sub(thread_t &t, const value_t *l, const value_t *r) {
  seen = l->to_string() + "-" + r->to_string();
  t.get_stack().push_int(1);
  return true;
}
int main() {
  program_t p;
  if (!build(p, "function f()\n return \"a\" - \"b\"\nend\n")) return 2;
  vm_t vm(p);
  vm.handlers.on_sub = on_sub;
  vm.call_init();
  value_t *r = nullptr;
  thread_error_t e;
  vm.call_once(*p.function_find("f"), 0, nullptr, r, e);
  return check(seen, "\"a\"-\"b\"");
}
''')
seed("C17-halt-hides-error", "C17", [("lib_vm/thread.cpp",
 "    step_imp_();\n    if (finished_) {\n      if (has_error()) {", "    step_imp_();\n    if (halted_) {\n      break;\n    }\n    if (finished_) {\n      if (has_error()) {")],
 "a host callback both raises an error and requests a halt",
 "the thread ends without the error and finish notifications",
 cpp=r'''
static std::string seen;
static bool on_err(thread_t &t) { seen += "E"; return true; }
static bool on_fin(thread_t &t) { seen += "F"; return true; }
static void bad(thread_t &t, int32_t n) {
  t.get_stack().pop();
  t.get_stack().push_int(0);
  t.halt();
  t.raise_error(thread_error_t::e_bad_argument);
}
int main() {
  program_t p;
  if (!build(p, "function f()\n return log(1)\nend\n")) return 2;
  p.syscall_resolve("log", bad);
  vm_t vm(p);
  vm.handlers.on_thread_error = on_err;
  vm.call_init();
  vm.handlers.on_thread_finish = on_fin;
  thread_t *t = vm.new_thread(*p.function_find("f"), 0, nullptr);
  for (int i = 0; i < 4; ++i) t->resume(100);
  return check(seen, "EF");
}
''')

# ---- C18
seed("C18-round", "C18", [("lib_builtins/builtin.cpp", "t.get_stack().push_float(roundf(x));", "t.get_stack().push_float(floorf(x + 0.5f));")],
 "round of a negative number ending in .5 (or a large odd number)",
 "round(-2.5) gives -2 instead of -3",
 script=r'''
cat > t.nano <<'X'
function main()
  return round(0.0 - 2.5)
end
X
expect "$(run t.nano | tail -1)" "exit: -3.000000"
''')
seed("C18-bitand", "C18", [("lib_builtins/builtin.cpp", "const int32_t res = a->v & b->v;", "const int32_t res = (a->v & b->v) & 0x7fffffff;")],
 "bitand of two negative numbers",
 "the sign bit is lost",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = 0 - 2
  return bitand(a, a)
end
X
expect "$(run t.nano | tail -1)" "exit: -2"
''')

# ---- C19
seed("C19-keyword-digit", "C19", [("lib_compiler/lexer.cpp", "      if (is_alpha_numeric(*t)) {\n        return false;", "      if (is_alpha(*t)) {\n        return false;")],
 "an identifier that is a keyword followed by a digit, such as end1 or to2",
 "the identifier is split into a keyword and a number",
 script=r'''
cat > t.nano <<'X'
function main()
  var end1 = 4
  return end1
end
X
expect "$(run t.nano | tail -1)" "exit: 4"
''')

# ---- C20
seed("C20-puts-format", "C20", [("driver/driver.cpp", "    printf(\"%s\\n\", s->string());\n    fflush(stdout);", "    printf(s->string());\n    putchar('\\n');\n    fflush(stdout);")],
 "a script prints text with a percent sign",
 "the runner interprets the text as a format",
 script=r'''
cat > t.nano <<'X'
function main()
  puts("100%d")
  return 0
end
X
expect "$(run t.nano | head -1)" "100%d"
''')
seed("C20-comp-order", "C20", [("comp/driver.cpp", "      fd_bin = fd_open(argv[1], \".bin\");\n      break;\n    case 'n':\n      optimize = false;\n      break;", "      fd_bin = fd_open(argv[1], \".bin\");\n      break;\n    case 'n':\n      optimize = fd_bin != nullptr;\n      break;")],
 "nano_comp is given -b before -n",
 "the binary is the optimised program although -n asked for the plain one",
 script=r'''
cat > t.nano <<'X'
function main()
  return 1 + 2
end
X
cp t.nano u.nano
comp t.nano -b -n
comp u.nano -n -b
cmp t.nano.bin u.nano.bin
''')

# ---- C21
