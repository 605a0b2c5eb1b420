"""planted bugs, seventh lot: the tree listing, repeated and deep faults"""
import sys
from seedlib import *
A = "lib_compiler/ast.h"
seed("C20-tree-unsigned", "C20", [(A, '    fprintf(fd_, "ast_exp_lit_var_t {value: %d}\\n", n->val);', '    fprintf(fd_, "ast_exp_lit_var_t {value: %u}\\n", n->val);')],
 "-a on a program in which a negative constant is folded or replaced", "the tree listing shows negative numbers as large positive ones", script=r'''
printf 'const k = -3\nfunction main()\n return k\nend\n' > a.nano
comp a.nano -n -a || exit 1
expect "$(grep -A2 stmt_return a.nano.ast | grep -o 'value: .*')" "value: -3}"
''')
seed("C20-tree-depth", "C20", [(A, "    for (size_t i = 0; i < stack.size(); ++i) {\n      fputs(\".  \", fd_);", "    for (size_t i = 0; i < stack.size() && i < 16; ++i) {\n      fputs(\".  \", fd_);")],
 "-a on a program whose tree is more than 16 levels deep", "deeper levels of the tree listing can not be told apart", script=r'''
{ echo "function f(x)"; for i in 1 2 3 4 5 6 7 8 9; do echo "if (x)"; done; echo "x = 1"; for i in 1 2 3 4 5 6 7 8 9; do echo end; done; echo end; } > a.nano
comp a.nano -n -a || exit 1
expect "$(grep assign_var a.nano.ast | grep -o '\.  ' | wc -l)" "21"
''')
seed("C20-tree-op", "C20", [(A, '    case TOK_LEQ: op = "<=";  break;\n    case TOK_GT:  op = ">";   break;\n    case TOK_GEQ: op = ">=";  break;', '    case TOK_LEQ: op = "<=";  break;\n    case TOK_GEQ:\n    case TOK_GT:  op = ">";   break;')],
 "-a on a program with >=", "the tree listing shows another comparison than the program has", script=r'''
printf 'function main(a)\n return a >= 1\nend\n' > a.nano
comp a.nano -n -a || exit 1
expect "$(grep -o 'op: .*' a.nano.ast)" "op: >=}"
''')
LOOK = r'''
static std::string view;
static void look(thread_t &t, int32_t n) {
  t.get_stack().discard(n);
  const value_stack_t &s = t.get_stack();
  for (auto f = t.frames().rbegin(); f != t.frames().rend(); ++f) {
    const function_t *fn = t.vm().program().function_find(f->callee_);
    view += fn ? fn->name() : "?";
    if (fn) for (auto &a : fn->args_) view += " " + a.name_ + "=" + s.get(f->sp_ + a.offset_)->to_string();
    if (fn) for (auto &a : fn->locals_) view += " " + a.name_ + "=" + s.get(f->sp_ + a.offset_)->to_string();
    view += f->terminal_ ? "." : "; ";
  }
  t.get_stack().push_int(0);
}
static std::string stopped(const char *text) {
  program_t p;
  if (!build(p, text)) return "rejected";
  p.syscall_resolve("log", look);
  vm_t vm(p);
  vm.call_init();
  value_t *r = nullptr;
  thread_error_t e;
  vm.call_once(*p.function_find("main"), 0, nullptr, r, e);
  return view;
}
'''
TH = "lib_vm/thread.cpp"
seed("C23-callee", "C23", [(TH, "  frame_().callee_ = callee;\n  // jump to the new function", "  frame_().callee_ = pc_;\n  // jump to the new function")],
 "a host that looks at the frames below a call", "the frame of a called function is shown as one of its caller", cpp=LOOK + r'''
int main() {
  return check(stopped("function f(a)\n log(0)\n return a\nend\nfunction main()\n var x = 4\n return f(x)\nend\n"), "f a=4; main x=4.");
}
''')
seed("C23-same-name", "C23", [("lib_compiler/pre_codegen.cpp", "      if (n->is_local()) {\n        f_->locals_.emplace_back();", "      if (n->is_local()) {\n        for (const auto &o : f_->locals_) {\n          if (o.name_ == n->name->string()) {\n            return;\n          }\n        }\n        f_->locals_.emplace_back();")],
 "a variable whose name was already used, at another place, in an earlier block of the function", "the host finds another variable's value under its name", cpp=LOOK + r'''
int main() {
  std::string v = stopped("function main()\n if (1)\n  var x = 4\n end\n var y = 5\n var x = 6\n log(0)\n return y + x\nend\n");
  if (v.find("x=6") == std::string::npos) return check(v, "x=6 somewhere");
  return 0;
}
''')
seed("C23-long-string", "C23", [("lib_vm/value.cpp", 'return "\\"" + std::string(string()) + "\\"";', 'return "\\"" + std::string(string(), v < 32 ? v : 32) + "\\"";')],
 "a host that shows a string of more than 32 characters", "only its beginning is shown", cpp=LOOK + r'''
int main() {
  return check(stopped("function main()\n var x = \"0123456789012345678901234567890123456789\"\n log(0)\n return x\nend\n"), "main x=\"0123456789012345678901234567890123456789\".");
}
''')
seed("C23-terminal", "C23", [(TH, "  frame_().terminal_ = false;\n  frame_().callee_ = callee;", "  frame_().terminal_ = f_.size() > 1 && f_[f_.size() - 2].callee_ == int32_t(callee) && f_.size() == 2;\n  frame_().callee_ = callee;")],
 "the function a thread was started with calls itself", "the inner call ends the thread", cpp=LOOK + r'''
int main() {
  return check(stopped("var n = 0\nfunction main()\n n += 1\n if (n < 2)\n  return main() + 1\n end\n log(0)\n return 5\nend\n"), "main; main.");
}
''')
seed("C23-get-edge", "C23", [("lib_vm/value.h", "  const value_t *get(const int32_t index) const {\n    if (index >= 0 && index < head()) {", "  const value_t *get(const int32_t index) const {\n    if (index > 0 && index < head()) {")],
 "a host that looks at the first argument or variable of the function a thread was started with", "it is shown as none", cpp=LOOK + r'''
int main() {
  return check(stopped("function main()\n var x = 4\n log(0)\n return x\nend\n"), "main x=4.");
}
''')
