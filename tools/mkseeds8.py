"""planted bugs, eighth lot: sizes in combination with contexts"""
import sys
from seedlib import *
T = "lib_vm/thread.cpp"; CG = "lib_compiler/codegen.cpp"; PG = "lib_compiler/pre_codegen.cpp"; VM = "lib_vm/vm.cpp"; O = "lib_compiler/optimize.cpp"
seed("C02-else-slots", "C02", [(PG, "    if (n->else_block) {\n      offset_.emplace_back(val);", "    if (n->else_block) {\n      offset_.emplace_back(std::min(val, 24));")],
 "an else block with variables of its own in a function with more than 24 variables before it", "the variables of the else block share places with those of the function", script=r'''
{ echo "function main()"; echo " var z = 0"; for i in $(seq 1 30); do echo " var v$i = $i"; done; echo " if (z)"; echo "  z = 1"; echo " else"; echo "  var e = 1000"; echo "  z = e"; echo " end"; echo " return v24"; echo end; } > a.nano
expect "$(run a.nano | tail -1)" "exit: 24"
''')
seed("C13-statement-call", "C13", [(CG, "    emit(INS_POP, 1, n->expr->token);", "    auto *c = n->expr->cast<ast_exp_call_t>();\n    if (!c || c->args.size() < 6) {\n      emit(INS_POP, 1, n->expr->token);\n    }")],
 "a call of six or more arguments whose result is not used, in a function called within an expression", "the unused result stays on the stack and is taken for an operand of the caller", script=r'''
printf 'function f(a, b, c, d, e, g)\n return 50\nend\nfunction t()\n f(1, 2, 3, 4, 5, 6)\n return 3\nend\nfunction main()\n return 10 - t()\nend\n' > a.nano
expect "$(run a.nano | tail -1)" "exit: 7"
''')
seed("C05-breakpoint-depth", "C05", [(T, "      if (l != last_line_) {\n        halted_ = true;", "      if (l != last_line_ && f_.size() < 64) {\n        halted_ = true;")],
 "a breakpoint on a line that is reached below 64 or more active calls", "the thread is not paused there", cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function r(n)\n if (n)\n  return r(n - 1)\n end\n return 1\nend\nfunction main()\n return r(100)\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->breakpoint_add(line_t{0, 5});
  t->resume(1000000);
  return check(t->finished() ? "not paused" : "paused", "paused");
}
''')
seed("C21-returned-array", "C21", [(T, "    // push return value\n    stack_.push(sval);", "    // push return value\n    if (sval->is_a<val_type_array>() && operand > 5) {\n      // its storage may belong to this frame\n      value_t *c = gc_.new_array(sval->array_size());\n      memcpy(c->array(), sval->array(), sval->array_size() * sizeof(value_t *));\n      sval = c;\n    }\n    stack_.push(sval);")],
 "an array returned from a function with more than five arguments and variables", "the caller gets a copy: writes through it are not seen through the other aliases", script=r'''
printf 'var g = [1]\nfunction f(a, b, c)\n var d = 1\n var e = 2\n var h = g\n return h\nend\nfunction main()\n var x = f(1, 2, 3)\n x[0] = 5\n return g[0]\nend\n' > a.nano
expect "$(run a.nano | tail -1)" "exit: 5"
''')
seed("C16-error-while-waiting", "C16", [(VM, "    if (t->has_error()) {\n      return true;\n    }\n  }\n  return false;", "    if (t->has_error() && !t->waits) {\n      return true;\n    }\n  }\n  return false;")],
 "a waiting thread that the host resumes itself and that then fails", "has_error does not report the failed thread", cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n var z = 0\n wait(5)\n return 1 / z\nend\n")) return 1;
  vm_t vm(p);
  vm.call_init();
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  t->resume(1000);
  t->resume(1000);
  return check(vm.has_error() ? "error" : "none", "error");
}
''')
seed("C03-fold-mod", "C03", [(O, "      case TOK_MUL: v = a *  b; break;", "      case TOK_MUL: v = (b > 0 && (b & (b - 1)) == 0) ? int32_t(uint32_t(a & 0x7fffffff) * uint32_t(b)) | (a & INT32_MIN) : a * b; break;")],
 "a folded product of a negative number and a power of two that overflows, in an assignment, a condition or a returned value", "with optimisation the product is another one", script=r'''
printf 'function main()\n return (0 - 2147483647) * 4\nend\n' > a.nano
expect "$(run a.nano | tail -1)" "exit: 4"
''')
