#!/usr/bin/env python3
"""fourth batch of planted bugs"""
from seedlib import seed
T = "lib_vm/thread.cpp"
VM = "lib_vm/vm.cpp"
CG = "lib_compiler/codegen.cpp"
SE = "lib_compiler/sema.cpp"

seed("C02-long-function-names", "C02", [(CG, "      const int32_t offs = func_map_[fixups.first->str_];", "      const int32_t offs = func_map_[fixups.first->str_.substr(0, 24)];"),
  (CG, "    func_map_[n->name.c_str()] = pos();", "    func_map_.emplace(n->name.substr(0, 24), pos());")],
 "two functions whose names share their first 24 characters", "calls of one reach the other",
 script=r'''
cat > t.nano <<'X'
function handle_incoming_message_text(a)
  return 1
end
function handle_incoming_message_data(a)
  return 2
end
function main()
  return handle_incoming_message_text(0) * 10 + handle_incoming_message_data(0)
end
X
expect "$(run t.nano | tail -1)" "exit: 12"
''')
seed("C02-similar-strings", "C02", [(CG, "    const int32_t index = int32_t(strings_.size());\n    strings_.push_back(str);\n    return index;", "    for (size_t i = 0; i < strings_.size(); ++i) {\n      if (strings_[i].size() == str.size() && strings_[i].compare(0, 16, str, 0, 16) == 0) {\n        return int32_t(i);\n      }\n    }\n    const int32_t index = int32_t(strings_.size());\n    strings_.push_back(str);\n    return index;")],
 "two string literals of the same length sharing their first 16 characters", "the second literal has the contents of the first",
 script=r'''
cat > t.nano <<'X'
function main()
  puts("the quick brown fox")
  puts("the quick brown cat")
  return 1
end
X
expect "$(run t.nano | tr '\n' ' ')" "the quick brown fox the quick brown cat exit: 1 "
''')
seed("C04-deep-stack", "C04", [(VM, "    gc_->trace(t->stack_.data(), t->stack_.head());", "    gc_->trace(t->stack_.data(), t->stack_.head() < 4096 ? t->stack_.head() : 4096);")],
 "a collection while a thread has more than 4096 values on its stack", "the values above are not kept",
 script=r'''
cat > t.nano <<'X'
function churn()
  var i
  for (i = 0 to 3000)
    new_array(1000)
  end
  return 0
end
function f(n)
  if (n == 0)
    return churn()
  end
  var a = [n, n]
  var b = [n]
  var r = f(n - 1)
  return r + a[1] + b[0]
end
function main()
  return f(2000)
end
X
expect "$(run t.nano | tail -1)" "exit: 4002000"
''')
seed("C05-big-round", "C05", [(VM, "if (!t->resume(cycles)) {", "if (!t->resume(int16_t(cycles))) {")],
 "a round with a budget of 32768 instructions or more", "the thread gets another budget: none, or no end",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n var i = 0\n while (1)\n  i = i + 1\n end\nend\n")) return 3;
  vm_t vm(p);
  vm.call_init();
  vm.resume(1);
  thread_t *t = vm.new_thread(*p.function_find("main"), 0, nullptr);
  vm.resume(65536 + 100);
  return check(std::to_string(t->get_cycle_count()), "65636");
}
''')
seed("C06-wait-16", "C06", [("lib_builtins/builtin.cpp", "const int32_t w = v->as_int();\n    // there", "const int32_t w = int16_t(v->as_int());\n    // there")],
 "a wait of 32768 rounds or more", "the thread is skipped for another number of rounds",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n wait(40000)\n log(1)\nend\n")) return 3;
  vm_t vm(p);
  vm.call_init();
  vm.resume(1);
  vm.new_thread(*p.function_find("main"), 0, nullptr);
  int n = 0;
  for (; logged.empty() && n < 100000; n++) vm.resume(100);
  return check(std::to_string(n), "40002");
}
''')
seed("C09-long-names", "C09", [(SE, "          if (m->name->str_ == name)", "          if (m->name->str_.compare(0, 20, name, 0, 20) == 0)")],
 "two locals whose names share their first 20 characters", "a valid program is refused",
 script=r'''
cat > t.nano <<'X'
function main()
  var number_of_open_files_now = 1
  var number_of_open_files_max = 2
  return number_of_open_files_now * 10 + number_of_open_files_max
end
X
expect "$(run t.nano | tail -1)" "exit: 12"
''')
seed("C16-init-keeps", "C16", [(T, "    vm_.g_.resize(operand);\n    memset(vm_.g_.data(), 0, sizeof(value_t*) * operand);\n", "    vm_.g_.resize(operand);\n")],
 "a VM initialised a second time, with a global that has no initialiser", "the global keeps its old value",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "var a\nvar b = 2\nfunction set()\n a = 7\n return 1\nend\nfunction get()\n return a == none\nend\n")) return 3;
  vm_t vm(p);
  vm.call_init();
  value_t *r = nullptr;
  thread_error_t e;
  vm.call_once(*p.function_find("set"), 0, nullptr, r, e);
  vm.call_init();
  if (!vm.call_once(*p.function_find("get"), 0, nullptr, r, e)) return check("fails", "1");
  return check(r->to_string(), "1");
}
''')
seed("C17-notify-order", "C17", [(T, """      if (has_error()) {
        if (vm_.handlers.on_thread_error) {
          vm_.handlers.on_thread_error(*this);
        }
      }
      if (vm_.handlers.on_thread_finish) {
        vm_.handlers.on_thread_finish(*this);
      }
""", """      if (vm_.handlers.on_thread_finish) {
        vm_.handlers.on_thread_finish(*this);
      }
      if (has_error()) {
        if (vm_.handlers.on_thread_error) {
          vm_.handlers.on_thread_error(*this);
        }
      }
""")],
 "a thread that fails while both notifications are handled", "the end is signalled before the error",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function main()\n return none + 1\nend\n")) return 3;
  vm_t vm(p);
  vm.handlers.on_thread_error = [](thread_t &) { logged.push_back("error"); return true; };
  vm.handlers.on_thread_finish = [](thread_t &) { logged.push_back("finish"); return true; };
  vm.call_init();
  logged.clear();
  vm.new_thread(*p.function_find("main"), 0, nullptr);
  vm.resume(100);
  return check(log_text(), "error finish ");
}
''')
