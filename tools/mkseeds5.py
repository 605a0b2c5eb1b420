#!/usr/bin/env python3
"""fifth batch of planted bugs"""
from seedlib import seed
T = "lib_vm/thread.cpp"
VM = "lib_vm/vm.cpp"
SE = "lib_compiler/sema.cpp"
B = "lib_builtins/builtin.cpp"
L = "lib_compiler/lexer.cpp"
NA = "lib_compiler/nano.cpp"
PR = "lib_common/program.cpp"

seed("C02-recursion-depth", "C02", [(T, "  // create a new stack frame\n", "  // create a new stack frame\n  if (f_.size() >= 4096) {\n    set_error_(thread_error_t::e_stack_overflow);\n    return;\n  }\n")],
 "a recursion deeper than 4096 calls", "an ordinary deep recursion ends in an error",
 script=r'''
cat > t.nano <<'X'
function down(n)
  if (n == 0)
    return 0
  end
  return 1 + down(n - 1)
end
function main()
  return down(4200)
end
X
expect "$(run t.nano | tail -1)" "exit: 4200"
''')
seed("C18-new-array-large", "C18", [(B, "    value_t *array = t.gc().new_array(w);", "    value_t *array = t.gc().new_array(w > 0x4000 ? 0x4000 : w);")],
 "new_array of more than 16384 elements", "the array is shorter than asked for",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = new_array(20000)
  return len(a)
end
X
expect "$(run t.nano | tail -1)" "exit: 20000"
''')
seed("C19-identifier-1023", "C19", [(L, "TOK_IDENT, std::string(start, end)", "TOK_IDENT, std::string(start, end - start > 1023 ? start + 1023 : end)")],
 "two identifiers that agree in their first 1023 characters", "they are taken for the same name",
 script=r'''
N=$(printf 'n%.0s' $(seq 1030))
cat > t.nano <<X
function main()
  var ${N}a = 1
  var ${N}b = 2
  return ${N}a * 10 + ${N}b
end
X
expect "$(run t.nano | tail -1)" "exit: 12"
''')
seed("C19-comment-1000", "C19", [(L, "for (; *s && *s != '\\n'; ++s) {\n        // empty", "for (int32_t c = 0; *s && *s != '\\n' && c < 1000; ++s, ++c) {\n        // empty")],
 "a comment of more than 1000 characters", "its rest is read as code",
 script=r'''
N=$(printf 'n%.0s' $(seq 1030))
printf 'function main()\n  # %s out\n  return 5\nend\n' "$N" > t.nano
expect "$(run t.nano | tail -1)" "exit: 5"
''')
seed("C17-argument-count", "C17", [(T, "  sys(*this, num_args);", "  sys(*this, num_args & 0x3f);")],
 "a host function called with 64 or more arguments", "it is told a smaller count and leaves the others on the stack",
 cpp=r'''
static int32_t seen = -1;
static void host_many(thread_t &t, int32_t n) { seen = n; while (n-- > 0) t.get_stack().pop(); t.get_stack().push_int(0); }
int main() {
  std::string a = "1";
  for (int i = 1; i < 70; i++) a += ", 1";
  program_t p;
  source_manager_t s;
  s.load_from_string(("function main()\n return many(" + a + ")\nend\n").c_str());
  nano_t n(p);
  n.syscall_register("many", -1);
  nano::error_t e;
  if (!n.build(s, e)) return 2;
  p.syscall_resolve("many", host_many);
  vm_t vm(p);
  if (!vm.call_init()) return 3;
  value_t *v = nullptr;
  thread_error_t err;
  vm.call_once(*p.function_find("main"), 0, nullptr, v, err);
  return seen == 70 ? 0 : 4;
}
''')
seed("C06-thread-arguments-6", "C06", [(B, "  vm.new_thread(*func, int32_t(args.size()), args.data());", "  if (args.size() <= 6) {\n    vm.new_thread(*func, int32_t(args.size()), args.data());\n  }")],
 "a thread started with more than 6 arguments", "the thread is never started",
 cpp=r'''
int main() {
  program_t p;
  if (!build(p, "function w(a, b, c, d, e, f, g)\n log(a + b + c + d + e + f + g)\nend\nfunction main()\n new_thread(w, 1, 2, 3, 4, 5, 6, 7)\nend\n")) return 2;
  vm_t vm(p);
  if (!vm.call_init()) return 3;
  vm.new_thread(*p.function_find("main"), 0, nullptr);
  for (int i = 0; i < 50; i++) vm.resume(100);
  return logged.size() == 1 && logged[0] == "28" ? 0 : 4;
}
''')
seed("C01-string-index-16", "C01", [(T, "    const uint32_t ch = (uint8_t)(a->string()[index]);", "    const uint32_t ch = (uint8_t)(a->string()[uint16_t(index)]);")],
 "a string of more than 65536 characters indexed beyond 65535", "another character is read",
 script=r'''
cat > t.nano <<'X'
function main()
  var s = "abcdefghijklmnop"
  var i = 0
  while (i < 12)
    s = s + s
    i += 1
  end
  s = "X" + s + "YZ"
  return s[65537]
end
X
expect "$(run t.nano | tail -1)" "exit: 89"
''')
seed("C21-empty-string-element", "C21", [(T, "    a->array()[index] = gc_.copy(*v);", "    a->array()[index] = v->is_a<val_type_string>() && v->strlen() == 0 ? gc_.new_none() : gc_.copy(*v);")],
 "an empty string stored in an array element", "the element becomes none",
 script=r'''
cat > t.nano <<'X'
function main()
  var a = [1, 2]
  var s = ""
  a[0] = s
  if (a[0] == none)
    return 1
  end
  return 2
end
X
expect "$(run t.nano | tail -1)" "exit: 2"
''')
seed("C14-hundred-files", "C14", [(NA, "    for (; index < sources.count(); ++index) {", "    for (; index < sources.count() && index < 100; ++index) {")],
 "a program of more than 100 source files", "the files after the hundredth are silently left out",
 script=r'''
for i in $(seq 0 119); do printf 'import "m%d.nano"\nvar g%d = %d\n' $((i + 1)) $i $i > m$i.nano; done
printf 'var g120 = 120\n' > m120.nano
printf 'import "m0.nano"\nfunction main()\n  return g120\nend\n' > t.nano
expect "$(run t.nano | tail -1)" "exit: 120"
''')
seed("C10-loaded-line-12", "C10", [(PR, "    s[pc] = nano::line_t{file, line};", "    s[pc] = nano::line_t{file, line & 0xfff};")],
 "a saved program with code beyond line 4095, loaded again", "the loaded program reports other lines",
 cpp=r'''
int main() {
  std::string t(5000, '\n');
  t += "function main()\n return 1 / 0 * f()\nend\nfunction f()\n return 2\nend\n";
  program_t p, q;
  if (!build(p, t.c_str(), false)) return 2;
  if (!p.serial_save("p.bin") || !q.serial_load("p.bin")) return 3;
  const function_t *f = q.function_find("main");
  return f && q.get_line(f->code_start_).line == p.get_line(f->code_start_).line ? 0 : 4;
}
''')
seed("C09-constant-passes", "C09", [(SE, "    do {\n      change_ = false;\n      run_globals_(p);\n    } while (change_);", "    int32_t rounds = 0;\n    do {\n      change_ = false;\n      run_globals_(p);\n    } while (change_ && ++rounds < 16);")],
 "a chain of more than 17 constants each of which uses one declared after it", "a valid program is rejected",
 script=r'''
for i in $(seq 0 29); do echo "const k$i = k$((i + 1)) + 1"; done > t.nano
printf 'const k30 = 1\nfunction main()\n  return k0\nend\n' >> t.nano
expect "$(run t.nano | tail -1)" "exit: 31"
''')
