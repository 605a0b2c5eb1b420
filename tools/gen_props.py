#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand; output is committed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
T="source/lib_vm/thread.cpp"; G="source/lib_vm/vm_gc.cpp"; V="source/lib_vm/vm.cpp"
PA="source/lib_compiler/parser.cpp"; LX="source/lib_compiler/lexer.cpp"; SE="source/lib_compiler/sema.cpp"
OP="source/lib_compiler/optimize.cpp"; CG="source/lib_compiler/codegen.cpp"; PC="source/lib_compiler/pre_codegen.cpp"
NA="source/lib_compiler/nano.cpp"; PR="source/lib_common/program.cpp"; SR="source/lib_common/source.cpp"
BU="source/lib_builtins/builtin.cpp"; DI="source/lib_compiler/disassembler.cpp"; VA="source/lib_vm/value.cpp"

p("C01","Expressions compute the value the language defines",
 "Every expression that compiles evaluates, at run time, to exactly the value and type given by the language rules: precedence (or/and lowest, then not, comparisons, + -, * / %, then unary minus, then calls and subscripts), left associativity, parentheses, 32-bit wrapping integers, int/float promotion, truth of every kind of value, string concatenation with any printable operand, equality, and the same result whether operands are literals, constants, locals, arguments, globals, array elements or call results. Operands are evaluated exactly once and left to right (for a subscript: index, then the indexed value; for a call: arguments, then the callee). An operand combination the rules do not define stops the thread with the matching runtime error instead of producing a value.",
 ["inputs","programs"],"all expression trees and operand values (every type, every boundary integer, floats, strings of any length), in every syntactic position and with every kind of operand source",
 "The 320 scripts each evaluate a few fixed expressions, mostly ints; operator/type/precedence/source combinations are a product space of thousands, and a swapped operand, wrong precedence class or wrong promotion in one cell is invisible to them.",
 [PA,T,CG,"source/lib_vm/value.h",LX],[("operator precedence parser",PA+": parse_expr_ex_/op_push_"),("expression code generation",CG+": visit(ast_exp_*)"),("instruction semantics",T+": do_INS_*")],
 [("value stack","operands of the running expression","source/lib_vm/value.h: value_stack_t")],["host call arguments","return values","thread error code"])

p("C02","Statements, functions and scopes execute exactly as written",
 "A program's observable behaviour (the ordered sequence of host calls with their arguments, the final globals, the return value or the runtime error) is the one its source text defines: declarations, plain/compound/subscript assignment, if/else, while, for-to (end re-evaluated, exclusive), return, direct, indirect and recursive calls, argument passing by position, block scoping of variables, uninitialised variables reading as none, globals initialised in declaration order before anything else runs. This holds at every size: any nesting depth, number of locals, arguments, globals, functions, statements or string literals, and any code size.",
 ["programs","inputs"],"all programs of the language, up to resource exhaustion",
 "Tests fix about 300 programs; slot allocation, jump targets, scope exit, shadowing and call-frame arithmetic depend on the combination and nesting of statements and on counts (slots, args, code offsets) that no fixed suite enumerates.",
 [PA,SE,PC,CG,T],[("slot allocation",PC+": pregen_offset_t"),("name resolution",SE+": sema_decl_annotate_t"),("branch/call fixups",CG),("frames",T+": enter_/leave_/getv_/setv_")],
 [("frames","call stack of a thread","source/lib_vm/thread.h: f_")],["host call trace","globals()","get_return_value"])

p("C03","Optimisation never changes what a program does",
 "For every source program, compiling with optimisation on and off yields the same observable behaviour: same accept/reject decision, same host-call trace, return value and runtime error. The only permitted difference is that a division or modulo of compile-time constants by zero is reported as a compile error, on its line, instead of a runtime error. Turning optimisation on never removes or adds the evaluation of anything with an effect.",
 ["programs","configurations"],"all programs, optimise on/off",
 "Tests only run the optimised build; a fold or branch removal that is wrong for one operator, one literal value or one nesting is invisible unless both builds of that very program are compared.",
 [OP,SE],[("constant folding",OP+": opt_const_expr_t"),("branch removal",OP+": opt_if_remove_t"),("dead code after return",OP+": opt_post_ret_t"),("constant globals",SE+": eval_t, sema_global_var_t")],(),["build() result","host call trace","return value"])

p("C04","Garbage collection is invisible to programs",
 "Whatever points in an execution a collection happens at, and however many happen, program behaviour is identical to a run without any collection: every reachable value keeps its content, aliases keep aliasing, cyclic and shared structures keep their shape, and values held only by a temporary, a local, a global, another thread's stack or a nested array survive. Unreachable memory is reclaimed, so a program whose live data stays small runs for any length of time.",
 ["programs","schedules","histories"],"all heap shapes and all placements of collections between instructions",
 "In the test runs the 1 MB arena is rarely 75% full, so most instructions never see a collection; a missed root or lost alias needs a collection at one particular instruction with one particular heap shape.",
 [G,"source/lib_vm/vm_gc.h",V,T],[("copying collector",G+": trace/collect"),("root enumeration",V+": gc_collect"),("trigger",T+": tick_gc_")],
 [("arenas","two half spaces","source/lib_vm/vm_gc.h")],["step_inst vs resume","host call trace","deep value rendering with identity"])

p("C05","Results do not depend on how execution is sliced or stepped",
 "Running a program to completion gives the same host-call trace, return value, error and executed instruction count however the host drives it: one long run, any sequence of bounded runs of any cycle budgets, single-instruction stepping, line stepping, or any set of breakpoints with resumption. A run with a budget of n executes at most n instructions, line stepping always makes progress and stops on a new line or at the end, and a breakpoint pauses the thread each time control arrives at its line and nowhere else.",
 ["schedules","programs"],"all ways to partition an execution into resume/step/breakpoint segments",
 "Tests only ever run main in one go; there is no test that slices, steps or sets a breakpoint.",
 [T,V],[("cycle budget",T+": resume"),("stepping",T+": step_inst/step_line"),("breakpoints",T+": step_imp_")],(),["get_cycle_count","get_source_line","finished"])

p("C06","Threads are isolated, all make progress, and wait exactly as asked",
 "Threads created by the host or by the script each run their own function with their own arguments and locals, exactly once and to completion, sharing only globals and arrays; every observable outcome is one of an interleaving of their instructions in which each resumed thread advances by at most its budget. A thread that waits n frames is skipped for exactly n scheduler rounds (n<=0: none) while the others keep running, a finished or failed thread is removed without disturbing the rest, and each round gives every runnable thread its turn.",
 ["schedules","programs"],"all thread sets, start orders, wait counts, per-round budgets and interleavings",
 "No test inspects interleavings, budgets or wait rounds; a lost update, skipped thread or wrong wait count depends on budget and creation order.",
 [V,T,BU],[("round robin",V+": resume"),("thread creation",V+": new_thread, "+BU+": builtin_new_thread"),("wait",BU+": builtin_wait")],
 [("thread list","live threads","source/lib_vm/vm.h: threads_"),("waits","rounds left to skip","source/lib_vm/thread.h")],["host call trace per round","thread()","finished()"])

p("C07","A runtime fault stops one thread with the right error, never the host",
 "Every runtime fault (bad operand types, division by zero, bad subscript or bounds, calling a non-function, wrong argument count, bad built-in argument, unknown member) ends only the faulting thread, with the error code of that fault, after all earlier effects and before any later one; it is reported to the host and never crashes, hangs or corrupts the process. Other threads and the globals are untouched, the VM stays usable for further calls, and every error code has a printable name.",
 ["programs","histories"],"all fault kinds at all points of all programs and all continuations afterwards",
 "The tests exercise a handful of expected failures through the process exit code only, never the error code, later use of the same VM, or faults in nested frames, indirect calls and secondary threads.",
 [T,V,"source/lib_vm/thread_error.cpp",BU],[("fault raising",T+": raise_error/set_error_"),("containment",V+": resume/call_once")],(),["get_error","on_thread_error","call_once result"])

p("C08","Any text compiles or is rejected with an error; the grammar decides",
 "For every input text the compiler terminates without crashing and either produces a program or reports a compile error with a non-empty message whose file and line lie in the source at the offending token. It accepts the text exactly when it is derivable from the language grammar and satisfies the static rules. Rejection leaves the host process and the compiler object usable.",
 ["inputs"],"all texts (all token and character sequences)",
 "The test suite has a few dozen rejected files and checks only that they are rejected, never the line, and cannot cover the token-sequence space.",
 [LX,PA,"source/lib_compiler/token.cpp","source/lib_compiler/errors.h"],[("lexer",LX),("recursive-descent parser",PA),("diagnostics","source/lib_compiler/errors.h")],(),["build() result","error.error","error.line"])

p("C09","Static rules are enforced, on the right line, and nothing valid is refused",
 "A program is rejected exactly when it breaks a static rule: unknown variable, function or array; a name declared again where an earlier declaration of it is still in scope; assignment to a constant or a function; use of a constant whose value is not known at compile time; wrong number of arguments in a direct call; division by a constant zero in a constant expression. The error is reported at the line of the offending name, and every program that breaks none of these rules is accepted.",
 ["programs"],"all placements of declarations and uses across scopes, functions and files",
 "A few expected-failure scripts check one placement each; visibility depends on the combination of scopes, declaration kinds and order.",
 [SE,OP],[("declaration lookup",SE+": sema_decl_annotate_t"),("redeclaration",SE+": sema_multi_decls_t"),("argument counts",SE+": sema_num_args_t"),("constants",SE+": sema_const_t, sema_global_var_t")],(),["build() result","error.line"])

p("C10","A saved program loads back identical and behaves identically",
 "Saving any compiled program to a file and loading it into a fresh (or previously used) program object reproduces everything the VM and tools use: code, functions with arguments and locals, globals, system calls, strings, line information. After re-binding system calls the loaded program shows the same behaviour, errors and line numbers as the original, and saving it again produces the same bytes.",
 ["programs","histories"],"all compiled programs, including long names and strings, many entries and empty tables",
 "No test ever loads a saved program.",
 [PR,"source/lib_common/program.h"],[("serialisation",PR+": serial_save/serial_load")],(),["functions()","strings()","line_table()","run trace"])

p("C11","Damaged program files and failed writes are always detected",
 "Loading a file that is a strict prefix of a saved program (any truncation or crash point), that is missing, or whose header or any length field is corrupted, never crashes or exhausts memory, and a truncated or unrecognisable file is always reported as a failed load. Saving reports success only if every byte reached the file: a save interrupted by a write error at any point reports failure. A failed load leaves the object reusable and releases the file.",
 ["crash_points","fault_sequences"],"every truncation point, every byte corruption, every failing write position of the saved file",
 "No test touches a damaged file or a failing disk.",
 [PR],[("checked reads",PR+": TRY(consume(...))"),("write path",PR+": emit/serial_save")],(),["serial_load result","serial_save result","open descriptors"])

p("C12","Run-time source positions are exact",
 "Whenever the VM reports a source line, it is the file and line of the construct being executed; in particular, when a thread stops with a runtime error, is paused by a breakpoint, or calls into the host, the reported file and line are those of the failing operator, the broken-on line, or the call. This holds for programs spread over several imported files and for operands inlined from constants.",
 ["programs"],"all programs and all their execution points",
 "No test looks at a reported line.",
 [CG,"source/lib_compiler/program_builder.cpp","source/lib_common/program.h",T],[("line table",CG+": emit -> set_line"),("lookup","source/lib_common/program.h: get_line")],(),["get_source_line","line_table()"])

p("C13","Emitted code is well formed and its listing is faithful",
 "For every accepted program, the code decodes end to end into known instructions; functions tile it without gaps or overlaps; every jump lands on an instruction of the same function, every call on the entry of a function with that many arguments, every operand names an existing local, argument, global, string or system call; and on every path the value stack has one consistent height, never underflows, and each function returns exactly one value. The disassembly listing shows exactly these instructions, operands, functions and lines.",
 ["programs"],"all accepted programs, both optimisation settings",
 "Tests only execute one path of a few programs and never look at the listing.",
 [CG,PC,DI,"source/lib_common/instructions.cpp"],[("emission",CG),("disassembler",DI)],(),["program data()","disassembler output"])

p("C14","Imports: every file is compiled exactly once and found where it says",
 "For every graph of files importing one another (chains, diamonds, cycles, self-imports, repeated imports, sub-directories) each reachable file's declarations are compiled exactly once, path names are resolved relative to the importing file, and names are visible across all files regardless of order. A missing import is reported as a compile error at its line in the importing file, never ignored and never fatal to the process; distinct files are never confused with one another.",
 ["configurations","inputs"],"all import graphs and path spellings",
 "Tests contain one or two import scripts; graph shapes, cycles and path spellings are not covered.",
 [SR,"source/lib_common/source.h",PA,NA],[("load once",SR+": source_manager_t::load"),("relative resolution",SR+": imported_path"),("worklist",NA+": build")],(),["sources.count()","build() result","run trace"])

p("C15","Compilation is deterministic and independent of earlier use",
 "Compiling the same sources gives the same program (code, tables, positions) or the same error every time, in any process, whatever the same compiler object compiled, rejected or discarded before it was reset, and whatever other compiler objects exist. Resetting forgets everything from earlier builds, and a rejected build never leaks declarations, code or errors into the next one.",
 ["histories"],"all sequences of builds, failures and resets on one compiler object",
 "Tests use one compiler process per script and never reset or reuse it.",
 [NA,"source/lib_compiler/ast.cpp",PA,SE],[("reset",NA+": reset"),("declaration scopes",SE)],(),["program bytes","error"])

p("C16","The VM life cycle behaves as documented for every call history",
 "For every sequence of host operations (initialise, call a function with any argument count, start threads, resume, reset, inspect) each call returns what it documents: calls return the function's value, or fail with its error; initialisation runs every global initialiser however long it takes, waits and halts included; a wrong argument count or a missing entry point is refused without side effects; 'finished' and 'has error' report the actual thread states. A call leaves no thread of its own behind, and a thread that is reset or prepared again behaves like a new one. Globals persist between calls, start over when initialised again, and are cleared by reset, after which the VM behaves like a new one with the same handlers.",
 ["histories"],"all sequences of VM API operations",
 "The driver used by the tests performs exactly one history: init, call main once, exit.",
 [V,"source/lib_vm/vm.h",T],[("call_once/call_init/reset",V),("prepare",T+": prepare")],(),["API return values","globals()","thread()"])

p("C17","Host callbacks see exactly the operands and state of the script",
 "Every system call and operator/member/array handler is invoked exactly once per evaluation, in program order, with exactly the operands, member name and argument count the script supplied, and the value the host pushes becomes the value of the expression; a handler that declines leaves the default behaviour. Installed handlers stay in force, across resets and failures, until the host replaces them. For threads run by resuming (rather than single stepping), thread-finish is signalled exactly once per finished thread, thread-error exactly once per failed thread and before it, and an error raised or a halt requested by the host inside a callback takes effect at that point.",
 ["programs","histories"],"all programs calling into the host, all handler answers (handled, declined, raises, halts)",
 "No test registers a handler; system calls are tested through printed output of a few scripts.",
 [T,"source/lib_vm/vm.h",CG],[("syscall dispatch",T+": do_syscall_"),("operator and member handlers",T+": do_INS_*"),("notifications",T+": resume")],(),["recorded callback log"])

p("C18","Built-in functions compute what they are documented to",
 "Each built-in (abs, min, max, bitand, sin, cos, tan, len, chr, round, ceil, floor, sqrt, new_array, new_thread, wait) returns the documented result and type for every argument value and type, called directly or through a variable; a wrong number of arguments raises the argument-count error and any unsupported argument type or value the argument error, rather than giving a wrong value or a crash.",
 ["inputs"],"all argument tuples over all value types and boundary values, direct and indirect calls",
 "Tests call a few of them on one or two values.",
 [BU],[("built-ins",BU)],(),["return value","error code"])

p("C19","Layout, comments, case of keywords and literal spelling mean what they say",
 "The meaning of a program is independent of blank lines, comments (anywhere, including after code and at end of file), spaces, tabs, carriage returns, and the letter case of keywords; identifiers are case-sensitive and may start with or contain keyword text. Integer (modulo 2^32), decimal and string literals denote the values they spell, for every digit string and every string content.",
 ["inputs"],"all insertions of layout at every token boundary, all keyword spellings, all literals",
 "Tests have one fixed layout per program and few literals.",
 [LX,PA],[("lexer",LX),("newline handling",PA)],(),["build() result","run trace","error line"])

p("C20","The command-line tools report the program's true result",
 "The runner prints the script's host output and then its exact return value with exit code 0, and distinguishes by exit code a file that cannot be loaded (an empty file counts as one), a compile error (message with file and line on the error stream), a missing main and a runtime error; the compiler tool writes the requested listing, tree and binary of exactly the program it compiled (without optimisation, the tree shows every declaration, statement and operand of the source in its place). No input file makes either tool crash or hang.",
 ["inputs","configurations"],"all input files and option combinations",
 "The test runner uses one option set and only looks at the last output line.",
 ["source/driver/driver.cpp","source/comp/driver.cpp","source/lib_compiler/ast.h"],[("runner","source/driver/driver.cpp: main"),("compiler tool","source/comp/driver.cpp: main"),("tree listing","source/lib_compiler/ast.h: ast_printer_t")],(),["exit code","stdout","stderr","output files"])

p("C21","Arrays are shared by reference, everything else is a value",
 "For every sequence of array creation, aliasing, element reads and writes, nesting, passing to and returning from functions and storing in globals, a write through one alias is seen through all aliases of that array and through nothing else, elements never written read as none, the length never changes, and scalars and strings stored in an array or variable are unaffected by later changes to where they came from. Out-of-range or ill-typed subscripts fail without modifying anything.",
 ["histories","programs"],"all sequences of heap operations over several arrays and aliases",
 "Tests perform a few fixed sequences; aliasing errors depend on the sequence of aliasing, writes and collections.",
 [T,G,CG],[("element store/load",T+": do_INS_SETA_/do_INS_DEREF_"),("array literals",T+": do_INS_ARY_INIT_"),("moving arrays",G+": trace")],(),["deep rendering of all roots after every step"])
p("C22","The graphics runner shows exactly what the script drew",
 "Every picture the SDL runner shows is the script's screen with each pixel three by three, at every screen size: plot, line (end point excluded), circle (filled), setrgb (each component modulo 256) and cls change exactly the pixels they name, clipped at the edges, and only flip shows them. video reports whether it opened a window and refuses impossible sizes; arguments of the wrong kind draw nothing and a wrong number of arguments is a runtime error. keydown reports exactly the six named keys, sleep holds the script for at least its milliseconds, the run goes on until the window is closed and then ends with exit code 0. Load, compile, initialisation and runtime errors end it with their exit codes and no picture beyond those already shown, and no script makes it crash or hang.",
 ["inputs","histories","configurations"],"all drawing scripts over all screen sizes, operands, key states, closing times and window failures",
 "The runner has no tests at all; clipping, scaling and failing windows depend on sizes and orders of calls.",
 ["source/driver_sdl/driver.cpp"],[("drawing functions","source/driver_sdl/driver.cpp: plot/span/line/vm_circle"),("showing","source/driver_sdl/driver.cpp: vm_flip"),("window","source/driver_sdl/driver.cpp: vm_video"),("main loop","source/driver_sdl/driver.cpp: main")],(),["pictures passed to SDL_UpdateWindowSurface","exit code","stdout","stderr"])
p("C23","A host can look into a stopped program and sees it as it is",
 "Whenever a thread is stopped - in a host call, between any two instructions, or by a fault - its frames name exactly the active functions, innermost last, and the call each of them is in; every argument, every variable in scope and every global has its current value where the program's tables say it is, and its text form shows that value; what the host stores in a variable's place is the variable's value from then on. Looking changes nothing, a thread that has not finished or has failed has no return value, and all this holds for every nesting of blocks, kind of call, recursion depth and optimisation setting.",
 ["programs","histories"],"all programs x all points at which they can be stopped",
 "No test looks at frames or variable tables; a wrong place shows only for a particular scope, call and moment.",
 [T,"source/lib_vm/thread.h","source/lib_vm/value.cpp","source/lib_compiler/pre_codegen.cpp"],[("frames",T+": enter_/leave_"),("places of variables","source/lib_compiler/pre_codegen.cpp"),("stack access","source/lib_vm/value.h: value_stack_t::get/set"),("text form","source/lib_vm/value.cpp: to_string")],(),["thread_t::frames","value_stack_t::get","value_t::to_string","function_t tables","vm_t::globals"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
