// C13: emitted code is well formed and the listing shows it
#include "harness.h"
#include "disassembler.h"
#include "instructions.h"
using namespace impl;
using corpus::N;

struct Op { int code; const char *name; int operands; };
// operand counts and listing names, written down independently of the tables in the repository
static const std::vector<Op> &ops() {
#define Z(x) {INS_##x, "INS_" #x, 0}
#define O(x) {INS_##x, "INS_" #x, 1}
  static const std::vector<Op> v = {
      Z(ADD), Z(SUB), Z(MUL), Z(DIV), Z(MOD), Z(AND), Z(OR), Z(NOT), Z(NEG), Z(LT), Z(GT), Z(LEQ), Z(GEQ), Z(EQ),
      Z(SETA), Z(DEREF), Z(NEW_NONE), O(JMP), O(TJMP), O(FJMP), O(RET), O(ICALL), O(POP), O(NEW_INT), O(NEW_STR),
      O(NEW_ARY), O(NEW_FLT), O(NEW_FUNC), {INS_NEW_SCALL, "INS_NEW_SYSCALL", 1}, O(LOCALS), O(GLOBALS), O(GETV),
      O(SETV), O(GETG), O(SETG), O(GETM), O(SETM), O(ARY_INIT), {INS_CALL, "INS_CALL", 2}, {INS_SCALL, "INS_SCALL", 2}};
  return v;
#undef Z
#undef O
}
static const Op *op_of(int c) {
  static const Op *t[256];
  static bool ready;
  if (!ready) {
    for (auto &o : ops()) t[o.code] = &o;
    ready = true;
  }
  return c >= 0 && c < 256 ? t[c] : nullptr;
}

struct Ins { const Op *op; int pc, len, a, b; };

static std::string at(const Ins &i) {
  return std::string(i.op->name) + (i.op->operands > 0 ? " " + N(i.a) : "") + (i.op->operands > 1 ? " " + N(i.b) : "") + " at " + N(i.pc);
}

static void locals_of(const std::vector<ref::Stmt *> &v, std::vector<const ref::Decl *> &out) {
  for (auto *s : v) {
    if (s->k == ref::Stmt::Var && s->var) out.push_back(s->var);
    locals_of(s->body, out);
    locals_of(s->els, out);
  }
}

static void wellformed(program_t &p, Result &r, ref::Program *M, bool opt) {
  const std::string B = opt ? "optimised: " : "unoptimised: ";
  auto bad = [&](const std::string &m) { r.fail(B + m); };
  // ---- decode
  std::vector<Ins> ins;
  std::map<int, int> start;  // pc -> index
  const uint8_t *d = p.data();
  const int size = int(p.size());
  if (p.end() != d + size) return bad("end of code disagrees with its size");
  for (int pc = 0; pc < size;) {
    Ins i{op_of(d[pc]), pc, 0, 0, 0};
    if (!i.op) return bad("unknown instruction " + N(d[pc]) + " at " + N(pc));
    i.len = 1 + 4 * i.op->operands;
    if (pc + i.len > size) return bad("truncated instruction at " + N(pc));
    if (i.op->operands > 0) memcpy(&i.a, d + pc + 1, 4);
    if (i.op->operands > 1) memcpy(&i.b, d + pc + 5, 4);
    start[pc] = int(ins.size());
    ins.push_back(i);
    pc += i.len;
  }
  // ---- functions tile the code
  auto &fn = p.functions();
  std::map<int, const function_t *> entry;
  std::set<std::string> names;
  {
    std::map<int, const function_t *> by;
    for (auto &f : fn) {
      if (f.code_start_ >= f.code_end_) return bad("function " + f.name_ + " is empty");
      if (by.count(f.code_start_)) return bad("two functions start at " + N(f.code_start_));
      if (!names.insert(f.name_).second) return bad("function " + f.name_ + " is listed twice");
      by[f.code_start_] = &f;
    }
    int pc = 0;
    for (auto &x : by) {
      if (x.first != pc) return bad("gap or overlap between functions at " + N(pc) + "/" + N(x.first));
      if (!start.count(pc)) return bad("function starts inside an instruction");
      pc = x.second->code_end_;
    }
    if (pc != size) return bad("functions end at " + N(pc) + " of " + N(size));
    entry = by;
  }
  if (!names.count("@init")) return bad("no initialiser function");
  for (auto &x : entry) {
    const function_t *f = x.second;
    if (p.function_find(f->name_) != f) bad("lookup of function " + f->name_ + " by name");
    for (int pc : {f->code_start_, (f->code_start_ + f->code_end_) / 2, f->code_end_ - 1})
      if (p.function_find(pc) != f) bad("lookup of function by address " + N(pc));
  }
  if (p.function_find(-1) || p.function_find(size) || p.function_find("no such function")) bad("lookup finds a function that is not there");
  // ---- tables against the model
  std::map<std::string, int> sysargs;
  for (auto &s : std_syscalls()) sysargs[s.name] = s.nargs;
  const int nsys = int(p.syscalls().size()), nstr = int(p.strings().size());
  for (int i = 0; i < nsys; i++) {
    auto &n = p.syscalls()[i].name_;
    if (!sysargs.count(n)) bad("system call table names " + n);
    for (int j = 0; j < i; j++)
      if (p.syscalls()[j].name_ == n) bad("system call " + n + " twice in the table");
  }
  size_t nf = 1;
  for (auto &F : M->funcs) {
    if (F.sys) continue;
    if (F.name == "@init") continue;
    nf++;
    const function_t *f = p.function_find(F.name);
    if (!f) { bad("function " + F.name + " is missing"); return; }
    if (f->args_.size() != F.args.size()) { bad("argument table of " + F.name); return; }
    for (size_t k = 0; k < F.args.size(); k++) {
      if (f->args_[k].name_ != F.args[k]->name) bad("argument " + N(long(k)) + " of " + F.name + " is called " + f->args_[k].name_);
      if (f->args_[k].offset_ != int(k) - int(F.args.size())) bad("argument " + N(long(k)) + " of " + F.name + " is at " + N(f->args_[k].offset_));
    }
    if (!opt) {
      std::vector<const ref::Decl *> L;
      locals_of(F.body, L);
      if (L.size() != f->locals_.size()) { bad("local table of " + F.name + " has " + N(long(f->locals_.size())) + " entries"); return; }
      // every declaration has an entry of its name, and the code stores to that slot on its line
      std::map<std::string, int> want;
      for (auto *l : L) want[l->name]++;
      for (auto &l : f->locals_) want[l.name_]--;
      for (auto &w : want)
        if (w.second) bad("local " + w.first + " in the table of " + F.name);
      for (auto *l : L) {
        bool ok = false;
        for (auto &e : f->locals_) {
          if (e.name_ != l->name) continue;
          for (auto it = p.line_table().lower_bound(f->code_start_); !ok && it != p.line_table().end() && it->first < f->code_end_; ++it) {
            if (it->second.line != l->line || !start.count(it->first)) continue;
            const Ins &i = ins[start[it->first]];
            ok = i.op->code == INS_SETV && i.a == e.offset_;
          }
        }
        if (!ok) bad("no store to local " + l->name + " of " + F.name + " on line " + N(l->line));
      }
    }
  }
  if (fn.size() != nf) bad("there are " + N(long(fn.size())) + " functions instead of " + N(long(nf)));
  if (p.globals().size() != M->globals.size()) { bad("global table size"); return; }
  std::set<std::string> gname;
  std::set<int> gslot;
  for (auto &g : p.globals()) {
    if (!gname.insert(g.name_).second) bad("global " + g.name_ + " is listed twice");
    if (g.offset_ < 0 || g.offset_ >= int(M->globals.size()) || !gslot.insert(g.offset_).second) bad("global " + g.name_ + " has slot " + N(g.offset_));
  }
  for (auto *d : M->globals) {
    if (!gname.count(d->name)) { bad("global " + d->name + " is not listed"); continue; }
    if (!d->init) continue;
    // its initialiser stores to its slot on its line
    bool ok = false;
    for (auto &g : p.globals()) {
      if (g.name_ != d->name) continue;
      for (auto &l : p.line_table()) {
        if (l.second.line != d->line || l.second.file != d->file || !start.count(l.first)) continue;
        const Ins &i = ins[start[l.first]];
        if (i.op->code == INS_SETG && i.a == g.offset_) { ok = true; break; }
      }
    }
    if (!ok) bad("no initial store to global " + d->name);
  }
  // ---- per function: operands and stack heights
  for (auto &x : entry) {
    const function_t *f = x.second;
    const bool init = f->name_ == "@init";
    const int nargs = int(f->args_.size());
    int nlocals = 0;
    std::vector<const Ins *> body;
    for (int k = start[f->code_start_]; k < int(ins.size()) && ins[k].pc < f->code_end_; k++) body.push_back(&ins[k]);
    if (body.back()->pc + body.back()->len != f->code_end_) { bad("function " + f->name_ + " ends inside an instruction"); return; }
    for (size_t k = 0; k < body.size(); k++) {
      const Ins &i = *body[k];
      auto wrong = [&](const std::string &m) { bad(m + ": " + at(i) + " in " + f->name_); };
      switch (i.op->code) {
      case INS_JMP: case INS_TJMP: case INS_FJMP:
        if (i.a < f->code_start_ || i.a >= f->code_end_ || !start.count(i.a)) wrong("jump out of the function or into an instruction");
        break;
      case INS_CALL: {
        auto e = entry.find(i.b);
        if (e == entry.end()) wrong("call to something that is no function");
        else if (int(e->second->args_.size()) != i.a) wrong("call with a wrong argument count");
      } break;
      case INS_NEW_FUNC:
        if (!entry.count(i.a)) wrong("reference to something that is no function");
        break;
      case INS_SCALL:
        if (i.b < 0 || i.b >= nsys) wrong("unknown system call");
        else if (i.a < 0 || (sysargs[p.syscalls()[i.b].name_] >= 0 && sysargs[p.syscalls()[i.b].name_] != i.a)) wrong("argument count of system call");
        break;
      case INS_NEW_SCALL:
        if (i.a < 0 || i.a >= nsys) wrong("unknown system call");
        break;
      case INS_NEW_STR: case INS_GETM: case INS_SETM:
        if (i.a < 0 || i.a >= nstr) wrong("unknown string");
        break;
      case INS_LOCALS:
        if (k != 0) wrong("locals reserved late");
        if (i.a <= 0) wrong("bad count");
        nlocals = i.a;
        break;
      case INS_GLOBALS:
        if (!init || k != 0) wrong("globals reserved outside the start of the initialiser");
        if (i.a != int(M->globals.size())) wrong("number of globals");
        break;
      case INS_GETV: case INS_SETV:
        if (i.a >= nlocals || i.a < -nargs) wrong("unknown local or argument");
        break;
      case INS_GETG: case INS_SETG:
        if (i.a < 0 || i.a >= int(M->globals.size())) wrong("unknown global");
        break;
      case INS_ARY_INIT: case INS_NEW_ARY: case INS_POP:
        if (i.a < 1) wrong("bad count");
        break;
      case INS_ICALL:
        if (i.a < 0) wrong("bad count");
        break;
      }
    }
    for (auto &l : f->locals_)
      if (!opt && (l.offset_ < 0 || l.offset_ >= nlocals) ) bad("local " + l.name_ + " of " + f->name_ + " has slot " + N(l.offset_) + " of " + N(nlocals));
    if (r.bad) return;
    // abstract run: height above the frame base, per instruction; every path
    std::map<int, int> height;
    std::vector<int> todo;
    auto flow = [&](int pc, int h, const Ins &from) {
      if (pc < f->code_start_ || pc >= f->code_end_) { bad("control runs out of " + f->name_ + " after " + at(from)); return; }
      auto it = height.find(pc);
      if (it == height.end()) { height[pc] = h; todo.push_back(pc); }
      else if (it->second != h) bad("stack height " + N(it->second) + " or " + N(h) + " at " + N(pc) + " in " + f->name_);
    };
    height[f->code_start_] = 0;
    todo.push_back(f->code_start_);
    while (!todo.empty() && !r.bad) {
      int pc = todo.back();
      todo.pop_back();
      const Ins &i = ins[start[pc]];
      int h = height[pc], need = 0, push = 0;
      switch (i.op->code) {
      case INS_ADD: case INS_SUB: case INS_MUL: case INS_DIV: case INS_MOD: case INS_AND: case INS_OR: case INS_LT: case INS_GT:
      case INS_LEQ: case INS_GEQ: case INS_EQ: case INS_DEREF: need = 2; push = 1; break;
      case INS_NOT: case INS_NEG: case INS_GETM: need = 1; push = 1; break;
      case INS_SETA: need = 3; break;
      case INS_SETM: need = 2; break;
      case INS_TJMP: case INS_FJMP: case INS_SETV: case INS_SETG: need = 1; break;
      case INS_POP: need = i.a; break;
      case INS_CALL: case INS_SCALL: need = i.a; push = 1; break;
      case INS_ICALL: need = i.a + 1; push = 1; break;
      case INS_ARY_INIT: need = i.a; push = 1; break;
      case INS_NEW_INT: case INS_NEW_STR: case INS_NEW_ARY: case INS_NEW_NONE: case INS_NEW_FLT: case INS_NEW_FUNC: case INS_NEW_SCALL:
      case INS_GETV: case INS_GETG: push = 1; break;
      case INS_LOCALS: push = i.a; break;
      case INS_RET:
        if (h != nlocals + 1) bad("height " + N(h) + " at return from " + f->name_ + " with " + N(nlocals) + " locals");
        if (i.a != nlocals + nargs) bad("return from " + f->name_ + " drops " + N(i.a) + " of " + N(nlocals + nargs));
        r.states++;
        continue;
      }
      const int floor = i.op->code == INS_LOCALS ? 0 : nlocals;
      if (h - need < floor) bad("stack underflow: " + at(i) + " in " + f->name_);
      h += push - need;
      r.states++;
      if (i.op->code == INS_JMP) flow(i.a, h, i);
      else {
        if (i.op->code == INS_TJMP || i.op->code == INS_FJMP) flow(i.a, h, i);
        flow(pc + i.len, h, i);
      }
    }
    if (r.bad) return;
  }
  for (auto &l : p.line_table())
    if (!start.count(l.first)) bad("line information for " + N(l.first) + ", which is no instruction");
  // ---- instruction classification
  for (auto &o : ops()) {
    auto c = instruction_e(o.code);
    const bool bin = c == INS_ADD || c == INS_SUB || c == INS_MUL || c == INS_DIV || c == INS_MOD || c == INS_AND || c == INS_OR ||
                     c == INS_LT || c == INS_GT || c == INS_LEQ || c == INS_GEQ || c == INS_EQ;
    const bool un = c == INS_NOT || c == INS_NEG;
    const bool br = c == INS_JMP || c == INS_TJMP || c == INS_FJMP || c == INS_CALL || c == INS_ICALL || c == INS_RET;
    if (ins_has_operand(c) != (o.operands > 0) || ins_is_binary_op(c) != bin || ins_is_unary_op(c) != un || ins_will_branch(c) != br) bad(std::string("classification of ") + o.name);
    if (strcmp(disassembler_t::get_mnemonic(c), o.name)) bad(std::string("name of ") + o.name);
  }
  // ---- the listing
  std::string want;
  const function_t *cur = nullptr;
  int line = -1;
  disassembler_t dis;
  for (auto &i : ins) {
    auto it = entry.upper_bound(i.pc);
    --it;
    if (it->second != cur) {
      if (i.pc) want += "\n";
      cur = it->second;
      want += "# function: " + cur->name_ + "\n";
    }
    auto l = p.line_table().find(i.pc);
    int ln = l == p.line_table().end() ? -1 : l->second.line;
    if (ln != line) { want += "# line: " + N(ln) + "\n"; line = ln; }
    std::string t = i.op->name;
    if (i.op->operands > 0) t += " " + N(i.a);
    if (i.op->operands > 1) t += " " + N(i.b);
    want += t + "\n";
    std::string got;
    if (dis.disasm(d + i.pc, got) != i.len) bad("length of the disassembled " + at(i));
    if (got != t) bad("disassembly of " + at(i) + ": " + got);
  }
  char *buf = nullptr;
  size_t n = 0;
  FILE *fd = open_memstream(&buf, &n);
  dis.dump(p, fd);
  fclose(fd);
  std::string got(buf, n);
  free(buf);
  std::string df = first_difference(want, got);
  if (!df.empty()) bad("listing: " + df);
  r.runs++;
  r.outcome = want;
}

static void both(const Case &c, Result &r) {
  for (int k = 0; k < 2 && !r.bad; k++) {
    auto cc = compile(c.files, k == 0);
    if (!cc->ok) { r.outcome = "rejected"; continue; }
    auto f = c.files;
    ref::Built b = ref::build(f, std_syscalls(), k == 0);
    if (!b.ok) { r.outcome = "rejected"; continue; }  // C08/C09 decide acceptance
    wellformed(cc->prog, r, b.prog.get(), k == 0);
  }
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  out.push_back(features_space(both));
  out.push_back(scripts_space(both));
  out.push_back(sizes_space(th, both, th ? 70000 : 1500));
  out.push_back(wide_space(th, th ? 300 : 129, both));
  out.push_back(make("instructions", "all 256 instruction bytes x 23 values of either operand: the disassembler knows exactly the instructions, and says which", [](Chooser &ch, Case &c) {
    c.p = {ch.choose(256), ch.choose(23), ch.choose(23)};
    const Op *o = op_of(int(c.p[0]));
    return !(c.p[2] && !(o && o->operands > 1)) && !(c.p[1] && !(o && o->operands > 0));
  }, [](const Case &c, Result &r) {
    static const long v[23] = {1, 0, -1, 2, -2, 9, 10, 127, 128, 255, 256, -128, -256, 32767, 32768, 65535, 65536, -32768, -65536, 1069547520, -1077936128, 2147483647, -2147483648L};
    int a = int(v[c.p[1]]), z = int(v[c.p[2]]);
    uint8_t b[16] = {uint8_t(c.p[0])};
    memcpy(b + 1, &a, 4), memcpy(b + 5, &z, 4);
    std::string t;
    disassembler_t dis;
    int n = dis.disasm(b, t);
    const Op *o = op_of(int(c.p[0]));
    if (o ? n != 1 + 4 * o->operands : n > 0) r.fail("disassembling byte " + N(c.p[0]) + " gives length " + N(n));
    if (o && t != o->name + (o->operands > 0 ? " " + N(a) : std::string()) + (o->operands > 1 ? " " + N(z) : std::string())) r.fail("disassembling byte " + N(c.p[0]) + " gives " + t);
    r.outcome = t;
    r.runs++;
  }));
  out.push_back(make("calls", "direct, indirect and system calls with 0..6 arguments, as a statement, value, operand, argument or array element, in 0..4 locals", [](Chooser &ch, Case &c) {
    int n = ch.choose(7), how = ch.choose(4), where = ch.choose(6), l = ch.choose(5), order = ch.choose(2);
    std::string a;
    for (int i = 0; i < n; i++) a += (i ? ", " : "") + N(i);
    std::string call = how == 0 ? "f(" + a + ")" : how == 1 ? "g(" + a + ")" : how == 2 ? "outv(" + a + ")" : "fs[0](" + a + ")";
    std::string f = "function f(" + names("p", n) + ")\n return " + (n ? "p0" : "1") + "\nend\n";
    std::string m = "function main()\n";
    for (int i = 0; i < l; i++) m += " var l" + N(i) + " = " + N(i) + "\n";
    if (how == 1) m += " var g = f\n";
    if (how == 3) m += " var fs = [f]\n";
    m += where == 0 ? " " + call + "\n" : where == 1 ? " return " + call + "\n" : where == 2 ? " return 1 + " + call + " * 2\n" : where == 3 ? " out(" + call + ")\n" : where == 4 ? " var q = [1, " + call + "]\n return q\n" : " if (" + call + ")\n  return 1\n else\n  return 2\n end\n";
    m += "end\n";
    c.files = {order ? f + m : m + f};
    return true;
  }, both));
  out.push_back(blocks_space(1, 2, 1, both));
  out.push_back(blocks_space(2, 1, 2, both));
  out.push_back(blocks_space(3, 0, 2, both));
  if (th) out.push_back(blocks_space(2, 2, 2, both));
  if (th) out.push_back(blocks_space(4, -1, 2, both));
}
