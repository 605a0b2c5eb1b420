// Reference model of the language: lexer, grammar, static rules and evaluator.
//
// Written from the language rules, shares no code with /repo.  An AST-walking transition system whose observable
// output is a trace of host events, a result (value or fault + line) and the final globals.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "outside.h"

namespace ref {

// ------------------------------------------------------------------ tokens
enum Tk {
  K_EOF, K_EOL, K_ID, K_INT, K_FLT, K_STR,
  K_AND, K_OR, K_NOT, K_CONST, K_END, K_ELSE, K_FOR, K_FUNCTION, K_IF, K_IMPORT, K_NONE, K_RETURN, K_TO, K_VAR, K_WHILE,
  K_LP, K_RP, K_LB, K_RB, K_COMMA, K_ADD, K_SUB, K_MUL, K_DIV, K_MOD, K_ASSIGN, K_EQ, K_LT, K_GT, K_LEQ, K_GEQ, K_DOT,
};

struct Tok {
  Tk k;
  int line;
  std::string s;
  int32_t i = 0;
  float f = 0;
};

struct Reject {  // a compile error
  int file, line;
  const char *why;
  bool at_eof = false;  // the text so far is a prefix of a derivable one
};

inline bool word_start(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline bool word_char(char c) { return word_start(c) || digit(c); }

inline Tk keyword(const std::string &w) {
  static const std::map<std::string, Tk> m = {
      {"and", K_AND}, {"or", K_OR}, {"not", K_NOT}, {"const", K_CONST}, {"end", K_END}, {"else", K_ELSE},
      {"for", K_FOR}, {"function", K_FUNCTION}, {"if", K_IF}, {"import", K_IMPORT}, {"none", K_NONE},
      {"return", K_RETURN}, {"to", K_TO}, {"var", K_VAR}, {"while", K_WHILE}};
  if (w.size() > 8) return K_ID;
  std::string l;
  for (char c : w) l += (c >= 'A' && c <= 'Z') ? char(c + 32) : c;
  auto it = m.find(l);
  return it == m.end() ? K_ID : it->second;
}

inline std::vector<Tok> lex(const std::string &src, int file) {
  std::vector<Tok> out;
  int line = 1;
  size_t p = 0, n = src.size();
  if (src.find('\0') != std::string::npos) n = src.find('\0');
  auto at = [&](size_t i) { return i < n ? src[i] : '\0'; };
  auto push = [&](Tk k) { out.push_back(Tok{k, line, {}}); };
  while (p < n) {
    const char c = src[p];
    if (c == ' ' || c == '\t' || c == '\r') { p++; continue; }
    if (c == '\n') { push(K_EOL); line++; p++; continue; }
    if (c == '#') {
      while (p < n && src[p] != '\n') p++;
      push(K_EOL);
      if (p < n) { line++; p++; }
      continue;
    }
    if (c == '"') {
      size_t e = p + 1;
      while (e < n && src[e] != '"' && src[e] != '\n') e++;
      if (e >= n || src[e] == '\n') throw Reject{file, line, "unterminated string", e >= n};
      out.push_back(Tok{K_STR, line, src.substr(p + 1, e - p - 1)});
      p = e + 1;
      continue;
    }
    if (word_start(c)) {
      size_t e = p;
      while (word_char(at(e))) e++;
      std::string w = src.substr(p, e - p);
      Tk k = keyword(w);
      out.push_back(Tok{k, line, k == K_ID ? w : std::string()});
      p = e;
      continue;
    }
    if (digit(c)) {
      size_t e = p;
      while (digit(at(e))) e++;
      Tok t{K_INT, line, {}};
      if (at(e) == '.') {
        e++;
        while (digit(at(e))) e++;
        t.k = K_FLT;
        t.f = strtof(src.substr(p, e - p).c_str(), nullptr);
      } else {
        uint64_t v = 0;
        for (size_t q = p; q < e; q++) v = (v * 10 + (src[q] - '0')) & 0xffffffffull;
        t.i = int32_t(uint32_t(v));
      }
      out.push_back(t);
      p = e;
      continue;
    }
    Tk k;
    int len = 1;
    switch (c) {
    case '(': k = K_LP; break;
    case ')': k = K_RP; break;
    case '[': k = K_LB; break;
    case ']': k = K_RB; break;
    case ',': k = K_COMMA; break;
    case '+': k = K_ADD; break;
    case '-': k = K_SUB; break;
    case '*': k = K_MUL; break;
    case '/': k = K_DIV; break;
    case '%': k = K_MOD; break;
    case '.': k = K_DOT; break;
    case '=': k = at(p + 1) == '=' ? (len = 2, K_EQ) : K_ASSIGN; break;
    case '<': k = at(p + 1) == '=' ? (len = 2, K_LEQ) : K_LT; break;
    case '>': k = at(p + 1) == '=' ? (len = 2, K_GEQ) : K_GT; break;
    default: throw Reject{file, line, "bad character"};
    }
    push(k);
    p += len;
  }
  push(K_EOF);
  return out;
}

// ------------------------------------------------------------------ tree
struct Expr;
struct Stmt;
struct Func;

struct Decl {  // a variable or constant
  std::string name;
  int file = 0, line = 0;
  enum { Global, Const, Arg, Local } kind = Local;
  int slot = -1;
  Expr *init = nullptr;
};

struct Expr {
  enum Kind { Int, Flt, Str, None, Id, Mem, Arr, Idx, Call, Un, Bin } k;
  int line;
  Tk op = K_EOF;
  int32_t i = 0;
  float f = 0;
  std::string s, m;
  std::vector<Expr *> a;  // operands; Idx: {base,index}; Call: {callee,args...}
  Decl *var = nullptr;
  Func *fn = nullptr;
};

struct Stmt {
  enum Kind { Var, Set, SetIdx, SetMem, Call, If, While, For, Ret } k;
  int line;
  std::string name, mem;
  Decl *var = nullptr;
  Expr *e = nullptr, *e2 = nullptr;
  std::vector<Stmt *> body, els;
  bool has_else = false;
};

struct Func {
  std::string name;
  int file = 0, line = 0;
  bool sys = false;
  int nargs = 0;  // -1: any
  std::vector<Decl *> args;
  std::vector<Stmt *> body;
  int nslots = 0;
  int end = 0;  // line of the closing word
};

struct Top {  // top level declaration in order
  Decl *var = nullptr;
  Func *fn = nullptr;
};

struct Program {
  std::deque<Expr> exprs;
  std::deque<Stmt> stmts;
  std::deque<Decl> decls;
  std::deque<Func> funcs;
  std::vector<Top> tops;
  std::vector<Decl *> globals;  // non constant, in order
  std::map<std::string, Func *> by_name;
};

struct Sys { const char *name; int nargs; };

// ------------------------------------------------------------------ parser
struct Parser {
  Program &P;
  std::vector<Tok> t;
  size_t p = 0;
  int file;
  std::function<bool(int, const std::string &)> on_import;

  Parser(Program &P_, int file_) : P(P_), file(file_) {}

  Tk k() const { return t[p].k; }
  [[noreturn]] void bad(const char *why) { throw Reject{file, t[p].line, why, k() == K_EOF}; }
  Tok &need(Tk x) {
    if (k() != x) bad("unexpected token");
    return t[p++];
  }
  bool got(Tk x) {
    if (k() != x) return false;
    p++;
    return true;
  }
  void blank() { while (got(K_EOL)) {} }
  Expr *mk(Expr::Kind kind, int line) {
    P.exprs.push_back(Expr{kind, line});
    return &P.exprs.back();
  }
  static int prec(Tk x) {
    switch (x) {
    case K_AND: case K_OR: return 1;
    case K_EQ: case K_LT: case K_GT: case K_LEQ: case K_GEQ: return 3;
    case K_ADD: case K_SUB: return 4;
    case K_MUL: case K_DIV: case K_MOD: return 5;
    default: return 0;
    }
  }
  Expr *expr(int min = 1) {
    Expr *l = operand();
    while (int q = prec(k())) {
      if (q < min) break;
      Expr *b = mk(Expr::Bin, t[p].line);
      b->op = k();
      p++;
      b->a = {l, expr(q + 1)};
      l = b;
    }
    return l;
  }
  Expr *operand() {
    if (k() == K_NOT) {
      Expr *u = mk(Expr::Un, t[p].line);
      u->op = K_NOT;
      p++;
      u->a = {expr(3)};
      return u;
    }
    if (k() == K_SUB) {
      std::vector<Expr *> neg;
      while (k() == K_SUB) {
        Expr *u = mk(Expr::Un, t[p].line);
        u->op = K_SUB;
        neg.push_back(u);
        p++;
      }
      Expr *e = postfix();
      while (!neg.empty()) {
        neg.back()->a = {e};
        e = neg.back();
        neg.pop_back();
      }
      return e;
    }
    return postfix();
  }
  Expr *postfix() {
    Expr *e = primary();
    for (;;) {
      if (k() == K_LB) {
        Expr *x = mk(Expr::Idx, t[p].line);
        p++;
        Expr *i = expr();
        need(K_RB);
        x->a = {e, i};
        e = x;
      } else if (k() == K_LP) {
        Expr *x = mk(Expr::Call, t[p].line);
        p++;
        x->a = {e};
        args(x);
        e = x;
      } else
        return e;
    }
  }
  void args(Expr *call) {
    if (got(K_RP)) return;
    do call->a.push_back(expr());
    while (got(K_COMMA));
    need(K_RP);
  }
  Expr *primary() {
    const int line = t[p].line;
    switch (k()) {
    case K_LB: {
      Expr *x = mk(Expr::Arr, line);
      p++;
      do x->a.push_back(expr());
      while (got(K_COMMA));
      need(K_RB);
      return x;
    }
    case K_LP: {
      p++;
      Expr *x = expr();
      need(K_RP);
      return x;
    }
    case K_ID: {
      std::string name = t[p++].s;
      if (got(K_DOT)) {
        Expr *x = mk(Expr::Mem, line);
        x->s = name;
        x->m = need(K_ID).s;
        return x;
      }
      Expr *x = mk(Expr::Id, line);
      x->s = name;
      return x;
    }
    case K_INT: { Expr *x = mk(Expr::Int, line); x->i = t[p++].i; return x; }
    case K_FLT: { Expr *x = mk(Expr::Flt, line); x->f = t[p++].f; return x; }
    case K_STR: { Expr *x = mk(Expr::Str, line); x->s = t[p++].s; return x; }
    case K_NONE: { p++; return mk(Expr::None, line); }
    default: bad("operand expected");
    }
  }
  Decl *decl() {
    Tok &n = need(K_ID);
    P.decls.push_back(Decl{n.s, file, n.line});
    Decl *d = &P.decls.back();
    if (got(K_ASSIGN)) d->init = expr();
    return d;
  }
  Stmt *mks(Stmt::Kind kind, int line) {
    P.stmts.push_back(Stmt{kind, line});
    return &P.stmts.back();
  }
  void header(Stmt *s) {
    need(K_LP);
    s->e = expr();
    need(K_RP);
    need(K_EOL);
    blank();
  }
  Stmt *stmt() {
    blank();
    const int line = t[p].line;
    Stmt *s = nullptr;
    switch (k()) {
    case K_VAR:
      p++;
      s = mks(Stmt::Var, line);
      s->var = decl();
      s->e = s->var->init;
      break;
    case K_ID: {
      std::string name = t[p++].s;
      switch (k()) {
      case K_ADD: case K_SUB: case K_MUL: case K_DIV: {
        s = mks(Stmt::Set, line);
        s->name = name;
        Expr *b = mk(Expr::Bin, line);
        b->op = k();
        p++;
        if (!got(K_ASSIGN)) bad("= expected");
        Expr *l = mk(Expr::Id, line);
        l->s = name;
        b->a = {l, nullptr};
        b->a[1] = expr();
        s->e = b;
        break;
      }
      case K_DOT:
        p++;
        s = mks(Stmt::SetMem, line);
        s->name = name;
        s->mem = need(K_ID).s;
        need(K_ASSIGN);
        s->e = expr();
        break;
      case K_ASSIGN:
        p++;
        s = mks(Stmt::Set, line);
        s->name = name;
        s->e = expr();
        break;
      case K_LP: {
        s = mks(Stmt::Call, line);
        Expr *x = mk(Expr::Call, line);
        p++;
        Expr *c = mk(Expr::Id, line);
        c->s = name;
        x->a = {c};
        args(x);
        s->e = x;
        break;
      }
      case K_LB:
        p++;
        s = mks(Stmt::SetIdx, line);
        s->name = name;
        s->e2 = expr();
        need(K_RB);
        need(K_ASSIGN);
        s->e = expr();
        break;
      default: bad("assignment or call expected");
      }
      break;
    }
    case K_IF:
      p++;
      s = mks(Stmt::If, line);
      header(s);
      while (!got(K_END)) {
        if (got(K_ELSE)) {
          need(K_EOL);
          blank();
          s->has_else = true;
          while (!got(K_END)) s->els.push_back(stmt());
          break;
        }
        s->body.push_back(stmt());
      }
      break;
    case K_WHILE:
      p++;
      s = mks(Stmt::While, line);
      header(s);
      while (!got(K_END)) s->body.push_back(stmt());
      break;
    case K_FOR:
      p++;
      s = mks(Stmt::For, line);
      need(K_LP);
      s->name = need(K_ID).s;
      need(K_ASSIGN);
      s->e = expr();
      need(K_TO);
      s->e2 = expr();
      need(K_RP);
      need(K_EOL);
      blank();
      while (!got(K_END)) s->body.push_back(stmt());
      break;
    case K_RETURN:
      p++;
      s = mks(Stmt::Ret, line);
      if (k() != K_EOL) s->e = expr();
      break;
    default: bad("statement expected");
    }
    need(K_EOL);
    blank();
    return s;
  }
  void file_body() {
    while (k() != K_EOF) {
      switch (k()) {
      case K_EOL: p++; break;
      case K_VAR:
      case K_CONST: {
        bool c = k() == K_CONST;
        p++;
        Decl *d = decl();
        d->kind = c ? Decl::Const : Decl::Global;
        Top top;
        top.var = d;
        P.tops.push_back(top);
        break;
      }
      case K_FUNCTION: {
        p++;
        Tok &n = need(K_ID);
        P.funcs.push_back(Func{n.s, file, n.line});
        Func *f = &P.funcs.back();
        need(K_LP);
        if (!got(K_RP)) {
          do {
            Tok &a = need(K_ID);
            P.decls.push_back(Decl{a.s, file, a.line, Decl::Arg});
            f->args.push_back(&P.decls.back());
          } while (got(K_COMMA));
          need(K_RP);
        }
        f->nargs = int(f->args.size());
        need(K_EOL);
        blank();
        while (k() != K_END) f->body.push_back(stmt());
        f->end = need(K_END).line;
        Top top;
        top.fn = f;
        P.tops.push_back(top);
        break;
      }
      case K_IMPORT: {
        p++;
        Tok &s = need(K_STR);
        if (!on_import || !on_import(file, s.s)) throw Reject{file, s.line, "bad import"};
        break;
      }
      default: bad("declaration expected");
      }
    }
  }
};

// ------------------------------------------------------------------ static rules
struct Checker {
  Program &P;
  bool optimize;
  int file = 0;
  struct Entry { std::string name; Decl *var; Func *fn; };
  std::vector<std::vector<Entry>> sc;
  Func *cur = nullptr;

  Checker(Program &P_, bool o) : P(P_), optimize(o) {}
  [[noreturn]] void bad(int line, const char *why) { throw Reject{file, line, why}; }

  Entry *find(const std::string &n) {
    for (size_t i = sc.size(); i-- > 0;)
      for (auto &e : sc[i])
        if (e.name == n) return &e;
    return nullptr;
  }

  // -- names are resolved innermost first; a local is visible after its declaration
  void names(Expr *e) {
    if (!e) return;
    switch (e->k) {
    case Expr::Id: {
      Entry *x = find(e->s);
      if (!x) bad(e->line, "unknown identifier");
      e->var = x->var;
      e->fn = x->fn;
      break;
    }
    case Expr::Mem: {
      Entry *x = find(e->s);
      if (!x || !x->var) bad(e->line, "unknown identifier");
      e->var = x->var;
      break;
    }
    default:
      for (Expr *c : e->a) names(c);
    }
  }
  void names(std::vector<Stmt *> &b) { for (Stmt *s : b) names(s); }
  void scoped(std::vector<Stmt *> &b) {
    sc.emplace_back();
    names(b);
    sc.pop_back();
  }
  void names(Stmt *s) {
    switch (s->k) {
    case Stmt::Var:
      names(s->e);
      s->var->kind = Decl::Local;
      s->var->slot = cur->nslots++;
      sc.back().push_back({s->var->name, s->var, nullptr});
      break;
    case Stmt::Set: case Stmt::SetIdx: case Stmt::SetMem: {
      names(s->e);
      names(s->e2);
      Entry *x = find(s->name);
      if (!x || !x->var) bad(s->line, "unknown variable");
      s->var = x->var;
      break;
    }
    case Stmt::Call: case Stmt::Ret: names(s->e); break;
    case Stmt::If:
      names(s->e);
      scoped(s->body);
      scoped(s->els);
      break;
    case Stmt::While:
      names(s->e);
      scoped(s->body);
      break;
    case Stmt::For: {
      Entry *x = find(s->name);
      if (!x || !x->var) bad(s->line, "unknown variable");
      s->var = x->var;
      names(s->e);
      names(s->e2);
      scoped(s->body);
      break;
    }
    }
  }

  // -- compile time integers
  static bool foldable(Expr *e) { return e->k == Expr::Int || e->k == Expr::Bin || e->k == Expr::Un || e->k == Expr::Id; }
  static int32_t arith(Tk op, int32_t a, int32_t b) {
    const uint32_t x = uint32_t(a), y = uint32_t(b);
    switch (op) {
    case K_ADD: return int32_t(x + y);
    case K_SUB: return int32_t(x - y);
    case K_MUL: return int32_t(x * y);
    case K_DIV: return int32_t(int64_t(a) / int64_t(b));
    case K_MOD: return int32_t(int64_t(a) % int64_t(b));
    case K_AND: return a != 0 && b != 0;
    case K_OR: return a != 0 || b != 0;
    case K_LT: return a < b;
    case K_GT: return a > b;
    case K_LEQ: return a <= b;
    case K_GEQ: return a >= b;
    case K_EQ: return a == b;
    default: abort();
    }
  }
  int32_t fold(Expr *e, bool &ok) {
    switch (e->k) {
    case Expr::Int: return e->i;
    case Expr::Id:
      if (e->var && e->var->kind == Decl::Const && e->var->init && e->var->init->k == Expr::Int) return e->var->init->i;
      ok = false;
      return 0;
    case Expr::Un: {
      if (!foldable(e->a[0])) { ok = false; return 0; }
      int32_t v = fold(e->a[0], ok);
      if (!ok) return 0;
      return e->op == K_NOT ? !v : int32_t(0u - uint32_t(v));
    }
    case Expr::Bin: {
      if (!foldable(e->a[0]) || !foldable(e->a[1])) { ok = false; return 0; }
      int32_t l = fold(e->a[0], ok);
      int32_t r = fold(e->a[1], ok);
      if (!ok) return 0;
      if (r == 0 && (e->op == K_DIV || e->op == K_MOD)) bad(e->line, "constant division by zero");
      return arith(e->op, l, r);
    }
    default: ok = false; return 0;
    }
  }
  static bool literal(Expr *e) {
    return e && (e->k == Expr::Int || e->k == Expr::Flt || e->k == Expr::Str || e->k == Expr::None);
  }
  void globals() {
    bool change = true;
    while (change) {
      change = false;
      for (auto &t : P.tops) {
        Decl *d = t.var;
        if (!d || !d->init) continue;
        file = d->file;
        Expr *e = d->init;
        if (e->k == Expr::Bin || e->k == Expr::Un) {
          bool ok = true;
          int32_t v = fold(e, ok);
          if (ok) {
            P.exprs.push_back(Expr{Expr::Int, d->line});
            P.exprs.back().i = v;
            d->init = &P.exprs.back();
            change = true;
          }
        } else if (e->k == Expr::Id && d->kind == Decl::Const && e->var && e->var->kind == Decl::Const &&
                   literal(e->var->init)) {
          d->init = e->var->init;
          change = true;
        }
      }
    }
  }

  // -- constants are values: they are replaced where used and never written
  void consts(Expr *e) {
    if (!e) return;
    if (e->k == Expr::Id) {
      if (e->var && e->var->kind == Decl::Const && e->var->init) {
        if (!literal(e->var->init)) bad(e->line, "not a compile time constant");
        Expr *l = e->var->init;
        e->k = l->k;
        e->i = l->i;
        e->f = l->f;
        e->s = l->s;
        e->var = nullptr;
      }
      return;
    }
    if (e->k == Expr::Mem) {
      if (e->var && e->var->kind == Decl::Const) bad(e->line, "member of constant");
      return;
    }
    for (Expr *c : e->a) consts(c);
  }
  void consts(std::vector<Stmt *> &b) {
    for (Stmt *s : b) {
      if (s->k == Stmt::Set || s->k == Stmt::SetIdx || s->k == Stmt::SetMem || s->k == Stmt::For)
        if (s->var->kind == Decl::Const) bad(s->line, "constant is read only");
      consts(s->e);
      consts(s->e2);
      consts(s->body);
      consts(s->els);
    }
  }

  // -- a name may not be declared again while an earlier declaration is in scope
  std::vector<std::set<std::string>> seen;
  void once(const std::string &n, int line) {
    for (auto &s : seen)
      if (s.count(n)) bad(line, "declared twice");
    seen.back().insert(n);
  }
  void unique(std::vector<Stmt *> &b) {
    for (Stmt *s : b) {
      if (s->k == Stmt::Var) once(s->var->name, s->var->line);
      for (auto *l : {&s->body, &s->els}) {
        if (l->empty()) continue;
        seen.emplace_back();
        unique(*l);
        seen.pop_back();
      }
    }
  }

  // -- direct calls pass the declared number of arguments
  void arity(Expr *e) {
    if (!e) return;
    if (e->k == Expr::Call && e->a[0]->k == Expr::Id && e->a[0]->fn) {
      Func *f = e->a[0]->fn;
      if (f->nargs >= 0 && f->nargs != int(e->a.size()) - 1) bad(e->line, "argument count");
    }
    for (Expr *c : e->a) arity(c);
  }
  void arity(std::vector<Stmt *> &b) {
    for (Stmt *s : b) {
      arity(s->e);
      arity(s->e2);
      arity(s->body);
      arity(s->els);
    }
  }

  // -- optimised builds report division of constants by zero
  bool zerodiv(Expr *e, int32_t &v) {
    if (!e) return false;
    switch (e->k) {
    case Expr::Int: v = e->i; return true;
    case Expr::Un: {
      int32_t x;
      if (!zerodiv(e->a[0], x)) return false;
      v = e->op == K_NOT ? !x : int32_t(0u - uint32_t(x));
      return true;
    }
    case Expr::Bin: {
      int32_t l, r;
      bool a = zerodiv(e->a[0], l), b = zerodiv(e->a[1], r);
      if (!a || !b) return false;
      if (r == 0 && (e->op == K_DIV || e->op == K_MOD)) bad(e->line, "constant division by zero");
      v = arith(e->op, l, r);
      return true;
    }
    default: {
      int32_t x;
      for (Expr *c : e->a) zerodiv(c, x);
      return false;
    }
    }
  }
  void zerodiv(std::vector<Stmt *> &b, bool top) {
    int32_t x;
    for (Stmt *s : b) {
      zerodiv(s->e, x);
      zerodiv(s->e2, x);
      zerodiv(s->body, false);
      zerodiv(s->els, false);
      if (top && s->k == Stmt::Ret) break;
    }
  }

  void run() {
    // names
    sc.clear();
    sc.emplace_back();
    for (auto &t : P.tops) sc[0].push_back({t.var ? t.var->name : t.fn->name, t.var, t.fn});
    for (auto &t : P.tops) {
      if (t.var) {
        file = t.var->file;
        names(t.var->init);
      } else if (!t.fn->sys) {
        file = t.fn->file;
        cur = t.fn;
        sc.emplace_back();
        for (Decl *a : t.fn->args) {
          a->slot = cur->nslots++;
          sc.back().push_back({a->name, a, nullptr});
        }
        names(t.fn->body);
        sc.pop_back();
      }
    }
    globals();
    for (auto &t : P.tops) {
      if (t.var) {
        file = t.var->file;
        consts(t.var->init);
        if (t.var->kind == Decl::Const && !t.var->init) bad(t.var->line, "constant without value");
      } else {
        file = t.fn->file;
        consts(t.fn->body);
      }
    }
    seen.clear();
    seen.emplace_back();
    for (auto &t : P.tops) {
      if (t.var) {
        file = t.var->file;
        once(t.var->name, t.var->line);
      } else {
        file = t.fn->file;
        once(t.fn->name, t.fn->line);
        seen.emplace_back();
        for (Decl *a : t.fn->args) once(a->name, a->line);
        unique(t.fn->body);
        seen.pop_back();
      }
    }
    for (auto &t : P.tops) {
      if (t.var) { file = t.var->file; arity(t.var->init); }
      else { file = t.fn->file; arity(t.fn->body); }
    }
    if (optimize) {
      for (auto &t : P.tops) {
        int32_t x;
        if (t.var) { file = t.var->file; zerodiv(t.var->init, x); }
        else { file = t.fn->file; zerodiv(t.fn->body, true); }
      }
    }
    int g = 0;
    for (auto &t : P.tops) {
      if (t.var && t.var->kind == Decl::Global) {
        t.var->slot = g++;
        P.globals.push_back(t.var);
      }
      if (t.fn) P.by_name.emplace(t.fn->name, t.fn);
    }
  }
};

struct Built {
  bool ok = false;
  Reject err{0, 0, ""};
  std::unique_ptr<Program> prog;
};

// files: texts by index; import(from, name) returns the index of the file it names (appending to files) or -1
inline Built build(std::vector<std::string> &files, const std::vector<Sys> &sys, bool optimize,
                   std::function<bool(int, const std::string &)> import = nullptr) {
  Built b;
  b.prog.reset(new Program);
  Program &P = *b.prog;
  for (auto &s : sys) {
    P.funcs.push_back(Func{s.name, -1, 0, true, s.nargs});
    Top t;
    t.fn = &P.funcs.back();
    P.tops.push_back(t);
  }
  try {
    for (size_t i = 0; i < files.size(); i++) {
      Parser ps(P, int(i));
      ps.on_import = import;
      ps.t = lex(files[i], int(i));
      ps.file_body();
    }
    Checker(P, optimize).run();
    b.ok = true;
  } catch (const Reject &r) {
    b.err = r;
  }
  return b;
}

// ------------------------------------------------------------------ values
enum Ty { V_NONE, V_INT, V_FLT, V_STR, V_ARR, V_FUN, V_SYS };
enum Fault {  // numbered by meaning, mapped by the adapter
  F_FINE, F_TYPE, F_DIV0, F_BOUNDS, F_INDEX, F_OBJECT, F_NARGS, F_ARG, F_MEMBER, F_HOST, F_MAX
};
inline const char *fault_name(int f) {
  static const char *n[] = {"ok", "type", "div0", "bounds", "index", "object", "nargs", "argument", "member", "host"};
  return f >= 0 && f < F_MAX ? n[f] : "?";
}

struct Arr;
struct Val {
  Ty t = V_NONE;
  union { int32_t i; float f; };
  const std::string *s = nullptr;
  Arr *a = nullptr;
  const Func *fn = nullptr;
  Val() : i(0) {}
};
struct Arr { std::vector<Val> v; };

inline std::string fbits(float f) {
  if (f != f) return "nan";
  uint32_t b;
  memcpy(&b, &f, 4);
  char buf[16];
  snprintf(buf, sizeof buf, "f%08x", b);
  return buf;
}

inline void render(std::string &o, const Val &v, std::vector<const Arr *> &seen) {
  char buf[32];
  switch (v.t) {
  case V_NONE: o += "none"; break;
  case V_INT: snprintf(buf, sizeof buf, "%d", v.i); o += buf; break;
  case V_FLT: o += fbits(v.f); break;
  case V_STR: o += '"'; o += *v.s; o += '"'; break;
  case V_FUN: o += "fn:"; o += v.fn->name; break;
  case V_SYS: o += "sys:"; o += v.fn->name; break;
  case V_ARR: {
    for (size_t i = 0; i < seen.size(); i++)
      if (seen[i] == v.a) {
        snprintf(buf, sizeof buf, "@%d", int(i));
        o += buf;
        return;
      }
    seen.push_back(v.a);
    o += '[';
    for (size_t i = 0; i < v.a->v.size(); i++) {
      if (i) o += ',';
      render(o, v.a->v[i], seen);
    }
    o += ']';
  } break;
  }
}
inline std::string render(const Val &v) {
  std::string o;
  std::vector<const Arr *> seen;
  render(o, v, seen);
  return o;
}

struct Stop { Fault f; int file, line; };  // thread fault
struct OutOfFuel {
  bool steps;  // too many steps, rather than too much memory or too deep
  explicit OutOfFuel(bool s = false) : steps(s) { mc::outside()++; }
};

struct Machine;
// a host hook answers: 0 declined, 1 handled (value in *ret), 2 raise error
struct HostHooks {
  // kind: "add" "sub" "mul" "div" "eq" "aget" "aset" "mget" "mset"
  std::function<int(Machine &, const char *kind, const std::vector<Val> &ops, const std::string &member, Val &ret)> op;
  bool has(const char *kind) const { return op && (kinds.empty() || kinds.count(kind)); }
  std::set<std::string> kinds;
};

struct Machine {
  Program &P;
  std::vector<Val> g;
  std::string trace;
  uint64_t steps = 0, fuel = 2000000;
  int depth = 0;
  std::deque<std::string> strs;
  std::deque<Arr> arrs;
  HostHooks hooks;
  std::function<int32_t(const Func *)> addr;  // address a function value prints as
  // extra host functions: return true when handled
  std::function<bool(Machine &, const std::string &name, std::vector<Val> &args, Val &ret)> host;
  int file = 0, line = 0;
  // visit(file, line, optional) is told every source line control reaches
  std::function<void(int, int, bool)> visit;
  std::function<void()> on_call;  // at every host call
  std::function<void()> on_fault;  // before a fault unwinds
  // the active functions, outermost first, with the call they are in and what is in scope (kept when tracking)
  struct Live { const Func *fn; std::vector<Val> *fr; int file, line; std::vector<Decl *> scope; };
  bool track = false;
  std::vector<Live> live;
  void reach(bool optional = false) { if (visit) visit(file, line, optional); }

  explicit Machine(Program &p) : P(p) { g.resize(p.globals.size()); }

  Val I(int32_t i) { Val v; v.t = V_INT; v.i = i; return v; }
  Val Fl(float f) { Val v; v.t = V_FLT; v.f = f; return v; }
  // memory bounds: a run that would need more than the model grants is outside the explored space
  uint64_t str_bytes = 0, arr_bytes = 0, str_limit = 16u << 20, arr_limit = 200u << 10, one_limit = 100u << 10;
  Val S(std::string s) {
    str_bytes += s.size() + 16;
    if (s.size() > one_limit || str_bytes > str_limit) throw OutOfFuel{};
    return S_(std::move(s));
  }
  Val S_(std::string s) { strs.push_back(std::move(s)); Val v; v.t = V_STR; v.s = &strs.back(); return v; }
  Val A(size_t n) {
    arr_bytes += 16 + 24 * n;
    if (arr_bytes > arr_limit) throw OutOfFuel{};
    return A_(n);
  }
  Val A_(size_t n) { arrs.emplace_back(); arrs.back().v.resize(n); Val v; v.t = V_ARR; v.a = &arrs.back(); return v; }
  [[noreturn]] void fault(Fault f) { if (on_fault) on_fault(); throw Stop{f, file, line}; }

  static bool num(const Val &v) { return v.t == V_INT || v.t == V_FLT; }
  static float fl(const Val &v) { return v.t == V_INT ? float(v.i) : v.f; }
  static bool truth(const Val &v) {
    switch (v.t) {
    case V_NONE: return false;
    case V_INT: return v.i != 0;
    case V_FLT: return v.f != 0.f;
    case V_STR: return !v.s->empty();
    default: return true;
    }
  }
  bool text(const Val &v, std::string &o) {
    char b[64];
    switch (v.t) {
    case V_NONE: o = "none"; return true;
    case V_INT: snprintf(b, sizeof b, "%d", v.i); o = b; return true;
    case V_FLT: snprintf(b, sizeof b, "%f", double(v.f)); o = b; return true;
    case V_STR: o = *v.s; return true;
    case V_FUN: snprintf(b, sizeof b, "function@%d", addr ? addr(v.fn) : -1); o = b; return true;
    default: return false;
    }
  }
  bool hooked(const char *kind, const std::vector<Val> &ops, const std::string &mem, Val &ret) {
    if (!hooks.has(kind)) return false;
    int r = hooks.op(*this, kind, ops, mem, ret);
    if (r == 2) fault(F_HOST);
    return r == 1;
  }
  Val binary(Tk op, const Val &l, const Val &r) {
    Val ret;
    switch (op) {
    case K_AND: return I(truth(l) && truth(r));
    case K_OR: return I(truth(l) || truth(r));
    case K_ADD:
      if (l.t == V_INT && r.t == V_INT) return I(Checker::arith(op, l.i, r.i));
      if (num(l) && num(r)) return Fl(fl(l) + fl(r));
      if (l.t == V_STR || r.t == V_STR) {
        std::string a, b;
        if (text(l, a) && text(r, b)) return S(a + b);
      }
      if (hooked("add", {l, r}, "", ret)) return ret;
      fault(F_TYPE);
    case K_SUB: case K_MUL: case K_DIV:
      if (l.t == V_INT && r.t == V_INT) {
        if (op == K_DIV && r.i == 0) fault(F_DIV0);
        return I(Checker::arith(op, l.i, r.i));
      }
      if (num(l) && num(r)) {
        float a = fl(l), b = fl(r);
        return Fl(op == K_SUB ? a - b : op == K_MUL ? a * b : a / b);
      }
      if (hooked(op == K_SUB ? "sub" : op == K_MUL ? "mul" : "div", {l, r}, "", ret)) return ret;
      fault(F_TYPE);
    case K_MOD:
      if (l.t != V_INT || r.t != V_INT) fault(F_TYPE);
      if (r.i == 0) fault(F_DIV0);
      return I(Checker::arith(op, l.i, r.i));
    case K_EQ:
      if (l.t == V_INT && r.t == V_INT) return I(l.i == r.i);
      if (l.t == V_STR && r.t == V_STR) return I(*l.s == *r.s);
      if (l.t == V_FUN && r.t == V_FUN) return I(l.fn == r.fn);
      if (l.t == V_NONE || r.t == V_NONE) return I(l.t == r.t);
      if (num(l) && num(r)) return I(fl(l) == fl(r));
      if (hooked("eq", {l, r}, "", ret)) return ret;
      fault(F_TYPE);
    default:
      if (!num(l) || !num(r)) fault(F_TYPE);
      if (l.t == V_INT && r.t == V_INT) return I(Checker::arith(op, l.i, r.i));
      switch (op) {
      case K_LT: return I(fl(l) < fl(r));
      case K_GT: return I(fl(l) > fl(r));
      case K_LEQ: return I(fl(l) <= fl(r));
      default: return I(fl(l) >= fl(r));
      }
    }
  }
  std::function<void()> yield;  // called before every access to shared state (globals, arrays, host)
  void shared() { if (yield) yield(); }
  Val &slot(std::vector<Val> &fr, Decl *d) {
    if (d->kind == Decl::Global) shared();
    return d->kind == Decl::Global ? g[d->slot] : fr[d->slot];
  }

  Val eval(Expr *e, std::vector<Val> &fr) {
    if (++steps > fuel) throw OutOfFuel{true};
    switch (e->k) {
    case Expr::Int: return I(e->i);
    case Expr::Flt: return Fl(e->f);
    case Expr::Str: return S(e->s);
    case Expr::None: return Val();
    case Expr::Id: {
      if (e->var) return slot(fr, e->var);
      Val v;
      v.t = e->fn->sys ? V_SYS : V_FUN;
      v.fn = e->fn;
      return v;
    }
    case Expr::Mem: {
      Val o = slot(fr, e->var), ret;
      shared();
      if (o.t == V_ARR && e->m == "length") return I(int32_t(o.a->v.size()));
      if (hooked("mget", {o}, e->m, ret)) return ret;
      fault(F_MEMBER);
    }
    case Expr::Arr: {
      std::vector<Val> x;
      for (Expr *c : e->a) x.push_back(eval(c, fr));
      Val v = A(x.size());
      v.a->v = x;
      return v;
    }
    case Expr::Idx: {
      Val i = eval(e->a[1], fr);
      Val b = eval(e->a[0], fr);
      Val ret;
      shared();
      if (hooked("aget", {b, i}, "", ret)) return ret;
      if (b.t == V_NONE) fault(F_OBJECT);
      if (i.t != V_INT) fault(F_INDEX);
      if (b.t == V_ARR) {
        if (i.i < 0 || size_t(i.i) >= b.a->v.size()) fault(F_BOUNDS);
        return b.a->v[i.i];
      }
      if (b.t == V_STR) {
        if (i.i < 0 || size_t(i.i) >= b.s->size()) fault(F_BOUNDS);
        return I(uint8_t((*b.s)[i.i]));
      }
      fault(F_TYPE);
    }
    case Expr::Call: return call(e, fr);
    case Expr::Un: {
      Val v = eval(e->a[0], fr);
      if (e->op == K_NOT) return I(!truth(v));
      if (v.t != V_INT) fault(F_TYPE);
      return I(int32_t(0u - uint32_t(v.i)));
    }
    case Expr::Bin: {
      Val l = eval(e->a[0], fr);
      Val r = eval(e->a[1], fr);
      return binary(e->op, l, r);
    }
    }
    abort();
  }
  Val call(Expr *e, std::vector<Val> &fr) {
    std::vector<Val> args;
    for (size_t i = 1; i < e->a.size(); i++) args.push_back(eval(e->a[i], fr));
    Val callee;
    if (e->a[0]->k == Expr::Id && e->a[0]->fn) {
      callee.t = e->a[0]->fn->sys ? V_SYS : V_FUN;
      callee.fn = e->a[0]->fn;
    } else
      callee = eval(e->a[0], fr);
    if (callee.t == V_SYS) return syscall(callee.fn->name, args);
    if (callee.t != V_FUN) fault(F_TYPE);
    if (callee.fn->nargs != int(args.size())) fault(F_NARGS);
    int sf = file, sl = line;
    Val r = invoke(callee.fn, args);
    file = sf;
    line = sl;
    reach();
    return r;
  }
  Val invoke(const Func *f, const std::vector<Val> &args) {
    if (++depth > 6000) throw OutOfFuel{};
    std::vector<Val> fr(f->nslots);
    for (size_t i = 0; i < args.size(); i++) fr[i] = args[i];
    if (track) live.push_back(Live{f, &fr, file, line, f->args});
    file = f->file;
    line = f->line;
    reach(true);
    Val ret;
    if (!block(f->body, fr, ret)) {
      ret = I(0);
      file = f->file;
      line = f->end;
      reach(true);
    }
    depth--;
    if (track) live.pop_back();
    return ret;
  }
  bool block(const std::vector<Stmt *> &b, std::vector<Val> &fr, Val &ret) {
    const size_t outer = track ? live.back().scope.size() : 0;
    bool done = false;
    for (Stmt *s : b)
      if ((done = exec(s, fr, ret))) break;
    if (track) live.back().scope.resize(outer);
    return done;
  }
  bool exec(Stmt *s, std::vector<Val> &fr, Val &ret) {
    if (++steps > fuel) throw OutOfFuel{true};
    line = s->line;
    reach();
    switch (s->k) {
    case Stmt::Var: {
      Val v;
      if (s->e) v = eval(s->e, fr);
      fr[s->var->slot] = v;
      if (track) live.back().scope.push_back(s->var);
      return false;
    }
    case Stmt::Set: {
      Val v = eval(s->e, fr);
      slot(fr, s->var) = v;
      return false;
    }
    case Stmt::SetIdx: {
      Val v = eval(s->e, fr);
      Val i = eval(s->e2, fr);
      Val b = slot(fr, s->var);
      Val r;
      shared();
      if (hooked("aset", {b, i, v}, "", r)) return false;
      if (b.t != V_ARR) fault(F_OBJECT);
      if (i.t != V_INT) fault(F_INDEX);
      if (i.i < 0 || size_t(i.i) >= b.a->v.size()) fault(F_BOUNDS);
      b.a->v[i.i] = v;
      return false;
    }
    case Stmt::SetMem: {
      Val v = eval(s->e, fr);
      Val b = slot(fr, s->var), r;
      if (hooked("mset", {b, v}, s->mem, r)) return false;
      fault(F_MEMBER);
    }
    case Stmt::Call: eval(s->e, fr); return false;
    case Stmt::If:
      if (truth(eval(s->e, fr))) return block(s->body, fr, ret);
      return block(s->els, fr, ret);
    case Stmt::While:
      while (line = s->line, reach(), truth(eval(s->e, fr)))
        if (block(s->body, fr, ret)) return true;
      return false;
    case Stmt::For: {
      Val v = eval(s->e, fr);
      slot(fr, s->var) = v;
      for (;;) {
        line = s->line;
        reach();
        if (++steps > fuel) throw OutOfFuel{true};
        Val cur = slot(fr, s->var);
        Val end = eval(s->e2, fr);
        if (!truth(binary(K_LT, cur, end))) return false;
        if (block(s->body, fr, ret)) return true;
        line = s->line;
        reach();
        slot(fr, s->var) = binary(K_ADD, slot(fr, s->var), I(1));
      }
    }
    case Stmt::Ret:
      ret = s->e ? eval(s->e, fr) : Val();
      return true;
    }
    abort();
  }

  void event(const std::string &s) {
    trace += s;
    trace += ';';
  }

  Val syscall(const std::string &n, std::vector<Val> &a) {
    Val ret;
    shared();
    if (n == "out" || n == "outv") {
      std::string e = n + "(";
      for (size_t i = 0; i < a.size(); i++) {
        if (i) e += "|";
        e += render(a[i]);
      }
      event(e + ")");
      if (on_call) on_call();
      return a.empty() ? Val() : a[0];
    }
    if (host && host(*this, n, a, ret)) return ret;
    return builtin(n, a);
  }
  Val builtin(const std::string &n, std::vector<Val> &a) {
    static const std::map<std::string, int> arity = {
        {"abs", 1}, {"min", 2}, {"max", 2}, {"bitand", 2}, {"sin", 1}, {"cos", 1}, {"tan", 1}, {"len", 1}, {"chr", 1},
        {"round", 1}, {"ceil", 1}, {"floor", 1}, {"sqrt", 1}, {"wait", 1}, {"new_array", 1}};
    auto it = arity.find(n);
    if (it == arity.end()) { fprintf(stderr, "ref: unknown system call %s\n", n.c_str()); abort(); }
    if (int(a.size()) != it->second) fault(F_NARGS);
    const Val &x = a[0];
    if (n == "abs") {
      if (x.t == V_INT) return I(x.i < 0 ? int32_t(0u - uint32_t(x.i)) : x.i);
      if (x.t == V_FLT) return Fl(x.f < 0.f ? -x.f : x.f);
      fault(F_ARG);
    }
    if (n == "min" || n == "max") {
      if (!num(x) || !num(a[1])) fault(F_ARG);
      float l = fl(a[1]), r = fl(x);
      return Fl(n == "min" ? (l < r ? l : r) : (l > r ? l : r));
    }
    if (n == "bitand") {
      if (x.t != V_INT || a[1].t != V_INT) fault(F_ARG);
      return I(x.i & a[1].i);
    }
    if (n == "len") {
      if (x.t == V_ARR) return I(int32_t(x.a->v.size()));
      if (x.t == V_STR) return I(int32_t(x.s->size()));
      fault(F_ARG);
    }
    if (n == "chr") {
      if (x.t != V_INT) fault(F_ARG);
      char c = char(x.i & 255);
      return S(c ? std::string(1, c) : std::string());
    }
    if (!num(x)) fault(F_ARG);
    const float f = fl(x);
    if (n == "sin") return Fl(sinf(f));
    if (n == "cos") return Fl(cosf(f));
    if (n == "tan") return Fl(tanf(f));
    if (n == "round") return Fl(roundf(f));
    if (n == "ceil") return Fl(ceilf(f));
    if (n == "floor") return Fl(floorf(f));
    if (n == "sqrt") return Fl(sqrtf(f));
    const int32_t w = x.t == V_INT ? x.i : int32_t(x.f);
    if (n == "wait") return I(0);
    if (w <= 0) fault(F_ARG);
    return A(size_t(w));
  }

  void init() {
    std::vector<Val> none;
    for (Decl *d : P.globals) {
      if (!d->init) continue;
      file = d->file;
      line = d->line;
      reach(d->init->k == Expr::None);  // globals start as none
      g[d->slot] = eval(d->init, none);
    }
  }
};

}  // namespace ref
