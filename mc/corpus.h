// Program families shared by the checks.  Every function is a generator over a Chooser: the explorer enumerates all of
// its choices.
#pragma once
#include <dirent.h>

#include <algorithm>
#include <string>
#include <vector>

#include "explore.h"

namespace corpus {
using mc::Case;
using mc::Chooser;
typedef std::vector<std::string> Strs;

inline std::string N(long n) { return std::to_string(n); }
inline std::string rep(const std::string &s, long n) {
  std::string o;
  o.reserve(s.size() * n);
  for (long i = 0; i < n; i++) o += s;
  return o;
}

// ------------------------------------------------------------------ operands
// literal-like expressions covering every kind of value and the boundary integers
inline const Strs &atoms() {
  static const Strs a = {
      "0", "1", "2", "3", "7", "(-1)", "(-2)", "(-7)", "127", "128", "255", "256", "(-128)", "65535", "65536", "16777216",
      "16777217", "2147483647", "(-2147483647 - 1)", "46341", "0.0", "0.5", "1.5", "(0.0 - 2.5)", "1.0", "3.0", "0.1",
      "16777216.0", "123456789.0", "100000000000000000000.0", "\"\"", "\"a\"", "\"ab\"", "\"b\"", "\"1\"", "\"none\"",
      "\"aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhh\"", "none", "[1]", "f", "k", "out"};
  return a;
}
inline const Strs &few_atoms() {
  static const Strs a = {"0", "1", "(-3)", "2147483647", "0.5", "\"ab\"", "\"\"", "none", "[1]", "f", "out"};
  return a;
}
// literals that may initialise a constant
inline bool constable(const std::string &a) {
  return a != "[1]" && a != "f" && a != "k" && a != "out" && a.find("0.0 -") == std::string::npos;
}
inline const Strs &binops() {
  static const Strs o = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or"};
  return o;
}
inline const char *prelude() { return "function f(x)\n return x\nend\nfunction k()\n return 5\nend\n"; }

// operand sources: how a value reaches an operator
enum Src { S_LIT, S_LOCAL, S_ARG, S_GLOBAL, S_ELEM, S_CALL, S_CONST, S_COUNT };

// one binary operation: op over two operand values taken from the given sources
inline std::string binop_program(const std::string &a, const std::string &b, const std::string &op, int sa, int sb) {
  std::string top, loc, params, args, x, y;
  auto src = [&](const std::string &v, int s, const std::string &n) -> std::string {
    switch (s) {
    case S_LIT: return v;
    case S_LOCAL: loc += " var " + n + " = " + v + "\n"; return n;
    case S_ARG:
      params += (params.empty() ? "" : ", ") + n;
      args += (args.empty() ? "" : ", ") + v;
      return n;
    case S_GLOBAL: top += "var " + n + " = " + v + "\n"; return n;
    case S_ELEM: loc += " var " + n + " = [none, " + v + "]\n"; return n + "[1]";
    case S_CALL: return "f(" + v + ")";
    case S_CONST: top += "const " + n + " = " + v + "\n"; return n;
    }
    return v;
  };
  x = src(a, sa, "p");
  y = src(b, sb, "q");
  return std::string(prelude()) + top + "function t(" + params + ")\n" + loc + " var r = " + x + " " + op + " " + y +
         "\n out(r)\n r = " + x + " " + op + " " + y + "\n out(r)\n if (" + x + " " + op + " " + y + ")\n  out(1)\n end\n while (" + x + " " + op + " " + y + ")\n  return " + x + " " + op + " " + y +
         "\n end\n return " + x + " " + op + " " + y + "\nend\nfunction main()\n return t(" + args + ")\nend\n";
}

// ------------------------------------------------------------------ expression trees
// every operator sequence of n binary operators, every unary prefix pattern, every parenthesis placement of one group
inline std::string tree_expr(Chooser &ch, int n, const Strs &ops, bool unary, bool parens, bool traced) {
  // two sets of operands, so that no grouping gives the right value by chance in both
  static const char *vals[2][6] = {{"7", "2", "3", "1", "5", "4"}, {"1", "5", "7", "4", "3", "2"}};
  const char **val = vals[unary ? 0 : ch.choose(2)];
  std::vector<std::string> o, v;
  for (int i = 0; i <= n; i++) {
    std::string x = val[i];
    if (traced) x = "out(" + x + ")";
    if (unary) {
      static const char *pre[] = {"", "-", "not ", "- -", "not -", "not not "};
      x = pre[ch.choose(i == 0 ? 6 : 3)] + x;
    }
    v.push_back(x);
  }
  for (int i = 0; i < n; i++) o.push_back(ch.pick(ops));
  int l = -1, r = -1;
  if (parens) {
    int c = ch.choose(1 + n * (n + 1) / 2);
    if (c) {
      int q = 1;
      for (int i = 0; i <= n && l < 0; i++)
        for (int j = i + 1; j <= n; j++)
          if (q++ == c) { l = i; r = j; break; }
    }
  }
  std::string e;
  for (int i = 0; i <= n; i++) {
    if (i) e += " " + o[i - 1] + " ";
    if (i == l) {
      e += "(";
    }
    e += v[i];
    if (i == r) e += ")";
  }
  return e;
}

// ------------------------------------------------------------------ statements
// bounded enumeration of statement lists.  Variables in scope are tracked so that most programs are valid.
struct Blocks {
  Chooser &ch;
  int budget;         // statements left
  int level;          // richness of expressions: 0 small .. 2 rich
  int depth = 0, maxdepth;
  int fresh = 0;
  std::vector<std::string> vars;
  bool calls = true;
  Blocks(Chooser &c, int b, int lvl, int md) : ch(c), budget(b), level(lvl), maxdepth(md) {}

  std::string ind() const { return std::string(size_t(depth + 1), ' '); }
  std::string var() { return ch.pick(vars); }
  std::string expr() {
    const std::string v = vars.back();
    static const Strs e0 = {"1", "$", "$ + 2", "out($)"};
    static const Strs e1 = {"1", "$", "$ - 3", "f($)", "h[0]", "g"};
    static const Strs e2 = {"0", "1", "$", "$ + 2", "2 - $", "out($)", "f($ * 2)", "h[1]", "g", "$ < 2", "not $", "\"s\" + $", "none", "[$, 4]", "k()", "-$"};
    static const Strs em = {"$", "1"};
    std::string e = ch.pick(level < 0 ? em : level == 0 ? e0 : level == 1 ? e1 : e2);
    size_t p = e.find('$');
    if (p != std::string::npos) e.replace(p, 1, v);
    return e;
  }
  std::string cond() {
    const std::string v = vars.front();
    static const Strs c0 = {"$ < 2", "1", "0"};
    static const Strs c2 = {"$ < 2", "1", "0", "not $", "$", "2 > 1", "1 > 2", "out(0)", "g == 3"};
    static const Strs cm = {"$ < 2"};
    std::string e = ch.pick(level < 0 ? cm : level < 2 ? c0 : c2);
    size_t p = e.find('$');
    if (p != std::string::npos) e.replace(p, 1, v);
    return e;
  }
  std::string nested() {
    depth++;
    size_t keep = vars.size();
    std::string b = list(1);
    vars.resize(keep);
    depth--;
    return b;
  }
  std::string stmt() {
    budget--;
    const bool deep = depth < maxdepth;
    // simplest first
    int k = ch.choose(deep ? 12 : 7);
    std::string in = ind();
    switch (k) {
    case 0: return in + "out(" + expr() + ")\n";
    case 1: {
      std::string e = expr();
      std::string n = "v" + N(fresh++);
      vars.push_back(n);
      return in + "var " + n + " = " + e + "\n";
    }
    case 2: { std::string e = expr(); return in + var() + " = " + e + "\n"; }
    case 3: {
      static const Strs ops = {"+=", "-=", "*="};
      std::string op = ch.pick(ops);
      std::string e = expr();
      return in + var() + " " + op + " " + e + "\n";
    }
    case 4: { std::string e = expr(); return in + "h[" + (ch.flip() ? "1" : "0") + "] = " + e + "\n"; }
    case 5: return in + "return " + expr() + "\n";
    case 6: {
      std::string n = "v" + N(fresh++);
      vars.push_back(n);
      return in + "var " + n + "\n";
    }
    case 7: { std::string c = cond(); return in + "if (" + c + ")\n" + nested() + in + "end\n"; }
    case 8: {
      std::string c = cond();
      std::string a = nested();
      return in + "if (" + c + ")\n" + a + in + "else\n" + nested() + in + "end\n";
    }
    case 9: {
      std::string n = "i" + N(fresh++);
      std::string b;
      vars.push_back(n);
      b = nested();
      return in + "var " + n + " = 0\n" + in + "while (" + n + " < 2)\n" + in + " " + n + " += 1\n" + b + in + "end\n";
    }
    case 10: {
      std::string n = "i" + N(fresh++);
      vars.push_back(n);
      std::string b = nested();
      return in + "var " + n + "\n" + in + "for (" + n + " = 0 to 3)\n" + b + in + "end\n";
    }
    default: {
      std::string c = level < 2 ? "a" : cond();
      return in + "while (" + c + ")\n" + in + " a -= 1\n" + nested() + in + "end\n";
    }
    }
  }
  std::string list(int min) {
    std::string o;
    int n = 0;
    while (budget > 0) {
      if (n >= min && !ch.flip()) break;
      o += stmt();
      n++;
    }
    return o;
  }
};

inline bool block_program(Chooser &ch, Case &c, int budget, int level, int maxdepth) {
  Blocks b(ch, budget, level, maxdepth);
  b.vars = {"a", "g"};
  std::string body = b.list(1);
  if (b.budget != 0) return false;  // exactly `budget` statements (smaller ones come from smaller budgets)
  c.files = {std::string(prelude()) + "var g = 3\nvar h = [1, 2]\nfunction t(a)\n" + body + " out(a)\nend\nfunction main()\n out(t(1))\n" +
             " var r = t(2)\n out(h)\n return r\nend\n"};
  return true;
}

// ------------------------------------------------------------------ sizes
// families of programs indexed by a size n; every count the language allows grows in one of them
struct Family {
  const char *name;
  long max;  // sensible upper bound
  std::string (*make)(long n);
};

inline std::string names(const char *p, long n, const char *sep = ", ") {
  std::string o;
  for (long i = 0; i < n; i++) o += (i ? sep : "") + std::string(p) + N(i);
  return o;
}

inline const std::vector<Family> &families() {
  static const std::vector<Family> f = {
      {"locals", 1100, [](long n) {
         std::string o = "function main()\n";
         for (long i = 0; i < n; i++) o += " var v" + N(i) + " = " + N(i * 3 + 1) + "\n";
         for (long i = 0; i < n; i++) o += " out(v" + N(i) + ")\n";
         return o + " return " + (n ? "v" + N(n - 1) : "0") + "\nend\n";
       }},
      {"locals of a callee", 1100, [](long n) {
         std::string o = "function t(p)\n";
         for (long i = 0; i < n; i++) o += " var v" + N(i) + " = p + " + N(i) + "\n";
         o += " return " + (n ? "v" + N(n - 1) : "p") + "\nend\nfunction u(p, q)\n var w = q - t(p)\n return [w, t(q), p]\nend\nfunction main()\n var k = 5\n out(100 - t(3))\n out([1, t(4), 2])\n out(k * t(1) + k)\n outv(7, t(2), 8)\n out(u(1, 2))\n k = t(k) - t(t(k))\n return k\nend\n";
         return o;
       }},
      {"args", 600, [](long n) {
         std::string o = "function t(" + names("a", n) + ")\n";
         for (long i = 0; i < n; i++) o += " out(a" + N(i) + ")\n";
         o += " return " + (n ? "a" + N(n / 2) : "0") + "\nend\nfunction main()\n var q = 9\n var r = t(";
         for (long i = 0; i < n; i++) o += (i ? ", " : "") + N(i * 5 + 2);
         return o + ")\n out(q)\n return r\nend\n";
       }},
      {"indirect args", 600, [](long n) {
         std::string o = "function t(" + names("a", n) + ")\n var s = \"\"\n";
         for (long i = 0; i < n; i++) o += " s += a" + N(i) + "\n";
         o += " return s\nend\nfunction main()\n var q = t\n var r = q(";
         for (long i = 0; i < n; i++) o += (i ? ", " : "") + N(i);
         return o + ")\n out(q)\n return r\nend\n";
       }},
      {"args and locals", 300, [](long n) {
         std::string o = "function t(" + names("a", n) + ")\n";
         for (long i = 0; i < n; i++) o += " var l" + N(i) + " = a" + N(n - 1 - i) + "\n";
         for (long i = 0; i < n; i++) o += " out(l" + N(i) + ")\n";
         o += " a" + N(n ? n - 1 : 0) + " = 77\n";
         for (long i = 0; i < n; i++) o += " out(a" + N(i) + ")\n";
         if (!n) return std::string("function main()\nend\n");
         o += "end\nfunction main()\n return t(";
         for (long i = 0; i < n; i++) o += (i ? ", " : "") + N(i + 1000);
         return o + ")\nend\n";
       }},
      {"globals", 1100, [](long n) {
         std::string o;
         for (long i = 0; i < n; i++) o += "var g" + N(i) + (i % 3 == 0 ? "" : " = " + N(i) + (i % 3 == 1 ? "" : " + g" + N(i - 1))) + "\n";
         o += "function main()\n";
         for (long i = 0; i < n; i++) o += " out(g" + N(i) + ")\n g" + N(i) + " = " + N(-i) + "\n";
         return o + "end\n";
       }},
      {"functions", 700, [](long n) {
         std::string o = "var t\n";
         for (long i = 0; i < n; i++) o += "function f" + N(i) + "(x)\n return x + " + N(i) + "\nend\n";
         o += "function main()\n";
         for (long i = 0; i < n; i++) o += " out(f" + N(i) + "(100))\n t = f" + N(i) + "\n out(t(1))\n out(t == f0)\n";
         return o + "end\n";
       }},
      {"functions reversed", 300, [](long n) {
         std::string o = "function main()\n";
         for (long i = 0; i < n; i++) o += " out(f" + N(i) + "())\n";
         o += "end\n";
         for (long i = 0; i < n; i++) o += "function f" + N(i) + "()\n return " + (i + 1 < n ? "f" + N(i + 1) + "() + 1" : "7") + "\nend\n";
         return o;
       }},
      {"strings", 700, [](long n) {
         std::string o = "function main()\n";
         for (long i = 0; i < n; i++) o += " out(\"s" + N(i) + "\")\n";
         for (long i = n; i-- > 0;) o += " out(\"s" + N(i) + "\" + \"s" + N(i / 2) + "\")\n";
         return o + "end\n";
       }},
      {"string length", 70000, [](long n) {
         std::string s;
         for (long i = 0; i < n; i++) s += char('a' + i % 26);
         return "const c = \"" + s + "\"\nvar g = \"" + s + "\"\nfunction main()\n out(c)\n out(len(g))\n out(g == c)\n out(g + \"!\")\n out(\"!\" + c)\n out(c + 12)\n return g\nend\n";
       }},
      {"string concat", 40000, [](long n) {
         std::string s(size_t(n / 2), 'x'), t(size_t(n - n / 2), 'y');
         return "function main()\n var a = \"" + s + "\"\n var b = \"" + t + "\"\n var c = a + b\n out(c)\n out(len(c))\n out(b + a == c)\n out(a + b == c)\n" +
                (n ? " out(c[" + N(n - 1) + "])\n" : "") + " out(c[" + N(n) + "])\nend\n";
       }},
      {"identifier length", 3000, [](long n) {
         std::string s(size_t(n + 1), 'q');
         return "var " + s + "g = 4\nfunction " + s + "f(" + s + "a)\n var " + s + " = " + s + "a + " + s + "g\n return " + s + "\nend\nfunction main()\n out(" + s + "f(3))\n " + s + "g = " + s + "f\n return " + s + "g(9)\nend\n";
       }},
      {"paren nesting", 900, [](long n) { return "function main()\n var a = 2\n return " + rep("(", n) + "a" + rep(" + 1)", n) + "\nend\n"; }},
      {"paren nesting left", 900, [](long n) { return "function main()\n var a = 2\n return " + rep("(1 - ", n) + "a" + rep(")", n) + "\nend\n"; }},
      {"index nesting", 400, [](long n) { return "var h = [1, 0]\nfunction main()\n return " + rep("h[", n) + "0" + rep("]", n) + "\nend\n"; }},
      {"call nesting", 400, [](long n) { return "function f(x)\n return x + 1\nend\nfunction main()\n return " + rep("f(", n) + "0" + rep(")", n) + "\nend\n"; }},
      {"array nesting", 300, [](long n) { return "function main()\n var a = " + rep("[", n + 1) + "7" + rep("]", n + 1) + "\n out(a)\n return a" + rep("[0]", n + 1) + "\nend\n"; }},
      {"unary chain", 600, [](long n) { return "function main()\n var a = 5\n out(" + rep("- ", n) + "a)\n return " + rep("not ", n) + "a\nend\n"; }},
      {"binary chain", 3000, [](long n) {
         std::string e = "a";
         for (long i = 0; i < n; i++) e += std::string(" ") + (i % 3 == 0 ? "+" : i % 3 == 1 ? "-" : "*") + " " + N(i % 7 + 1);
         return "function main()\n var a = 2\n return " + e + "\nend\n";
       }},
      {"precedence chain", 600, [](long n) {
         std::string e = "a";
         static const char *ops[] = {"or", "and", "<", "==", "+", "-", "*"};
         for (long i = 0; i < n; i++) e += std::string(" ") + ops[i % 7] + " a";
         return "function main()\n var a = 2\n return " + e + "\nend\n";
       }},
      {"operand stack", 400, [](long n) {
         std::string e;
         for (long i = 0; i < n; i++) e += "a + (";
         e += "a";
         e += rep(")", n);
         return "function f(x, y)\n var z = x\n return z - y\nend\nfunction main()\n var a = 3\n var b = 4\n out(f(" + e + ", b))\n out(b)\n return a\nend\n";
       }},
      {"if nesting", 200, [](long n) {
         std::string o = "function main()\n var a = 0\n";
         for (long i = 0; i < n; i++) o += " if (a == " + N(i) + ")\n  a += 1\n  var b" + N(i) + " = a\n";
         for (long i = 0; i < n; i++) o += "  out(b" + N(n - 1 - i) + ")\n else\n  out(\"e" + N(i) + "\")\n end\n";
         return o + " return a\nend\n";
       }},
      {"while nesting", 60, [](long n) {
         std::string o = "function main()\n var a = 1\n";
         for (long i = 0; i < n; i++) o += " while (a == " + N(i + 1) + ")\n  a += 1\n";
         o += " out(a)\n";
         for (long i = 0; i < n; i++) o += " end\n";
         return o + " return a\nend\n";
       }},
      {"for nesting", 40, [](long n) {
         std::string o = "function main()\n var s = 0\n";
         for (long i = 0; i < n; i++) o += " var i" + N(i) + "\n for (i" + N(i) + " = " + N(i) + " to " + N(i + 1) + ")\n";
         o += " s += 1\n";
         for (long i = 0; i < n; i++) o += " out(i" + N(n - 1 - i) + ")\n end\n";
         return o + " return s\nend\n";
       }},
      {"array literal", 1500, [](long n) {
         std::string e = "0";
         for (long i = 0; i < n; i++) e += ", " + N(i * 2);
         return "var g = [" + e + "]\nfunction main()\n var a = [" + e + "]\n out(a)\n out(a.length)\n a[" + N(n) + "] = 5\n out(g)\n return a[" + N(n) + "]\nend\n";
       }},
      {"array size", 6000, [](long n) {
         if (!n) return std::string("function main()\n out(1)\n var a = new_array(0)\n out(2)\nend\n");
         return "function main()\n var a = new_array(" + N(n) + ")\n var i\n for (i = 0 to " + N(n) + ")\n  a[i] = i * 2\n end\n out(a.length)\n out(len(a))\n out(a[" + N(n - 1) + "])\n out(a[0])\n a[" + N(n) + "] = 1\nend\n";
       }},
      {"statements", 8000, [](long n) {
         std::string o = "function main()\n var a = 0\n";
         for (long i = 0; i < n; i++) o += " a += " + N(i % 9) + "\n";
         return o + " return a\nend\n";
       }},
      {"skipped body", 8000, [](long n) {
         std::string b;
         for (long i = 0; i < n; i++) b += " a += 1\n";
         return "function main()\n var a = 0\n var i\n if (a)\n" + b + " else\n out(\"e\")\n end\n if (not a)\n out(\"t\")\n else\n" + b + " end\n while (a < 2 * " + N(n) + ")\n" + b + " out(a)\n end\n return a\nend\n";
       }},
      {"late function", 8000, [](long n) {
         std::string b;
         for (long i = 0; i < n; i++) b += " a += 1\n";
         return "function big()\n var a = 0\n" + b + " return a\nend\nfunction late(x)\n if (x)\n  return late(x - 1)\n end\n return big\nend\nfunction main()\n var t = late\n var u = t(2)\n out(u == big)\n out(u)\n return u()\nend\n";
       }},
      {"recursion", 3000, [](long n) { return "function r(n)\n var k = n * 2\n if (n == 0)\n  return 0\n end\n var s = r(n - 1)\n return s + k\nend\nfunction main()\n out(r(" + N(n) + "))\nend\n"; }},
      {"mutual recursion", 900, [](long n) { return "function e(n, x)\n if (n == 0)\n  return x\n end\n return o(n - 1, x + \"e\")\nend\nfunction o(n, x)\n if (n == 0)\n  return x\n end\n return e(n - 1, x + \"o\")\nend\nfunction main()\n return e(" + N(n) + ", \"\")\nend\n"; }},
      {"loop count", 20000, [](long n) { return "function main()\n var s = 0\n var i\n for (i = 0 to " + N(n) + ")\n  s = s + i\n end\n out(i)\n while (s > 0)\n  s = s - 977\n end\n return s\nend\n"; }},
      {"loop strings", 2000, [](long n) { return "function main()\n var s = \"\"\n var i\n for (i = 0 to " + N(n) + ")\n  s = s + chr(97 + i % 26)\n end\n out(len(s))\n return s\nend\n"; }},
      {"sequential scopes", 700, [](long n) {
         std::string o = "function main()\n var a = 1\n";
         for (long i = 0; i < n; i++) o += " if (a)\n  var x\n  out(x)\n  x = " + N(i) + "\n  var y = x\n  out(y)\n end\n";
         return o + " return a\nend\n";
       }},
      {"call statements", 700, [](long n) {
         std::string o = "function f(x, y)\n return x\nend\nfunction main()\n var a = 5\n";
         for (long i = 0; i < n; i++) o += " f(" + N(i) + ", a)\n";
         return o + " return a\nend\n";
       }},
      {"varargs", 600, [](long n) {
         std::string e;
         for (long i = 0; i < n; i++) e += (i ? ", " : "") + N(i + 1);
         return "function main()\n var q = 3\n var r = outv(" + e + ")\n out(r)\n var t = outv\n outv(q, t(" + e + "))\n return q\nend\n";
       }},
      {"blank lines", 5000, [](long n) { return rep("\n", n) + "function main()\n" + rep("\n", n) + " var a = [1]\n" + rep("# c\n", n) + " return a[7]\nend\n"; }},
      {"constants", 500, [](long n) {
         std::string o;
         for (long i = 0; i < n; i++) o += "const c" + N(i) + " = " + (i ? "c" + N(i - 1) + " + 1" : "10") + "\n";
         o += "function main()\n";
         for (long i = 0; i < n; i++) o += " out(c" + N(i) + ")\n";
         return o + "end\n";
       }},
      {"constants reversed", 200, [](long n) {
         std::string o = "function main()\n";
         for (long i = 0; i < n; i++) o += " out(c" + N(i) + ")\n";
         o += "end\n";
         for (long i = 0; i < n; i++) o += "const c" + N(i) + " = " + (i + 1 < n ? "c" + N(i + 1) + " * 2" : "3") + "\n";
         return o;
       }},
      {"globals from calls", 300, [](long n) {
         std::string o;
         for (long i = 0; i < n; i++) o += "var g" + N(i) + " = f(" + (i ? "g" + N(i - 1) : "0") + ")\n";
         return o + "function f(x)\n return x + 2\nend\nfunction main()\n return " + (n ? "g" + N(n - 1) : "f(1)") + "\nend\n";
       }},
      {"shared arrays", 200, [](long n) {
         std::string o = "function main()\n var a = [1, 2]\n var b = new_array(" + N(n + 1) + ")\n";
         for (long i = 0; i <= n; i++) o += " b[" + N(i) + "] = " + (i % 2 ? "a" : "[a, " + N(i) + "]") + "\n";
         return o + " a[0] = b\n out(b)\n a = b[0]\n a[1] = 9\n out(b)\nend\n";
       }},
      {"local functions values", 300, [](long n) {
         std::string o = "function z(x)\n return x * 2\nend\nfunction main()\n var t = [z";
         for (long i = 0; i < n; i++) o += i % 2 ? ", abs" : ", z";
         o += "]\n var i\n for (i = 0 to t.length)\n  var q = t[i]\n  out(q(i))\n  out(t[i](0 - i))\n end\nend\n";
         return o;
       }},
      {"integer literal", 140000, [](long n) { long v = n - 70000; return "var g = " + std::string(v < 0 ? "-" : "") + N(labs(v)) + "\nfunction main()\n out(" + N(labs(v)) + ")\n out(g)\n return " + (v < 0 ? "-" : "") + N(labs(v)) + "\nend\n"; }},
      {"integer computed", 70000, [](long n) { return "function main()\n var a = " + N(n) + "\n out(a + a)\n out(a * a)\n out(a * 65537)\n out(a / 7)\n out((0 - a) / 7)\n out((0 - a) % 7)\n out(\"\" + a)\n out(bitand(a, 21845))\n return 0 - a\nend\n"; }},
  };
  return f;
}

// sizes explored for a family
inline std::vector<long> sizes(const Family &f, bool thorough) {
  std::vector<long> s;
  const long dense = thorough ? 520 : 70;
  for (long i = 0; i <= dense && i <= f.max; i++) s.push_back(i);
  static const long extra[] = {96, 99, 100, 101, 127, 128, 129, 130, 192, 199, 200, 201, 254, 255, 256, 257, 258, 259, 260, 300, 320, 384, 400, 500, 511, 512, 513, 514,
                               600, 700, 800, 900, 1000, 1022, 1023, 1024, 1025, 1026, 1100, 1280, 1500, 2000, 2047, 2048, 2049, 3000, 4000, 4093, 4094, 4095, 4096, 4097, 5000, 6000, 7000, 8000,
                               8190, 8191, 8192, 10000, 16383, 16384, 20000, 32766, 32767, 32768, 32769, 40000, 65533, 65534, 65535, 65536, 65537, 70000};
  for (long e : extra) if (e > dense && e <= f.max) s.push_back(e);
  if (std::string(f.name) == "integer literal") {
    s.clear();
    for (long i = 0; i <= 140000; i += thorough ? 1 : (i > 69400 && i < 70600) ? 1 : 97) s.push_back(i);
    for (long c : {255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537})
      for (int sg : {-1, 1}) s.push_back(70000 + sg * c);
  }
  if (std::string(f.name) == "integer computed") {
    s.clear();
    for (long i = 0; i <= 70000; i += thorough ? 7 : (i < 600) ? 1 : 101) s.push_back(i);
  }
  return s;
}

struct SizePlan {
  std::vector<std::pair<int, long>> items;
  SizePlan(bool thorough, long cap = 1l << 40, const std::vector<std::string> &skip = {}) {
    auto &f = families();
    for (size_t i = 0; i < f.size(); i++) {
      if (std::find(skip.begin(), skip.end(), f[i].name) != skip.end()) continue;
      for (long n : sizes(f[i], thorough)) if (n <= cap) items.push_back({int(i), n});
    }
  }
  bool gen(Chooser &ch, Case &c) const {
    auto &it = items[ch.choose(int(items.size()))];
    auto &f = families()[it.first];
    c.files = {f.make(it.second)};
    c.note = std::string(f.name) + " n=" + N(it.second);
    c.p = {it.first, it.second};
    return true;
  }
};

// ------------------------------------------------------------------ constructs of n parts, in every context, block and frame
inline const std::vector<long> &wide_counts(bool thorough) {
  static const std::vector<long> q = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257};
  static std::vector<long> t;
  if (t.empty()) for (long i = 0; i <= 140; i++) t.push_back(i);
  return thorough ? t : q;
}
inline bool wide_program(Chooser &ch, Case &c, bool thorough, long max) {
  auto arg = [](long i) { return i % 5 == 1 ? "out(" + N(i) + ")" : i % 5 == 3 ? std::string("k") : N(i + 10); };
  static const Strs kinds = {"direct", "variable", "element", "result", "host", "host variable", "array", "chain", "text"};
  static const Strs contexts = {"@", "x = @", "var y = @\n out(y)", "gl = @\n out(gl)", "if (@)\n  out(1)\n else\n  out(0)\n end", "while (x < 7)\n  out(@)\n  x += 2\n end", "for (x = 0 to @)\n  out(x)\n  gl = gl + 1\n  if (gl > 3)\n   return l\n  end\n end", "out([k, @, k])", "ar[1] = @\n out(ar)", "ar[len(outv(1)) - 1] = @", "x = f2(3, @) + k", "return @", "x = @ == @"};
  static const Strs blocks = {"@", "if (k)\n @\n end", "if (not k)\n var e = 1\n out(e)\n else\n @\n end", "var n = 0\n while (n < 2)\n n += 1\n @\n end", "if (not k)\n else\n if (not k)\n var e = 4\n else\n var m = 3\n @\n out(m)\n end\n end"};
  const int kind = ch.choose(int(kinds.size())), ctx = ch.choose(int(contexts.size())), blk = ch.choose(int(blocks.size()));
  const long n = ch.pick(wide_counts(thorough)), loc = ch.choose(3);
  if (n > max) return false;
  const long L = loc == 0 ? 0 : loc == 1 ? 3 : n;
  if (loc == 2 && n <= 3) return false;
  if (ctx == 0 && kind > 5) return false;
  std::string list, e;
  for (long i = 0; i < n; i++) list += (i ? ", " : "") + arg(i);
  switch (kind) {
  case 0: e = "w(" + list + ")"; break;
  case 1: e = "q(" + list + ")"; break;
  case 2: e = "h[out(1)](" + list + ")"; break;
  case 3: e = "pick(2)(" + list + ")"; break;
  case 4: e = "outv(" + list + ")"; break;
  case 5: e = "ov(" + list + ")"; break;
  case 6: e = "[" + list + (n ? ", 5]" : "5]"); break;
  case 7: e = "(k"; for (long i = 0; i < n; i++) e += (i % 2 ? " - " : " + ") + arg(i); e += ")"; break;
  case 8: e = "(\"t\""; for (long i = 0; i < n; i++) e += " + " + arg(i); e += ")"; break;
  }
  auto fill = [](std::string s, const std::string &v) { for (size_t q = 0; (q = s.find('@', q)) != std::string::npos; q += v.size()) s.replace(q, 1, v); return s; };
  std::string o = "var gl = 1\nfunction w(" + names("a", n) + ")\n out(" + (n ? "a0" : "0") + ")\n return " + (n ? "a" + N(n - 1) + " + a" + N(n / 2) : "7") + "\nend\nvar h = [0, w]\nfunction pick(p)\n out(\"p\")\n return h[p - 1]\nend\nfunction f2(a, b)\n return a\nend\n";
  o += "function t(k)\n var l = 1\n var x = 5\n var q = w\n var ov = outv\n var ar = [0, 0]\n";
  for (long i = 0; i < L; i++) o += " var v" + N(i) + " = k + " + N(i) + "\n";
  o += " " + fill(blocks[size_t(blk)], "var b1 = 3\n " + fill(contexts[size_t(ctx)], e) + "\n var b2 = k\n out(b1 + b2)") + "\n";
  if (L) o += " outv(" + names("v", L) + ")\n";
  o += " out(x)\n return " + (L ? "v" + N(L - 1) : std::string("l")) + "\nend\nfunction main()\n var z = 6\n out([1, t(5), 2])\n out(f2(t(4), z))\n return t(1)\nend\n";
  c.files = {o};
  c.note = kinds[size_t(kind)] + " of " + N(n);
  return true;
}

// ------------------------------------------------------------------ hand written features (every construct at least once)
inline const Strs &features() {
  static const Strs p = {
      // calls, order, recursion
      "function main()\n return out(1) + out(2) * out(3) - out(4)\nend\n",
      "function t(a, b, c)\n out(a)\n out(b)\n out(c)\n return b\nend\nfunction main()\n return t(out(1), t(out(2), out(3), out(4)), out(5))\nend\n",
      "function p()\n out(\"p\")\n return q\nend\nfunction q(x)\n return x + 1\nend\nfunction main()\n return p()(out(3))\nend\n",
      "function fib(n)\n if (n < 2)\n  return n\n end\n return fib(n - 1) + fib(n - 2)\nend\nfunction main()\n return fib(12)\nend\n",
      "function main()\n var a = [f, g]\n return a[1](a[0](3)) + a[0](1)\nend\nfunction f(x)\n return x * 2\nend\nfunction g(x)\n return x + 5\nend\n",
      "function f()\nend\nfunction main()\n out(f())\n var x = f()\n return x\nend\n",
      "function f()\n return\nend\nfunction main()\n out(f())\n return f()\nend\n",
      "function main()\nend\n",
      "function main()\n return none\nend\n",
      "function main()\n return \"text\"\nend\n",
      "function main()\n return 1.25\nend\n",
      "function main()\n return main\nend\n",
      "function main()\n return abs\nend\n",
      "function main()\n return [1, [2, \"x\"], none]\nend\n",
      "var g = \"ab\"\nvar i = 5\nfunction main()\n var s = g\n var j = i\n g = \"cd\"\n i = 6\n out(s)\n out(j)\n s = g\n g = \"e\" + \"f\"\n out(s)\n var t = [g, i]\n g = \"gh\"\n i = 7\n return t\nend\n",
      // globals and constants
      "var a = 1\nvar b = a + 1\nvar c = out(b) * 2\nvar d\nfunction main()\n out(a)\n out(b)\n out(c)\n return d\nend\n",
      "var a = f()\nvar b = 7\nfunction f()\n out(b)\n b = 9\n return 3\nend\nfunction main()\n out(a)\n return b\nend\n",
      "const a = b\nconst b = 4\nvar g = a * b\nfunction main()\n return g + a\nend\n",
      "const s = \"str\"\nconst x = 2.5\nconst n = none\nconst m = -3\nfunction main()\n out(s)\n out(x)\n out(n)\n out(m)\n return s + m\nend\n",
      "const z = 1\nfunction main()\n if (z)\n  out(1)\n end\n z2()\n return z\nend\nfunction z2()\n if (not z)\n  out(2)\n else\n  out(3)\n end\nend\n",
      "var g = [1, 2, 3]\nvar h = g\nfunction main()\n h[0] = 5\n return g\nend\n",
      "var g = none\nfunction main()\n out(g)\n g = 1\n return g\nend\n",
      "var g = -5\nvar h = not 3\nvar i = 7 / 2 * 2 % 5 - -1\nvar j = 1 < 2 and 3\nfunction main()\n out(g)\n out(h)\n out(i)\n return j\nend\n",
      // control flow
      "function main()\n var i = 0\n while (i < 5)\n  i += 1\n  if (i == 2)\n   out(\"two\")\n  else\n   if (i == 4)\n    return i\n   end\n  end\n  out(i)\n end\nend\n",
      "function main()\n var i\n var n = 3\n for (i = 0 to n)\n  out(i)\n  n = 5\n end\n return i\nend\n",
      "function main()\n var i\n for (i = 5 to 2)\n  out(i)\n end\n return i\nend\n",
      "function main()\n var i\n for (i = 0 to 10)\n  i = i + 3\n  out(i)\n end\n return i\nend\n",
      "function main()\n var i\n for (i = 0.5 to 3)\n  out(i)\n end\n return i\nend\n",
      "var i\nfunction main()\n for (i = 0 to 3)\n  f()\n end\n return i\nend\nfunction f()\n out(i)\nend\n",
      "function f(i)\n for (i = i to 6)\n  out(i)\n end\n return i\nend\nfunction main()\n return f(3)\nend\n",
      "function main()\n if (0)\n  out(1)\n else\n  out(2)\n end\n if (1)\n  out(3)\n else\n  out(4)\n end\n while (0)\n  out(5)\n end\n if (2 < 1)\n  out(6)\n end\nend\n",
      "function main()\n if (\"\")\n  out(1)\n end\n if (\"a\")\n  out(2)\n end\n if (0.0)\n  out(3)\n end\n if (0.5)\n  out(4)\n end\n if (none)\n  out(5)\n end\n if ([0])\n  out(6)\n end\n if (main)\n  out(7)\n end\n if (abs)\n  out(8)\n end\nend\n",
      "function main()\n out(1)\n return 2\n out(3)\n return 4\nend\n",
      "function main()\n if (out(0))\n  return 1\n else\n  return 2\n end\n return 3\nend\n",
      "function main()\n var x = 1\n if (x)\n  var y = 2\n  out(y)\n end\n if (x)\n  var y\n  out(y)\n end\n var z\n return z\nend\n",
      "function main()\n var i = 0\n while (i < 3)\n  var x\n  out(x)\n  x = i\n  i += 1\n end\nend\n",
      "function main()\n var x = 1\n if (x)\n  var y = 2\n  out(y)\n else\n  out(y)\n end\nend\n",
      "function main()\n var x = 0\n if (x)\n  out(1)\n else\n  var y = 2\n  out(y)\n end\n return y\nend\n",
      "var y = 9\nfunction main()\n var x = 0\n if (x)\n  var y = 2\n  out(y)\n else\n  out(y)\n  var y = 3\n  out(y)\n end\n return y\nend\n",
      "function main()\n var i = 0\n while (i < 2)\n  var y = 2\n  i += y\n end\n return y\nend\n",
      "function f(a, b)\n a = b\n b = 0\n return a\nend\nfunction main()\n var a = 1\n var b = 2\n out(f(a, b))\n out(a)\n return b\nend\n",
      // arrays
      "function main()\n var a = [1, 2, 3]\n var b = a\n b[0] = a\n out(b)\n a[1] = [a, b]\n out(a)\n return a.length\nend\n",
      "function main()\n var a = new_array(4)\n a[0] = \"x\"\n var s = a[0]\n a[0] = \"y\"\n out(s)\n out(a)\n var n = 5\n a[1] = n\n n = 6\n return a\nend\n",
      "function f(a)\n a[0] = 9\n a = [0]\n a[0] = 8\nend\nfunction main()\n var q = [1]\n f(q)\n return q\nend\n",
      "function mk()\n var a = [0]\n return a\nend\nfunction main()\n var p = mk()\n var q = mk()\n p[0] = 1\n out(p)\n return q\nend\n",
      "function main()\n var a = [[1, 2], [3, 4]]\n var r = a[1]\n r[0] = 7\n out(a[1][0])\n out(a[0][1] + a[1][1])\n return a\nend\n",
      "function main()\n var s = \"hello\"\n var i\n for (i = 0 to len(s))\n  out(s[i])\n end\n return s[4]\nend\n",
      "function main()\n var a = [out(1), out(2), out(3)]\n return a[out(0)] + a[out(2)]\nend\n",
      "var a = [1, 2]\nfunction i()\n out(\"i\")\n a = [5, 6]\n return 1\nend\nfunction v()\n out(\"v\")\n return 4\nend\nfunction main()\n a[i()] = v()\n return a\nend\n",
      // faults
      "function main()\n out(1)\n var a = [1]\n out(a[1])\n out(2)\nend\n",
      "function main()\n out(1)\n var a = [1]\n a[0 - 1] = 3\n out(2)\nend\n",
      "function main()\n var a = 5\n out(1)\n return a[0]\nend\n",
      "function main()\n var a = none\n out(1)\n return a[0]\nend\n",
      "function main()\n var a = [1]\n out(1)\n return a[\"0\"]\nend\n",
      "function main()\n var a = 3\n out(1)\n a[0] = 1\nend\n",
      "function main()\n var a = 0\n out(1)\n return 5 / a\nend\n",
      "function main()\n var a = 0\n out(1)\n return 5 % a\nend\n",
      "function f(x)\n return x\nend\nfunction main()\n var g = f\n out(1)\n return g()\nend\n",
      "function f(x)\n return x\nend\nfunction main()\n var g = f\n out(1)\n return g(1, 2)\nend\n",
      "function main()\n var g = 5\n out(1)\n return g(2)\nend\n",
      "function main()\n var g = \"f\"\n out(1)\n g(2)\nend\n",
      "function main()\n var g = [1]\n out(g.length)\n return g.size\nend\n",
      "function main()\n var g = 1\n out(1)\n return g.length\nend\n",
      "function main()\n var g = 1\n out(1)\n g.x = 2\nend\n",
      "function main()\n out(1)\n return abs(\"a\")\nend\n",
      "function main()\n out(1)\n return [1] + [2]\nend\n",
      "function main()\n out(1)\n return none < 1\nend\n",
      "function main()\n out(1)\n return -1.5\nend\n",
      "function f(n)\n if (n == 0)\n  var z = 0\n  return 1 / z\n end\n out(n)\n return f(n - 1)\nend\nfunction main()\n return f(4)\nend\n",
      "var g = 1 / z\nvar z\nfunction main()\n return 1\nend\n",
      "var a = out(1)\nvar b = a[0]\nvar c = out(3)\nfunction main()\n return 1\nend\n",
      // compile time zero division
      "function main()\n return 1 / 0\nend\n",
      "function main()\n out(1)\n if (0)\n  return 5 % 0\n end\nend\n",
      "var g = 3 / 0\nfunction main()\nend\n",
      "const c = 0\nfunction main()\n var a = 4\n out(a)\n return 4 / c\nend\n",
      "function main()\n return 1\n return 1 / 0\nend\n",
      // layout
      "# head\n\nfunction   main ( )   # c\n\n\tvar a=1 # one\n\n # two\n\tif(a==1)#x\n\n\t\treturn  a+1#r\n\n\tend\nEND\n# tail",
      "FUNCTION Main()\nEnd\nFunction main()\n Var a = NONE\n IF (NOT a)\n  RETURN 1 AND 2 OR 0\n ELSE\n  return Main()\n END\nEnd\n",
      "function main()\n var andy = 1\n var nota = 2\n var order = 3\n var iff = 4\n var to_ = 5\n var ender = 6\n return andy + nota + order + iff + to_ + ender\nend\n",
      // built-ins
      "function main()\n out(abs(0 - 3))\n out(min(1, 2))\n out(max(1, 2.5))\n out(bitand(12, 10))\n out(sin(1))\n out(cos(1))\n out(tan(1))\n out(len(\"abc\"))\n out(chr(65))\n out(round(2.5))\n out(ceil(1.2))\n out(floor(1.8))\n out(sqrt(2))\n return new_array(3)\nend\n",
      "function main()\n var t = abs\n out(t(0 - 4))\n out(t)\n t = [len, chr]\n out(t[0](\"four\"))\n return t[1](66)\nend\n",
  };
  return p;
}

// the repository's own scripts, when present
inline const std::vector<std::pair<std::string, std::string>> &repo_scripts() {
  static std::vector<std::pair<std::string, std::string>> v;
  static bool done = false;
  if (!done) {
    done = true;
    const char *root = getenv("VERIF_REPO");
    for (const char *sub : {"/tests/xpass", "/tests/xfail", "/tests/regression"}) {
      std::string dir = std::string(root ? root : "/repo") + sub;
      DIR *d = opendir(dir.c_str());
      if (!d) continue;
      while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() < 4) continue;
        size_t dot = n.rfind('.');
        if (dot == std::string::npos) continue;
        std::string x = n.substr(dot);
        if (x != ".ccml" && x != ".nano" && x != ".txt") continue;
        FILE *f = fopen((dir + "/" + n).c_str(), "rb");
        if (!f) continue;
        std::string t;
        int ch;
        while ((ch = fgetc(f)) != EOF) t += char(ch);
        fclose(f);
        if (!t.empty() && t.find('\0') == std::string::npos) v.push_back({n, t});
      }
      closedir(d);
    }
    std::sort(v.begin(), v.end());
  }
  return v;
}

}  // namespace corpus
