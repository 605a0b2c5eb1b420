// C02: statements, functions, scopes, sizes
#include "harness.h"
using namespace impl;

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  out.push_back(features_space(plain));
  out.push_back(scripts_space(plain));
  out.push_back(blocks_space(1, 2, 2, plain));
  out.push_back(blocks_space(2, 2, 2, plain));
  out.push_back(blocks_space(3, 0, 3, no_opt));
  out.push_back(blocks_space(4, -1, 4, no_opt));
  if (th) {
    out.push_back(blocks_space(3, 1, 3, plain));
    out.push_back(blocks_space(3, 2, 3, no_opt));
    out.push_back(blocks_space(4, 0, 4, no_opt));
    out.push_back(blocks_space(5, -1, 5, no_opt));
  }
  out.push_back(sizes_space(th, plain));
  out.push_back(wide_space(th, th ? 1000 : 129, plain));
  // calls nested far deeper than the model (itself recursive) can go: closed forms. Every frame checks its own values after the call
  {
    struct Deep { const char *name; long max; const char *src; std::function<std::string(long)> want; };
    static const std::vector<Deep> deep = {
        {"one argument", 16385, "var bad = 0\nfunction r(n)\n if (n == 0)\n  out(\"bottom\")\n  return 0\n end\n return r(n - 1) + 1\nend\nfunction main()\n return r(@)\nend\n", [](long n) { return N(n); }},
        {"no argument", 16385, "var bad = 0\nvar k = @\nvar c = 0\nfunction r()\n k = k - 1\n if (k > 0)\n  r()\n else\n  out(\"bottom\")\n end\n c = c + 1\n return c\nend\nfunction main()\n return r()\nend\n", [](long n) { return N(n); }},
        {"locals", 8193, "var bad = 0\nfunction r(n)\n var l = n * 3\n if (n == 0)\n  out(\"bottom\")\n  return 0\n end\n var s = r(n - 1)\n if (not (l == n * 3 and s == n - 1))\n  bad = bad + 1\n end\n return s + 1\nend\nfunction main()\n return r(@)\nend\n", [](long n) { return N(n); }},
        {"three arguments", 8193, "var bad = 0\nfunction r(n, a, b)\n if (n == 0)\n  out(\"bottom\")\n  return a - b\n end\n var k = a * 3 + b * 5 + n\n var s = r(n - 1, b, a + 1)\n if (not (k == a * 3 + b * 5 + n))\n  bad = bad + 1\n end\n return s\nend\nfunction main()\n return r(@, 0, 0)\nend\n", [](long n) { return n % 2 ? N(-1) : N(0); }},
        {"two functions", 16385, "var bad = 0\nfunction p(n)\n if (n == 0)\n  out(\"bottom\")\n  return 0\n end\n return q(n - 1) + 1\nend\nfunction q(n)\n if (n == 0)\n  out(\"bottom\")\n  return 0\n end\n var s = p(n - 1)\n return s + 1\nend\nfunction main()\n return p(@)\nend\n", [](long n) { return N(n); }},
        {"indirect", 8193, "var bad = 0\nfunction r(n, f)\n if (n == 0)\n  out(\"bottom\")\n  return 0\n end\n return f(n - 1, f) + 1\nend\nfunction main()\n return r(@, r)\nend\n", [](long n) { return N(n); }},
        {"argument place", 8193, "var bad = 0\nfunction i(x)\n return x + 1\nend\nfunction r(n)\n if (n == 0)\n  out(\"bottom\")\n  return 0\n end\n return i(r(n - 1))\nend\nfunction main()\n return r(@)\nend\n", [](long n) { return N(n); }},
        {"loop body", 8193, "var bad = 0\nvar c = 0\nfunction r(n)\n var k = 0\n for (k = 0 to 2)\n  if (k == 1 and n > 0)\n   r(n - 1)\n  end\n end\n if (n == 0)\n  out(\"bottom\")\n end\n c = c + k\nend\nfunction main()\n r(@)\n return c\nend\n", [](long n) { return N(2 * n + 2); }},
    };
    Space sp = make("deep calls", "recursion of 8 shapes to depth n, for every n to 8 and around every power of two up to 16384; each frame's values are intact after the call", [](Chooser &ch, Case &c) {
      int k = ch.choose(int(deep.size()));
      std::vector<long> ns;
      for (long n = 1; n <= 8; n++) ns.push_back(n);
      for (long q = 16; q <= deep[size_t(k)].max; q *= 2) for (long d = -1; d <= 1; d++) ns.push_back(q + d);
      ns.push_back(1000), ns.push_back(5000), ns.push_back(deep[size_t(k)].max - 3);
      long n = ch.pick(ns);
      std::string s = deep[size_t(k)].src;
      s.replace(s.find('@'), 1, N(n));
      c.files = {s};
      c.p = {k, n};
      c.note = std::string(deep[size_t(k)].name) + ", depth " + N(n);
      return true;
    }, [](const Case &c, Result &r) {
      const Deep &d = deep[size_t(c.p[0])];
      for (int opt = 0; opt < 2 && !r.bad; opt++) {
        auto cc = compile(c.files, opt != 0);
        Outcome o;
        compile_outcome(*cc, o);
        if (o.compiled) run_program(cc->prog, o);
        r.runs++;
        r.impl_steps += o.steps;
        diff(r, "result", d.want(c.p[1]), o.result);
        if (o.trace.find("bottom") == std::string::npos || o.trace.find("bottom") != o.trace.rfind("bottom")) r.fail("the innermost call did not run exactly once: " + o.trace);
        if (o.globals.find("bad=0;") == std::string::npos) r.fail("a caller's values changed during the call: " + o.globals);
        r.outcome = o.text();
      }
    });
    sp.hang_s = 60;
    out.push_back(sp);
  }
  // what a function does with its arguments, locals and callers
  out.push_back(make("calls", "all call graphs: 1-3 parameters x argument kinds x direct/indirect x position of result x recursion", [](Chooser &ch, Case &c) {
    static const Strs arg = {"1", "a", "out(2)", "f1(3)", "h", "b + a", "none", "t"};
    int n = 1 + ch.choose(3);
    std::string ps, as, body;
    for (int i = 0; i < n; i++) {
      ps += (i ? ", p" : "p") + N(i);
      as += (i ? ", " : "") + ch.pick(arg);
    }
    static const Strs use = {" return p0\n", " return p@\n", " p0 = 9\n out(p@)\n return p0\n", " var l = p@\n p@ = l + 1\n return l\n", " out(p0)\n", " var l\n if (p0)\n  var m = p@\n  out(m)\n end\n var q = 4\n return q\n", " return f1(p@)\n", " g = p@\n return f1(f1(p0))\n"};
    body = ch.pick(use);
    for (size_t q; (q = body.find('@')) != std::string::npos;) body.replace(q, 1, N(n - 1));
    static const Strs how = {"var r = t(@)\n out(r)", "t(@)", "out(t(@))", "return t(@)", "var q = t\n out(q(@))", "b = t(@) + a", "h[0] = t(@)\n out(h)", "if (t(@))\n out(7)\n end", "var l = [t]\n l[0] = l[0](@)\n out(l)", "a = [t(@), b]\n out(a)"};
    std::string x = ch.pick(how);
    x.replace(x.find('@'), 1, as);
    c.files = {"var g = 5\nvar h = [1, 2]\nfunction f1(x)\n var z = 3\n out(z)\n return x\nend\nfunction t(" + ps + ")\n" + body + "end\nfunction main()\n var a = 10\n var b = 20\n " + x + "\n out(a)\n out(b)\n out(g)\n return a\nend\n"};
    return true;
  }, plain));
  // scope shapes: which variables share storage, which are reset, shadowing across blocks and functions
  out.push_back(make("scopes", "all sequences of 4 declarations/uses/blocks over reused names", [th](Chooser &ch, Case &c) {
    // a small grammar of blocks with reused names x, y
    std::string o;
    int depth = 0, budget = th ? 6 : 5;
    std::vector<int> declared = {0};
    std::vector<std::vector<std::string>> sc = {{}};
    auto visible = [&](const std::string &n) {
      for (auto &s : sc) for (auto &x : s) if (x == n) return true;
      return false;
    };
    int val = 1;
    for (int i = 0; i < budget; i++) {
      int k = ch.choose(6);
      std::string in(size_t(depth + 1), ' ');
      if (k == 0 || k == 1) {
        std::string n = k ? "y" : "x";
        if (visible(n)) { o += in + n + " += 1\n" + in + "out(" + n + ")\n"; continue; }
        sc.back().push_back(n);
        o += in + "var " + n + (ch.flip() ? " = " + N(val++) : "") + "\n";
      } else if (k == 2) {
        for (const char *n : {"x", "y"}) if (visible(n)) o += in + "out(" + n + ")\n" + in + n + " = " + N(10 * val++) + "\n";
      } else if (k == 3) {
        static const Strs hd = {"if (a)", "if (not a)", "while (a)", "for (k = 0 to 2)"};
        int h = ch.choose(4);
        o += in + hd[h] + "\n";
        if (h == 2) o += in + " a -= 1\n";
        depth++;
        sc.push_back({});
        declared.push_back(h < 2 ? 1 : 0);
      } else if (k == 4) {
        if (!depth || declared.back() != 1) return false;
        declared.back() = 2;
        sc.back().clear();
        o += std::string(size_t(depth), ' ') + "else\n";
      } else {
        if (!depth) return false;
        depth--;
        sc.pop_back();
        declared.pop_back();
        o += std::string(size_t(depth + 1), ' ') + "end\n";
      }
    }
    while (depth) { o += std::string(size_t(depth), ' ') + "end\n"; depth--; sc.pop_back(); }
    for (const char *n : {"x", "y"}) {
      bool v = false;
      for (auto &x : sc[0]) if (x == n) v = true;
      if (!v) o += std::string(" var ") + n + "\n";
      o += std::string(" out(") + n + ")\n";
    }
    c.files = {"function t(a)\n var k = 0\n" + o + " return k\nend\nfunction main()\n out(t(1))\n out(t(0))\n out(t(2))\nend\n"};
    return true;
  }, no_opt));
  // for loops: start, end, step interactions
  out.push_back(make("for", "all start/end values x body changes to the variable and the end", [](Chooser &ch, Case &c) {
    static const Strs v = {"0", "1", "3", "-1", "n", "n - 1", "out(2)", "0.5", "2.5", "n + 0.5", "\"a\"", "none", "[1]", "2147483646", "2147483647"};
    static const Strs b = {"", "  i += 1\n", "  n = 1\n", "  n += 1\n  if (n > 6)\n   return n\n  end\n", "  if (i == 1)\n   return 8\n  end\n", "  var j\n  for (j = 0 to 2)\n   out(j)\n  end\n", "  i = 7\n", "  g(i)\n"};
    std::string s = ch.pick(v), e = ch.pick(v), body = ch.pick(b);
    int var = ch.choose(3);
    std::string decl = var == 0 ? " var i\n" : "";
    c.files = {std::string(var == 1 ? "var i\n" : "") + "var cnt = 0\nfunction g(x)\n out(x * 10)\nend\nfunction t(n" + (var == 2 ? ", i" : "") + ")\n" + decl + " for (i = " + s + " to " + e + ")\n  cnt += 1\n  if (cnt > 9)\n   return cnt\n  end\n  out(i)\n" + body + " end\n out(i)\n return n\nend\nfunction main()\n return t(3" + (var == 2 ? ", 9" : "") + ")\nend\n"};
    return true;
  }, plain));
  // every kind of assignment to every kind of place
  out.push_back(make("assignments", "all places (local, parameter, global, elements, in a block) x all assignment operators x all old values x all new values, in a function called twice", [](Chooser &ch, Case &c) {
    static const Strs place = {"v", "p", "g", "w[1]", "h[1]", "p[1]"};
    static const Strs op = {" = ", " += ", " -= ", " *= ", " /= "};
    static const Strs old = {"7", "2.5", "\"ab\"", "none", "[1, 2]", "f", "abs", "0", "-2147483647 - 1"};
    static const Strs val = {"3", "0", "0.5", "\"x\"", "none", "[5]", "f", "out(4)", "@", "@ + @", "0 - 1", "f(@)", "-3"};
    static const Strs in = {"#", "if (1)\n #\n end", "var k\n for (k = 0 to 2)\n #\n end", "if (k0)\n #\n else\n #\n end"};
    int pl = ch.choose(int(place.size()));
    std::string o = ch.pick(op), a = ch.pick(old), v = ch.pick(val), st = ch.pick(in);
    // compound assignment exists for plain names only
    if (pl > 2 && o != " = ") return false;
    auto all = [](std::string s, char k, const std::string &by) {
      std::string r;
      for (char x : s) if (x == k) r += by; else r += x;
      return r;
    };
    st = all(st, '#', place[pl] + o + all(v, '@', place[pl]));
    std::string arg = pl == 5 ? "[" + a + ", " + a + "]" : a;
    c.files = {"var before = 1\nvar g\nvar h = [1, 2, 3]\nvar after = 2\nfunction f(x)\n out(x)\n return x\nend\nfunction t(k0, p, k1)\n var u0 = 100\n var v = " + a +
               "\n var w = [1, " + a + ", 3]\n var u1 = 200\n g = " + a + "\n h[1] = " + a + "\n " + st +
               "\n out(u0)\n out(v)\n out(w)\n out(u1)\n out(k0)\n out(p)\n out(k1)\n out(h)\n return g\nend\nfunction main()\n out(t(0, " + arg + ", 50))\n return t(1, " + arg + ", 60)\nend\n"};
    return true;
  }, plain));
  // an effect of one part of a statement on what another part of it reads
  out.push_back(make("effects in statements", "every statement form with up to three operand places x every operand read from or changing a global, a global array or its element", [](Chooser &ch, Case &c) {
    static const Strs x = {"g", "e()", "h[0]", "r()", "len(h)", "m()", "h[e() - e()]"};
    static const Strs st = {
        "out(A + B * C)", "outv(A, B, C)", "return A - B * C", "return [A, B, C]", "g = A + B - C", "g += A - B - C", "h[A - B] = C", "h[A] = B + C", "h[0] = [A, B, C]",
        "if (A < B)\n  out(C)\n end", "while (A < B)\n  out(C)\n  if (out(n) > 4)\n   return n\n  end\n  n += 1\n end", "for (i = A to B)\n  out(C)\n  if (n > 4)\n   return n\n  end\n  n += 1\n end",
        "for (g = A to B)\n  out(C)\n  if (n > 4)\n   return n\n  end\n  n += 1\n end", "t(A, B, C)", "out(t(A, B, C))", "return q(A)(B, C)", "var z = t(A, t(B, C, 9), 8)\n out(z)", "out(-A < B and not C)", "out(h[A] + h[B])", "g = q(A)(B, q(C)(4, 5))", "return A == B or C"};
    std::string s;
    for (char k : ch.pick(st)) {
      if (k >= 'A' && k <= 'C') s += ch.pick(x);
      else s += k;
    }
    c.files = {"var g = 1\nvar h = [1, 2]\nfunction e()\n out(\"e\")\n g += 1\n return g\nend\nfunction r()\n out(\"r\")\n h = [h[1], 4]\n return h[0]\nend\nfunction m()\n out(\"m\")\n h[0] = 0\n return 1\nend\n"
               "function t(a, b, c)\n out(a)\n out(b)\n out(c)\n return a + b\nend\nfunction s(a, b)\n out(a)\n return b\nend\nfunction q(a)\n out(a)\n g = 5\n return s\nend\n"
               "function main()\n var i\n var n = 0\n " + s + "\n out(i)\n out(h)\n return g\nend\n"};
    return true;
  }, plain));
  // globals: order of initialisation, dependencies, functions called from initialisers
  out.push_back(make("globals", "all sequences of up to 4 globals x initialiser kinds, functions before/after", [th](Chooser &ch, Case &c) {
    static const Strs init = {"", " = 1", " = g0", " = g1", " = out(5)", " = f()", " = c + 1", " = [g0, 2]", " = \"s\" + 1", " = -2", " = g0 + 1", " = \"lit\"", " = 2.5", " = none", " = f", " = g2", " = [1, 2]", " = c"};
    int n = th ? 4 : 3;
    std::string o;
    for (int i = 0; i < n; i++) o += "var g" + N(i) + ch.pick(init) + "\n";
    std::string f = "function f()\n out(g0)\n out(g1)\n out(g2)\n g1 = 33\n return g1\nend\n";
    int pos = ch.choose(2);
    c.files = {(pos ? f : "") + "const c = 3\n" + o + (pos ? "" : f) + "function main()\n out(g0)\n out(g1)\n out(g2)\n g0 = 1\n f()\n return g1\nend\n"};
    return true;
  }, plain));
  out.push_back(host_names_space());
  out.push_back(similar_names_space(th ? 5000 : 300));
}
