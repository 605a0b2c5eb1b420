// C09: static rules are enforced, on the right line, and nothing valid is refused
#include "harness.h"
using corpus::N;

static const Strs &tops() {
  static const Strs t = {
      "", "var a", "var a = 1", "var a = [1, 2]", "var a = b", "var a = b + 1", "var a = a", "var a = f(1)", "var a = f", "var a = abs", "var a = f(1, 2)", "var a = 1 / 0", "var a = c + 1", "var a = nowhere",
      "const a = 1", "const a = \"s\"", "const a = none", "const a = 2.5", "const a = b", "const a = b + 1", "const a = c", "const a = c * 2", "const a = -c", "const a = not c", "const a = 1 / 0", "const a = 5 % (c - c)", "const a = a", "const a = a + 1", "const a", "const a = [1]", "const a = f(1)", "const a = f", "const a = g", "const a = 1.5 + 2", "const a = -1.5", "const a = \"x\" + 1", "const a = nowhere", "const a = 7 / 2 - 3",
      "function a()\nend", "function a(b)\n return b\nend", "function a(a)\n return a\nend", "function a(b, b)\nend", "function a(b)\n var b\nend", "function a(g)\n g = 2\n return g\nend", "function a(f)\n return f\nend", "function a(c)\n c = 3\n return c\nend", "function f(x)\nend", "var f", "const f = 1", "function abs(x)\n return x\nend", "var abs = 3", "var g", "const g = 1", "function g()\nend", "const c = 5", "function main(x)\nend"};
  return t;
}
static const Strs &uses() {
  static const Strs u = {
      "out(a)", "out(a + 1)", "a = 1", "a += 1", "a[0] = 1", "a[a] = a", "a.x = 1", "out(a[0])", "out(a.length)", "out(a())", "out(a(1))", "out(a(1, 2))", "a()", "a(1)", "a(1, 2)", "for (a = 0 to 2)\n  out(a)\n end", "for (a = a to a)\n end", "var a", "var a = 5\n out(a)", "var a = a\n out(a)", "if (1)\n  var a = 3\n end\n out(a)", "while (a)\n  a = 0\n end", "return a", "return a(a)", "f = 1", "f[0] = 1", "f.x = 1", "out(f)", "out(f[0])", "for (f = 0 to 1)\n end", "c = 1", "c[0] = 1", "c += 2", "c.y = 1", "out(c.y)", "out(c)", "out(c[0])", "for (c = 0 to 1)\n end", "var c = 1\n c = 2\n out(c)", "g = 1", "nope = 1", "nope()", "out(nope)", "nope[0] = 1", "out(nope[1])", "nope.x = 1", "out(nope.x)", "for (nope = 0 to 1)\n end", "abs = 1", "out(abs(1, 2))", "out(1 / 0)", "out(c / 0)", "var f = 3\n out(f)", "var main = 1\n out(main)", "out = 5", "outv(1, 2, 3)", "abs.x = 1", "out(f.x)", "main = 2", "out(abs.x)", "out(outv.length)", "abs[0] = 1", "out(abs[0])", "for (abs = 0 to 1)\n end", "abs += 1", "var abs = 3\n out(abs)", "f += 1"};
  return u;
}

static void spaces_pairs(std::vector<Space> &out) {
  out.push_back(make("declaration x use", "every top level declaration x every use, declaration before and after the use", [](Chooser &ch, Case &c) {
    std::string t = ch.pick(tops()), u = ch.pick(uses());
    bool after = ch.flip();
    std::string base = "const c = 3\nvar g = 4\nvar b = 2\nfunction f(x)\n return x\nend\n";
    std::string m = "function use(p)\n out(p)\n " + u + "\n out(p)\nend\nfunction main()\n return use(7)\nend\n";
    c.files = {after ? base + m + t + "\n" : base + t + "\n" + m};
    return true;
  }, plain));
  out.push_back(make("declaration x declaration x use", "every ordered pair of top level declarations x every use", [](Chooser &ch, Case &c) {
    std::string t = ch.pick(tops()), t2 = ch.pick(tops()), u = ch.pick(uses());
    std::string base = "function f(x)\n return x\nend\nvar b = 2\n";
    std::string m = "function main()\n " + u + "\nend\n";
    c.files = {base + t + "\n" + t2 + "\n" + m};
    return true;
  }, plain));
  out.push_back(make("uses of locals", "every pair of uses in a function whose parameter or local is called a", [](Chooser &ch, Case &c) {
    std::string u = ch.pick(uses()), v = ch.pick(uses());
    int how = ch.choose(3);
    std::string base = "const c = 3\nvar g = 4\nfunction f(x)\n return x\nend\n";
    if (how == 0) c.files = {base + "function use(a)\n " + u + "\n " + v + "\nend\nfunction main()\n return use(7)\nend\n"};
    if (how == 1) c.files = {base + "function main()\n var a = [1, 2]\n " + u + "\n " + v + "\nend\n"};
    if (how == 2) c.files = {base + "var a = f\nfunction main()\n " + u + "\n " + v + "\nend\n"};
    return true;
  }, plain));
}

// every block structure with declarations and uses of one or two names
static Space scopes(int len, int two) {
  return make("scopes " + N(len) + (two ? " two names" : ""), "every body of " + N(len) + " items over {declare, use, assign" + (two ? ", the same for a second name" : "") + ", if, else, while, for, end}; the name is a local, a parameter or a global as well",
              [=](Chooser &ch, Case &c) {
                std::string b;
                std::vector<int> open;  // 1 if, 2 else, 3 loop
                int loops = 0;
                for (int i = 0; i < len; i++) {
                  const int left = len - i;
                  Strs opts = {"d", "u", "s"};
                  if (two) { opts.push_back("D"); opts.push_back("U"); }
                  if (left > int(open.size()) + 1) { opts.push_back("i"); opts.push_back("w"); opts.push_back("f"); }
                  if (!open.empty()) {
                    opts.push_back("e");
                    if (open.back() == 1 && left > int(open.size())) opts.push_back("x");
                  }
                  if (left == int(open.size())) opts = {"e"};
                  std::string k = ch.pick(opts);
                  std::string in(open.size() + 1, ' ');
                  switch (k[0]) {
                  case 'd': b += in + "var n = " + N(i + 10) + "\n"; break;
                  case 'u': b += in + "out(n)\n"; break;
                  case 's': b += in + "n = " + N(i + 20) + "\n"; break;
                  case 'D': b += in + "var m = " + N(i + 30) + "\n"; break;
                  case 'U': b += in + "out(m)\n"; break;
                  case 'i': b += in + "if (z)\n"; open.push_back(1); break;
                  case 'x': b += in.substr(1) + "else\n"; open.back() = 2; break;
                  case 'w': b += in + "while (w" + N(loops) + " > 0)\n" + in + " w" + N(loops) + " -= 1\n"; open.push_back(3); loops++; break;
                  case 'f': b += in + "for (z = 0 to 2)\n"; open.push_back(3); break;
                  case 'e': open.pop_back(); b += in.substr(1) + "end\n"; break;
                  }
                }
                if (!open.empty()) return false;
                std::string w;
                for (int i = 0; i < loops; i++) w += " var w" + N(i) + " = 2\n";
                int how = ch.choose(3);
                std::string top = how == 2 ? "var n = 5\n" : "", arg = how == 1 ? "n" : "q";
                c.files = {top + "function t(" + arg + ", z)\n" + w + b + "end\nfunction main()\n t(1, 1)\n t(2, 0)\nend\n"};
                return true;
              },
              plain);
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  spaces_pairs(out);
  for (int n = 1; n <= (th ? 9 : 7); n++) out.push_back(scopes(n, 0));
  for (int n = 2; n <= (th ? 7 : 6); n++) out.push_back(scopes(n, 1));
  out.push_back(make("deep scopes", "blocks of each kind nested to depth 1.." + N(th ? 40 : 16) + ": a name declared at level i, then declared, used or assigned at level j, on the way in, on the way out, or in the branch beside it, for all i, j", [th](Chooser &ch, Case &c) {
    int d = 1 + ch.choose(th ? 40 : 16), kind = ch.choose(5), i = ch.choose(d + 1), j = ch.choose(d + 1), what = ch.choose(3), where = ch.choose(3);
    if (where == 2 && kind != 1) return false;
    if (where == 0 && j < i) return false;
    std::string b;
    auto at = [&](int l, bool out_way) {
      std::string in(size_t(l + 1), ' ');
      if (!out_way && l == i) b += in + "var n = 5\n";
      if (l == j && (where == 0 ? !out_way : where == 1 ? out_way : false)) b += in + (what == 0 ? "var n = 6\n" : what == 1 ? "out(n)\n" : "n = 7\n");
    };
    for (int l = 0; l <= d; l++) {
      at(l, false);
      if (l == d) break;
      int k = kind == 4 ? l % 4 : kind;
      std::string in(size_t(l + 1), ' ');
      b += in + (k == 0 || k == 1 ? "if (z)\n" : k == 2 ? "while (w" + N(l) + " < 1)\n" + in + " w" + N(l) + " += 1\n" : "for (x" + N(l) + " = 0 to 1)\n");
    }
    for (int l = d; l >= 0; l--) {
      at(l, true);
      if (!l) break;
      std::string in(size_t(l), ' ');
      if (kind == 1) {
        b += in + "else\n" + in + " out(" + N(l) + ")\n";
        if (where == 2 && l == j) b += in + (what == 0 ? " var n = 6\n" : what == 1 ? " out(n)\n" : " n = 7\n");
      }
      b += in + "end\n";
    }
    std::string w;
    for (int l = 0; l < d; l++) w += " var w" + N(l) + " = 0\n var x" + N(l) + "\n";
    c.files = {"function t(z)\n" + w + b + "end\nfunction main()\n t(1)\n t(0)\nend\n"};
    return true;
  }, plain));
  out.push_back(make("parameters", "functions of 0..9 parameters in which one name is declared twice: as two parameters, or as a parameter and a local at any of 5 places, or not at all; every position", [](Chooser &ch, Case &c) {
    int n = ch.choose(10), i = ch.choose(n + 1), how = ch.choose(7);
    // parameter i (or the function's own name, or a fresh one when i == n) is declared again
    Strs p;
    for (int k = 0; k < n; k++) p.push_back("p" + N(k));
    std::string name = i < n ? p[size_t(i)] : "q", list, decl = "var " + name + " = 1";
    if (how == 6) {
      int j = ch.choose(n + 1);
      p.insert(p.begin() + j, name);
    }
    for (size_t k = 0; k < p.size(); k++) list += (k ? ", " : "") + p[k];
    std::string body = "\n out(1)\n";
    if (how == 0) body = " " + decl + "\n" + body;
    if (how == 1) body += " " + decl + "\n";
    if (how == 2) body += " if (1)\n  " + decl + "\n end\n";
    if (how == 3) body += " while (0)\n\n  if (0)\n  else\n   " + decl + "\n  end\n end\n";
    if (how == 4) body += " var z\n for (z = 0 to 2)\n  " + decl + "\n end\n";
    if (how == 5) body += " return 2\n " + decl + "\n";
    c.files = {"function before(p0, q)\n var z = p0\n return z\nend\nfunction f(" + list + ")\n" + body + "end\nfunction after(p0, p1, p2, p3, p4, p5, p6, p7, p8, q)\n return q\nend\nfunction main()\nend\n"};
    return true;
  }, plain));
  out.push_back(make("argument counts", "functions of 0..5 parameters and every system call x 0..6 arguments x 7 call positions, direct and through a variable", [](Chooser &ch, Case &c) {
    static const Strs fn = {"f0", "f1", "f2", "f3", "f4", "f5", "abs", "min", "max", "bitand", "sin", "len", "chr", "new_array", "wait", "out", "outv"};
    std::string f = ch.pick(fn), a;
    int n = ch.choose(7);
    for (int i = 0; i < n; i++) a += (i ? ", " : "") + N(i + 1);
    std::string top;
    for (int i = 0; i < 6; i++) top += "function f" + N(i) + "(" + names("p", i) + ")\n return " + N(i) + "\nend\n";
    bool ind = ch.flip();
    int pos = ch.choose(7);
    std::string call = (ind ? "v" : f) + "(" + a + ")", body = ind ? " var v = " + f + "\n" : "";
    switch (pos) {
    case 0: body += " " + call + "\n"; break;
    case 1: body += " out(" + call + ")\n"; break;
    case 2: body += " return 1 + " + call + "\n"; break;
    case 3: body += " out(0)\n if (0)\n  " + call + "\n end\n out(1)\n"; break;
    case 4: body += " var r = [1, " + call + "]\n out(r)\n"; break;
    case 5: if (ind) return false; top += "var g = " + call + "\n"; break;
    case 6: body += " for (q = " + call + " to 3)\n  out(q)\n  q = 9\n end\n"; top += "var q\n"; break;
    }
    c.files = {top + "function main()\n" + body + "end\n"};
    return true;
  }, plain));
  // a violation anywhere inside an expression: every context in every context in every statement
  out.push_back(make("nested violations", "each of 11 violations (and 3 correct forms) inside every pair of 15 expression contexts inside every one of 18 statement places", [](Chooser &ch, Case &c) {
    static const Strs bad = {"f(1, 2)", "f()", "nope", "nope(1)", "nope[0]", "nope.x", "f.x", "abs.x", "abs(1, 2)", "K.x", "min(1)", "f(1)", "v(1)", "K"};
    static const Strs ctx = {"@", "-@", "not @", "(@)", "@ + 1", "1 + @", "2 * @ - 1", "v and @", "f(@)", "outv(1, @, 2)", "v(@)", "[@]", "[1, @, 2]", "h[@]", "[1, 2][@]"};
    static const Strs place = {"out(@)", "@", "var r = @", "v = @", "v += @", "h[0] = @", "h[@] = 1", "h.m = @", "if (@)\n  out(1)\n end", "if (v)\n  out(@)\n else\n  out(2)\n end", "if (v)\n  out(3)\n else\n  out(@)\n end", "while (@)\n  return 1\n end", "while (v)\n  out(@)\n  return 1\n end", "for (q = @ to 3)\n  q = 9\n end", "for (q = 0 to @)\n  q = 9\n end", "for (q = 0 to 2)\n  out(@)\n  q = 9\n end", "return @", "TOP"};
    std::string b = ch.pick(bad), x = ch.pick(ctx), y = ch.pick(ctx), p = ch.pick(place);
    auto sub = [](std::string s, const std::string &e) { s.replace(s.find('@'), 1, e); return s; };
    std::string e = sub(x, sub(y, b));
    if (p == "@" && !(x[0] != '[' && x[0] != '-' && x[0] != '(' && x.back() == ')')) return false;  // not a statement
    std::string top = "const K = 3\nvar v = f\nvar h = [1, 2]\nvar q\nfunction f(x)\n return 0\nend\n";
    c.files = {top + (p == "TOP" ? "\nvar gl = " + e + "\nfunction main()\n return gl\nend\n" : "function main()\n\n " + sub(p, e) + "\n out(h)\nend\n")};
    return true;
  }, plain));
  out.push_back(make("long constant chains", "chains of n constants, each naming the next or the previous one, plain or in an expression, used before or after, complete, broken (undeclared, variable) or closed to a ring, n = 1..40 and around powers of two to 257", [](Chooser &ch, Case &c) {
    std::vector<int> ns;
    for (int i = 1; i <= 40; i++) ns.push_back(i);
    for (int k = 64; k <= 256; k *= 2) for (int d = -1; d <= 1; d++) ns.push_back(k + d);
    int n = ch.pick(ns), form = ch.choose(4), last = ch.choose(5);
    bool back = ch.flip(), after = ch.flip();
    static const Strs f = {"@", "@ + 1", "-@", "2 * (@ - 1)"}, end = {"5", "\"s\"", "nope", "v", "@"};
    std::string o;
    for (int i = 0; i < n; i++) {
      int me = back ? n - 1 - i : i;
      std::string e = me == n - 1 ? end[size_t(last)] : f[size_t(form)], to = me == n - 1 ? "c0" : "c" + N(me + 1);
      if (e.find('@') != std::string::npos) e.replace(e.find('@'), 1, to);
      o += "const c" + N(me) + " = " + e + "\n";
    }
    std::string m = "var v = 1\nfunction main()\n out(c0)\n out(c" + N(n / 2) + ")\n return c" + N(n - 1) + "\nend\n";
    c.files = {after ? m + o : o + m};
    return true;
  }, plain));
  out.push_back(make("constant chains", "every assignment of initialisers from 9 forms to 4 constants in every textual order, all used", [](Chooser &ch, Case &c) {
    std::vector<int> left = {0, 1, 2, 3};
    std::string o;
    for (int i = 0; i < 4; i++) {
      int k = ch.choose(int(left.size()));
      int me = left[size_t(k)];
      left.erase(left.begin() + k);
      // only the first two textual constants may take every form
      static const Strs forms = {"1", "k0", "k1 + 1", "k2 * 2", "-k3", "k1 / k0", "\"s\"", "0", "none"};
      std::string f = i < 3 ? ch.pick(forms) : std::string(me % 2 ? "4" : "k1 - 1");
      o += "const k" + N(me) + " = " + f + "\n";
    }
    c.files = {o + "function main()\n out(k0)\n out(k1)\n out(k2)\n out(k3)\n return k3\nend\n"};
    return true;
  }, plain));
  out.push_back(make("constant division", "every expression of <= 3 operators with one division or modulo by an expression that is zero, in every placement", [](Chooser &ch, Case &c) {
    static const Strs zero = {"0", "(1 - 1)", "z", "-0", "(not 5)", "(z * 3)", "1", "(2 - 1)", "v", "(v - v)", "0.0", "\"\"", "none", "(0 and 1)"};
    static const Strs wrap = {"1 @ Z", "2 + 1 @ Z", "1 @ Z + 2", "f(1 @ Z)", "[1, 1 @ Z]", "[1][1 @ Z]", "not (1 @ Z)", "-(1 @ Z)", "0 and 1 @ Z", "1 or 1 @ Z", "(3 @ Z) @ Z", "v @ Z", "1.5 @ Z", "\"s\" @ Z"};
    static const Strs place = {"out(E)", "var r = E\n out(r)", "if (E)\n  out(1)\n end", "while (E)\n  return 1\n end", "for (r0 = E to 3)\n  out(r0)\n end", "for (r0 = 0 to E)\n  out(r0)\n end", "return E", "out(0)\n if (0)\n  out(E)\n end", "return 1\n out(E)", "r0 = E", "h[E] = 1", "h[0] = E", "r0 += E", "TOP"};
    std::string z = ch.pick(zero), w = ch.pick(wrap), p = ch.pick(place), op = ch.flip() ? "%" : "/";
    auto sub = [](std::string s, const std::string &a, const std::string &b) {
      for (size_t q = 0; (q = s.find(a, q)) != std::string::npos; q += b.size()) s.replace(q, a.size(), b);
      return s;
    };
    std::string e = sub(sub(w, "@", op), "Z", z);
    std::string top = "const z = 0\nvar h = [1, 2]\nfunction f(x)\n return x\nend\nvar v = 0\n";
    if (p == "TOP") c.files = {top + "var gl = " + e + "\nfunction main()\n return gl\nend\n"};
    else c.files = {top + "function main()\n var r0 = 0\n " + sub(p, "E", e) + "\nend\n"};
    return true;
  }, plain));
  out.push_back(make("several files", "every pair of declarations of the same or different names in two files x a use in either", [](Chooser &ch, Case &c) {
    std::string t = ch.pick(tops());
    static const Strs t2 = {"", "var a = 8", "function a(q)\n return q\nend", "const a = 4", "function f(x)\nend", "const c = 1", "var b = a"};
    std::string s = ch.pick(t2);
    static const Strs us = {"out(a)", "a = 3", "a(1)", "out(c)", "a[0] = 1", "var a = 1", "return b"};
    std::string u = ch.pick(us);
    bool first = ch.flip();
    std::string m = "\nfunction main()\n " + u + "\nend\n", base = "function f(x)\n return x\nend\n";
    c.files = {base + t + (first ? m : "\n"), "# second\n" + s + (first ? "\n" : m)};
    return true;
  }, plain));
  out.push_back(make("far lines", "every kind of rule violation after n blank lines, n around every power of two up to 2^17", [](Chooser &ch, Case &c) {
    static const Strs st = {"nope = 1", "out(nope)", "k = 1", "out(f(1, 2))", "var p", "f = 1", "out(1 / 0)", "out(nope[0])", "out(nope.x)", "for (nope = 0 to 1)\n end", "x y", "out(", "var 1", "$"};
    static const std::vector<long> n = {0, 1, 2, 3, 7, 15, 31, 63, 126, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 131072};
    std::string s = ch.pick(st);
    long k = ch.pick(n);
    c.files = {"const k = 1\nfunction f(x)\nend\nfunction main(p)\n" + rep("\n", k) + " " + s + "\nend\n"};
    return true;
  }, plain));
  out.push_back(similar_names_space(th ? 5000 : 300));
  out.push_back(features_space(plain));
  out.push_back(scripts_space(plain));
}
