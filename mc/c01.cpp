// C01: expression values
#include "harness.h"

static const char *PRE = "function f(x)\n return x\nend\nfunction k()\n return 5\nend\nvar ga = [7, 8, 9]\nvar gs = \"text\"\n";

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  out.push_back(features_space(plain));
  // every operator on every pair of values through locals and literals
  out.push_back(binops_space("operators/locals", binops(), atoms(), atoms(), {S_LOCAL}, {S_LOCAL}, no_opt));
  out.push_back(binops_space("operators/literals", binops(), atoms(), atoms(), {S_LIT}, {S_LIT}, plain));
  out.push_back(binops_space("operators/sources", binops(), few_atoms(), few_atoms(),
                             {S_LIT, S_LOCAL, S_ARG, S_GLOBAL, S_ELEM, S_CALL, S_CONST}, {S_LIT, S_LOCAL, S_ARG, S_GLOBAL, S_ELEM, S_CALL, S_CONST}, plain));
  if (th)
    out.push_back(binops_space("operators/all sources", binops(), atoms(), atoms(), {S_LIT, S_LOCAL, S_ARG, S_GLOBAL, S_ELEM, S_CALL, S_CONST},
                               {S_LIT, S_LOCAL, S_ARG, S_GLOBAL, S_ELEM, S_CALL, S_CONST}, plain));
  // unary operators and truth
  out.push_back(make("unary", "all unary prefixes up to 3 x all operands x sources", [](Chooser &ch, Case &c) {
    static const Strs pre = {"-", "not ", "- -", "not not ", "not -", "- - -", "not not not "};
    std::string u = ch.pick(pre), a = ch.pick(atoms());
    int s = ch.choose(4);
    std::string x = s == 0 ? a : s == 1 ? "p" : s == 2 ? "f(" + a + ")" : "g";
    c.files = {std::string(prelude()) + "var g = " + a + "\nfunction main()\n var p = " + a + "\n out(" + u + x + ")\n return " + u + x + " == 1\nend\n"};
    return true;
  }, plain));
  out.push_back(make("truth", "every value as a condition, through each source", [](Chooser &ch, Case &c) {
    std::string a = ch.pick(atoms());
    std::string x = ch.flip() ? "p" : a;
    static const Strs body = {"if (@)\n out(1)\n else\n out(0)\n end\n", "while (@)\n out(1)\n return 1\n end\n", "out(@ and 1)\n out(0 or @)\n out(1 and @)\n",
                              "out(not @)\n out(not not @)\n if (not @)\n out(3)\n end\n"};
    std::string b = ch.pick(body);
    for (size_t q; (q = b.find('@')) != std::string::npos;) b.replace(q, 1, x);
    c.files = {std::string(prelude()) + "function main()\n var p = " + a + "\n " + b + " return 2\nend\n"};
    return true;
  }, plain));
  // precedence, associativity, parentheses, evaluation order
  out.push_back(make("trees/2", "all 2-operator expressions x unary prefixes x parentheses, plain and traced", [](Chooser &ch, Case &c) {
    bool t = ch.flip();
    c.files = {"function main()\n return " + tree_expr(ch, 2, binops(), true, true, t) + "\nend\n"};
    return true;
  }, plain));
  static const Strs mid = {"+", "-", "*", "/", "%", "<", ">=", "==", "and", "or"};
  out.push_back(make("trees/3", "all 3-operator expressions x one parenthesis group, traced", [](Chooser &ch, Case &c) {
    c.files = {"function main()\n return " + tree_expr(ch, 3, binops(), false, true, true) + "\nend\n"};
    return true;
  }, no_opt));
  static const Strs small = {"or", "and", "<", "==", "+", "-", "*", "/"};
  out.push_back(make("trees/4", "all 4-operator expressions over 8 operators, variables", [th](Chooser &ch, Case &c) {
    std::string e = tree_expr(ch, 4, th ? binops() : small, false, th, false);
    c.files = {"function main()\n var o = 1\n return o * " + e + "\nend\n"};
    return true;
  }, th ? plain : no_opt));
  out.push_back(make("trees/not-minus", "all 3-operator expressions over 6 operators x unary prefixes", [](Chooser &ch, Case &c) {
    static const Strs ops = {"or", "and", "<", "==", "-", "*"};
    c.files = {"function main()\n return " + tree_expr(ch, 3, ops, true, false, false) + "\nend\n"};
    return true;
  }, plain));
  // postfix forms: calls and subscripts applied to every primary, nested up to 3, inside operators
  out.push_back(make("postfix", "all postfix chains up to 3 over primaries, inside unary/binary contexts", [](Chooser &ch, Case &c) {
    static const Strs prim = {"a", "m", "fa", "ff", "s", "(a)", "[a, m, 5]", "gs", "ga", "n", "3", "\"lit\""};
    static const Strs post = {"[0]", "[1]", "[i]", "()", "(i)", "(a)", "[out(2)]", "(out(1))", "[a[0]]", "[-1 + i]"};
    static const Strs ctx = {"@", "-@", "not @", "1 + @", "@ + 1", "2 * @ - 1", "@ == @", "f(@)", "[@, 1]", "\"\" + @", "@ < 3 and @"};
    std::string e = ch.pick(prim);
    int n = 1 + ch.choose(2);
    for (int i = 0; i < n; i++) e += ch.pick(post);
    std::string x = ch.pick(ctx);
    for (size_t q = 0; (q = x.find('@', q)) != std::string::npos; q += e.size()) x.replace(q, 1, e);
    c.files = {std::string(PRE) + "function fa()\n out(\"fa\")\n return ga\nend\nfunction ff()\n out(\"ff\")\n return f\nend\nfunction main()\n var i = 1\n var n\n var a = [2, 1, 0]\n var m = [a, f, [k, \"q\", fa]]\n var s = \"abc\"\n return " + x + "\nend\n"};
    return true;
  }, no_opt));
  // the same expression in every syntactic position
  out.push_back(make("positions", "expressions x every syntactic position", [](Chooser &ch, Case &c) {
    static const Strs ex = {"2 + 3 * 4", "a - 1 - 1", "-a * 2", "not a == 0", "1 < 2 and 2 < 1", "\"x\" + a + 1", "7 / 2 * 2", "(1 + 2) * (a - 1)", "b[1] + b[0] * 2", "f(a) + f(2) * 3", "0.5 + a", "a % 2 == 1 or 0", "- -a", "f(f(a)) - b[b[0]]", "none == none", "\"a\" == \"a\"", "1 - 2 + 3", "a", "0", "c", "c + c * 2", "-c"};
    static const Strs pos = {"var x = @\n out(x)", "a = @\n out(a)", "out(@)", "return @", "if (@)\n out(1)\n else\n out(2)\n end", "var i = 0\n while ((@) and i < 2)\n i += 1\n out(i)\n end",
                             "var i\n for (i = @ to 9)\n out(i)\n end", "var i\n for (i = 0 to @)\n out(i)\n end", "b[1] = @\n out(b)", "var z = [5, 6, 7, 8, 9]\n z[2] = (@)\n out(z[(@) * 0])", "a += @\n out(a)", "a -= @\n out(a)", "a *= @\n out(a)", "a /= @\n out(a)",
                             "out([@, @])", "outv(@, 1, @)", "out(f(@))", "var t = f\n out(t(@))", "out((@))", "f(@)\n out(a)", "var l = [f]\n out(l[0](@))", "G"};
    std::string e = ch.pick(ex), p = ch.pick(pos), top;
    if (p == "G") {
      for (const char *v : {"a", "b"})
        for (char nx : {' ', ')', '[', '\0'}) (void)v, (void)nx;
      top = "var a = 3\nvar b = [1, 2]\nvar gx = " + e + "\n";
      c.files = {std::string(prelude()) + "const c = 4\n" + top + "function main()\n return gx\nend\n"};
      return true;
    }
    for (size_t q = 0; (q = p.find('@', q)) != std::string::npos; q += e.size()) p.replace(q, 1, e);
    c.files = {std::string(prelude()) + "const c = 4\nfunction main()\n var a = 3\n var b = [1, 2]\n " + p + "\n return a\nend\n"};
    return true;
  }, plain));
  // all pairs of small integers and wrap boundaries, each operator
  out.push_back(make("integer sweep", "all integer pairs in [-20,20]^2 plus 2^k boundaries x all operators, one program per pair", [th](Chooser &ch, Case &c) {
    std::vector<long> v;
    for (long i = th ? -60 : -20; i <= (th ? 60 : 20); i++) v.push_back(i);
    for (long b : {127l, 255l, 32767l, 65535l, 16777215l, 16777216l, 2147483646l, 2147483647l}) { v.push_back(b); v.push_back(b == 2147483647l ? -b - 1 : -b - 1); }
    long a = ch.pick(v), b = ch.pick(v);
    auto lit = [](long x) { return x == -2147483648l ? std::string("(-2147483647 - 1)") : x < 0 ? "(" + N(x) + ")" : N(x); };
    std::string o;
    for (auto &op : binops()) {
      if ((op == "/" || op == "%") && b == 0) continue;
      o += " out(a " + op + " b)\n";
    }
    c.files = {"function main()\n var a = " + lit(a) + "\n var b = " + lit(b) + "\n" + o + " out(-a)\n out(\"\" + a + b)\nend\n"};
    return true;
  }, no_opt));
  out.push_back(make("constant integer sweep", "all integer pairs in [-8,8]^2 plus 2^k boundaries x all operators and unary prefixes, as initialisers of constants and globals and as literals in a function", [th](Chooser &ch, Case &c) {
    std::vector<long> v;
    for (long i = th ? -30 : -8; i <= (th ? 30 : 8); i++) v.push_back(i);
    for (long b : {127l, 255l, 32767l, 65535l, 16777216l, 1073741824l, 2147483646l, 2147483647l}) { v.push_back(b); v.push_back(-b - 1); }
    long a = ch.pick(v), b = ch.pick(v);
    auto lit = [](long x) { return x == -2147483648l ? std::string("(-2147483647 - 1)") : x < 0 ? "(" + N(x) + ")" : N(x); };
    std::string top, o, A = lit(a), B = lit(b);
    int k = 0;
    auto add = [&](const std::string &e) {
      std::string i = N(k++);
      top += "const c" + i + " = " + e + "\nvar g" + i + " = " + e + "\n";
      o += " out(c" + i + ")\n out(g" + i + ")\n out(" + e + ")\n";
    };
    for (auto &op : binops()) {
      if ((op == "/" || op == "%") && b == 0) continue;
      add(A + " " + op + " " + B);
      if (op == "+" || op == "-" || op == "and") { add("not (" + A + " " + op + " " + B + ")"); add("-(" + A + " " + op + " " + B + ")"); add("K " + op + " " + B); }
    }
    add("-" + A);
    add("not " + A);
    add("not -" + A);
    add("- -" + A + " * 1");
    c.files = {"const K = " + A + "\n" + top + "function main()\n" + o + "end\n"};
    return true;
  }, plain));
  out.push_back(make("initialisers", "all 2-operator expressions x unary prefixes x parentheses as initialisers of a global and of a constant", [](Chooser &ch, Case &c) {
    std::string e = tree_expr(ch, 2, binops(), true, true, false);
    c.files = {"var g = " + e + "\nconst c = " + e + "\nfunction main()\n out(c)\n return g\nend\n"};
    return true;
  }, plain));
  out.push_back(make("float sweep", "all float/int pairs of 40 values x all operators", [](Chooser &ch, Case &c) {
    static const Strs v = {"0.0", "0.25", "0.5", "0.75", "1.0", "1.5", "2.0", "2.5", "3.0", "3.999", "0.1", "0.3", "10.0", "100.5", "16777215.0", "16777216.0", "2147483648.0", "4294967296.0", "1000000000000.0", "0.000001",
                           "(0.0 - 0.5)", "(0.0 - 1.0)", "(0.0 - 1.5)", "(0.0 - 1000.25)", "0", "1", "2", "3", "7", "(-1)", "(-5)", "16777217", "2147483647", "100", "33333333"};
    std::string a = ch.pick(v), b = ch.pick(v), o;
    for (auto &op : binops()) {
      if (op == "%") continue;
      if (op == "/" && b == "0" && a.find('.') == std::string::npos) continue;
      o += " out(a " + op + " b)\n";
    }
    c.files = {"function main()\n var a = " + a + "\n var b = " + b + "\n" + o + " out(\"\" + a)\n out(a + \"|\" + b)\nend\n"};
    return true;
  }, no_opt));
  out.push_back(make("float specials", "all pairs over {not a number, +-infinity, +-0.0, subnormal, largest, ordinary floats and ints} x operators, conditions, loops", [](Chooser &ch, Case &c) {
    static const Strs v = {"z / z", "1.0 / z", "-1.0 / z", "z", "-z", "z * -1", "1.5", "-2.5", "0", "3", "-7", "0.00000000000000000000000000000000000001 / 10000.0", "340282346638528859811704183484516925440.0", "(1.0 / z) - (1.0 / z)"};
    std::string a = ch.pick(v), b = ch.pick(v), o;
    for (auto &op : binops()) {
      if (op == "%") continue;
      if (op == "/" && (b == "0") && a.find('.') == std::string::npos && a.find('z') == std::string::npos) continue;
      o += " out(a " + op + " b)\n";
    }
    o += " if (a < b)\n out(1)\n else\n out(2)\n end\n if (not (a <= b))\n out(3)\n end\n if (a > b or a == b)\n out(4)\n end\n if (a)\n out(5)\n end\n out(not a)\n out(-a)\n out(min(1, 2))\n var i\n var n = 0\n for (i = a to b)\n n += 1\n if (n == 3)\n return n\n end\n end\n";
    c.files = {"function main()\n var z = 0.0\n var a = " + a + "\n var b = " + b + "\n" + o + " return n\nend\n"};
    return true;
  }, plain));
  // strings: concat and equality of all contents up to length 2 over a 4 letter alphabet
  out.push_back(make("strings", "all pairs of strings of length <= 3 over {a,b,1}: concat, equality, subscript, truth", [](Chooser &ch, Case &c) {
    auto str = [&] {
      int n = ch.choose(4);
      std::string s;
      for (int i = 0; i < n; i++) s += "ab1"[ch.choose(3)];
      return s;
    };
    std::string a = str(), b = str();
    c.files = {"function main()\n var a = \"" + a + "\"\n var b = \"" + b + "\"\n out(a + b)\n out(a == b)\n out(a + b == b + a)\n out(len(a + b))\n out(a + b + 1)\n out(1 + a)\n out(a and b)\n out(not a)\n out(none + a)\n out(a + 1.5)\n out(a == none)\n out(a[0])\n out(b[1])\nend\n"};
    return true;
  }, no_opt));
  out.push_back(make("characters", "strings of every pair of one byte (but NUL, quote and newline) with one of 6 others: subscripts, equality, concatenation, length, as literals, results and elements", [](Chooser &ch, Case &c) {
    int b = 1 + ch.choose(255), d = ch.pick(std::vector<int>{'a', 1, 127, 128, 255, ' '});
    if (b == '"' || b == '\n') return false;
    std::string x(1, char(b)), y(1, char(d));
    c.files = {"var g = \"" + x + y + "\"\nfunction id(s)\n return s\nend\nfunction main()\n var s = \"" + x + y + "\"\n var t = \"" + y + "\" + \"" + x + "\"\n var a = [s, t]\n out(s[0])\n out(s[1])\n out(t[0] + t[1])\n out(s == t)\n out(s == g)\n out(s[0] == t[1])\n out(s[0] < t[0])\n out(len(s + t))\n"
               " out(s + t == g + t)\n out(a[0][0] * 2)\n out(id(t)[1] - 1)\n out(\"\" + s[0])\n out(1 + s)\n out(s + 2.5)\n out(none + t)\n if (s[1] > 0)\n out(s)\n end\n var i\n for (i = 0 to len(g))\n out(g[i])\n end\n return not s[0]\nend\n"};
    return true;
  }, plain));
  out.push_back(make("long strings", "strings of every length 1..40 and around 2^k up to 131072, made by literals or by concatenation: equal, or differing at the first, middle, last or an extra character", [](Chooser &ch, Case &c) {
    static std::vector<long> len;
    if (len.empty()) {
      for (long i = 1; i <= 40; i++) len.push_back(i);
      for (long b = 64; b <= 131072; b *= 2) { len.push_back(b - 1); len.push_back(b); len.push_back(b + 1); }
    }
    long n = ch.pick(len);
    int how = ch.choose(6);
    std::string a, b;
    for (long i = 0; i < n; i++) a += char('a' + (i * 7 + i / 26) % 26);
    b = a;
    if (how == 1) b[0] = 'Z';
    if (how == 2) b[size_t(n / 2)] = 'Z';
    if (how == 3) b[size_t(n - 1)] = 'Z';
    if (how == 4) b += "Z";
    if (how == 5) b = b.substr(0, size_t(n - 1));
    int src = ch.choose(3);
    auto q = [](const std::string &x) { return "\"" + x + "\""; };
    std::string ea = q(a), eb = q(b);
    if (src == 1) { ea = q(a.substr(0, a.size() / 2)) + " + " + q(a.substr(a.size() / 2)); eb = q(b.substr(0, b.size() / 3)) + " + " + q(b.substr(b.size() / 3)); }
    std::string at = N(n / 2), last = N(n - 1);
    c.files = {std::string(prelude()) + (src == 2 ? "var a = " + ea + "\nvar b = " + eb + "\nfunction main()\n" : "function main()\n var a = " + ea + "\n var b = " + eb + "\n") +
               " out(a == b)\n out(b == a)\n out(a == a)\n out(len(a))\n out(len(b))\n" + (n > 40000 ? "" : " out(len(a + b))\n out(a + b == b + a)\n out(a + b == a + b)\n") + " out(a[0])\n out(a[" + at + "])\n out(a[" + last + "])\n out(a + \"\" == a)\n if (a == b)\n out(a)\n else\n out(b)\n end\n out(a + 1)\n out(1.5 + b)\nend\n"};
    c.note = "long strings";
    return true;
  }, [](const Case &c, Result &r) {
    impl::ModelOpts mo;
    mo.before = [](ref::Machine &m) { m.one_limit = 140000; };
    conform(c, r, 3, impl::RunOpts(), mo);
  }));
  out.push_back(sizes_space(th, no_opt, th ? 1l << 40 : 600, {"statements", "skipped body", "late function", "loop count", "blank lines", "globals", "locals", "functions", "args", "for nesting", "while nesting"}));
  out.push_back(wide_space(th, th ? 140 : 41, no_opt));
}
