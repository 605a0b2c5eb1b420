// C03: optimised == unoptimised (and both equal to the model)
#include "harness.h"

static bool has_zero_div_report(const impl::Outcome &m_on, const impl::Outcome &m_off) { return !m_on.compiled && m_off.compiled; }

// compares the two builds with one another, and each with the model (whose only difference is constant division by zero)
static void both(const Case &c, Result &r) {
  impl::ModelOpts mo;
  if (c.p.empty() && c.note.empty()) mo.fuel = 20000;
  auto on = impl::compile(c.files, true), off = impl::compile(c.files, false);
  impl::Outcome mon = impl::model(c.files, true, on->ok ? &on->prog : nullptr, mo);
  impl::Outcome moff = impl::model(c.files, false, off->ok ? &off->prog : nullptr, mo);
  r.model_steps += mon.steps + moff.steps;
  impl::Outcome a, b;
  impl::compile_outcome(*on, a);
  impl::compile_outcome(*off, b);
  const bool dz = has_zero_div_report(mon, moff);
  r.outcome = mon.text();
  if (mon.diverged || moff.diverged) {
    if (on->ok) still_running(r, "optimised build", mon, on->prog);
    if (off->ok) still_running(r, "unoptimised build", moff, off->prog);
    return;
  }
  if (a.compiled && mon.compiled) impl::run_program(on->prog, a);
  if (b.compiled && moff.compiled) impl::run_program(off->prog, b);
  r.impl_steps += a.steps + b.steps;
  r.runs += 2;
  if (!dz && c.files[0].find("\"fn") == std::string::npos) {
    // function values print their code address, which may differ between the builds
    bool addr = a.text().find("function@") != std::string::npos || b.text().find("function@") != std::string::npos;
    if (!addr) diff(r, "optimised differs from unoptimised", b.text(), a.text());
  }
  diff(r, "optimised build", mon.text(), a.text());
  diff(r, "unoptimised build", moff.text(), b.text());
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  out.push_back(features_space(both));
  out.push_back(scripts_space(both));
  out.push_back(blocks_space(1, 2, 2, both));
  out.push_back(blocks_space(2, 2, 2, both));
  out.push_back(blocks_space(3, 0, 3, both));
  if (th) {
    out.push_back(blocks_space(3, 2, 3, both));
    out.push_back(blocks_space(4, -1, 4, both));
  }
  out.push_back(binops_space("operators/literals", binops(), atoms(), atoms(), {S_LIT}, {S_LIT}, both));
  out.push_back(binops_space("operators/consts", binops(), atoms(), atoms(), {S_CONST}, {S_CONST}, both));
  out.push_back(binops_space("operators/mixed", binops(), few_atoms(), few_atoms(), {S_LIT, S_LOCAL, S_GLOBAL, S_CALL, S_CONST}, {S_LIT, S_LOCAL, S_GLOBAL, S_CALL, S_CONST}, both));
  out.push_back(sizes_space(th, both, th ? 1l << 40 : 5000));
  out.push_back(wide_space(th, th ? 1000 : 41, both));
  // constant folding over all trees of literals, with one effectful or variable leaf at every place
  out.push_back(make("fold trees", "all trees of 2 operators x unary x parentheses with a variable/call/literal leaf at each place", [](Chooser &ch, Case &c) {
    static const char *lit[] = {"7", "0", "3", "2147483647"};
    static const Strs leaf = {"a", "out(2)", "0", "1"};
    int hot = ch.choose(4);
    std::string v[3];
    static const Strs pre = {"", "-", "not "};
    for (int i = 0; i < 3; i++) v[i] = ch.pick(pre) + (hot == i ? ch.pick(leaf) : std::string(lit[i + (hot == 3)]));
    std::string o1 = ch.pick(binops()), o2 = ch.pick(binops());
    int par = ch.choose(3);
    std::string e = (par == 1 ? "(" : "") + v[0] + " " + o1 + " " + (par == 2 ? "(" : "") + v[1] + (par == 1 ? ")" : "") + " " + o2 + " " + v[2] + (par == 2 ? ")" : "");
    c.files = {"function t(a)\n if (" + e + ")\n  out(1)\n end\n return " + e + "\nend\nfunction main()\n var a = 5\n var r = " + e + "\n out(r)\n r = " + e + "\n out(r)\n out(t(5))\n return a\nend\n"};
    return true;
  }, both));
  if (th)
    out.push_back(make("fold trees 3", "all trees of 3 operators over literals, one parenthesis group", [](Chooser &ch, Case &c) {
      c.files = {"function main()\n var a = 5\n return " + tree_expr(ch, 3, binops(), true, true, false) + "\nend\n"};
      return true;
    }, both));
  // integer boundaries folded
  out.push_back(make("fold integers", "all pairs of boundary integers x operators: literal, constant, variable", [th](Chooser &ch, Case &c) {
    static const Strs v = {"0", "1", "2", "3", "7", "-1", "-2", "-7", "255", "256", "32767", "32768", "65535", "65536", "46340", "46341", "1073741824", "2147483647", "-2147483647", "2147483648", "4294967295", "4294967296"};
    std::string a = ch.pick(v), b = ch.pick(v), o;
    for (auto &op : binops()) {
      if ((op == "/" || op == "%") && (b == "0" || b == "4294967296")) continue;
      o += " r = (" + a + ") " + op + " (" + b + ")\n out(r)\n r = (k1) " + op + " (x " + op + " y)\n out(r)\n if (x " + op + " y)\n  out(x)\n end\n out((" + a + ") " + op + " (" + b + "))\n out(x " + op + " y)\n out(p " + op + " q)\n out(p " + op + " y)\n out(k1 " + op + " y)\n";
    }
    std::string mn = " out((-2147483647 - 1) / (" + (b == "0" || b == "4294967296" ? std::string("1") : b) + "))\n";
    c.files = {"const x = " + a + "\nconst y = " + b + "\nvar k1 = x + y\nfunction main()\n var r\n var p = " + a + "\n var q = " + b + "\n" + o + mn + "end\n"};
    return true;
  }, both));
  // constant conditions and dead code around effects
  static const Strs conds = {"0", "1", "2 > 1", "1 > 2", "not 0", "not 1", "c", "not c", "z", "c == 1", "1 and 0", "0 or 1", "\"\"", "\"a\"", "none", "0.0", "0.5", "1 + -1", "0 and out(9)", "1 or out(9)", "out(0)", "out(1)", "out(9) * 0", "-1", "not none", "s", "n", "1 - 1 == 0", "f()", "zz", "1 - 2", "0 - 5", "2 * -3", "2147483647 + 2", "7 / 2", "1 / 2", "7 % 4", "3 - 3", "c - 2", "-c", "not -1", "-1 and 2", "-1 or 0", "z - 1 == -1", "\"a\" + \"b\"", "65536 * 65536"};
  out.push_back(make("conditions", "all constant and effectful conditions x if/else/while/for/nesting x effectful or empty bodies", [](Chooser &ch, Case &c) {
    std::string e = ch.pick(conds);
    static const Strs sh = {" if (@)\n  out(1)\n end\n", " if (@)\n  out(1)\n else\n  out(2)\n end\n", " while (@)\n  out(1)\n  return 3\n end\n", " if (@)\n else\n  out(2)\n end\n", " if (@)\n end\n", " if (@)\n  var v = 1\n  out(v)\n else\n  var v = 2\n  var w = 3\n  out(v + w)\n end\n var u\n out(u)\n",
                            " if (@)\n  return 1\n end\n out(4)\n", " if (@)\n  return 1\n else\n  return 2\n end\n out(4)\n", " while (@)\n  if (@)\n   return 5\n  end\n  return 6\n end\n", " var i\n for (i = @ to 2)\n  out(i)\n end\n", " out(@)\n", " var q = @\n out(q)\n if (q)\n  out(8)\n end\n", " out([@, @])\n", " x = @\n out(x)\n", " x += @\n out(x)\n",
                            " a[@] = out(5)\n out(a)\n", " out(a[@])\n", " f1(@)\n", " out(@ + @)\n", " out(not (@))\n", " return @\n"};
    std::string s = ch.pick(sh);
    for (size_t q = 0; (q = s.find('@', q)) != std::string::npos; q += e.size()) s.replace(q, 1, e);
    int wrap = ch.choose(4);
    if (wrap == 1) s = " if (1)\n" + s + " end\n";
    if (wrap == 2) s = " if (x)\n" + s + " else\n out(77)\n end\n";
    if (wrap == 3) s = " var lp = 0\n while (lp < 2)\n lp += 1\n" + s + " end\n";
    c.files = {"const c = 1\nconst z = 0\nconst s = \"\"\nconst n = none\nvar x = 1\nvar zz = z * 3\nfunction f()\n out(\"f\")\n return 0\nend\nfunction f1(p)\n out(p)\nend\nfunction main()\n var a = [1, 2]\n" + s + " out(99)\n return x\nend\n"};
    return true;
  }, both));
  // statements after a return, in every block, including declarations used before it
  out.push_back(make("after return", "returns at every place of a two level body x trailing statements", [](Chooser &ch, Case &c) {
    static const Strs tr = {"out(5)\n", "return 6\n", "var v = out(7)\n", "if (a)\n out(8)\n end\n", "while (1)\n out(9)\n end\n", "a = 1 / a\n", ""};
    std::string b;
    int place = ch.choose(6);
    auto ret = [&](int p) { return place == p ? std::string("return out(") + "1)\n" + ch.pick(tr) : std::string("out(") + N(p + 20) + ")\n"; };
    b += ret(0);
    b += "if (a)\n" + ret(1) + "else\n" + ret(2) + "end\n";
    b += "while (k < 2)\nk += 1\n" + ret(3) + "end\n";
    b += "var j\nfor (j = 0 to 2)\n" + ret(4) + "end\n";
    b += ret(5);
    c.files = {"function t(a)\nvar k = 0\n" + b + "end\nfunction main()\n out(t(0))\n out(t(1))\nend\n"};
    return true;
  }, both));
  // zero division, constant or not, in every position: only the constant one may move to compile time
  out.push_back(make("division by zero", "division and modulo by constant/variable zero in every position", [](Chooser &ch, Case &c) {
    static const Strs num = {"1", "c", "a", "0", "out(3)", "1.5", "2 + 3", "\"s\""};
    static const Strs den = {"0", "z", "0 * 5", "a", "1 - 1", "0.0", "zz", "(2 - 2)", "-0", "not 1", "1 < 0", "none"};
    std::string op = ch.flip() ? "/" : "%";
    std::string e = ch.pick(num) + " " + op + " " + ch.pick(den);
    static const Strs ps = {" out(@)\n", " if (0)\n  out(@)\n end\n", " if (a)\n  return @\n end\n", " return 4\n out(@)\n", " out(0 and (@))\n", " var v = 2 * (@)\n out(v)\n", " while (@)\n  out(1)\n end\n", " out([1, @])\n", " out(-(@))\n", " b[0] = @\n", " b[@] = 1\n", " out(1 + (@) * 2)\n", "G"};
    std::string s = ch.pick(ps), g;
    if (s == "G") {
      g = "var gg = " + e + "\n";
      if (e.find('a') != std::string::npos && e.find("a ") == 0) g = "var a = 0\n" + g;
      else if (e.find(" a") != std::string::npos) g = "var a = 0\n" + g;
      s = "";
      c.files = {"const c = 4\nconst z = 0\nvar zz\n" + g + "function main()\n out(1)\n return 1\nend\n"};
      return true;
    }
    for (size_t q = 0; (q = s.find('@', q)) != std::string::npos; q += e.size()) s.replace(q, 1, e);
    c.files = {"const c = 4\nconst z = 0\nvar zz = 0\nfunction main()\n var a = 0\n var b = [1, 2]\n out(1)\n" + s + " out(2)\nend\n"};
    return true;
  }, both));
}
