// C19: layout, comments, keyword case and literals
#include "harness.h"
using namespace impl;
using corpus::N;
using corpus::rep;

// a program as lines of tokens, cut independently of the compiler's lexer
struct Tok { std::string t; bool word; };
typedef std::vector<std::vector<Tok>> Lines;
static bool wordc(char c) { return isalnum((unsigned char)c) || c == '_'; }
static Lines cut(const std::string &s) {
  Lines ls(1);
  for (size_t i = 0; i < s.size();) {
    char c = s[i];
    if (c == '\n') { ls.emplace_back(); i++; continue; }
    if (c == ' ' || c == '\t' || c == '\r') { i++; continue; }
    if (c == '#') { while (i < s.size() && s[i] != '\n') i++; continue; }
    size_t j = i + 1;
    if (c == '"') {
      while (j < s.size() && s[j] != '"' && s[j] != '\n') j++;
      if (j < s.size() && s[j] == '"') j++;
      ls.back().push_back({s.substr(i, j - i), false});
    } else if (isdigit((unsigned char)c)) {
      while (j < s.size() && isdigit((unsigned char)s[j])) j++;
      if (j < s.size() && s[j] == '.') { j++; while (j < s.size() && isdigit((unsigned char)s[j])) j++; }
      ls.back().push_back({s.substr(i, j - i), true});
    } else if (wordc(c)) {
      while (j < s.size() && wordc(s[j])) j++;
      ls.back().push_back({s.substr(i, j - i), true});
    } else {
      if ((c == '=' || c == '<' || c == '>') && j < s.size() && s[j] == '=') j++;
      ls.back().push_back({s.substr(i, j - i), false});
    }
    i = j;
  }
  return ls;
}
static bool needs_space(const Tok &a, const Tok &b) {
  if (a.word && b.word) return true;
  // "1" "." or ". 5" would form another number; "=" "=" another operator
  if ((a.word || a.t == ".") && (b.word || b.t == ".")) return isdigit((unsigned char)a.t[0]) || isdigit((unsigned char)b.t[0]) || a.t == ".";
  if (b.t == "=" || b.t == "==") return a.t == "=" || a.t == "<" || a.t == ">";
  return false;
}
static const std::set<std::string> &keywords() {
  static const std::set<std::string> k = {"and", "const", "end", "else", "for", "function", "if", "import", "not", "none", "or", "return", "to", "var", "while"};
  return k;
}
static std::string lower(std::string s) { for (char &c : s) c = char(tolower(c)); return s; }
static bool keyword(const std::string &s) { return keywords().count(lower(s)) > 0; }

// layout decisions
struct Layout {
  std::function<std::string(size_t line, size_t tok, const Tok *prev, const Tok *next)> gap = [](size_t, size_t, const Tok *p, const Tok *n) { return std::string(p && n && needs_space(*p, *n) ? " " : ""); };
  std::function<std::string(size_t line)> before_nl = [](size_t) { return std::string(); };  // may contain newlines
  std::function<std::string(const std::string &, size_t line, size_t tok)> spell = [](const std::string &s, size_t, size_t) { return s; };
  std::string head, tail;
  bool last_newline = true;
};
// text and, per original line (1-based), its new number
static std::string lay(const Lines &ls, const Layout &L, std::vector<int> &map) {
  std::string o = L.head;
  int line = 1 + int(std::count(o.begin(), o.end(), '\n'));
  map.assign(ls.size() + 2, 0);
  for (size_t i = 0; i < ls.size(); i++) {
    map[i + 1] = line;
    const auto &l = ls[i];
    for (size_t k = 0; k <= l.size(); k++) {
      o += L.gap(i, k, k ? &l[k - 1] : nullptr, k < l.size() ? &l[k] : nullptr);
      if (k < l.size()) o += L.spell(l[k].t, i, k);
    }
    if (i + 1 == ls.size()) break;  // nothing follows the last newline
    std::string e = L.before_nl(i);
    if (i + 2 == ls.size() && ls.back().empty() && !L.last_newline) { o += e; line += int(std::count(e.begin(), e.end(), '\n')); break; }
    o += e + "\n";
    line += 1 + int(std::count(e.begin(), e.end(), '\n'));
  }
  o += L.tail;
  // an empty last line holds nothing but the end of the text
  if (ls.back().empty()) map[ls.size()] = 1 + int(std::count(o.begin(), o.end(), '\n'));
  map[ls.size() + 1] = map[ls.size()];
  return o;
}

// behaviour with the lines translated
static std::string seen(const std::string &src, bool opt, const std::vector<int> *map, const Case &c, Result &r) {
  Outcome o;
  auto cc = compile({src}, opt);
  compile_outcome(*cc, o);
  if (o.compiled) {
    RunOpts ro;
    ro.limit = 40000;
    run_program(cc->prog, o, ro);
    r.impl_steps += o.steps;
  }
  r.runs++;
  if (o.diverged) return "DIVERGED";
  if (!map) return o.text();
  auto tr = [&](int l) { return l >= 0 && size_t(l) < map->size() ? (*map)[size_t(l)] : l; };
  if (!o.compiled) o.err_line = tr(o.err_line);
  size_t at = o.result.rfind("@0:");
  if (o.result.find("fault:") != std::string::npos && at != std::string::npos) o.result = o.result.substr(0, at + 3) + N(tr(atoi(o.result.c_str() + at + 3)));
  return o.text();
}
// files[0] is the text to judge, files[1] the original; p the line map
static void same(const Case &c, Result &r) {
  std::vector<int> map(c.p.begin(), c.p.end());
  for (int opt = 0; opt < 2 && !r.bad; opt++) {
    std::string a = seen(c.files[1], opt, &map, c, r), b = seen(c.files[0], opt, nullptr, c, r);
    diff(r, opt ? "optimised, compared with the original layout" : "unoptimised, compared with the original layout", a, b);
    r.outcome = a;
  }
  Case m;
  m.files = {c.files[0]};
  if (!r.bad) conform(m, r, 1);
}
static bool emit(Case &c, const std::string &src, const Lines &ls, const Layout &L) {
  std::vector<int> map;
  c.files = {lay(ls, L, map), src};
  for (int x : map) c.p.push_back(x);
  return true;
}

static const Strs &rejects() {
  static const Strs p = {
      "function main()\n return x\nend\n", "var a = 1\nvar a = 2\nfunction main()\n return a\nend\n", "const c = 1\nfunction main()\n c = 2\nend\n",
      "function f(a)\n return a\nend\nfunction main()\n var q = 2\n return f(q, q)\nend\n", "function main()\n var a = [1]\n b[0] = 1\nend\n",
      "function main()\n var a = 1 +\nend\n", "function main()\n if (1)\n  out(1)\nend\n", "function main()\n out(2)\n return 3 % 0\nend\n",
      "function main()\n out(1\n out(2)\nend\n", "function main()\n else\nend\n", "var = 3\n", "function main()\n out(1) out(2)\nend\n"};
  return p;
}
static const Strs &bases() {
  static Strs b;
  if (b.empty()) {
    b = corpus::features();
    for (auto &x : rejects()) b.push_back(x);
  }
  return b;
}
static bool closed(const std::string &src) {  // every string literal is terminated
  for (auto &l : cut(src))
    for (auto &t : l)
      if (t.t[0] == '"' && (t.t.size() == 1 || t.t.back() != '"')) return false;
  return true;
}
static const Strs &all_bases() {
  static Strs b;
  if (b.empty()) {
    b = bases();
    for (auto &x : corpus::repo_scripts())
      if (x.second.find("import") == std::string::npos && x.second.find("new_thread") == std::string::npos && closed(x.second)) b.push_back(x.second);
  }
  return b;
}
static const Strs &blanks() { static const Strs b = {" ", "\t", "\r", "   ", " \t\r "}; return b; }
static const Strs &line_ends() {
  static const Strs b = {"#", "#c", " # \"quote end function ( 1 +", "\n", "\n\n\n", "\n# c\n", "\r", " \t ", "\n \t \n", "\t#\r", "#\n#\n", "# a # b \\", "\r\n\r\n"};
  return b;
}

// ---------------------------------------------------------------- literals with an independent oracle
static void literal_batch(const Case &c, Result &r) {
  // files[0]: program, files[1]: expected trace
  for (int opt = 0; opt < 2 && !r.bad; opt++) {
    Outcome o;
    auto cc = compile({c.files[0]}, opt);
    compile_outcome(*cc, o);
    if (!o.compiled) { r.fail("rejected at line " + N(o.err_line) + ": " + o.err); return; }
    run_program(cc->prog, o);
    r.runs++;
    r.impl_steps += o.steps;
    std::string want = c.files[1], got = o.trace;
    if (want != got) {
      size_t i = 0;
      while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
      size_t s = want.rfind(';', i ? i - 1 : 0);
      s = s == std::string::npos ? 0 : s + 1;
      r.fail("expected ..." + want.substr(s, 80) + "\n  observed ..." + got.substr(std::min(s, got.size()), 80));
    }
    if (o.result.find("fault") != std::string::npos) r.fail("ended with " + o.result);
  }
  r.outcome = c.files[1];
}
// the same text read from a file
static void from_file(const Case &c, Result &r) {
  literal_batch(c, r);
  if (r.bad) return;
  const std::string path = scratch_file("src");
  write_file(path, c.files[0]);
  Compiled k;
  std_register(*k.nano);
  if (!k.sources.load(path.c_str())) { r.fail("the file cannot be loaded"); return; }
  k.ok = k.nano->build(k.sources, k.err);
  if (!k.ok) { r.fail("rejected from a file at line " + N(k.err.line.line) + ": " + k.err.error); return; }
  std_resolve(k.prog);
  Outcome o;
  run_program(k.prog, o);
  r.runs++;
  diff(r, "read from a file", c.files[1], o.trace);
  unlink(path.c_str());
}
static std::string int_value(const std::string &digits) {
  uint32_t v = 0;
  for (char ch : digits) v = uint32_t((uint64_t(v) * 10 + uint64_t(ch - '0')) & 0xffffffffu);
  return N(int32_t(v));
}
struct Batch {
  std::string globals, body, want;
  int n = 0;
  void add(const std::string &lit, const std::string &val, int place) {
    std::string k = N(n++);
    switch (place) {
    case 0: body += " out(" + lit + ")\n"; break;
    case 1: globals += "var g" + k + " = " + lit + "\n"; body += " out(g" + k + ")\n"; break;
    case 2: globals += "const c" + k + " = " + lit + "\n"; body += " out(c" + k + ")\n"; break;
    case 3: body += " var v" + k + "=" + lit + "\n out(v" + k + ")\n"; break;
    case 4: body += " out([" + lit + "][0])\n"; break;
    case 5: body += " outv(" + lit + "," + lit + ")\n"; want += "outv(" + val + "|" + val + ");"; return;
    }
    want += "out(" + val + ");";
  }
  bool done(Case &c) {
    if (!n) return false;
    c.files = {globals + "function main()\n" + body + "end\n", want};
    return true;
  }
};
static const Strs &odd_ints() {
  static Strs v;
  if (v.empty()) {
    for (unsigned __int128 b : {(unsigned __int128)1 << 31, (unsigned __int128)1 << 32, (unsigned __int128)1 << 33, (unsigned __int128)1 << 63, (unsigned __int128)1 << 64, (unsigned __int128)10000000000ull})
      for (int d = -2; d <= 2; d++) {
        unsigned __int128 x = b + (unsigned __int128)(__int128)d;
        std::string s;
        while (x) { s.insert(s.begin(), char('0' + int(x % 10))); x /= 10; }
        v.push_back(s);
        v.push_back("000" + s);
      }
    for (int k = 1; k <= 60; k++) { v.push_back(rep("9", k)); v.push_back("1" + rep("0", k)); v.push_back(rep("0", k)); }
  }
  return v;
}
static std::string fval(const std::string &s) { return ref::fbits(strtof(s.c_str(), nullptr)); }

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  auto gaps = [](const Strs &base, const Strs &ins) {
    return [&base, &ins](Chooser &ch, Case &c) {
      const std::string &src = ch.pick(base);
      static std::map<const std::string *, Lines> cache;
      Lines &ls = cache[&src];
      if (ls.empty()) ls = cut(src);
      size_t total = 0;
      for (auto &l : ls) total += l.size() + 1;
      size_t at = size_t(ch.choose(int(total)));
      std::string in = ch.pick(ins);
      Layout L;
      size_t base_pos = 0, li = 0;
      while (at >= base_pos + ls[li].size() + 1) base_pos += ls[li++].size() + 1;
      size_t ti = at - base_pos;
      auto dflt = L.gap;
      L.gap = [=](size_t i, size_t k, const Tok *p, const Tok *n) { return i == li && k == ti ? in : dflt(i, k, p, n); };
      return emit(c, src, ls, L);
    };
  };
  auto ends = [](const Strs &base, const Strs &ins, int pairs) {
    return [&base, &ins, pairs](Chooser &ch, Case &c) {
      const std::string &src = ch.pick(base);
      static std::map<const std::string *, Lines> cache;
      Lines &ls = cache[&src];
      if (ls.empty()) ls = cut(src);
      size_t a = size_t(ch.choose(int(ls.size())));
      std::string x = ch.pick(ins), y;
      size_t b = a;
      if (pairs) { b = a + 1 + size_t(ch.choose(int(ls.size() - a))); y = ch.pick(ins); }
      Layout L;
      // line 0 inserts at the very start of the text
      auto put = [&](size_t l, const std::string &s) {
        if (l == 0) { if (s.find('\n') == std::string::npos) L.head = s + "\n"; else L.head = s; return; }
        auto prev = L.before_nl;
        L.before_nl = [=](size_t i) { return i + 1 == l ? s : prev(i); };
      };
      // a head must end its line unless it is blank space only
      put(a, x);
      if (pairs) put(b, y);
      if (!L.head.empty() && L.head.find_first_not_of(" \t\r\n") != std::string::npos && L.head.back() != '\n') L.head += "\n";
      return emit(c, src, ls, L);
    };
  };
  out.push_back(make("blank space", "one run of blank space at every token boundary of every feature and rejected program", gaps(bases(), blanks()), same));
  static const Strs one = {" \t\r "};
  out.push_back(make("blank space, scripts", "one run of blank space at every token boundary of the repository's scripts", gaps(all_bases(), th ? blanks() : one), same));
  out.push_back(make("line ends", "each of 13 comments or blank lines at the end of every line of every program and script", ends(all_bases(), line_ends(), 0), same));
  static const Strs pair_ins = {"#c", "\n\n", "\n# c\n", "\r"};
  out.push_back(make("line ends, pairs", "every pair of 4 insertions at every pair of line ends", ends(bases(), th ? line_ends() : pair_ins, 1), same));
  out.push_back(make("whole layouts", "every program in 7 uniform layouts x 11 endings", [](Chooser &ch, Case &c) {
    const std::string &src = ch.pick(all_bases());
    Lines ls = cut(src);
    int style = ch.choose(7), ending = ch.choose(11);
    Layout L;
    auto dflt = L.gap;
    switch (style) {
    case 0: break;  // as tight as possible
    case 1: L.gap = [](size_t, size_t, const Tok *, const Tok *) { return std::string(" "); }; break;
    case 2: L.gap = [](size_t, size_t, const Tok *, const Tok *) { return std::string("\t"); }; break;
    case 3: L.before_nl = [](size_t) { return std::string("\r"); }; break;
    case 4: L.before_nl = [](size_t i) { return "# line " + N(long(i)); }; break;
    case 5: L.before_nl = [](size_t) { return std::string("\n"); }; break;
    case 6: L.before_nl = [](size_t) { return std::string("\n# x\n\t\n#"); }; break;
    }
    static const Strs tails = {"", "#", "# tail", "\n", "\n\n\n", "   ", "\t# x", "\r\n", "\n#\n#", "\n \n"};
    if (ending < 10) {
      L.tail = tails[size_t(ending)];
      // an unfinished last line belongs to the text
    } else L.last_newline = false;
    if (ending == 10 && (ls.size() < 2 || !ls.back().empty())) return false;
    if (ending && ending < 10 && !ls.back().empty()) return false;
    return emit(c, src, ls, L);
  }, same));
  out.push_back(make("keyword case, one", "every keyword occurrence of every program in 4 spellings", [](Chooser &ch, Case &c) {
    const std::string &src = ch.pick(all_bases());
    Lines ls = cut(src);
    std::vector<std::pair<size_t, size_t>> at;
    for (size_t i = 0; i < ls.size(); i++)
      for (size_t k = 0; k < ls[i].size(); k++) {
        const Tok &t = ls[i][k];
        if (t.word && keyword(t.t) && !(k && ls[i][k - 1].t == ".")) at.push_back({i, k});
      }
    if (at.empty()) return false;
    int which = ch.choose(int(at.size()) + 1), how = ch.choose(4);
    Layout L;
    L.spell = [=](const std::string &s, size_t i, size_t k) {
      bool hit = false;
      for (size_t n = 0; n < at.size(); n++)
        if ((which == int(at.size()) || which == int(n)) && at[n].first == i && at[n].second == k) hit = true;
      if (!hit) return s;
      std::string o = lower(s);
      for (size_t n = 0; n < o.size(); n++)
        if (how == 0 || (how == 1 && n == 0) || (how == 2 && n % 2) || (how == 3 && n + 1 == o.size())) o[n] = char(toupper(o[n]));
      return o;
    };
    return emit(c, src, ls, L);
  }, same));
  out.push_back(make("keyword case, all", "all 2^n letter cases of every keyword", [](Chooser &ch, Case &c) {
    static const Strs v(keywords().begin(), keywords().end());
    std::string k = ch.pick(v);
    if (k == "import") return false;  // needs files: see C14
    int bits = ch.choose(1 << k.size());
    static const std::string src = "const c = 2\nvar g = none\nfunction main()\n var i = 0\n for (i = 0 to 3)\n  if (i == 1 and c or not i)\n   out(i)\n  else\n   out(none)\n  end\n end\n while (i > 0)\n  i -= 1\n end\n return i\nend\n";
    Lines ls = cut(src);
    Layout L;
    L.spell = [=](const std::string &s, size_t, size_t) {
      if (s != k) return s;
      std::string o = s;
      for (size_t n = 0; n < o.size(); n++) if (bits >> n & 1) o[n] = char(toupper(o[n]));
      return o;
    };
    return emit(c, src, ls, L);
  }, same));
  // identifiers: oracle is the trace written here
  auto names = [](std::function<std::string(Chooser &)> pick) {
    return [pick](Chooser &ch, Case &c) {
      std::string n = pick(ch);
      if (n.empty() || keyword(n)) return false;
      static const std::set<std::string> taken = {"main", "out", "outv", "abs", "min", "max", "bitand", "sin", "cos", "tan", "len", "chr", "round", "ceil", "floor", "sqrt", "wait", "zz"};
      if (taken.count(n)) return false;
      int use = ch.choose(5);
      std::string other = n;  // the same letters in another case
      for (char &x : other) x = isupper((unsigned char)x) ? char(tolower(x)) : char(toupper(x));
      bool two = other != n && !keyword(other) && !taken.count(other);
      std::string d = two ? other : "zz";
      switch (use) {
      case 0: c.files = {"function main()\n var " + n + "=1\n var " + d + "=2\n " + n + "+=" + d + "\n out(" + n + ")\n out(" + d + ")\nend\n", "out(3);out(2);"}; break;
      case 1: c.files = {"var " + n + " = 5\nvar " + d + " = 6\nfunction main()\n out(" + n + "*" + d + "-" + n + ")\nend\n", "out(25);"}; break;
      case 2: c.files = {"function " + n + "(a)\n out(a)\nend\nfunction " + d + "(a)\n out(0-a)\nend\nfunction main()\n " + n + "(1)\n " + d + "(2)\nend\n", "out(1);out(-2);"}; break;
      case 3: c.files = {"function f(" + n + "," + d + ")\n out(" + n + ")\n out(" + d + ")\nend\nfunction main()\n f(3,4)\nend\n", "out(3);out(4);"}; break;
      case 4: c.files = {"const " + n + "=7\nconst " + d + "=8\nfunction main()\n if(" + n + "==7)\n  out(" + d + ")\n end\nend\n", "out(8);"}; break;
      }
      if (use == 3 && (n == "f" || d == "f")) return false;
      if (use == 2 && (n == "a" || d == "a")) return false;
      return true;
    };
  };
  static const std::string first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", rest = first + "0123456789";
  out.push_back(make("names", "every identifier of one or two characters, in 5 roles, together with its other-case twin", names([](Chooser &ch) {
    std::string n(1, first[size_t(ch.choose(int(first.size())))]);
    int k = ch.choose(int(rest.size()) + 1);
    if (k) n += rest[size_t(k - 1)];
    return n;
  }), literal_batch));
  out.push_back(make("names around keywords", "every keyword and built-in name with every character before or after, doubled, cut short, in 5 roles", names([](Chooser &ch) {
    static Strs v(keywords().begin(), keywords().end());
    if (v.size() < 20) for (const char *b : {"abs", "min", "len", "main", "out", "length", "true", "null", "init", "elif"}) v.push_back(b);
    std::string k = ch.pick(v);
    if (ch.flip()) k = char(toupper(k[0])) + k.substr(1);
    switch (ch.choose(4)) {
    case 0: return k + rest[size_t(ch.choose(int(rest.size())))];
    case 1: return first[size_t(ch.choose(int(first.size())))] + k;
    case 2: return k + (ch.flip() ? k : "_" + k);
    default: { int n = ch.choose(int(k.size())); return n ? k.substr(0, size_t(n)) : std::string("a_") + k + "_1"; }
    }
  }), literal_batch));
  out.push_back(make("long names", "identifiers of every length 1.." + N(th ? 2000 : 300) + " and around every power of two up to 65536, differing in the last character only", [th](Chooser &ch, Case &c) {
    int n = ch.choose((th ? 2000 : 300) + 24);
    if (n >= (th ? 2000 : 300)) { n -= th ? 2000 : 300; n = (512 << n / 3) + n % 3 - 2; }
    std::string s = rep("n", n);
    c.files = {"function main()\n var " + s + "a = 1\n var " + s + "b = 2\n var " + s + "_ = 3\n out(" + s + "a)\n out(" + s + "b)\n out(" + s + "_)\nend\n", "out(1);out(2);out(3);"};
    return true;
  }, literal_batch));
  // two long texts that differ in one place only
  auto twins = [](Chooser &ch, std::string &a, std::string &b, int most) {
    static const std::vector<int> len = {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
    int k = ch.choose(most + int(len.size()));
    int n = k < most ? k + 1 : len[size_t(k - most)];
    int pos;
    if (n <= most) pos = ch.choose(n + 1);
    else { static const std::vector<int> ps = {0, 1, 7, 8, 15, 16, 31, 32, 62}; int x = ch.choose(int(ps.size()) + 3); pos = x < int(ps.size()) ? ps[size_t(x)] : n - (x - int(ps.size())); }
    for (int i = 0; i < n; i++) a += char('a' + (i * 5) % 26);
    b = a;
    if (pos == n) b += "Q"; else b[size_t(pos)] = 'Q';
  };
  out.push_back(make("string twins", "two string literals of every length 1..40 and around 64, 128, 256, 1000 that differ at every position or by one extra character, in 6 places, and the first one again", [twins](Chooser &ch, Case &c) {
    int place = ch.choose(6);
    std::string a, b;
    twins(ch, a, b, 40);
    a = "\"" + a + "\""; b = "\"" + b + "\"";
    Batch B;
    B.add(a, a, place); B.add(b, b, place); B.add(a, a, place); B.add(b, b, (place + 1) % 6);
    return B.done(c);
  }, literal_batch));
  out.push_back(make("name twins", "two identifiers of every length 1..40 and around 64, 128, 256, 1000 that differ at every position or by one extra character, as locals, globals, functions, parameters, constants", [twins](Chooser &ch, Case &c) {
    int use = ch.choose(5);
    std::string n, d;
    twins(ch, n, d, 40);
    n = "x" + n; d = "x" + d;
    switch (use) {
    case 0: c.files = {"function main()\n var " + n + "=1\n var " + d + "=2\n " + n + "+=" + d + "\n out(" + n + ")\n out(" + d + ")\nend\n", "out(3);out(2);"}; break;
    case 1: c.files = {"var " + n + " = 5\nvar " + d + " = 6\nfunction main()\n out(" + n + "*" + d + "-" + n + ")\nend\n", "out(25);"}; break;
    case 2: c.files = {"function " + n + "(a)\n out(a)\nend\nfunction " + d + "(a)\n out(0-a)\nend\nfunction main()\n " + n + "(1)\n " + d + "(2)\n var q = " + d + "\n q(3)\nend\n", "out(1);out(-2);out(-3);"}; break;
    case 3: c.files = {"function f(" + n + "," + d + ")\n out(" + n + ")\n out(" + d + ")\nend\nfunction main()\n f(3,4)\nend\n", "out(3);out(4);"}; break;
    case 4: c.files = {"const " + n + "=7\nconst " + d + "=8\nfunction main()\n if(" + n + "==7)\n  out(" + d + ")\n end\nend\n", "out(8);"}; break;
    }
    return true;
  }, literal_batch));
  // integers
  out.push_back(make("integer literals", "every digit string of 1.." + N(th ? 5 : 4) + " digits in 6 places, 50 per program", [th](Chooser &ch, Case &c) {
    int len = 1 + ch.choose(th ? 5 : 4), place = ch.choose(6);
    long total = 1;
    for (int i = 0; i < len; i++) total *= 10;
    long b = ch.choose(int((total + 49) / 50));
    Batch B;
    for (long x = b * 50; x < total && x < b * 50 + 50; x++) {
      std::string s = N(x);
      s = rep("0", len - int(s.size())) + s;
      B.add(s, int_value(s), place);
    }
    return B.done(c);
  }, literal_batch));
  out.push_back(make("wide integer literals", "digit strings around 2^31, 2^32, 2^63, 2^64, and of 1..60 digits, in 6 places", [](Chooser &ch, Case &c) {
    int place = ch.choose(6);
    const std::string &s = ch.pick(odd_ints());
    Batch B;
    B.add(s, int_value(s), place);
    return B.done(c);
  }, literal_batch));
  out.push_back(make("decimal literals", "every digit string of up to 2 digits before and up to " + N(th ? 4 : 3) + " digits after the point in 6 places, 50 per program", [th](Chooser &ch, Case &c) {
    int a = 1 + ch.choose(2), b = ch.choose(th ? 5 : 4), place = ch.choose(6);
    long A = a == 1 ? 10 : 100, Bn = 1;
    for (int i = 0; i < b; i++) Bn *= 10;
    long total = A * Bn, k = ch.choose(int((total + 49) / 50));
    Batch B;
    for (long x = k * 50; x < total && x < k * 50 + 50; x++) {
      std::string l = N(x / Bn), rr = b ? N(x % Bn) : "";
      l = rep("0", a - int(l.size())) + l;
      rr = rep("0", b - int(rr.size())) + rr;
      B.add(l + "." + rr, fval(l + "." + rr), place);
    }
    return B.done(c);
  }, literal_batch));
  out.push_back(make("wide decimal literals", "decimals with up to 45 digits on either side", [](Chooser &ch, Case &c) {
    static const Strs pat = {"9", "1", "0", "5", "49", "123456789"};
    std::string l = ch.pick(pat), rr = ch.pick(pat);
    l = rep(l, 45).substr(0, size_t(1 + ch.choose(45)));
    rr = rep(rr, 45).substr(0, size_t(ch.choose(46)));
    int place = ch.choose(2);
    Batch B;
    B.add(l + "." + rr, fval(l + "." + rr), place);
    return B.done(c);
  }, literal_batch));
  // strings: every content byte except the quote, the newline and the terminator
  auto bytes = [](int i) { int b = 1 + i; if (b >= 10) b++; if (b >= 34) b++; return char(b); };  // 253 values
  out.push_back(make("string literals", "every string content of one or two bytes in 6 places", [bytes](Chooser &ch, Case &c) {
    int place = ch.choose(6), a = ch.choose(254);
    Batch B;
    if (a == 253) {
      B.add("\"\"", "\"\"", place);
      for (int i = 0; i < 253; i++) { std::string s(1, bytes(i)); B.add("\"" + s + "\"", "\"" + s + "\"", place); }
    } else
      for (int i = 0; i < 253; i++) { std::string s{bytes(a), bytes(i)}; B.add("\"" + s + "\"", "\"" + s + "\"", place); }
    return B.done(c);
  }, from_file));
  out.push_back(make("string literals, longer", "every string of 3.." + N(th ? 6 : 5) + " characters from { # \\ space n ' = % } ", [th](Chooser &ch, Case &c) {
    static const std::string al = "#\\ n'=%";
    int len = 3 + ch.choose(th ? 4 : 3);
    std::string s;
    for (int i = 0; i < len - 2; i++) s += al[size_t(ch.choose(int(al.size())))];
    Batch B;
    for (char x : al)
      for (char y : al) B.add("\"" + s + x + y + "\"", "\"" + s + x + y + "\"", 0);
    return B.done(c);
  }, from_file));
  out.push_back(make("long lines", "a comment, a run of blanks, a line, a string of every length 0..300 and around every power of two up to 65536 (strings: 131072), alone, after code, and at the end of the file", [](Chooser &ch, Case &c) {
    int n = ch.choose(301 + 27);
    if (n > 300) { n -= 301; n = (512 << n / 3) + n % 3 - 1; }
    int how = ch.choose(9);
    if (n > 65537 && how != 5) return false;
    std::string a = rep("z", n), body = " out(1)\n out(2)\n", want = "out(1);out(2);", tail;
    switch (how) {
    case 0: body = " out(1)#" + a + "\n out(2)\n"; break;
    case 1: body = " out(1)\n#" + a + "\n out(2)\n"; break;
    case 2: tail = "#" + a; break;
    case 3: body = " out(1" + rep(" ", n) + ")\n out(2)" + rep("\t", n) + "\n"; break;
    case 4: body = rep("\n", n) + " out(1)\n" + rep(" \r\n", n) + "out(2)\n"; break;
    case 5: body = " out(1)\n var s = \"" + a + "\"\n out(len(s))\n out(2)\n"; want = "out(1);out(" + N(n) + ");out(2);"; break;
    case 6: { std::string e; for (int i = 0; i < n && i < 3000; i++) e += " + 0"; body = " out(1" + e + ")\n out(2)\n"; break; }
    case 7: { std::string e; for (int i = 0; i < n && i < 3000; i++) e += ", 0"; body = " outv(1" + e + ")\n"; want = "outv(1"; for (int i = 0; i < n && i < 3000; i++) want += "|0"; want += ");"; break; }
    case 8: body = " out(1)\n out(" + rep("0", n) + "2)\n"; break;
    }
    c.files = {"function main()\n" + body + "end\n" + tail, want};
    c.note = "length " + N(n);
    return true;
  }, from_file));
  out.push_back(make("comment contents", "comments of one or two arbitrary bytes after code, alone and at the end of the file", [bytes](Chooser &ch, Case &c) {
    int a = ch.choose(255), where = ch.choose(3);
    auto b = [&](int i) { return i == 253 ? '"' : bytes(i); };
    std::string body, want;
    int lim = a == 254 ? 1 : 254;
    std::string p0 = a == 254 ? "" : std::string(1, b(a));
    for (int i = 0; i < lim; i++) {
      std::string cm = "#" + p0 + (a == 254 ? "" : std::string(1, b(i)));
      if (where == 0) body += " out(" + N(i) + ")" + cm + "\n";
      else body += " out(" + N(i) + ")\n" + cm + "\n";
      want += "out(" + N(i) + ");";
    }
    c.files = {"function main()\n" + body + "end\n" + (where == 2 ? "#" + p0 : ""), want};
    return true;
  }, from_file));
}
