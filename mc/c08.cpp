// C08: any text compiles or is rejected with an error; the grammar and the static rules decide
#include "harness.h"
using namespace impl;
using corpus::N;
using corpus::rep;

static const char *good() {
  return "var g = 3\nconst c = 4\nfunction f(x)\n var l = [x, g]\n if (x > c)\n  return l[0]\n end\n return f(x + 1)\nend\nfunction main()\n return f(1) + c\nend\n";
}
static std::string good_result() {
  static std::string s;
  if (s.empty()) s = model({good()}, true).text();
  return s;
}

// verdict of the model and of the compiler on the same text
static void verdict(const Case &c, Result &r) {
  bool by_file = !c.note.empty() && c.note[0] == '@';
  std::vector<std::string> files = c.files;
  ref::Built b = ref::build(files, std_syscalls(), true);
  r.model_steps += c.files[0].size();
  for (int k = 0; k < 2 && !r.bad; k++) {
    std::unique_ptr<Compiled> cc;
    if (k == 1) b = ref::build(files, std_syscalls(), false);
    if (by_file) {
      std::string path = mc::scratch_dir() + "/in" + std::to_string(getpid()) + ".txt";
      FILE *f = fopen(path.c_str(), "wb");
      fwrite(c.files[0].data(), 1, c.files[0].size(), f);
      fclose(f);
      cc.reset(new Compiled);
      std_register(*cc->nano);
      cc->nano->optimize = k == 0;
      cc->loaded = cc->sources.load(path.c_str());
      if (cc->loaded) cc->ok = cc->nano->build(cc->sources, cc->err);
      unlink(path.c_str());
    } else
      cc = compile(c.files, k == 0);
    r.runs++;
    const bool empty = c.files[0].empty() || (!by_file && c.files[0][0] == 0);
    if (empty) {
      if (cc->ok) r.fail("an empty source was accepted");
      r.outcome = "empty";
      continue;
    }
    if (!cc->loaded) { r.fail("source not loaded"); return; }
    Outcome want, got;
    want.compiled = b.ok;
    want.err_file = b.err.file;
    want.err_line = b.err.line;
    compile_outcome(*cc, got);
    auto t = [](const Outcome &o) { return o.compiled ? std::string("accepted") : o.text(); };
    r.outcome = t(want);
    diff(r, std::string(k ? "unoptimised" : "optimised") + (b.ok ? "" : std::string(" (") + b.err.why + ")") + (got.compiled ? "" : " [" + got.err + "]"), t(want), t(got));
    if (!got.compiled) {
      if (got.err.empty()) r.fail("compile error without a message");
      if (!got.err.empty() && got.err.find('\0') != std::string::npos) r.fail("message holds NUL");
      // the line can be shown to the user
      if (got.err_line >= 1) {
        std::string l = cc->sources.get_line(cc->err.line);
        (void)l;
      }
      // the compiler object stays usable
      cc->nano->reset();
      std_register(*cc->nano);
      source_manager_t s2;
      s2.load_from_string(good());
      cerror_t e2;
      if (!cc->nano->build(s2, e2)) { r.fail("after a rejection a valid program was refused: " + e2.error); return; }
      std_resolve(cc->prog);
      Outcome o;
      o.compiled = true;
      run_program(cc->prog, o);
      diff(r, "valid program built after a rejection", good_result(), o.text());
    }
  }
}

// ------------------------------------------------------------------ token sequences
struct Ctx {
  const char *name, *pre, *post;
  Strs toks;
  int quick, thorough;
};
static bool viable(const std::string &text) {
  ref::Program P;
  ref::Parser ps(P, 0);
  ps.on_import = [](int, const std::string &) { return true; };
  try {
    ps.t = ref::lex(text, 0);
    ps.file_body();
  } catch (const ref::Reject &e) {
    return e.at_eof;
  }
  return true;
}
static const std::vector<Ctx> &contexts() {
  static const std::vector<Ctx> c = {
      {"top level", "", "", {"function", "var", "const", "import", "a", "main", "1", "\"s\"", "none", "(", ")", ",", "=", "\n", "end", "return", "[", "]", "-", "+", "not", "if", "else", "while", "for", "to", ".", "0.5", "=="}, 5, 6},
      {"statements", "function f(p)\n", "\nend\n", {"p", "q", "1", "(", ")", ",", "=", "\n", "end", "return", "[", "]", "-", "+", "if", "else", "while", "for", "to", "var", "const", "function", "import", "none", ".", "not", "*", "/", "%", "<", "and"}, 4, 5},
      {"expressions", "var a = 1\nvar z = ", "\nfunction f(x)\nend\n", {"a", "f", "1", "\"s\"", "none", "(", ")", ",", "=", "\n", "end", "[", "]", "-", "+", "not", "*", "==", "and", ".", "0.5", "<", "<=", "function"}, 4, 6},
      {"after if", "function f(p)\n if (p)\n", "\nend\nend\n", {"p", "(", ")", "=", "\n", "end", "else", "return", "if", "while", "1", "var", "for", "function"}, 5, 7},
      {"for header", "function f(p)\n for (p", "\nend\nend\n", {"p", "1", "(", ")", "=", "\n", "to", "end", ",", "-", "+", "[", "]", "not"}, 6, 8},
      {"parameters", "function f(", "\nend\n", {"a", "b", ",", ")", "(", "\n", "end", "1", "none", "=", "var", "return"}, 6, 8},
      {"subscript target", "var g = [1, 2]\nfunction f()\n g[", "\nend\n", {"0", "g", "]", "[", "=", "(", ")", "\n", ",", "+", "-", "end", "."}, 5, 7},
      {"call arguments", "function h(a, b)\nend\nfunction f()\n h(", "\nend\n", {"1", "h", ",", ")", "(", "[", "]", "\n", "+", "-", "=", "not", "end"}, 5, 7},
      {"small grammar", "function f(p)\n", "\nend\n", {"p", "(", ")", "=", "\n", "end", "if", "else", "while", "return", "+"}, 6, 8},
      {"operators", "function f(p)\n return ", "\nend\n", {"p", "1", "(", ")", "-", "not", "+", "*", "and", "<", "\n"}, 5, 8},
      {"constants", "const k = ", "\nfunction f(p)\n return k\nend\n", {"1", "0", "k", "j", "(", ")", "-", "+", "/", "not", "\"s\"", "none", "\nconst j =", "\nvar v =", "0.5", "["}, 4, 6},
  };
  return c;
}
static Space token_space(const Ctx &x, bool th, bool as) {
  const int len = th ? x.thorough : as ? x.quick - 1 : x.quick;
  const Ctx *cx = &x;
  return make(std::string("tokens: ") + x.name,
              "every token string of length <= " + N(len) + " over " + N(long(x.toks.size())) + " tokens in this context, extended while it stays a prefix of a grammatical text; bare and with the context closed",
              [cx, len](Chooser &ch, Case &c) {
                std::string t = cx->pre;
                for (int i = 0; i < len; i++) {
                  int k = ch.choose(int(cx->toks.size()) + 1);
                  if (k == 0) break;
                  t += " " + cx->toks[k - 1];
                  if (!viable(t)) break;
                }
                c.files = {ch.flip() ? t + cx->post : t};
                return true;
              },
              verdict);
}

static const Strs &samples() {
  static const Strs s = {
      "var g = 12\nconst c = \"x\"\nfunction f(a, b)\n return a[0] + b * -1.5\nend\n",
      "function m()\n var i\n for (i = 0 to 3)\n  if (not i == 1) # c\n   i += 2\n  else\n   g.x = none\n  end\n end\nend\nvar g\n",
      "function w(x)\n while (x <= 10)\n  x = w(x) % 3\n  q[x] = [1, \"s\"]\n end\nend\nvar q = -1\n",
  };
  return s;
}

// tokens of a text with their spelling, as the model sees them
static std::vector<std::string> split_tokens(const std::string &s) {
  std::vector<std::string> o;
  size_t p = 0;
  while (p < s.size()) {
    char c = s[p];
    if (c == ' ' || c == '\t' || c == '\r') { p++; continue; }
    size_t e = p + 1;
    if (c == '\n') { o.push_back("\n"); p++; continue; }
    if (c == '#') { while (e < s.size() && s[e] != '\n') e++; p = e; continue; }
    if (c == '"') { while (e < s.size() && s[e] != '"') e++; e++; }
    else if (ref::word_start(c)) while (e < s.size() && ref::word_char(s[e])) e++;
    else if (ref::digit(c)) while (e < s.size() && (ref::digit(s[e]) || s[e] == '.')) e++;
    else if (e < s.size() && s[e] == '=' && (c == '=' || c == '<' || c == '>')) e++;
    o.push_back(s.substr(p, e - p));
    p = e;
  }
  return o;
}
static const Strs &edits() {
  static const Strs e = {"(", ")", "[", "]", ",", "=", "==", "+", "-", "*", "not", "and", "\n", "end", "else", "if", "while", "for", "to", "var", "const", "function", "return", "none", "x", "main", "7", "0", "1.5", "\"t\"", ".", "import"};
  return e;
}
static std::string join(const std::vector<std::string> &t) {
  std::string o;
  for (auto &x : t) o += x == "\n" ? x : x + " ";
  return o;
}
static bool edit(Chooser &ch, Case &c, const std::string &src, const Strs &with) {
  std::vector<std::string> t = split_tokens(src);
  int i = ch.choose(int(t.size()));
  int k = ch.choose(3 + int(with.size()) * 2);
  if (k == 0) t.erase(t.begin() + i);
  else if (k == 1) t.insert(t.begin() + i, t[size_t(i)]);
  else if (k == 2) { if (i + 1 >= int(t.size())) return false; std::swap(t[size_t(i)], t[size_t(i) + 1]); }
  else {
    const std::string &w = with[size_t((k - 3) / 2)];
    if ((k - 3) % 2) t.insert(t.begin() + i, w);
    else t[size_t(i)] = w;
  }
  c.files = {join(t)};
  return true;
}

// texts whose nesting exhausts the process stack, run apart
static void deep(const Case &c, Result &r) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    rlimit l;
    getrlimit(RLIMIT_STACK, &l);
    l.rlim_cur = 8 << 20;
    setrlimit(RLIMIT_STACK, &l);
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 2);
    auto cc = compile(c.files, true);
    _exit(cc->ok || !cc->err.error.empty() ? 0 : 3);
  }
  int st = 0;
  waitpid(p, &st, 0);
  r.runs++;
  r.outcome = std::to_string(st);
  if (WIFSIGNALED(st)) finding(r, "C08", "nesting 100000 deep overflows the compiler's stack: " + c.note);
  else if (!WIFEXITED(st) || WEXITSTATUS(st)) r.fail("neither accepted nor rejected: " + c.note);
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  const bool as = tier == "asan";
  const int chars = th ? 5 : as ? 3 : 4;
  for (auto &x : contexts()) out.push_back(token_space(x, th, as));
  out.push_back(make("characters", "every string of length <= " + N(chars) + " over 21 characters (letters, digits, quotes, operators, layout, comment, bytes outside the language)", [chars](Chooser &ch, Case &c) {
    static const char al[] = "a1\".#\n \t\r=<>-([,$\x01\xff_e";
    std::string t;
    for (int i = 0; i < chars; i++) {
      int k = ch.choose(int(sizeof al));
      if (!k) break;
      t += al[k - 1];
    }
    c.files = {t};
    return true;
  }, verdict));
  out.push_back(make("characters in an expression", "every string of length <= " + N(chars) + " over 14 characters after 'var a ='", [chars](Chooser &ch, Case &c) {
    static const char al[] = "a1\".#\n =<-([)e";
    std::string t = "var a = ";
    for (int i = 0; i < chars; i++) {
      int k = ch.choose(int(sizeof al));
      if (!k) break;
      t += al[k - 1];
    }
    c.files = {t + (ch.flip() ? "\nvar b = 2\n" : "")};
    return true;
  }, verdict));
  out.push_back(make("bytes", "every byte value" + std::string(as ? " of 20" : "") + " inserted or replaced at every position of 3 programs, loaded from a file", [as](Chooser &ch, Case &c) {
    std::string s = ch.pick(samples());
    int i = ch.choose(int(s.size()) + 1);
    static const char some[] = "\0\x01\x7f\x80\xff\n\r\t \"#a9_.=$(,";
    int b = as ? some[ch.choose(20)] : ch.choose(256);
    bool ins = ch.flip();
    if (!ins && i >= int(s.size())) return false;
    if (ins) s.insert(s.begin() + i, char(b));
    else s[size_t(i)] = char(b);
    c.files = {s};
    c.note = "@file";
    return true;
  }, verdict));
  out.push_back(make("truncation", "every prefix of every feature program", [](Chooser &ch, Case &c) {
    const std::string &s = ch.pick(features());
    c.files = {s.substr(0, size_t(ch.choose(int(s.size()) + 1)))};
    return true;
  }, verdict));
  out.push_back(make("suffixes", "every suffix of every feature program", [](Chooser &ch, Case &c) {
    const std::string &s = ch.pick(features());
    c.files = {s.substr(size_t(ch.choose(int(s.size()))))};
    return true;
  }, verdict));
  out.push_back(make("deleted spans", "every contiguous span of tokens deleted from 3 programs", [](Chooser &ch, Case &c) {
    auto t = split_tokens(ch.pick(samples()));
    int i = ch.choose(int(t.size())), n = 1 + ch.choose(int(t.size()) - i);
    t.erase(t.begin() + i, t.begin() + i + n);
    c.files = {join(t)};
    return true;
  }, verdict));
  out.push_back(make("sample edits", "every single token deletion, duplication, swap, and insertion or replacement by 32 tokens in 3 programs", [as](Chooser &ch, Case &c) {
    return edit(ch, c, ch.pick(samples()), as ? Strs() : edits());
  }, verdict));
  out.push_back(make("feature edits", "every single token deletion, duplication and swap" + std::string(th ? " and insertion or replacement by 32 tokens" : " and insertion or replacement by 3 tokens") + " in every feature program", [th, as](Chooser &ch, Case &c) {
    static const Strs few = {"(", "end", "x"};
    return edit(ch, c, ch.pick(features()), th ? edits() : as ? Strs() : few);
  }, verdict));
  out.push_back(make("script edits", "every single token deletion, duplication and swap in every script of the repository's tests", [](Chooser &ch, Case &c) {
    auto &v = repo_scripts();
    if (v.empty()) return false;
    auto &x = v[size_t(ch.choose(int(v.size())))];
    if (x.second.find("import") != std::string::npos || x.second.size() > 4000) return false;
    return edit(ch, c, x.second, {});
  }, verdict));
  if (th) out.push_back(make("double edits", "every pair of token deletions in 3 programs", [](Chooser &ch, Case &c) {
    auto t = split_tokens(ch.pick(samples()));
    int i = ch.choose(int(t.size()));
    t.erase(t.begin() + i);
    int j = ch.choose(int(t.size()));
    if (j < i) return false;
    t.erase(t.begin() + j);
    c.files = {join(t)};
    return true;
  }, verdict));
  if (!as && tier != "asan+") out.push_back(make("deep nesting", "the listed nestings at depth 100000", [](Chooser &ch, Case &c) {
    const long n = 100000;
    switch (ch.choose(6)) {
    case 0: c.note = "parentheses"; c.files = {"function main()\n return " + rep("(", n) + "1" + rep(")", n) + "\nend\n"}; break;
    case 1: c.note = "unary minus"; c.files = {"function main(x)\n return " + rep("- ", n) + "x\nend\n"}; break;
    case 2: c.note = "array brackets"; c.files = {"function main()\n return " + rep("[", n) + "1" + rep("]", n) + "\nend\n"}; break;
    case 3: c.note = "if statements"; c.files = {"function main()\n" + rep("if (1)\n", n) + rep("end\n", n) + "end\n"}; break;
    case 4: c.note = "binary chain"; c.files = {"function main(x)\n return x" + rep(" + 1", n) + "\nend\n"}; break;
    case 5: c.note = "not chain"; c.files = {"function main(x)\n return " + rep("not ", n) + "x\nend\n"}; break;
    }
    return true;
  }, deep));
  out.push_back(sizes_space(th, verdict, th ? 4000 : 600));
}
