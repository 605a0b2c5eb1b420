// C12: run-time source positions are exact
#include "harness.h"
using namespace impl;
using corpus::N;

struct At {
  int file, line;
  bool opt;
};
static std::string show(int f, int l) { return std::to_string(f) + ":" + std::to_string(l); }

// does the sequence of executed lines match what the model says control reaches?
struct Matcher {
  const std::vector<At> &m;
  bool loose;  // lines may be missing (optimised code), but never wrong or out of order
  std::set<int> st{-1};
  int low = -1;
  Matcher(const std::vector<At> &m_, bool l) : m(m_), loose(l) {}
  bool step(int file, int line) {
    auto eq = [&](int i) { return i >= 0 && m[size_t(i)].file == file && m[size_t(i)].line == line; };
    if (loose) {
      if (eq(low)) return true;
      for (int i = low + 1; i < int(m.size()); i++)
        if (eq(i)) { low = i; return true; }
      return false;
    }
    std::set<int> n;
    for (int i : st) {
      if (eq(i)) n.insert(i);
      for (int j = i + 1; j < int(m.size()); j++) {
        if (eq(j)) n.insert(j);
        if (!m[size_t(j)].opt && !(j > 0 && same(j, j - 1))) break;
      }
    }
    st = n;
    return !st.empty();
  }
  bool same(int a, int b) const { return m[size_t(a)].file == m[size_t(b)].file && m[size_t(a)].line == m[size_t(b)].line; }
  bool done() const {
    if (loose) return true;
    for (int i : st) {
      bool ok = true;
      for (int j = i + 1; j < int(m.size()); j++)
        if (!m[size_t(j)].opt && !(j > 0 && same(j, j - 1))) { ok = false; break; }
      if (ok) return true;
    }
    return false;
  }
  std::string where() const {
    std::string o;
    int i = loose ? low : (st.empty() ? -1 : *st.begin());
    for (int j = std::max(0, i - 2); j < int(m.size()) && j < i + 5; j++) o += (j == i ? " [" : " ") + show(m[size_t(j)].file, m[size_t(j)].line) + (m[size_t(j)].opt ? "?" : "") + (j == i ? "]" : "");
    return o;
  }
};

static std::vector<std::string> lines_of(const std::string &s) {
  std::vector<std::string> v{""};
  for (char c : s) {
    if (c == '\n') v.push_back("");
    else v.back() += c;
  }
  return v;
}

static void positions(const Case &c, Result &r) {
  for (int k = 0; k < 2 && !r.bad; k++) {
    auto cc = compile(c.files, k == 0);
    std::vector<At> want;
    std::vector<std::pair<int, int>> calls, got_calls;
    ModelOpts mo;
    mo.fuel = c.note.empty() ? 6000 : 60000;
    mo.before = [&](ref::Machine &m) {
      ref::Machine *M = &m;
      m.visit = [&want](int f, int l, bool o) { if (want.size() < 200000) want.push_back({f, l, o}); };
      m.on_call = [&calls, M] { calls.push_back({M->file, M->line}); };
    };
    Outcome m = model(c.files, k == 0, cc->ok ? &cc->prog : nullptr, mo);
    r.model_steps += m.steps;
    if (m.diverged) { r.outcome = "DIVERGED"; continue; }
    Outcome o;
    compile_outcome(*cc, o);
    r.runs++;
    if (o.compiled && m.compiled) {
      std::vector<std::vector<std::string>> text;
      for (auto &f : c.files) text.push_back(lines_of(f));
      Matcher mt(want, k == 0);
      RunOpts ro;
      ro.drive_init = true;
      ro.on_call = [&](thread_t &t) { line_t l = t.get_source_line(); got_calls.push_back({l.file, l.line}); };
      ro.drive = [&](thread_t &t) {
        uint64_t n = 0;
        while (!t.finished() && n++ < 400000) {
          line_t l = t.get_source_line();
          if (l.line >= 1 && !r.bad) {
            if (l.file < 0 || l.file >= int(text.size()) || l.line > int(text[size_t(l.file)].size())) {
              r.fail("reported line " + show(l.file, l.line) + " is not in the sources");
            } else if (!mt.step(l.file, l.line))
              r.fail(std::string(k ? "unoptimised" : "optimised") + ": instruction " + std::to_string(n) + " reports line " + show(l.file, l.line) + ", control is at" + mt.where());
            else {
              std::string s = cc->sources.get_line(l);
              while (!s.empty() && (s.back() == '\n')) s.pop_back();
              if (s != text[size_t(l.file)][size_t(l.line - 1)]) r.fail("text of line " + show(l.file, l.line) + " is reported as '" + s + "'");
            }
          }
          t.step_inst();
        }
      };
      run_program(cc->prog, o, ro);
      r.impl_steps += o.steps;
      if (!r.bad && !mt.done()) r.fail(std::string(k ? "unoptimised" : "optimised") + ": lines never reported, control ended at" + mt.where());
      if (!r.bad && calls != got_calls) {
        for (size_t i = 0; i < calls.size() || i < got_calls.size(); i++) {
          std::string a = i < calls.size() ? show(calls[i].first, calls[i].second) : "none", b = i < got_calls.size() ? show(got_calls[i].first, got_calls[i].second) : "none";
          if (a != b) { r.fail("host call " + std::to_string(i) + " is on line " + a + " but reported on " + b); break; }
        }
      }
    }
    diff(r, k ? "unoptimised" : "optimised", m.text(), o.text());
    r.outcome = m.text();
    // pause on every line that is reached
    if (r.bad || k == 0 || !o.compiled || !m.compiled || want.size() > 400) continue;
    std::set<std::pair<int, int>> ls;
    for (auto &a : want)
      if (!a.opt) ls.insert({a.file, a.line});
    for (auto &l : ls) {
      RunOpts ro;
      int stops = 0;
      ro.drive = [&](thread_t &t) {
        t.breakpoint_add(line_t{l.first, l.second});
        for (int i = 0; i < 3000 && !t.finished(); i++) {
          t.resume(100000);
          if (t.finished()) break;
          stops++;
          line_t x = t.get_source_line();
          if (x.file != l.first || x.line != l.second) { r.fail("breakpoint on " + show(l.first, l.second) + " pauses on " + show(x.file, x.line)); return; }
        }
      };
      Outcome o2;
      run_program(cc->prog, o2, ro);
      r.runs++;
      if (r.bad) break;
    }
  }
}

static const Strs &faults() {
  static const Strs f = {"r = 1 / z", "r = z[0]", "r = a[9]", "r = a[z](1)", "r = none + 1", "r = -none", "r = abs(\"s\")", "r = f(1)[0]", "a[7] = 1", "a.q = 1", "r = a.q", "r = z(1)", "z(1)", "r = c + z[1]", "r = f(f(1 / z))", "r += none", "f(none - 1)", "return 1 / z", "return z.q", "if (z[1])\n end", "while (none < 1)\n end", "for (r = none to 3)\n end", "for (r = 0 to none)\n end", "for (r = 0 to a)\n end", "r = [1, 2 / z, out(1)]", "r = out(1) + out(2) / z", "var q = k(3) % z", "r = s - 1"};
  return f;
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  out.push_back(features_space(positions));
  out.push_back(scripts_space(positions));
  out.push_back(make("faults", "every fault statement at every offset of 0..6 blank or comment lines, in a nested place, 1..3 calls deep, in file 0, 1 or 2", [](Chooser &ch, Case &c) {
    std::string f = ch.pick(faults());
    static const Strs places = {"@", "if (1)\n\n @\n end", "while (w > 0)\n w -= 1\n @\n end", "for (i = 0 to 2)\n # c\n @\n end", "if (z)\n out(9)\n else\n @\n end"};
    std::string p = ch.pick(places);
    int pad = ch.choose(7), depth = ch.choose(3), file = ch.choose(3);
    p.replace(p.find('@'), 1, f);
    std::string bad = "function bad(w, i)\n var r = 0\n var z = 0\n var a = [1, f]\n var s = \"x\"\n out(s)\n" + rep(pad % 2 ? "# pad\n" : "\n", pad) + " " + p + "\n\n out(5)\n return r\nend\n";
    std::string base = "const c = 4\nfunction f(x)\n return x\nend\nfunction k(n)\n return out(n)\nend\n";
    std::string mn = "function main()\n out(c)\n var q = d0(1)\n return q\nend\n";
    for (int i = 0; i < 3; i++) mn += "function d" + N(i) + "(x)\n" + rep("\n", i) + " out(x)\n var r = 1 + " + (i < depth ? "d" + N(i + 1) + "(x + 1)" : std::string("bad(2, 3)")) + " * 2\n return r\nend\n";
    c.files = {"\n" + base, "\n\n# second\n" + mn, "var unused = 3\n"};
    c.files[size_t(file)] += bad;
    return true;
  }, positions));
  out.push_back(make("carriage returns", "every fault statement in sources whose lines end in newline, carriage return and newline, or alternately; with a lone carriage return, tab or both between any two tokens of one of its lines", [](Chooser &ch, Case &c) {
    std::string f = ch.pick(faults());
    int ends = ch.choose(3), what = ch.choose(4), at = ch.choose(6), second = ch.choose(2);
    if (!what && at) return false;
    Strs l = {"const c = 4", "function f(x)", " return x", "end", "function k(n)", " return out(n)", "end", "function main()", " var r = 0", " var z = 0", " var a = [1, f]", " var s = \"x\"", "", " out(s)"};
    size_t nl = f.find('\n');
    l.push_back(" " + f.substr(0, nl));
    if (nl != std::string::npos) l.push_back(f.substr(nl + 1));
    l.push_back(" out(c)");
    l.push_back(" return r");
    l.push_back("end");
    // the place: in the line at 'at', at its start, at each of its spaces or at its end
    static const int lines[] = {0, 9, 10, 12, 14, 13};
    std::string &x = l[size_t(lines[at])];
    if (what) {
      const std::string w = what == 1 ? "\r" : what == 2 ? "\t" : "\r\t\r";
      std::vector<size_t> places = {0};
      bool quoted = false;
      for (size_t i = 0; i < x.size(); i++) {
        if (x[i] == '"') quoted = !quoted;
        if (x[i] == ' ' && !quoted) places.push_back(i + 1);
      }
      places.push_back(x.size());
      x.insert(ch.pick(places), w);
    }
    std::string t;
    for (size_t i = 0; i < l.size(); i++) t += l[i] + (ends == 1 || (ends == 2 && i % 2) ? "\r\n" : "\n");
    c.files = second ? Strs{"var unused = 3\r\nvar u2 = 4\r\n", t} : Strs{t};
    return true;
  }, positions));
  out.push_back(make("far lines", "fault, host call and breakpoint after n blank lines, n around every power of two up to 2^17", [](Chooser &ch, Case &c) {
    static const std::vector<long> n = {0, 1, 2, 3, 7, 15, 31, 63, 126, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 131072};
    long k = ch.pick(n);
    std::string f = ch.pick(faults());
    c.files = {"const c = 1\nfunction f(x)\n return x\nend\nfunction k(x)\n return x\nend\nfunction main()\n var r = 1\n var z = 0\n var a = [1]\n var s = \"q\"\n" + rep("\n", k) + " out(c)\n " + f + "\nend\n"};
    c.note = "far";
    return true;
  }, positions));
  out.push_back(make("many files", "programs of n files, n around every power of two up to 1024: host call, breakpoint, pause and fault in the first, second, middle, last but one or last file", [](Chooser &ch, Case &c) {
    static const std::vector<int> n = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025};
    int k = ch.pick(n), w = ch.choose(5);
    int at = w == 0 ? 0 : w == 1 ? std::min(1, k - 1) : w == 2 ? k / 2 : w == 3 ? std::max(0, k - 2) : k - 1;
    std::string f = ch.pick(std::vector<std::string>{"r = 1 / z", "out(c)", "return g0[0]"});
    for (int i = 0; i < k; i++) {
      c.files.push_back(rep("\n", i % 3) + "var g" + N(i) + " = " + (i ? "g" + N(i - 1) + " + 1" : "0") + "\n");
      if (i == at) c.files.back() += "const c = 3\nfunction bad(z)\n var r = 2\n out(r)\n\n " + f + "\n return r\nend\n";
      if (i == 0) c.files.back() += "function main()\n out(1)\n return bad(0)\nend\n";
    }
    return true;
  }, positions));
  out.push_back(make("constants and globals", "constants and global initialisers used lines (and files) away from their declaration", [](Chooser &ch, Case &c) {
    static const Strs ini = {"5", "\"s\"", "none", "2 * 3", "-4", "not 0", "1.5", "c0 + 1"};
    static const Strs use = {"out(k)", "out(k + k)", "var v = k\n out(v)", "return k", "var v = [k, k]\n out(v)", "if (k)\n  out(k)\n end", "out(k / 0)", "out(f(k))", "out(k[0])", "var v = k(1)", "out(g + k)", "g = k\n out(g)"};
    std::string i = ch.pick(ini), u = ch.pick(use);
    int gap = ch.choose(3), split = ch.choose(3);
    std::string decl = rep("\n", gap) + "const c0 = 2\n\nconst k = " + i + "\nvar g = " + i + "\n", m = "function f(x)\n return x\nend\n\nfunction main()\n out(1)\n " + u + "\n out(2)\nend\n";
    if (split == 0) c.files = {decl + m};
    if (split == 1) c.files = {decl, m};
    if (split == 2) c.files = {m, decl};
    return true;
  }, positions));
  out.push_back(make("global initialisers", "3 globals with call, fault or constant initialisers spread over lines and files", [](Chooser &ch, Case &c) {
    static const Strs ini = {"1", "out(1)", "f(2)", "[1, out(3)]", "1 / z", "z[1]", "f(none + 1)"};
    int split = ch.choose(4), gap = ch.choose(2);
    std::string a, b = "function f(x)\n out(x)\n return x\nend\nfunction main()\n out(0)\nend\n";
    std::string *cur = &a;
    c.files = {"var z = 0\n"};
    for (int i = 0; i < 3; i++) {
      if (i == split) { c.files[0] += a; a.clear(); c.files.push_back(""); }
      a += rep("\n", gap) + "var v" + N(i) + " = " + ch.pick(ini) + "\n";
    }
    (void)cur;
    c.files.back() += a + b;
    return true;
  }, positions));
  for (int lv = 0; lv <= 2; lv++) out.push_back(blocks_space(1, lv, 1, positions));
  out.push_back(blocks_space(2, th ? 2 : 1, 1, positions));
  out.push_back(blocks_space(3, th ? 0 : -1, 2, positions));
  if (th) out.push_back(blocks_space(4, -1, 2, positions));
  out.push_back(sizes_space(th, positions, th ? 700 : 70));
  out.push_back(wide_space(th, th ? 65 : 13, positions));
}
