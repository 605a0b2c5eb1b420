// C14: imports
#include "harness.h"
#include <dirent.h>
using namespace impl;
using corpus::N;

// c.files: "path\ntext" per file (path relative to the working directory); c.note: sources given to the compiler, separated by '|':
// "load SPELLING", "string PATH" (the text of that file, given as a string)
typedef std::map<std::string, std::string> Tree;

static std::string canon(const std::string &p) {
  std::vector<std::string> v;
  std::string part;
  for (size_t i = 0; i <= p.size(); i++) {
    if (i < p.size() && p[i] != '/') { part += p[i]; continue; }
    if (part == "..") {
      if (!v.empty() && v.back() != "..") v.pop_back();
      else v.push_back("..");  // outside the tree: nothing there
    }
    else if (part != "." && !part.empty()) v.push_back(part);
    part.clear();
  }
  std::string o;
  for (auto &x : v) o += (o.empty() ? "" : "/") + x;
  return o;
}
static std::string dir_of(const std::string &p) {
  size_t n = p.rfind('/');
  return n == std::string::npos ? "" : p.substr(0, n);
}
static void remove_tree(const std::string &d) {
  DIR *h = opendir(d.c_str());
  if (!h) return;
  while (dirent *e = readdir(h)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    if (unlink(p.c_str()) != 0) remove_tree(p);
  }
  closedir(h);
  rmdir(d.c_str());
}

static void imports(const Case &c, Result &r) {
  Tree fs;
  std::vector<std::string> dirs;
  for (auto &f : c.files) {
    size_t n = f.find('\n');
    std::string path = f.substr(0, n);
    if (path.back() == '/') dirs.push_back(path.substr(0, path.size() - 1));
    else fs[path] = f.substr(n + 1);
  }
  // lay the tree out
  const std::string work = scratch_file("tree");
  mkdir(work.c_str(), 0700);
  auto mkdirs = [&](const std::string &p) {
    for (size_t i = 0; i < p.size(); i++)
      if (p[i] == '/') mkdir((work + "/" + p.substr(0, i)).c_str(), 0700);
  };
  for (auto &d : dirs) { mkdirs(d + "/"); }
  for (auto &f : fs) {
    mkdirs(f.first);
    write_file(work + "/" + f.first, f.second);
  }
  if (chdir(work.c_str()) != 0) { r.fail("harness: chdir"); return; }
  std::vector<std::string> given;
  std::string part;
  for (char ch : c.note + "|")
    if (ch == '|') { given.push_back(part); part.clear(); }
    else part += ch;
  for (int k = 0; k < 2 && !r.bad; k++) {
    const bool opt = k == 0;
    // the model's list of sources
    std::vector<std::string> texts, paths;  // path "" : given as a string
    auto load = [&](const std::string &p) {
      for (auto &q : paths)
        if (!q.empty() && q == p) return true;
      if (!fs.count(p)) return false;
      paths.push_back(p);
      texts.push_back(fs[p]);
      return true;
    };
    std::unique_ptr<Compiled> cc(new Compiled);
    std_register(*cc->nano);
    cc->nano->optimize = opt;
    const int files_before = open_files();
    for (auto &g : given) {
      bool want, got;
      if (g.compare(0, 7, "string ") == 0) {
        paths.push_back("");
        texts.push_back(fs[g.substr(7)]);
        want = true;
        got = cc->sources.load_from_string(fs[g.substr(7)].c_str());
      } else {
        std::string sp = g.substr(5);
        // spellings of absolute names start with '@'
        want = load(canon(sp[0] == '@' ? sp.substr(1) : sp));
        got = cc->sources.load((sp[0] == '@' ? work + "/" + sp.substr(1) : sp).c_str());
      }
      if (want != got) r.fail("loading " + g + (got ? " succeeded" : " failed"));
    }
    if (int(paths.size()) != cc->sources.count()) r.fail(N(cc->sources.count()) + " sources instead of " + N(long(paths.size())));
    if (paths.empty() || r.bad) break;
    auto on_import = [&](int from, const std::string &name) { return load(canon(dir_of(paths[from]) + "/" + name)); };
    texts.reserve(4096);
    ref::Built b = ref::build(texts, std_syscalls(), opt, on_import);
    cc->ok = cc->nano->build(cc->sources, cc->err);
    if (cc->ok) std_resolve(cc->prog);
    Outcome m, o;
    run_model(b, m, cc->ok ? &cc->prog : nullptr);
    r.model_steps += m.steps;
    compile_outcome(*cc, o);
    if (o.compiled && m.compiled) {
      run_program(cc->prog, o);
      r.impl_steps += o.steps;
    }
    if (!o.compiled && o.err.empty()) r.fail("compile error without a message");
    diff(r, opt ? "optimised build" : "unoptimised build", m.text(), o.text());
    // the list of sources and the text of every line
    if (cc->sources.count() != int(paths.size())) r.fail(N(cc->sources.count()) + " sources instead of " + N(long(paths.size())) + " after the build");
    for (int i = 0; i < int(paths.size()) && !r.bad; i++) {
      if (!paths[i].empty()) {
        std::string p = cc->sources.get_source(i).file_path();
        if (p.compare(0, work.size(), work) == 0) p = p.substr(work.size());
        diff(r, "path of source " + N(i), paths[i], canon(p));
      }
      diff(r, "text of source " + N(i), texts[i], cc->sources.get_source(i).data());
      int line = 1;
      size_t at = 0;
      while (at < texts[i].size()) {
        size_t e = texts[i].find('\n', at);
        if (e == std::string::npos) e = texts[i].size() - 1;
        diff(r, "line " + N(line) + " of source " + N(i), texts[i].substr(at, e + 1 - at), cc->sources.get_line(line_t{i, line}));
        at = e + 1;
        line++;
      }
    }
    if (open_files() != files_before) r.fail("a file was left open");
    r.runs++;
    r.outcome = m.text();
  }
  if (chdir(mc::scratch_dir().c_str()) != 0) r.fail("harness: chdir");
  remove_tree(work);
}

// a file's own declarations: an initialiser that is seen when it runs, a constant, a function
static std::string decls(int i) {
  std::string k = N(i);
  return "var g" + k + " = outv(" + k + ")\nconst k" + k + " = " + N(10 + i) + "\nfunction f" + k + "(x)\n return outv(x + k" + k + ")\nend\n";
}
static std::string file(const std::string &path, const std::string &text) { return path + "\n" + text; }
static std::string main_for(const std::vector<bool> &reach) {
  std::string o = "function main()\n";
  for (size_t i = 0; i < reach.size(); i++)
    if (reach[i]) o += " f" + N(long(i)) + "(g" + N(long(i)) + " + k" + N(long(i)) + ")\n";
  return o + " return g0\nend\n";
}
static std::vector<bool> reachable(const std::vector<std::vector<int>> &e) {
  std::vector<bool> r(e.size());
  std::vector<int> todo = {0};
  r[0] = true;
  while (!todo.empty()) {
    int x = todo.back();
    todo.pop_back();
    for (int y : e[x])
      if (!r[y]) { r[y] = true; todo.push_back(y); }
  }
  return r;
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough";
  auto graph = [](int n) {
    return [n](Chooser &ch, Case &c) {
      std::vector<std::vector<int>> e(n);
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          if (ch.flip()) e[i].push_back(j);
      auto R = reachable(e);
      for (int i = 0; i < n; i++) {
        if (!R[i] && !e[i].empty()) return false;  // same behaviour as without its imports
        std::string o;
        for (int j : e[i]) o += "import \"m" + N(j) + ".txt\"\n";
        o += decls(i);
        if (i == 0) o += main_for(R);
        c.files.push_back(file("m" + N(i) + ".txt", o));
      }
      c.note = "load m0.txt";
      return true;
    };
  };
  out.push_back(make("import graphs 3", "every directed graph over 3 files, self imports included", graph(3), imports));
  out.push_back(make("import graphs 4", "every directed graph over 4 files, self imports included", graph(4), imports));
  auto lists = [](int n, int len) {
    return [n, len](Chooser &ch, Case &c) {
      std::vector<std::vector<int>> e(n);
      for (int i = 0; i < n; i++) {
        int l = ch.choose(len + 1);
        for (int j = 0; j < l; j++) e[i].push_back(ch.choose(n));
      }
      int where = ch.choose(3);
      auto R = reachable(e);
      for (int i = 0; i < n; i++) {
        if (!R[i] && !e[i].empty()) return false;
        std::string I, o, D = decls(i) + (i == 0 ? main_for(R) : "");
        for (int j : e[i]) I += "import \"m" + N(j) + ".txt\"\n";
        if (where == 0) o = I + D;
        if (where == 1) o = D + I;
        if (where == 2) {
          size_t at = 0;
          o = D;
          for (int j : e[i]) {
            at = o.find('\n', at) + 1;
            if (o.compare(at, 8, "function") == 0) at = o.find("end\n", at) + 4;
            std::string s = "import \"m" + N(j) + ".txt\"\n";
            o.insert(at, s);
            at += s.size() - 1;
          }
        }
        c.files.push_back(file("m" + N(i) + ".txt", o));
      }
      c.note = "load m0.txt";
      return true;
    };
  };
  out.push_back(make("import lists", "3 files with every list of up to 2 imports each (repeats included), before, after and between the declarations", lists(3, 2), imports));
  if (th) out.push_back(make("import lists 3", "3 files with every list of up to 3 imports each", lists(3, 3), imports));
  // ---- directories and spellings
  auto spell = [](const std::string &from, const std::string &to, int style) -> std::string {
    // all spellings only go through directories that exist
    std::string fd = dir_of(from), td = dir_of(to), base = to.substr(td.empty() ? 0 : td.size() + 1);
    std::vector<std::string> a, b;
    auto split = [](const std::string &p, std::vector<std::string> &v) {
      std::string x;
      for (char ch : p + "/")
        if (ch == '/') { if (!x.empty()) v.push_back(x); x.clear(); }
        else x += ch;
    };
    split(fd, a);
    split(td, b);
    size_t common = 0;
    while (common < a.size() && common < b.size() && a[common] == b[common]) common++;
    std::string shortest, full, dots = ".";
    for (size_t i = common; i < a.size(); i++) shortest += "../";
    for (size_t i = common; i < b.size(); i++) shortest += b[i] + "/";
    for (size_t i = 0; i < a.size(); i++) full += "../";
    for (auto &x : b) full += x + "/";
    switch (style) {
    case 0: return shortest + base;
    case 1: return "./" + shortest + base;
    case 2: return full + base;
    case 3: {  // a detour through the importing file's own directory
      if (a.empty()) return b.empty() ? "./././" + base : b[0] + "/../" + shortest + base;
      return "../" + a.back() + "/" + shortest + base;
    }
    case 4: {  // doubled slashes and dots inside
      std::string o;
      for (char ch : shortest) o += ch == '/' ? "/.//" : std::string(1, ch);
      return o.empty() ? ".//" + base : o + base;
    }
    }
    return "";
  };
  static const Strs places = {"a.txt", "ab.txt", "A.txt", "a.tx", "d/a.txt", "d/e/a.txt", "e/a.txt", "d/e/b", "d.txt", "e/d/a.txt"};
  out.push_back(make("paths", "importing and imported file at all of 10 places (same names in several directories, names that differ in case or are prefixes of one another) x 5 spellings x 4 spellings of the root x import back and forth", [spell](Chooser &ch, Case &c) {
    std::string root = ch.pick(places), x = ch.pick(places);
    int s1 = ch.choose(5), s2 = ch.choose(5), how = ch.choose(4);
    if (root == x) return false;
    std::string R = "import \"" + spell(root, x, s1) + "\"\nimport \"" + spell(root, x, (s1 + s2) % 5) + "\"\nimport \"" + spell(root, root, s2) + "\"\n" + decls(0) + main_for({true, true});
    std::string X = "import \"" + spell(x, root, s2) + "\"\nimport \"" + spell(x, x, s1) + "\"\n" + decls(1);
    // every other place holds a file that would be noticed
    for (size_t i = 0; i < places.size(); i++)
      c.files.push_back(file(places[i], places[i] == root ? R : places[i] == x ? X : "var bad" + N(long(i)) + " = outv(\"wrong file\")\nfunction f1(x)\nend\n"));
    std::string d = dir_of(root);
    c.note = how == 0 ? "load " + root : how == 1 ? "load ./" + root : how == 2 ? "load @" + root : "load d/../" + root;
    return true;
  }, imports));
  out.push_back(make("paths of three", "root, then two further files at any of 10 places, chained: relative to the importing file each time, spelled in 2 ways", [spell](Chooser &ch, Case &c) {
    std::string root = ch.pick(places), x = ch.pick(places), y = ch.pick(places);
    int s1 = ch.choose(2), how = ch.choose(3);
    if (root == x || x == y || root == y) return false;
    std::string R = "import \"" + spell(root, x, s1 * 2) + "\"\n" + decls(0) + main_for({true, true, true});
    std::string X = "import \"" + spell(x, y, s1 * 3) + "\"\n" + decls(1);
    std::string Y = "import \"" + spell(y, root, s1) + "\"\nimport \"" + spell(y, x, s1 * 4) + "\"\n" + decls(2);
    for (size_t i = 0; i < places.size(); i++)
      c.files.push_back(file(places[i], places[i] == root ? R : places[i] == x ? X : places[i] == y ? Y : "var bad" + N(long(i)) + " = outv(\"wrong file\")\nfunction f2(x)\nend\n"));
    c.note = how == 0 ? "load " + root : how == 1 ? "load @" + root : "load e/../" + root;
    return true;
  }, imports));
  out.push_back(make("missing", "a missing file (or a directory, or a name that only differs from an existing one by case, prefix, suffix or directory) imported from any file of a chain of 1..4, at any of 4 positions, in any of 2 directories", [](Chooser &ch, Case &c) {
    int n = 1 + ch.choose(4), at = ch.choose(n), pos = ch.choose(4), layout = ch.choose(2);
    static const Strs bad = {"nothing.txt", "M0.txt", "m0.tx", "m0.txtx", "m0", "", "sub", "sub/m0.txt", "../m0.txt", ".", "..", "M1.txt", " m0.txt", "m0.txt ", "unknown"};
    std::string b = ch.pick(bad);
    if (layout && b == "../m0.txt") return false;  // would be found
    std::string D = layout ? "top/" : "";
    c.files.push_back(file(D + "sub/keep", "var keep = 1\n"));
    for (int i = 0; i < n; i++) {
      std::vector<std::string> v = {"// first line\n", "var g" + N(i) + " = outv(" + N(i) + ")\n", "\n\nfunction f" + N(i) + "(x)\n return x\nend\n"};
      if (i + 1 < n) v.insert(v.begin() + (pos % 2), "import \"m" + N(i + 1) + ".txt\"\n");
      if (i == 0) v.push_back("function main()\n return 1\nend\n");
      if (i == at) v.insert(v.begin() + std::min<size_t>(pos, v.size()), "import \"" + b + "\"\n");
      std::string o;
      for (auto &x : v) o += x;
      c.files.push_back(file(D + "m" + N(i) + ".txt", o));
    }
    c.note = "load " + D + "m0.txt";
    return true;
  }, imports));
  out.push_back(make("given sources", "every list of up to 3 sources given by the host out of 4 files under several spellings (all relative or all absolute), a missing one or a text; each file imports the next", [](Chooser &ch, Case &c) {
    int n = 1 + ch.choose(3), cyc = ch.choose(3);
    static const Strs sp = {"load m0.txt", "load ./m0.txt", "load @m0.txt", "load m1.txt", "load d/m1.txt", "load d/../m1.txt", "load m2.txt", "load nothing", "load d", "string m0.txt", "string m1.txt", "string s.txt", "load unknown", "load "};
    std::string note;
    for (int i = 0; i < n; i++) {
      std::string s = ch.pick(sp);
      note += (i ? "|" : "") + s;
    }
    // absolute and relative names given side by side are not compared with each other
    if (note.find('@') != std::string::npos && note != "load @m0.txt" && note != "load @m0.txt|load @m0.txt") return false;
    c.note = note;
    for (int i = 0; i < 3; i++) {
      std::string o = cyc == 0 ? "" : cyc == 1 ? (i < 2 ? "import \"m" + N(i + 1) + ".txt\"\n" : "") : "import \"m" + N((i + 1) % 3) + ".txt\"\n";
      o += decls(i);
      if (i == 0) o += "function main()\n return f0(1)\nend\n";
      c.files.push_back(file("m" + N(i) + ".txt", o));
    }
    c.files.push_back(file("d/m1.txt", "var dm1 = outv(\"dm1\")\n"));
    c.files.push_back(file("unknown", "var un = outv(\"un\")\n"));
    c.files.push_back(file("s.txt", std::string(cyc ? "import \"unknown\"\nimport \"m2.txt\"\n" : "") + "var s = outv(\"s\")\n"));
    return true;
  }, imports));
  out.push_back(make("names across files", "use of a name of another file: global, constant, function, value and call, read and write, in either file, imported before or after, both files declaring it or neither", [](Chooser &ch, Case &c) {
    static const Strs decl = {"var n = outv(7)\n", "const n = 7\n", "function n(x)\n return x\nend\n", "function n()\n return 3\nend\n", "", "var n = k\n", "const n = k\n"};
    static const Strs use = {" return n\n", " n = 4\n return n\n", " return n(1)\n", " return n()\n", " n += 1\n", " var n = 3\n return n\n", " return n[0]\n", " n[0] = 1\n", " return n.m\n"};
    std::string d0 = ch.pick(decl), d1 = ch.pick(decl), u = ch.pick(use);
    int order = ch.choose(2), who = ch.choose(2), kin = ch.choose(3);
    std::string k = "const k = 9\n";
    std::string main = "function main()\n" + u + "end\n", other = "function main()\n return go()\nend\n", go = "function go()\n" + u + "end\n";
    std::string imp = "import \"m1.txt\"\n";
    std::string A = d0 + (kin == 1 ? k : "") + (who ? other : main), B = (who ? go : std::string()) + d1 + (kin == 2 ? k : "") + "var last = outv(1)\n";
    c.files.push_back(file("m0.txt", order ? A + imp : imp + A));
    c.files.push_back(file("m1.txt", B));
    c.note = "load m0.txt";
    return true;
  }, imports));
  out.push_back(make("errors inside", "a syntax error, a static error or a runtime fault in any file of a chain, star or cycle of 4", [](Chooser &ch, Case &c) {
    int shape = ch.choose(3), at = ch.choose(4), pad = ch.choose(3);
    static const Strs bad = {"var = 3\n", "function (\n", "var q = nosuch\n", "var q = 1 / 0\n", "var z = 0\nvar q = 1 / z\n", "var q = none + 1\n", "const q = nosuch\n", "var q = outv(1)[0]\n", "var q = main(1)\n", "}\n", "var g0 = 1\n", "\"", "var q = \"abc\n"};
    std::string b = ch.pick(bad);
    for (int i = 0; i < 4; i++) {
      std::string o;
      if (shape == 0 && i < 3) o = "import \"m" + N(i + 1) + ".txt\"\n";
      if (shape == 1 && i == 0) o = "import \"m1.txt\"\nimport \"m2.txt\"\nimport \"m3.txt\"\n";
      if (shape == 2) o = "import \"m" + N((i + 3) % 4) + ".txt\"\n";
      o += std::string(size_t(pad * i), '\n') + decls(i);
      if (i == at) o += b;
      if (i == 0) o += "function main()\n return 1\nend\n";
      c.files.push_back(file("m" + N(i) + ".txt", o));
    }
    c.note = "load m0.txt";
    return true;
  }, imports));
  auto counts = [](long max) {
    std::vector<long> ns;
    for (long i = 1; i <= 20; i++) ns.push_back(i);
    for (long k = 32; k <= max; k *= 2) for (long d = -1; d <= 1; d++) ns.push_back(k + d);
    ns.push_back(50), ns.push_back(100), ns.push_back(101);
    return ns;
  };
  out.push_back(make("many files", "n files, n = 1..20 and around powers of two to " + N(th ? 2048 : 512) + ": a chain, a chain with every file importing all earlier ones' first and last, a star, all given by the host; each seen once", [th, counts](Chooser &ch, Case &c) {
    long n = ch.pick(counts(th ? 2048 : 512));
    int shape = ch.choose(4);
    for (long i = 0; i < n; i++) {
      std::string o;
      if ((shape == 0 || shape == 1) && i + 1 < n) o += "import \"m" + N(i + 1) + ".txt\"\n";
      if (shape == 1) o += "import \"m0.txt\"\nimport \"m" + N(i / 2) + ".txt\"\n";
      if (shape == 2 && i == 0) for (long j = 1; j < n; j++) o += "import \"m" + N(j) + ".txt\"\n";
      o += "var g" + N(i) + " = outv(" + N(i) + ")\n";
      if (i == 0) o += "function main()\n return g" + N(n - 1) + "\nend\n";
      c.files.push_back(file("m" + N(i) + ".txt", o));
      if (shape == 3) c.note += (i ? "|load m" : "load m") + N(i) + ".txt";
    }
    if (shape != 3) c.note = "load m0.txt";
    return true;
  }, imports));
  out.push_back(make("long paths", "file names of every length to 40 and to 255, directories nested to path lengths of 60..3900; two names that differ in the first, a middle or the last character, or one being longer; imported from the same and from another directory", [](Chooser &ch, Case &c) {
    static std::vector<int> ls;
    if (ls.empty()) {
      for (int i = 1; i <= 40; i++) ls.push_back(i);
      for (int i : {62, 63, 64, 65, 100, 126, 127, 128, 129, 199, 200, 249, 250, 251, 252, 253, 254, 255}) ls.push_back(i);
    }
    int l = ch.pick(ls), how = ch.choose(4), dir = ch.pick(std::vector<int>{0, 1, 4, 12, 16, 60, 250});
    std::string a = letters(l), b = a, D;
    if (how == 0) b[0] = 'Q';
    if (how == 1) b[size_t(l / 2)] = 'Q';
    if (how == 2) b[size_t(l - 1)] = 'Q';
    if (how == 3) { if (l == 255) return false; b += "Q"; }
    for (int i = 0; i < dir; i++) D += "dir_of_depth" + N(i % 10) + "/";
    if (D.size() + size_t(l) > 3900) return false;
    bool from_top = ch.flip();
    c.files.push_back(file(D + a, decls(1)));
    c.files.push_back(file(D + b, "import \"" + a + "\"\n" + decls(2)));
    std::string R = from_top ? D : "";
    std::string root = from_top ? "m0.txt" : D + "m0.txt";
    c.files.push_back(file(root, "import \"" + R + b + "\"\nimport \"" + R + a + "\"\n" + decls(0) + main_for({true, true, true})));
    c.note = "load " + root;
    return true;
  }, imports));
  out.push_back(make("file contents", "imported and root files of every length around powers of two to 131072 (padded by comments, blank lines; to 16384 by code), ending in a newline, without one, in a carriage return, in a comment; one of nothing but blank lines", [](Chooser &ch, Case &c) {
    std::vector<long> ns = {0, 1, 2, 3, 100};
    for (long k = 128; k <= 131072; k *= 2) for (long d = -2; d <= 2; d++) ns.push_back(k + d);
    long n = ch.pick(ns);
    int pad = ch.choose(3), end = ch.choose(4);
    if (pad == 2 && n > 20000) return false;
    static const Strs tail = {"", "\r\n", "# c", "var last = 3"};
    std::string D = decls(1), T = tail[size_t(end)];
    long left = n - long(D.size() + T.size());
    std::string P;
    if (left > 0) {
      if (pad == 0) P = "#" + corpus::rep("x", left > 2 ? left - 2 : 0) + (left > 1 ? "\n" : "");
      if (pad == 1) P = corpus::rep("\n", left);
      if (pad == 2) {
        long k = 0;
        while (long(P.size()) + 20 < left) P += "var v" + N(100000 + k++) + " = 1\n";
        P += corpus::rep(" ", left - long(P.size()));
        if (P.back() == ' ') P.back() = '\n';
      }
    }
    std::string X = n > 128 ? P + D + T : pad == 0 ? corpus::rep("\n", n) + T : pad == 1 ? "# " + T : T;
    bool has = n > 128;
    if (X.empty()) return false;  // an empty source is deliberately refused; not pinned
    bool first = ch.flip();
    c.files.push_back(file("m1.txt", X));
    c.files.push_back(file("m0.txt", std::string(first ? "import \"m1.txt\"\n" : "") + decls(0) + main_for({true, has}) + (first ? "" : "import \"m1.txt\"")));
    c.note = "load m0.txt";
    return true;
  }, imports));
}
