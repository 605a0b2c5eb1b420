// C10: a saved program loads back identical and behaves identically
#include "harness.h"
using namespace impl;
using corpus::N;

// a program object that held something else before
static void soil(program_t &p, int how) {
  static const char *other = "var zz = \"old\"\nconst kk = 3\nfunction old(a, b, c)\n var l = [a, b]\n out(\"old string\")\n return l\nend\nfunction main()\n return old(1, 2, 3)\nend\n";
  if (how == 1) {
    nano_t n(p);
    std_register(n);
    source_manager_t s;
    s.load_from_string(other);
    cerror_t e;
    n.build(s, e);
    std_resolve(p);
  }
  if (how == 2 || how == 3) {
    auto c = compile({other}, true);
    std::string path = scratch_file("old");
    c->prog.serial_save(path.c_str());
    if (how == 3) {
      // a load that failed
      std::string b;
      read_file(path, b);
      write_file(path, b.substr(0, b.size() / 2));
    }
    p.serial_load(path.c_str());
    unlink(path.c_str());
  }
}

static void roundtrip(const Case &c, Result &r) {
  std::string path = scratch_file("prog"), again = scratch_file("again");
  for (int k = 0; k < 2 && !r.bad; k++) {
    auto cc = compile(c.files, k == 0);
    if (!cc->ok) { r.outcome = "rejected"; continue; }
    const std::string before = image(cc->prog);
    // the file may exist already and be longer
    write_file(path, std::string(before.size() * 2 + 5000, 'x'));
    if (!cc->prog.serial_save(path.c_str())) { r.fail("save reported failure"); break; }
    std::string d = first_difference(before, image(cc->prog));
    if (!d.empty()) r.fail("saving changed the program: " + d);
    std::string bytes, bytes2;
    read_file(path, bytes);
    impl::ModelOpts mo;
    if (c.p.empty() && c.note.empty()) mo.fuel = 20000;
    if (c.note == "long texts") mo.before = [](ref::Machine &x) { x.one_limit = 145000; };
    Outcome m = model(c.files, k == 0, &cc->prog, mo);
    r.model_steps += m.steps;
    for (int how = 0; how < 4 && !r.bad; how++) {
      program_t q;
      soil(q, how);
      const std::string H = " (object " + std::string(how == 0 ? "fresh" : how == 1 ? "built before" : how == 2 ? "loaded before" : "failed to load before") + ")";
      if (!q.serial_load(path.c_str())) { r.fail("load failed" + H); break; }
      d = first_difference(before, image(q));
      if (!d.empty()) r.fail("loaded program differs" + H + ": " + d);
      if (!q.serial_save(again.c_str())) { r.fail("second save failed"); break; }
      read_file(again, bytes2);
      if (bytes != bytes2) r.fail("saving the loaded program gives other bytes" + H + ": " + first_difference(bytes, bytes2));
      r.runs++;
      if (how > 1 || (m.diverged && how)) continue;
      if (m.diverged) { std_resolve(q); still_running(r, "loaded program", m, q); continue; }
      for (auto &s : q.syscalls()) s.call_ = nullptr;
      std_resolve(q);
      for (auto &s : q.syscalls())
        if (!s.call_) r.fail("system call " + s.name_ + " could not be bound again");
      Outcome o;
      o.compiled = true;
      run_program(q, o);
      r.impl_steps += o.steps;
      diff(r, "loaded program" + H, m.text(), o.text());
      r.outcome = m.text();
    }
  }
  unlink(path.c_str());
  unlink(again.c_str());
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  const bool as = tier == "asan";
  out.push_back(features_space(roundtrip));
  out.push_back(scripts_space(roundtrip));
  out.push_back(sizes_space(th, roundtrip, th ? 70000 : as ? 80 : 700));
  if (!as) out.push_back(wide_space(th, th ? 65 : 9, roundtrip));
  out.push_back(make("table shapes", "0..3 globals x 0..3 constants x 0..3 functions x 0..3 parameters x 0..3 locals x 0..3 strings x 0..2 system calls", [](Chooser &ch, Case &c) {
    int g = ch.choose(4), k = ch.choose(4), f = ch.choose(4), p = ch.choose(4), l = ch.choose(4), s = ch.choose(4), sc = ch.choose(3);
    if (!f && (p || l)) return false;
    std::string o;
    for (int i = 0; i < k; i++) o += "const k" + N(i) + " = " + N(i) + "\n";
    for (int i = 0; i < g; i++) o += "var g" + N(i) + (i % 2 ? " = " + N(i) : "") + "\n";
    for (int i = 0; i < f; i++) {
      o += "function f" + N(i) + "(" + names("p", p) + ")\n";
      for (int q = 0; q < l; q++) o += " var l" + N(q) + " = " + (p ? "p" + N(q % p) : N(q)) + "\n";
      o += " return " + (l ? "l" + N(l - 1) : std::string("7")) + "\nend\n";
    }
    o += "function main()\n";
    for (int i = 0; i < s; i++) o += " out(\"str" + std::string(size_t(i), 'x') + "\")\n";
    if (sc > 0) o += " out(len(\"abc\"))\n";
    if (sc > 1) o += " outv(1, 2)\n";
    for (int i = 0; i < f; i++) {
      std::string a;
      for (int q = 0; q < p; q++) a += (q ? ", " : "") + N(q + 1);
      o += " out(f" + N(i) + "(" + a + "))\n";
    }
    for (int i = 0; i < g; i++) o += " g" + N(i) + " = " + N(i + 5) + "\n";
    c.files = {o + " return none + 1\nend\n"};
    return true;
  }, roundtrip));
  out.push_back(make("string contents", "a literal holding any one byte (but NUL, quote and newline) at its start, middle or end", [](Chooser &ch, Case &c) {
    int b = 1 + ch.choose(255);
    if (b == '"' || b == '\n') return false;
    int w = ch.choose(3);
    std::string x(1, char(b));
    c.files = {"function main()\n return \"" + (w == 0 ? x + "ab" : w == 1 ? "a" + x + "b" : "ab" + x) + "\"\nend\n"};
    return true;
  }, roundtrip));
  out.push_back(make("long texts", "string literal, function, global, parameter, local and constant name of every length around 2^k up to 2^17, before and after shorter ones", [as](Chooser &ch, Case &c) {
    static const std::vector<long> len = {1, 2, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 16384, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131071, 131072};
    long n = ch.pick(len);
    if (as && n > 1025) return false;
    int what = ch.choose(6), pos = ch.choose(3);
    std::string x;
    for (long i = 0; i < n; i++) x += char('a' + (i * 7 + i / 26) % 26);
    x = "L" + x.substr(1);
    auto id = [&](int w, const char *s) { return w == what ? x : std::string(s); };
    std::string lit = "\"" + id(0, "lit") + "\"", f = id(1, "f"), g = id(2, "g"), p = id(3, "p"), l = id(4, "l"), k = id(5, "k");
    std::string pre = pos ? "var u0 = \"u0\"\nfunction uf(up)\n var ul = up\n return ul\nend\n" : "", post = pos == 2 ? "var v0 = \"v0\"\nfunction vf(vp)\n return vp\nend\n" : "";
    c.files = {pre + "const " + k + " = 3\nvar " + g + " = " + lit + "\nfunction " + f + "(a, " + p + ", b)\n var c\n var " + l + " = " + p + " + a\n return " + l + " + b\nend\n" + post +
               "function main()\n var w = " + f + "(" + g + ", " + lit + ", " + k + ")\n out(len(w))\n out(w)\n return w[0 - 1]\nend\n"};
    c.note = "long texts";
    return true;
  }, roundtrip));
  out.push_back(host_names_space(true));
  out.push_back(make("several files", "programs of 2..4 source files with faults in each", [](Chooser &ch, Case &c) {
    int n = 2 + ch.choose(3), at = ch.choose(n);
    static const Strs faults = {"1 / g0", "g0[1]", "none + 1", "g0(1)", "f0(g0, 1)"};
    std::string f = ch.pick(faults);
    for (int i = 0; i < n; i++) {
      std::string o = corpus::rep("\n", i) + "var g" + N(i) + " = 0\nfunction f" + N(i) + "(x)\n out(" + N(i) + ")\n return " + (i == at ? f : i + 1 < n ? "f" + N(i + 1) + "(x)" : std::string("x")) + "\nend\n";
      if (i == n - 1) o += "function main()\n return f0(1)\nend\n";
      c.files.push_back(o);
    }
    return true;
  }, roundtrip));
  if (!as) out.push_back(make("many files", "n source files, n around every power of two up to " + N(th ? 4096 : 1024) + ", failing in one of them", [th](Chooser &ch, Case &c) {
    static const std::vector<long> ns = {63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096};
    long n = ch.pick(ns);
    if (!th && n > 1025) return false;
    int w = ch.choose(4);
    long at = w == 0 ? 0 : w == 1 ? n / 2 : w == 2 ? n - 1 : n - 2;
    for (long i = 0; i < n; i++)
      c.files.push_back("function f" + N(i) + "(x)\n out(" + N(i) + ")\n return " + (i == at ? std::string("none + 1") : std::string("x")) + "\nend\n" + (i == n - 1 ? "function main()\n f1(1)\n return f" + N(at) + "(2)\nend\n" : ""));
    return true;
  }, roundtrip));
  out.push_back(blocks_space(1, 2, 1, roundtrip));
  out.push_back(blocks_space(2, as ? 0 : 1, 1, roundtrip));
  if (th) out.push_back(blocks_space(2, 2, 2, roundtrip));
  if (th) out.push_back(blocks_space(3, 0, 2, roundtrip));
}
