// C11: damaged program files and failed writes are always detected
#include "harness.h"
using namespace impl;
using corpus::N;

static const Strs &programs() {
  static Strs p;
  if (p.empty()) {
    p = {
        "function main()\nend\n",
        "var a = 1\nvar bb = \"s\"\nfunction f(x, yy)\n var l = [x, \"t\"]\n out(l)\n return len(l)\nend\nfunction main()\n return f(a, bb) + abs(3)\nend\n",
        "# only a comment\n",
        "var g = [1, 2]\nfunction main()\n var i\n for (i = 0 to 3)\n  if (i == 2)\n   out(\"two\")\n  else\n   g[0] = g[0] + i\n  end\n end\n return g\nend\n",
    };
    std::string o;
    for (int i = 0; i < 12; i++) o += "var global_number_" + N(i) + " = " + N(i) + "\nfunction function_number_" + N(i) + "(p, q)\n var l = \"string number " + N(i) + "\"\n return l + p + q\nend\n";
    p.push_back(o + "function main()\n return 1\nend\n");
    // larger than any buffer of the C library
    o.clear();
    for (int i = 0; i < 60; i++) o += "function fn" + N(i) + "(p, q)\n var l = \"" + std::string(size_t(100 + i), 'x') + "\"\n return l + p + q\nend\n";
    p.push_back(o + "function main()\n return 1\nend\n");
    // one string of several buffers
    p.push_back("function main()\n return \"" + std::string(9000, 'y') + "\"\nend\n");
    // one function bigger than a buffer
    o = "function main()\n var a = 1\n";
    for (int i = 0; i < 400; i++) o += " a = a + " + N(i) + "\n";
    p.push_back(o + "end\n");
  }
  return p;
}
// positions explored in a file of n bytes: all of them, or in big files those near the C library's buffer boundaries,
// near both ends, and every 61st
static const std::vector<int> &positions(int n, bool all) {
  static std::map<std::pair<int, bool>, std::vector<int>> cache;
  auto &v = cache[{n, all}];
  if (v.empty())
    for (int i = 0; i < n; i++)
      if (all || n < 4096 || i < 300 || n - i < 300 || i % 4096 < 24 || i % 4096 > 4072 || i % 61 == 0) v.push_back(i);
  return v;
}
struct Saved {
  bool ok = false;
  std::string bytes, img;
};
static const Saved &saved(const std::string &src) {
  static std::map<std::string, Saved> cache;
  if (cache.size() > 64) cache.clear();
  auto it = cache.find(src);
  if (it != cache.end()) return it->second;
  Saved s;
  auto cc = compile({src}, true);
  if (cc->ok) {
    std::string path = scratch_file("ref");
    s.ok = cc->prog.serial_save(path.c_str());
    read_file(path, s.bytes);
    unlink(path.c_str());
    s.img = image(cc->prog);
  }
  return cache[src] = s;
}

// load `data`; must_fail: the file is a strict prefix or not recognisable
static void load_bytes(const std::string &src, const std::string &data, bool must_fail, Result &r, bool soiled) {
  const Saved &s = saved(src);
  if (!s.ok) { r.outcome = "rejected"; return; }
  std::string path = scratch_file("damaged"), good = scratch_file("good");
  write_file(path, data);
  program_t q;
  if (soiled) {
    write_file(good, s.bytes);
    q.serial_load(good.c_str());
  }
  int before = open_files();
  bool ok = q.serial_load(path.c_str());
  r.runs++;
  if (open_files() != before) r.fail("load left a file open");
  if (ok && must_fail) r.fail("a damaged file was loaded");
  r.outcome = (ok ? "loaded " : "refused ") + std::to_string(mc::hash64(data));
  if (!ok) {
    // the object is reusable
    write_file(good, s.bytes);
    if (!q.serial_load(good.c_str())) r.fail("after a failed load an intact file was refused");
    std::string d = first_difference(s.img, image(q));
    if (!d.empty()) r.fail("after a failed load an intact file loads differently: " + d);
  }
  unlink(path.c_str());
  unlink(good.c_str());
}

static rlim_t g_full;
static void on_xfsz(int) {
  rlimit l;
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = l.rlim_max;
  setrlimit(RLIMIT_FSIZE, &l);
}
// p = {position of the failing write, transient}
static void write_fault(const Case &c, Result &r) {
  const Saved &s = saved(c.files[0]);
  if (!s.ok) { r.outcome = "rejected"; return; }
  const long at = c.p[0];
  std::string path = scratch_file("out");
  auto cc = compile(c.files, true);
  if (c.p[2]) write_file(path, std::string(s.bytes.size() + 100, 'z'));
  rlimit l;
  getrlimit(RLIMIT_FSIZE, &l);
  rlim_t keep = l.rlim_cur;
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = c.p[1] ? on_xfsz : SIG_IGN;
  sigaction(SIGXFSZ, &sa, &old);
  int before = open_files();
  l.rlim_cur = rlim_t(at);
  setrlimit(RLIMIT_FSIZE, &l);
  bool ok = cc->prog.serial_save(path.c_str());
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = keep;
  setrlimit(RLIMIT_FSIZE, &l);
  sigaction(SIGXFSZ, &old, nullptr);
  r.runs++;
  if (open_files() != before) r.fail("save left a file open");
  std::string got;
  read_file(path, got);
  if (ok && got != s.bytes) r.fail("save reported success but the file holds " + std::to_string(got.size()) + " of " + std::to_string(s.bytes.size()) + " bytes or other content");
  if (!ok && at >= long(s.bytes.size())) r.fail("save reported failure though nothing failed");
  r.outcome = std::string(ok ? "saved " : "failed ") + (got == s.bytes ? "complete" : got.size() < s.bytes.size() ? "short" : "wrong") + std::to_string(mc::hash64(c.key()));
  // and what is there is complete or, if it is a part of the file, refused (with bytes lost in the middle it can be a
  // well-formed file with other contents)
  program_t q;
  bool lo = q.serial_load(path.c_str());
  if (lo && got.size() < s.bytes.size() && s.bytes.compare(0, got.size(), got) == 0) r.fail("the remains of an interrupted save were loaded");
  if (!ok) {
    if (!cc->prog.serial_save(path.c_str())) r.fail("a later save failed too");
    read_file(path, got);
    if (got != s.bytes) r.fail("a save after a failed save wrote other bytes");
  }
  unlink(path.c_str());
}

static void special(const Case &c, Result &r) {
  const Saved &s = saved(c.files[0]);
  auto cc = compile(c.files, true);
  std::string dir = scratch_file("dir");
  mkdir(dir.c_str(), 0755);
  int before = open_files();
  program_t q;
  auto no = [&](const std::string &p) { if (q.serial_load(p.c_str())) r.fail("loaded " + p); };
  no(dir + "/missing");
  no(dir);
  no("");
  no(dir + "/no/such/dir");
  no("/dev/null");
  auto nos = [&](const std::string &p) { if (cc->prog.serial_save(p.c_str())) r.fail("saving to " + p + " reported success"); };
  nos(dir);
  nos(dir + "/no/such/dir");
  nos("");
  nos("/dev/full");
  std::string d = first_difference(s.img, image(cc->prog));
  if (!d.empty()) r.fail("a failed save changed the program: " + d);
  if (open_files() != before) r.fail("files left open");
  rmdir(dir.c_str());
  r.runs++;
  r.outcome = "special";
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  using namespace corpus;
  const bool th = tier == "thorough";
  const bool as = tier == "asan";
  auto trunc = [](const Case &c, Result &r) {
    const Saved &s = saved(c.files[0]);
    if (!s.ok || c.p[0] >= long(s.bytes.size())) { r.outcome = "beyond"; return; }
    load_bytes(c.files[0], s.bytes.substr(0, size_t(c.p[0])), true, r, c.p[1] != 0);
  };
  out.push_back(make("truncation", "every strict prefix of the saved form of 8 programs (in the 3 of more than 4 kB" + std::string(th ? "" : ": near the ends and buffer boundaries, and every 61st") + "), into a fresh and a used object", [as, th](Chooser &ch, Case &c) {
    c.files = {programs()[size_t(ch.choose(as ? 5 : 8))]};
    const Saved &s = saved(c.files[0]);
    c.p = {ch.pick(positions(int(s.bytes.size()), th)), ch.choose(2)};
    return true;
  }, trunc));
  if (!as) out.push_back(make("truncation of features", "every strict prefix of the saved form of every feature program", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(features())};
    const Saved &s = saved(c.files[0]);
    if (!s.ok) return false;
    c.p = {ch.choose(int(s.bytes.size())), 0};
    return true;
  }, trunc));
  out.push_back(make("header", "every other value of each header byte, and every 4-byte rotation of the magic", [](Chooser &ch, Case &c) {
    c.files = {programs()[size_t(ch.choose(5))]};
    c.p = {ch.choose(4), ch.choose(255)};
    return true;
  }, [](const Case &c, Result &r) {
    std::string b = saved(c.files[0]).bytes;
    b[size_t(c.p[0])] = char(b[size_t(c.p[0])] + 1 + c.p[1]);
    load_bytes(c.files[0], b, true, r, false);
  }));
  out.push_back(make("byte corruption", "every byte of the saved form of " + N(th ? 8 : as ? 2 : 5) + " programs replaced by each bit flip, 0, 255, 127 and 128", [th, as](Chooser &ch, Case &c) {
    c.files = {programs()[size_t(ch.choose(th ? 8 : as ? 2 : 5))]};
    const Saved &s = saved(c.files[0]);
    c.p = {ch.choose(int(s.bytes.size())), ch.choose(12)};
    return true;
  }, [](const Case &c, Result &r) {
    std::string b = saved(c.files[0]).bytes;
    char &x = b[size_t(c.p[0])];
    static const int set[] = {0, 255, 127, 128};
    x = c.p[1] < 8 ? char(x ^ (1 << c.p[1])) : char(set[c.p[1] - 8]);
    load_bytes(c.files[0], b, c.p[0] < 4 && b != saved(c.files[0]).bytes, r, false);
  }));
  out.push_back(make("word corruption", "every 4 bytes of the saved form of " + N(th ? 8 : as ? 3 : 5) + " programs replaced by each of 12 lengths, and the file cut after them", [th, as](Chooser &ch, Case &c) {
    c.files = {programs()[size_t(ch.choose(th ? 8 : as ? 3 : 5))]};
    const Saved &s = saved(c.files[0]);
    c.p = {ch.choose(int(s.bytes.size()) - 3), ch.choose(12), ch.choose(2)};
    return true;
  }, [](const Case &c, Result &r) {
    std::string b = saved(c.files[0]).bytes;
    const int32_t n = int32_t(b.size());
    const int32_t v[] = {-1, -2, INT32_MIN, INT32_MAX, INT32_MAX / 2, 0x10000000, 0x01000000, n, n + 1, n - int32_t(c.p[0]) - 4, n - int32_t(c.p[0]) - 3, 0};
    memcpy(&b[size_t(c.p[0])], &v[c.p[1]], 4);
    if (c.p[2]) b.resize(size_t(c.p[0]) + 4);
    bool prefix = c.p[2] && c.p[0] + 4 < n && saved(c.files[0]).bytes.compare(0, b.size(), b) == 0;
    bool magic = memcmp(b.data(), saved(c.files[0]).bytes.data(), 4) != 0;
    load_bytes(c.files[0], b, prefix || magic, r, false);
  }));
  out.push_back(make("not a program", "every string of <= 3 bytes over 9 values, alone and after the magic", [](Chooser &ch, Case &c) {
    c.files = {programs()[0]};
    c.p = {ch.choose(2)};
    int n = ch.choose(4);
    for (int i = 0; i < n; i++) c.p.push_back(ch.choose(9));
    return true;
  }, [](const Case &c, Result &r) {
    static const int v[] = {0, 1, 2, 'C', 'M', 'L', 127, 128, 255};
    std::string b = c.p[0] ? saved(c.files[0]).bytes.substr(0, 4) : "";
    for (size_t i = 1; i < c.p.size(); i++) b += char(v[c.p[i]]);
    load_bytes(c.files[0], b, true, r, false);
  }));
  if (!as) out.push_back(make("write failure", "a write failing at every byte position of the saved form of 8 programs (in the 3 of more than 4 kB" + std::string(th ? "" : ": near the ends and buffer boundaries, and every 61st") + "), permanently and once, over a new and an existing file", [th](Chooser &ch, Case &c) {
    c.files = {programs()[size_t(ch.choose(8))]};
    const Saved &s = saved(c.files[0]);
    c.p = {ch.pick(positions(int(s.bytes.size()) + 2, th)), ch.choose(2), ch.choose(2)};
    return true;
  }, write_fault));
  out.push_back(make("special files", "missing file, directory, empty name, empty and full device", [](Chooser &ch, Case &c) {
    c.files = {ch.pick(programs())};
    return true;
  }, special));
}
