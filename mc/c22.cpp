// C22: the graphics runner, run as a process on SDL's dummy video driver behind a recording layer (sdl_stub.cpp)
#include <dirent.h>
#include <sys/stat.h>
#include "harness.h"
using namespace impl;
using corpus::N;
using corpus::rep;

// ---------------------------------------------------------------- the picture a script has to produce
struct Frame { uint64_t ms = 0; int w = 0, h = 0; std::vector<uint32_t> px; uint64_t sleeps = 0; };
struct Screen {
  int w = 0, h = 0;
  bool open = false;
  std::vector<uint32_t> px;
  uint32_t ink = 0xffffff;
  void dot(long x, long y) { if (open && x >= 0 && x < w && y >= 0 && y < h) px[size_t(y * w + x)] = ink; }
  void row(long a, long b, long y) { for (long x = std::max(a, 0l); x < std::min<long>(b, w); x++) dot(x, y); }
  void line(long x0, long y0, long x1, long y1) {
    const long dx = x1 - x0, dy = y1 - y0, n = std::max(labs(dx), labs(dy));
    const bool steep = labs(dy) > labs(dx);
    for (long k = 0; k < n; k++) {  // the end point is not part of the line
      const long minor = steep ? dx : dy, slope = minor * 65536 / n, off = (k * slope) >> 16;
      if (steep) dot(x0 + off, y0 + (dy < 0 ? -k : k));
      else dot(x0 + (dx < 0 ? -k : k), y0 + off);
    }
  }
  void disc(long cx, long cy, long r) {  // rows of the midpoint circle, left edge included and right edge not
    std::map<long, long> half;
    auto wide = [&](long dy, long n) { long &v = half[dy]; v = std::max(v, n); };
    if (r < 0) return;
    wide(0, r);
    long err = 1 - r, y = r;
    for (long x = 1; x - 1 <= y; x++) {
      if (err < 0) err += 2 * x + 1;
      else { err += 2 * (x - y) + 1; y--; }
      wide(y, x);
      wide(-y, x);
      wide(x, y);
      wide(-x, y);
    }
    for (auto &k : half) row(cx - k.second, cx + k.second, cy + k.first);
  }
};
struct Enough {};
struct Want { int code = 0, file = 0, line = 0; std::vector<Frame> frames; bool diverged = false, endless = false; uint64_t steps = 0; };

static const std::vector<ref::Sys> &runner_syscalls() {
  static std::vector<ref::Sys> s;
  if (s.empty()) {
    for (auto &x : std_syscalls()) if (x.name != "out" && x.name != "outv") s.push_back(x);
    for (auto &x : std::vector<ref::Sys>{{"cls", 0}, {"rand", 0}, {"video", 2}, {"plot", 2}, {"flip", 0}, {"setrgb", 3}, {"circle", 3}, {"line", 4}, {"sleep", 1}, {"keydown", 1}}) s.push_back(x);
  }
  return s;
}
struct Config { long keys = 0, other = 0, create_fail = 0, surface_fail = 0, init_fail = 0, quit_frames = 0, quit_poll = 0, junk = 0, start = 0; };
static Config config_of(const std::string &note) {
  Config f;
  struct { const char *k; long *v; } t[] = {{"keys", &f.keys}, {"other", &f.other}, {"create_fail", &f.create_fail}, {"surface_fail", &f.surface_fail}, {"init_fail", &f.init_fail}, {"quit_frames", &f.quit_frames}, {"quit_poll", &f.quit_poll}, {"junk", &f.junk}, {"start", &f.start}};
  for (auto &e : t) {
    size_t p = ("," + note).find(std::string(",") + e.k + "=");
    if (p != std::string::npos) *e.v = atol(note.c_str() + p + strlen(e.k) + 1);
  }
  return f;
}
static Want model_run(const std::vector<std::string> &files, const Config &cf, const program_t *addr, const std::vector<int> &rnd) {
  Want w;
  std::vector<std::string> f = files;
  ref::Built b = ref::build(f, runner_syscalls(), true);
  if (cf.init_fail) { w.code = 1; return w; }
  if (!b.ok) { w.code = 1; w.file = b.err.file; w.line = b.err.line; return w; }
  auto it = b.prog->by_name.find("main");
  if (it == b.prog->by_name.end() || it->second->sys) { w.code = 1; return w; }
  ref::Machine m(*b.prog);
  m.fuel = 3000000;
  if (addr) m.addr = [addr](const ref::Func *fn) { const function_t *x = addr->function_find(fn->name); return x ? x->code_start_ : -1; };
  Screen sc;
  int created = 0, surfaces = 0;
  size_t nrnd = 0;
  uint64_t slept = 0;
  m.host = [&](ref::Machine &mm, const std::string &n, std::vector<ref::Val> &a, ref::Val &ret) {
    auto args = [&](size_t k) { if (a.size() != k) mm.fault(ref::F_NARGS); };
    auto num = [&](size_t i) { return a[i].t == ref::V_INT || a[i].t == ref::V_FLT; };
    auto val = [&](size_t i) -> long { return a[i].t == ref::V_INT ? long(a[i].i) : long(int32_t(a[i].f)); };
    ret = ref::Val();
    if (n == "cls") { args(0); std::fill(sc.px.begin(), sc.px.end(), 0); return true; }
    if (n == "rand") { args(0); ret = mm.I(nrnd < rnd.size() ? rnd[nrnd] : 0); if (nrnd++ >= rnd.size()) throw Enough(); return true; }
    if (n == "setrgb") { args(3); if (num(0) && num(1) && num(2)) sc.ink = uint32_t((val(0) & 255) << 16 | (val(1) & 255) << 8 | (val(2) & 255)); return true; }
    if (n == "plot") { args(2); if (num(0) && num(1)) sc.dot(val(0), val(1)); return true; }
    if (n == "circle") { args(3); if (num(0) && num(1) && num(2)) sc.disc(val(0), val(1), val(2)); return true; }
    if (n == "line") { args(4); for (auto &x : a) if (x.t != ref::V_INT) return true; sc.line(a[0].i, a[1].i, a[2].i, a[3].i); return true; }
    if (n == "sleep") { args(1); if (num(0) && val(0) > 0) slept += uint64_t(val(0)); return true; }
    if (n == "keydown") {
      args(1);
      static const char *const names[] = {"up", "down", "left", "right", "escape", "space"};
      if (a[0].t == ref::V_STR) for (int i = 0; i < 6; i++) if (*a[0].s == names[i]) ret = mm.I((cf.keys >> i) & 1);
      return true;
    }
    if (n == "video") {
      args(2);
      ret = mm.I(0);
      if (a[0].t != ref::V_INT || a[1].t != ref::V_INT || a[0].i <= 0 || a[1].i <= 0 || a[0].i > 5461 || a[1].i > 5461) return true;  // refused: what was open stays
      sc.w = a[0].i;
      sc.h = a[1].i;
      sc.px.assign(size_t(sc.w) * size_t(sc.h), 0);
      created++;
      sc.open = !(cf.create_fail < 0 || cf.create_fail == created);
      if (sc.open) { surfaces++; sc.open = !(cf.surface_fail < 0 || cf.surface_fail == surfaces); }
      ret = mm.I(sc.open ? 1 : 0);
      return true;
    }
    if (n == "flip") {
      args(0);
      if (sc.open) {
        Frame fr;
        fr.w = sc.w * 3;
        fr.h = sc.h * 3;
        fr.px.resize(size_t(fr.w) * size_t(fr.h));
        for (int y = 0; y < fr.h; y++) for (int x = 0; x < fr.w; x++) fr.px[size_t(y) * size_t(fr.w) + size_t(x)] = sc.px[size_t(y / 3) * size_t(sc.w) + size_t(x / 3)];
        fr.sleeps = slept;
        w.frames.push_back(fr);
        if (cf.quit_frames && long(w.frames.size()) >= cf.quit_frames) throw Enough();
      }
      return true;
    }
    return false;
  };
  try {
    m.init();
    if (it->second->nargs != 0) { w.code = 1; return w; }
    m.invoke(it->second, {});
  } catch (const ref::Stop &) {
    w.code = 1;
  } catch (const ref::OutOfFuel &) {
    w.diverged = true;
  } catch (const Enough &) {
    w.endless = true;
  }
  w.steps = m.steps;
  return w;
}

// ---------------------------------------------------------------- the real runner
struct Ran { int code = -1, sig = 0; std::string out, err, rec; std::vector<Frame> frames; bool late = false; int quit = -1; };
static std::string dir() {
  static std::string d;
  if (d.empty()) { d = mc::scratch_dir() + "/gfx" + std::to_string(getpid()); mkdir(d.c_str(), 0755); }
  return d;
}
static Ran run(const std::vector<std::string> &args, const std::string &cfg, Result &r) {
  Ran x;
  const std::string base = mc::scratch_dir() + "/gio" + std::to_string(getpid());
  static const char *exe = getenv("VERIF_TOOL_DRIVER_SDL");
  if (!exe) { fprintf(stderr, "c22: no tool\n"); abort(); }
  unlink((base + ".rec").c_str());
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    if (chdir(dir().c_str()) != 0) _exit(120);
    int a = open("/dev/null", O_RDONLY), b = open((base + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), c = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(a, 0);
    dup2(b, 1);
    dup2(c, 2);
    setenv("SDL_VIDEODRIVER", "dummy", 1);
    setenv("SDL_AUDIODRIVER", "dummy", 1);
    setenv("VERIF_SDL", cfg.c_str(), 1);
    setenv("VERIF_SDL_OUT", (base + ".rec").c_str(), 1);
    std::vector<char *> v{const_cast<char *>("tool")};
    for (auto &s : args) v.push_back(const_cast<char *>(s.c_str()));
    v.push_back(nullptr);
    execv(exe, v.data());
    _exit(121);
  }
  const double end = mc::now() + 20;
  int st = 0;
  for (int k = 0;; k++) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    if (mc::now() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); x.sig = 9999; break; }
    usleep(k < 20 ? 200 : 1000);
  }
  if (x.sig == 0) {
    if (WIFSIGNALED(st)) x.sig = WTERMSIG(st);
    else x.code = WEXITSTATUS(st);
  }
  read_file(base + ".out", x.out);
  read_file(base + ".err", x.err);
  std::string rec;
  read_file(base + ".rec", rec);
  for (size_t i = 0; i < rec.size();) {
    size_t e = rec.find('\n', i);
    if (e == std::string::npos) break;
    unsigned long long ms = 0;
    int w = 0, h = 0;
    char kind = rec[i];
    sscanf(rec.c_str() + i + 1, "%llu %d %d", &ms, &w, &h);
    i = e + 1;
    if (kind == 'Q') x.quit = int(ms);
    else if (kind == 'L') x.late = true;
    else {
      Frame f;
      f.ms = ms;
      f.w = w;
      f.h = h;
      const size_t n = size_t(w) * size_t(h);
      if (i + n * 3 > rec.size()) break;
      f.px.resize(n);
      for (size_t k = 0; k < n; k++, i += 3) f.px[k] = uint32_t((unsigned char)rec[i]) << 16 | uint32_t((unsigned char)rec[i + 1]) << 8 | uint32_t((unsigned char)rec[i + 2]);
      x.frames.push_back(f);
    }
  }
  r.runs++;
  if (x.sig == 9999) r.fail("the runner hangs");
  else if (x.sig) r.fail("the runner crashes with signal " + N(x.sig) + ": " + x.err.substr(0, 600));
  return x;
}
static bool same(Result &r, const Frame &w, const Frame &g, size_t k) {
  if (w.w != g.w || w.h != g.h) { r.fail("picture " + N(long(k)) + ": expected a window of " + N(w.w) + " x " + N(w.h) + ", observed " + N(g.w) + " x " + N(g.h)); return false; }
  for (size_t i = 0; i < w.px.size(); i++)
    if (w.px[i] != g.px[i]) {
      char b[160];
      snprintf(b, sizeof b, "picture %zu, window pixel %d,%d: expected %06x, observed %06x", k, int(i) % w.w, int(i) / w.w, w.px[i], g.px[i]);
      r.fail(b);
      return false;
    }
  return true;
}
static void judge(const Want &w, const Ran &x, const Config &cf, Result &r) {
  if (r.bad) return;
  if (x.late) r.fail("a picture was shown after the window had been closed");
  const bool part = w.endless || cf.quit_poll;  // the run is cut off: what was shown is a prefix
  if (!r.bad && x.frames.size() != w.frames.size() && !(part && x.frames.size() < w.frames.size() && cf.quit_poll) && !(w.endless && x.frames.size() > w.frames.size()))
    r.fail("expected " + N(long(w.frames.size())) + " pictures, observed " + N(long(x.frames.size())) + " " + x.err.substr(0, 200));
  uint64_t t0 = 0;
  bool first = true;
  for (size_t k = 0; k < w.frames.size() && k < x.frames.size() && !r.bad; k++) {
    if (!same(r, w.frames[k], x.frames[k], k)) break;
    const uint64_t need = w.frames[k].sleeps, got = x.frames[k].ms;
    if (first && need == 0) t0 = got;
    first = false;
    if (got - t0 < need) r.fail("picture " + N(long(k)) + " shown after " + N(long(got - t0)) + " ms, the script slept " + N(long(need)));
    if (got - t0 > need + 200 + 4 * w.frames.size()) r.fail("picture " + N(long(k)) + " shown after " + N(long(got - t0)) + " ms, the script slept only " + N(long(need)));
  }
  if (r.bad) return;
  const int code = part && w.code == 1 && cf.quit_poll ? x.code : w.code;
  if (x.code != code) { r.fail("exit code: expected " + N(code) + ", observed " + N(x.code) + " " + x.err.substr(0, 300)); return; }
  if (code == 0) diff(r, "output", "exit: 0\n", x.out);
  if (code == 0 && x.quit != 0 && x.quit != 1) r.fail("ended without the window being closed");
  if (code == 1 && w.line) {
    int f = -1, l = -1, n = 0;
    if (sscanf(x.err.c_str(), "file %d, line:%d - %n", &f, &l, &n) < 2 || size_t(n) >= x.err.size()) { r.fail("compile error without file, line and message: " + x.err.substr(0, 300)); return; }
    diff(r, "position of the compile error", N(w.file) + ":" + N(w.line), N(f) + ":" + N(l));
  }
}
static std::unique_ptr<Compiled> compile_as_runner(const std::vector<std::string> &files) {
  std::unique_ptr<Compiled> c(new Compiled);
  builtins_register(*c->nano);
  for (auto &s : runner_syscalls()) {
    bool std_one = false;
    for (auto &x : std_syscalls()) if (x.name == s.name) std_one = true;
    if (!std_one) c->nano->syscall_register(s.name, s.nargs);
  }
  for (auto &f : files) c->sources.load_from_string(f.c_str());
  c->ok = c->nano->build(c->sources, c->err);
  return c;
}
static void show_script(const std::vector<std::string> &files, const std::string &cfg, Result &r, const std::vector<int> &rnd = {}) {
  auto cc = compile_as_runner(files);
  const Config cf = config_of(cfg);
  Want w = model_run(files, cf, cc->ok ? &cc->prog : nullptr, rnd);
  r.model_steps += w.steps;
  if (w.diverged) { r.outcome = "DIVERGED"; return; }
  std::vector<std::string> args;
  for (size_t i = 0; i < files.size(); i++) { args.push_back("g" + N(long(i)) + ".ccml"); write_file(dir() + "/" + args.back(), files[i]); }
  Ran x = run(args, cfg, r);
  judge(w, x, cf, r);
  for (auto &a : args) unlink((dir() + "/" + a).c_str());
  uint64_t h = 1469598103934665603ull;
  for (auto &f : w.frames) for (uint32_t p : f.px) h = (h ^ p) * 1099511628211ull;
  r.outcome = N(w.code) + ":" + std::to_string(h);
}
// files: sources, note: how the outside world behaves
static void exec_show(const Case &c, Result &r) { show_script(c.files, c.note, r); }

static std::string M(const std::string &body) { return "function main()\n" + body + "end\n"; }
static std::string L(const std::string &call) { return " " + call + "\n"; }
// a value as the colour of pixel i
static const char *show_fn = "function show(i, v)\n if (v == none)\n  setrgb(1, 2, 3)\n else\n  setrgb(v / 65536, v / 256, v + 64)\n end\n plot(i, 0)\nend\n";

// what the earlier calls of video returned, on a window that works
static const char *results = " video(4, 2)\n show(0, all[0])\n show(1, all[1])\n show(2, all[2])\n flip()\n";

// the random numbers of the runner, learnt from it: a script shows them as colours
static std::vector<int> learn_random(Result &r, int n) {
  Ran x;
  write_file(dir() + "/rnd.ccml", M(" video(" + N(n) + ", 2)\n var i\n for (i = 0 to " + N(n) + ")\n  var v = rand()\n  setrgb(v / 65536, v / 256, v)\n  plot(i, 0)\n  setrgb(v < 0, v > 8388607, 1)\n  plot(i, 1)\n end\n flip()\n"));
  x = run({"rnd.ccml"}, "", r);
  unlink((dir() + "/rnd.ccml").c_str());
  std::vector<int> v;
  if (r.bad) return v;
  if (x.frames.size() != 1 || x.frames[0].w != n * 3 || x.frames[0].h != 6) { r.fail("the script showing random numbers shows no picture"); return v; }
  for (int i = 0; i < n; i++) {
    v.push_back(int(x.frames[0].px[size_t(i) * 3]));
    if (v.back() > 8388607 || x.frames[0].px[size_t(n) * 9 + size_t(i) * 3] != 1) { r.fail("random number out of range"); return v; }
  }
  return v;
}
static void exec_random(const Case &c, Result &r) {
  auto v = learn_random(r, int(c.p[0]));
  if (r.bad) return;
  std::map<int, int> seen;
  for (int k : v) seen[k]++;
  if (v.size() >= 16 && seen.size() < v.size() / 2) r.fail("random numbers repeat: " + N(long(seen.size())) + " different of " + N(long(v.size())));
  r.outcome = N(long(v.size()));
}
static void exec_example(const Case &c, Result &r) {
  auto rnd = learn_random(r, 4000);
  if (r.bad) return;
  show_script(c.files, c.note, r, rnd);
}

// ---------------------------------------------------------------- ways to call it
static void exec_invocation(const Case &c, Result &r) {
  const std::string d = dir() + "/";
  mkdir((d + "sub").c_str(), 0755);
  write_file(d + "ok.ccml", "function main()\n video(2, 2)\n plot(1, 1)\n flip()\nend\n");
  write_file(d + "lib.ccml", "function lib()\n plot(0, 1)\nend\n");
  write_file(d + "empty.ccml", "");
  write_file(d + "nomain.ccml", "var x = video(2, 2)\nfunction f()\n flip()\nend\n");
  write_file(d + "bad.ccml", "function main()\n\n return (\nend\n");
  write_file(d + "args.ccml", "function main(a)\n video(2, 2)\n flip()\nend\n");
  write_file(d + "init.ccml", "var z = none - 1\nfunction main()\n video(2, 2)\n flip()\nend\n");
  write_file(d + "fail.ccml", "function main()\n video(2, 2)\n flip()\n var z = 0\n return 1 / z\nend\n");
  write_file(d + "uses.ccml", "function main()\n video(2, 2)\n lib()\n flip()\nend\n");
  write_file(d + "sub/part.ccml", "function lib()\n plot(0, 0)\nend\n");
  write_file(d + "imp.ccml", "import \"sub/part.ccml\"\nfunction main()\n video(2, 2)\n lib()\n flip()\nend\n");
  struct K { std::vector<std::string> args; int code; int frames; uint32_t a, b, c, d; int file, line; };
  const uint32_t W = 0xffffff;
  static const std::vector<K> all = {
      {{}, 255, 0},
      {{"missing.ccml"}, 254, 0},
      {{"ok.ccml", "missing.ccml"}, 254, 0},
      {{"missing.ccml", "ok.ccml"}, 254, 0},
      {{"sub"}, 254, 0},
      {{""}, 254, 0},
      {{"empty.ccml"}, 254, 0},
      {{"ok.ccml"}, 0, 1, 0, 0, 0, W},
      {{"./ok.ccml"}, 0, 1, 0, 0, 0, W},
      {{d + "ok.ccml"}, 0, 1, 0, 0, 0, W},
      {{"ok.ccml", "lib.ccml"}, 0, 1, 0, 0, 0, W},
      {{"uses.ccml", "lib.ccml"}, 0, 1, 0, 0, W, 0},
      {{"lib.ccml", "uses.ccml"}, 0, 1, 0, 0, W, 0},
      {{"imp.ccml"}, 0, 1, W, 0, 0, 0},
      {{"uses.ccml"}, 1, 0, 0, 0, 0, 0, 0, 3},
      {{"nomain.ccml"}, 1, 0},
      {{"bad.ccml"}, 1, 0, 0, 0, 0, 0, 0, 3},
      {{"lib.ccml", "bad.ccml"}, 1, 0, 0, 0, 0, 0, 1, 3},
      {{"args.ccml"}, 1, 0},
      {{"init.ccml"}, 1, 0},
      {{"fail.ccml"}, 1, 1, 0, 0, 0, 0},
  };
  if (size_t(c.p[0]) >= all.size()) { r.outcome = "none"; return; }
  const K &k = all[size_t(c.p[0])];
  const bool nosdl = c.p[1];
  Ran x = run(k.args, nosdl ? "init_fail=1" : "", r);
  if (r.bad) return;
  if (nosdl) {
    if (x.code == 0 || !x.frames.empty()) r.fail("without a display: exit code " + N(x.code));
    r.outcome = "nosdl";
    return;
  }
  if (x.code != k.code) { r.fail("exit code: expected " + N(k.code) + ", observed " + N(x.code) + " " + x.err.substr(0, 200)); return; }
  if (int(x.frames.size()) != k.frames) { r.fail("expected " + N(k.frames) + " pictures, observed " + N(long(x.frames.size()))); return; }
  if (k.frames) {
    Frame f;
    f.w = f.h = 6;
    f.px.resize(36);
    const uint32_t q[4] = {k.a, k.b, k.c, k.d};
    for (int i = 0; i < 36; i++) f.px[size_t(i)] = q[(i / 18) * 2 + (i % 6) / 3];
    same(r, f, x.frames[0], 0);
  }
  if (k.code != 0 && k.args != std::vector<std::string>{"fail.ccml"} && x.err.empty()) r.fail("no message on the error stream");
  if (k.line) {
    int f = -1, l = -1;
    sscanf(x.err.c_str(), "file %d, line:%d", &f, &l);
    diff(r, "position", N(k.file) + ":" + N(k.line), N(f) + ":" + N(l));
  }
  r.outcome = N(k.code) + N(long(c.p[0]));
}

static const std::vector<std::pair<std::string, std::string>> &examples() {
  static std::vector<std::pair<std::string, std::string>> v;
  static bool done = false;
  if (done) return v;
  done = true;
  const char *repo = getenv("VERIF_REPO");
  for (const char *sub : {"misc", "snake"}) {
    const std::string d = std::string(repo ? repo : "/repo") + "/examples/" + sub;
    DIR *q = opendir(d.c_str());
    if (!q) continue;
    while (dirent *e = readdir(q)) {
      std::string n = e->d_name, t;
      if (n.size() > 5 && n.substr(n.size() - 5) == ".ccml" && read_file(d + "/" + n, t) && t.find("video(") != std::string::npos) v.push_back({n, t});
    }
    closedir(q);
  }
  std::sort(v.begin(), v.end());
  return v;
}

void mc::spaces(const std::string &tier, std::vector<Space> &out) {
  const bool th = tier == "thorough" || tier == "asan+", asan = tier.rfind("asan", 0) == 0;
  auto push = [&](Space s) { s.hang_s = 120; out.push_back(s); };
  const int big = th ? 40 : asan ? 9 : 14;
  push(make("screen sizes", "every screen of 1.." + N(big) + " x 1.." + N(big) + " and 12 larger or narrower ones: every pixel in a colour of its own, plots all around the edges, then cleared", [big](Chooser &ch, Case &c) {
    static const std::vector<std::pair<int, int>> more = {{320, 20}, {20, 320}, {1, 300}, {300, 1}, {100, 75}, {75, 100}, {128, 128}, {127, 129}, {5461, 1}, {1, 5461}, {64, 2}, {2, 64}};
    int k = ch.choose(big * big + int(more.size()));
    int w = k < big * big ? k % big + 1 : more[size_t(k - big * big)].first, h = k < big * big ? k / big + 1 : more[size_t(k - big * big)].second;
    c.files = {M(" var ok = video(" + N(w) + ", " + N(h) + ")\n var x\n var y\n flip()\n for (y = -1 to " + N(h + 1) + ")\n  for (x = -1 to " + N(w + 1) + ")\n   setrgb(x * 7 + 1, y * 5 + 3, x + y * 16 + ok * 2)\n   plot(x, y)\n  end\n end\n flip()\n cls()\n flip()\n setrgb(9, 8, 7)\n plot(" + N(w - 1) + ", " + N(h - 1) + ")\n flip()\n")};
    return true;
  }, exec_show));
  const int lw = th ? 8 : 5, lh = th ? 7 : 4;
  push(make("lines", "every line between two points of -2.." + N(lw + 1) + " x -2.." + N(lh + 1) + " on a screen of " + N(lw) + " x " + N(lh), [lw, lh, asan](Chooser &ch, Case &c) {
    int x0 = ch.choose(lw + 4) - 2, y0 = ch.choose(lh + 4) - 2;
    if (asan && (x0 + y0) % 3) return false;
    std::string b = L("video(" + N(lw) + ", " + N(lh) + ")");
    for (int y1 = -2; y1 < lh + 2; y1++) for (int x1 = -2; x1 < lw + 2; x1++) b += L("cls()") + L("line(" + N(x0) + ", " + N(y0) + ", " + N(x1) + ", " + N(y1) + ")") + L("flip()");
    c.files = {M(b)};
    return true;
  }, exec_show));
  push(make("long lines", "lines from 9 points of a 61 x 47 screen to all points of every third row and column in and around it", [th](Chooser &ch, Case &c) {
    static const std::vector<std::pair<int, int>> from = {{0, 0}, {60, 0}, {0, 46}, {60, 46}, {30, 23}, {-20, 10}, {90, 30}, {15, -40}, {40, 80}};
    auto p = ch.pick(from);
    int part = ch.choose(8);
    c.files = {M(" video(61, 47)\n var x\n var y\n for (y = " + N(part * 10 - 20) + " to " + N(part * 10 - 10) + ")\n  for (x = -20 to 80)\n   if (" + (th ? std::string("1") : std::string("(x + y) % 9 == 0")) + ")\n    setrgb(x * 3, y * 5, 200)\n    line(" + N(p.first) + ", " + N(p.second) + ", x, y)\n   end\n  end\n  flip()\n end\n")};
    return true;
  }, exec_show));
  push(make("far lines", "lines between far away points through a 20 x 10 screen", [](Chooser &ch, Case &c) {
    static const std::vector<int> far = {-16000, -500, -1, 3, 12, 500, 16000};
    int x0 = ch.pick(far), y0 = ch.pick(far);
    std::string b = L("video(20, 10)");
    for (int x1 : far) for (int y1 : far) b += L("line(" + N(x0) + ", " + N(y0) + ", " + N(x1) + ", " + N(y1) + ")") + L("flip()") + L("cls()");
    c.files = {M(b)};
    return true;
  }, exec_show));
  push(make("circles", "every centre of -4..12 x -4..10 and every radius 1..9 and below 0 on a screen of 9 x 7", [asan](Chooser &ch, Case &c) {
    int cx = ch.choose(17) - 4, cy = ch.choose(15) - 4;
    if (asan && (cx + cy) % 4) return false;
    std::string b = L("video(9, 7)");
    for (int r = -3; r <= 9; r++) if (r) b += L("cls()") + L("circle(" + N(cx) + ", " + N(cy) + ", " + N(r) + ")") + L("flip()");
    c.files = {M(b)};
    return true;
  }, exec_show));
  push(make("large circles", "every radius 1.." + N(th ? 300 : 120) + " on a 64 x 48 screen, 4 centres", [th](Chooser &ch, Case &c) {
    int q = ch.choose(4), k = ch.choose(th ? 30 : 12);
    std::string b = L("video(64, 48)");
    for (int r = k * 10 + 1; r <= k * 10 + 10; r++) b += L("circle(" + N(q * 20) + ", " + N(q * 15) + ", " + N(r) + ")") + L("flip()") + L("cls()");
    c.files = {M(b)};
    return true;
  }, exec_show));
  push(make("colours", "every component value of -3..260 and of far away values, in each of the three places, also as fractions", [](Chooser &ch, Case &c) {
    int place = ch.choose(3), k = ch.choose(24);
    static const Strs odd = {"2147483647", "-2147483647", "65535", "65536", "-256", "-255", "0.0", "0.99", "1.5", "255.9", "256.5", "-1 * 1.5", "none", "\"5\"", "[5]", "main", "plot"};
    Strs v;
    for (int i = 0; i < 11; i++) v.push_back(N(k * 11 + i - 3));
    if (k == 23) v = odd;
    std::string b = L("video(" + N(long(v.size())) + ", 1)");
    for (size_t i = 0; i < v.size(); i++) {
      std::string a[3] = {"17", "34", "51"};
      a[place] = v[i];
      b += L("setrgb(" + a[0] + ", " + a[1] + ", " + a[2] + ")") + L("plot(" + N(long(i)) + ", 0)");
    }
    c.files = {M(b + L("flip()"))};
    return true;
  }, exec_show));
  push(make("operands", "every drawing function with values of 10 kinds in every place", [](Chooser &ch, Case &c) {
    static const std::vector<std::pair<std::string, Strs>> f = {{"plot", {"2", "1"}}, {"line", {"0", "0", "4", "3"}}, {"circle", {"2", "2", "1"}}, {"setrgb", {"9", "99", "199"}}, {"video", {"4", "3"}}, {"keydown", {"\"up\""}}, {"sleep", {"3"}}};
    static const Strs v = {"none", "1", "-1", "1.5", "2.99", "-1 * 0.5", "\"1\"", "\"\"", "[1]", "main", "plot", "abs"};
    auto x = ch.pick(f);
    int place = ch.choose(int(x.second.size())), pre = ch.choose(2), how = ch.choose(2);
    std::string b = pre ? L("video(6, 5)") + L("setrgb(1, 20, 240)") : "";
    b += L("var h = " + x.first) + L("var i");
    for (auto &k : v) {
      std::string a;
      for (size_t i = 0; i < x.second.size(); i++) a += std::string(i ? ", " : "") + (int(i) == place ? k : x.second[i]);
      b += L("i = " + std::string(how ? "h" : x.first) + "(" + a + ")") + L("show(5, i)") + L("plot(0, 3)") + L("flip()") + L("cls()");
    }
    c.files = {std::string(show_fn) + M(b)};
    c.note = "keys=1";
    return true;
  }, exec_show));
  push(make("numbers of arguments", "every function of the runner called through a variable with 0..5 arguments", [](Chooser &ch, Case &c) {
    static const Strs f = {"cls", "rand", "video", "plot", "flip", "setrgb", "circle", "line", "sleep", "keydown"};
    int k = ch.choose(10), n = ch.choose(6), deep = ch.choose(2);
    std::string a;
    for (int i = 0; i < n; i++) a += std::string(i ? ", " : "") + N(i + 1);
    std::string body = L("var p = 3") + L("var q = 1") + L("var h = " + f[size_t(k)]) + L("h(" + a + ")") + L("plot(p, q)") + L("flip()");
    if (f[size_t(k)] == "rand" && n == 0) return false;
    c.files = {deep ? "function f(u)\n" + body + " return p\nend\n" + M(L("video(5, 4)") + L("flip()") + L("var a = 2") + L("var b = f(7)") + L("plot(a, b)") + L("flip()")) : M(L("video(5, 4)") + L("flip()") + body)};
    return true;
  }, exec_show));
  push(make("drawing", "every sequence of " + N(asan ? 3 : 4) + " of 12 drawing steps on a screen of 5 x 4", [asan, th](Chooser &ch, Case &c) {
    static const Strs op = {"setrgb(255, 0, 0)", "setrgb(0, 200, 7)", "plot(1, 2)", "plot(4, 3)", "plot(5, 1)", "line(0, 0, 4, 2)", "line(3, 3, 0, 1)", "circle(2, 2, 1)", "circle(4, 0, 2)", "cls()", "flip()", "plot(1.9, 2.9)"};
    std::string b, head;
    int n = asan ? 1 : th ? 3 : 2;
    for (int i = 0; i < n; i++) head += L(ch.pick(op));
    for (auto &x : op) for (auto &y : op) b += L("video(5, 4)") + L("setrgb(50, 60, 70)") + head + L(x) + L(y) + L("flip()");
    c.files = {M(b)};
    return true;
  }, exec_show));
  push(make("before the window", "every sequence of 2 of the drawing steps before the first video call, 2 after it", [asan](Chooser &ch, Case &c) {
    static const Strs op = {"setrgb(255, 1, 0)", "plot(1, 2)", "line(0, 0, 4, 2)", "circle(2, 2, 1)", "cls()", "flip()", "keydown(\"up\")"};
    std::string a = ch.pick(op), b = asan ? op[5] : ch.pick(op), d = ch.pick(op), e = asan ? op[3] : ch.pick(op);
    c.files = {M(L(a) + L(b) + L("video(5, 4)") + L(d) + L(e) + L("flip()"))};
    return true;
  }, exec_show));
  push(make("windows", "every sequence of 3 video calls of 12 sizes, drawn on and shown in between; refused sizes leave the window as it is", [asan](Chooser &ch, Case &c) {
    static const Strs size = {"5, 4", "2, 7", "1, 1", "9, 2", "0, 4", "4, 0", "-1, 5", "5, -3", "none, 3", "4.0, 4", "2147483647, 2147483647", "65536, 65536"};
    std::string b = L("var ok") + L("var all = [0, 0, 0]");
    for (int i = 0; i < (asan ? 2 : 3); i++) b += L("ok = video(" + ch.pick(size) + ")") + L("all[" + N(i) + "] = ok") + L("show(0, ok)") + L("setrgb(200, 9, " + N(i * 50) + ")") + L("line(0, 1, 9, 6)") + L("plot(4, 3)") + L("flip()");
    c.files = {std::string(show_fn) + M(b + results)};
    return true;
  }, exec_show));
  push(make("failing windows", "creating the window or getting its surface fails the 1st, 2nd, 3rd or every time, 3 video calls of 4 sizes", [](Chooser &ch, Case &c) {
    static const Strs size = {"5, 4", "2, 7", "12, 9", "0, 1"};
    static const Strs how = {"create_fail=1", "create_fail=2", "create_fail=3", "create_fail=-1", "surface_fail=1", "surface_fail=2", "surface_fail=3", "surface_fail=-1", "create_fail=1,surface_fail=1"};
    c.note = ch.pick(how);
    std::string b = L("var ok") + L("var all = [0, 0, 0]");
    for (int i = 0; i < 3; i++) b += L("ok = video(" + ch.pick(size) + ")") + L("all[" + N(i) + "] = ok") + L("show(0, ok)") + L("setrgb(200, 9, " + N(i * 50) + ")") + L("circle(3, 3, 3)") + L("line(0, 1, 9, 6)") + L("plot(4, 3)") + L("cls()") + L("show(1, ok)") + L("flip()");
    c.files = {std::string(show_fn) + M(b + results)};
    return true;
  }, exec_show));
  push(make("keys", "all 64 states of the six keys, with and without every other key pressed, 20 names", [](Chooser &ch, Case &c) {
    static const Strs n = {"up", "down", "left", "right", "escape", "space", "", "u", "upp", "Up", "UP", "esc", "Escape", " space", "return", "a", "down ", "lefT", "righ", "up\\n"};
    c.note = "keys=" + N(ch.choose(64)) + ",other=" + N(ch.choose(2));
    std::string b = L("video(" + N(long(n.size())) + ", 1)");
    for (size_t i = 0; i < n.size(); i++) b += L("show(" + N(long(i)) + ", keydown(\"" + n[i] + "\"))");
    c.files = {std::string(show_fn) + M(b + L("flip()"))};
    return true;
  }, exec_show));
  push(make("sleeping", "every sequence of 3 sleeps of 12 lengths (with the address sanitizer: of 1), a picture after each, started at 3 times", [asan](Chooser &ch, Case &c) {
    static const Strs ms = {"0", "1", "2", "10", "999", "5000", "1.9", "0.5", "-1", "-1000", "none", "\"7\""};
    static const std::vector<long> start = {0, 5, 100000};
    std::string b = L("video(2, 1)") + L("flip()");
    for (int i = 0; i < (asan ? 1 : 3); i++) b += L("sleep(" + ch.pick(ms) + ")") + L("plot(" + N(i % 2) + ", 0)") + L("flip()");
    c.note = "start=" + N(ch.pick(start));
    c.files = {M(b)};
    return true;
  }, exec_show));
  push(make("closing", "the window is closed at every one of the first " + N(th ? 120 : asan ? 10 : 40) + " polls, with 0..3 other events before it, 4 scripts", [th, asan](Chooser &ch, Case &c) {
    static const Strs s = {"function main()\n video(3, 2)\n var i = 0\n while (i < 60)\n  plot(i % 3, i % 2)\n  setrgb(i * 4, i, 9)\n  flip()\n  i += 1\n  sleep(1)\n end\nend\n",
                           "function main()\n video(3, 2)\n var i = 0\n while (i < 3000)\n  plot(i % 3, i % 2)\n  setrgb(i * 4, i, 9)\n  if (i % 100 == 0)\n   flip()\n  end\n  i += 1\n end\nend\n",
                           "function main()\n video(3, 2)\n flip()\nend\n",
                           "function main()\n video(3, 2)\n sleep(20)\n flip()\n sleep(5)\n plot(1, 1)\n flip()\nend\n"};
    c.files = {ch.pick(s)};
    c.note = "quit_poll=" + N(1 + ch.choose(th ? 120 : asan ? 10 : 40)) + ",junk=" + N(ch.choose(4));
    return true;
  }, exec_show));
  push(make("other events", "1..9 events of other kinds at every poll do not end the run", [](Chooser &ch, Case &c) {
    c.note = "junk=" + N(1 + ch.choose(9));
    c.files = {M(" video(3, 2)\n var i = 0\n while (i < 30)\n  plot(i % 3, i % 2)\n  setrgb(i * 4, i, 9)\n  flip()\n  i += 1\n  sleep(1)\n end\n")};
    return true;
  }, exec_show));
  push(make("threads", "1..6 threads drawing, sleeping or failing next to main", [](Chooser &ch, Case &c) {
    int n = 1 + ch.choose(6), kind = ch.choose(5);
    static const Strs body = {" plot(i, 0)\n", " wait(2)\n plot(i, 0)\n", " sleep(5)\n plot(i, 0)\n", " var k = 0\n while (k < 3000)\n  k += 1\n end\n plot(i, 0)\n", " var z = 0\n plot(i, 0)\n z = 1 / z\n"};
    std::string b = L("video(8, 2)");
    for (int i = 0; i < n; i++) b += L("new_thread(draw, " + N(i) + ")");
    b += L("var w = 0") + " while (w < 40)\n  wait(1)\n  w += 1\n end\n" + L("plot(7, 1)") + L("flip()");
    c.files = {"function draw(i)\n" + body[size_t(kind)] + "end\n" + M(b)};
    c.p = {n, kind};
    return true;
  }, [](const Case &c, Result &r) {
    write_file(dir() + "/t.ccml", c.files[0]);
    Ran x = run({"t.ccml"}, "", r);
    unlink((dir() + "/t.ccml").c_str());
    if (r.bad) return;
    if (c.p[1] == 4) {  // a failing thread ends the run
      if (x.code != 1 || !x.frames.empty()) r.fail("a thread failed: exit code " + N(x.code) + ", " + N(long(x.frames.size())) + " pictures");
      return;
    }
    if (x.code != 0 || x.frames.size() != 1) { r.fail("exit code " + N(x.code) + ", " + N(long(x.frames.size())) + " pictures " + x.err.substr(0, 200)); return; }
    Screen s;
    s.w = 8;
    s.h = 2;
    s.open = true;
    s.px.assign(16, 0);
    for (int i = 0; i < c.p[0]; i++) s.dot(i, 0);
    s.dot(7, 1);
    Frame f;
    f.w = 24;
    f.h = 6;
    f.px.resize(24 * 6);
    for (int i = 0; i < 24 * 6; i++) f.px[size_t(i)] = s.px[size_t(i / 24 / 3 * 8 + i % 24 / 3)];
    same(r, f, x.frames[0], 0);
    r.outcome = N(c.p[0]) + N(c.p[1]);
  }));
  push(make("failing scripts", "a runtime error of 8 kinds after 0..3 pictures, in main, in a called function and in initialisation", [](Chooser &ch, Case &c) {
    static const Strs bad = {"1 / z", "z % z", "none - 1", "\"a\" * 2", "a[3]", "a[none]", "z[0]", "abs(none)"};
    int n = ch.choose(4), where = ch.choose(3);
    std::string e = ch.pick(bad), b = L("video(3, 3)") + L("var z = 0") + L("var a = [1]");
    for (int i = 0; i < n; i++) b += L("plot(" + N(i) + ", 1)") + L("flip()");
    if (where == 0) c.files = {M(b + L("var q = " + e) + L("flip()"))};
    if (where == 1) c.files = {"function f(z, a)\n return " + e + "\nend\n" + M(b + L("var q = f(z, a)") + L("flip()"))};
    if (where == 2) c.files = {"var z = 0\nvar a = [1]\nvar q = f()\nfunction f()\n return " + e + "\nend\n" + M(b + L("flip()"))};
    return true;
  }, exec_show));
  push(make("rejected scripts", "every token sequence of up to 3 of 14 tokens after a drawing script: shown or rejected, never half of it", [asan](Chooser &ch, Case &c) {
    static const Strs t = {"function", "var", "x", "end", "(", ")", "1", "=", "flip", "\n", "if", "const", "main", "\"s\""};
    std::string s = M(L("video(2, 1)") + L("plot(1, 0)") + L("flip()"));
    int n = ch.choose(asan ? 3 : 4);
    for (int i = 0; i < n; i++) s += ch.pick(t) + " ";
    c.files = {s};
    return true;
  }, exec_show));
  push(make("random numbers", "the first 1.." + N(60) + " random numbers are in range and differ", [](Chooser &ch, Case &c) {
    c.p = {1 + ch.choose(60)};
    return true;
  }, exec_random));
  push(make("invocations", "21 ways to name sources, with and without a display", [](Chooser &ch, Case &c) {
    c.p = {ch.choose(21), ch.choose(2)};
    return true;
  }, exec_invocation));
  push(make("example scripts", "the first pictures of every graphics example of the repository, four states of the keys", [th](Chooser &ch, Case &c) {
    auto &v = examples();
    if (v.empty()) return false;
    auto &x = v[size_t(ch.choose(int(v.size())))];
    c.files = {x.second};
    c.note = "quit_frames=" + N(th ? 40 : 6) + ",keys=" + N(ch.pick(std::vector<int>{0, 1, 2, 8}));
    return true;
  }, exec_example));
}
