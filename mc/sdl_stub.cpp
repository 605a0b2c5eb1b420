// Linked into the graphics runner in front of the real SDL (dummy video driver): a virtual clock, a scripted keyboard and
// event queue, window creation that fails on request, and a record of every picture shown.
#include <dlfcn.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <SDL.h>

namespace {
uint64_t now_ms = 0, asked = 0, idle = 0, polls = 0, frames = 0;
int created = 0, surfaces = 0;
bool quitting = false;
FILE *out = nullptr;

long cfg(const char *key, long def) {
  const char *s = getenv("VERIF_SDL");
  size_t n = strlen(key);
  while (s && *s) {
    if (!strncmp(s, key, n) && s[n] == '=') return strtol(s + n + 1, nullptr, 0);
    s = strchr(s, ',');
    if (s) s++;
  }
  return def;
}
template <class F> F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
void record(const char *what) {
  if (!out) out = fopen(getenv("VERIF_SDL_OUT") ? getenv("VERIF_SDL_OUT") : "/dev/null", "wb");
  if (out) { fputs(what, out); fflush(out); }
}
void show(SDL_Window *w) {
  idle = 0;
  SDL_Surface *s = w ? real<SDL_Surface *(*)(SDL_Window *)>("SDL_GetWindowSurface")(w) : nullptr;
  if (!s) { record("N 0 0 0\n"); return; }
  char h[96];
  snprintf(h, sizeof h, "F %llu %d %d\n", (unsigned long long)now_ms, s->w, s->h);
  record(h);
  for (int y = 0; y < s->h; y++)
    for (int x = 0; x < s->w; x++) {
      uint32_t p = 0;
      Uint8 r, g, b;
      memcpy(&p, (char *)s->pixels + size_t(y) * size_t(s->pitch) + size_t(x) * s->format->BytesPerPixel, s->format->BytesPerPixel);
      SDL_GetRGB(p, s->format, &r, &g, &b);
      unsigned char c[3] = {r, g, b};
      fwrite(c, 1, 3, out);
    }
  fflush(out);
  frames++;
  if (quitting) record("L 0 0 0\n");
}
bool next_event(SDL_Event *e) {
  static long junk_left = -1;
  static bool mid = false;
  if (!mid) { polls++; idle++; junk_left = cfg("junk", 0); }
  mid = false;
  const long qp = cfg("quit_poll", 0), qf = cfg("quit_frames", 0);
  if (junk_left > 0) {
    static const Uint32 kinds[] = {SDL_KEYDOWN, SDL_KEYUP, SDL_MOUSEMOTION, SDL_WINDOWEVENT, SDL_MOUSEBUTTONDOWN, SDL_USEREVENT, SDL_TEXTINPUT, SDL_MOUSEWHEEL, SDL_WINDOWEVENT};
    if (e) { memset(e, 0, sizeof *e); e->type = kinds[junk_left % 9]; }
    junk_left--;
    mid = true;
    return true;
  }
  bool q = (qp && polls >= uint64_t(qp)) || (qf && frames >= uint64_t(qf)) || idle > 4000 || now_ms > 100000000;
  if (!q) return false;
  if (e) { memset(e, 0, sizeof *e); e->type = SDL_QUIT; }
  if (!quitting) record(idle > 4000 ? "Q 1 0 0\n" : now_ms > 100000000 ? "Q 2 0 0\n" : "Q 0 0 0\n");
  quitting = true;
  return true;
}
}  // namespace

extern "C" {
int SDL_Init(Uint32 f) { return cfg("init_fail", 0) ? -1 : real<int (*)(Uint32)>("SDL_Init")(f); }
Uint32 SDL_GetTicks(void) { if (++asked % 1000 == 0) now_ms++; return Uint32(now_ms + uint64_t(cfg("start", 0))); }
Uint64 SDL_GetTicks64(void) { return SDL_GetTicks(); }
void SDL_Delay(Uint32 ms) { now_ms += ms ? ms : 1; idle = 0; }
SDL_Window *SDL_CreateWindow(const char *t, int x, int y, int w, int h, Uint32 f) {
  created++;
  const long k = cfg("create_fail", 0);
  if (k == created || k < 0) return nullptr;
  return real<SDL_Window *(*)(const char *, int, int, int, int, Uint32)>("SDL_CreateWindow")(t, x, y, w, h, f);
}
SDL_Surface *SDL_GetWindowSurface(SDL_Window *w) {
  surfaces++;
  const long k = cfg("surface_fail", 0);
  if (k == surfaces || k < 0 || !w) return nullptr;
  return real<SDL_Surface *(*)(SDL_Window *)>("SDL_GetWindowSurface")(w);
}
int SDL_UpdateWindowSurface(SDL_Window *w) { show(w); return 0; }
int SDL_UpdateWindowSurfaceRects(SDL_Window *w, const SDL_Rect *, int) { show(w); return 0; }
int SDL_PollEvent(SDL_Event *e) { return next_event(e); }
int SDL_WaitEventTimeout(SDL_Event *e, int ms) { if (next_event(e)) return 1; now_ms += ms > 0 ? unsigned(ms) : 1; return 0; }
const Uint8 *SDL_GetKeyboardState(int *n) {
  static Uint8 keys[SDL_NUM_SCANCODES];
  static const int code[] = {SDL_SCANCODE_UP, SDL_SCANCODE_DOWN, SDL_SCANCODE_LEFT, SDL_SCANCODE_RIGHT, SDL_SCANCODE_ESCAPE, SDL_SCANCODE_SPACE};
  const long m = cfg("keys", 0), other = cfg("other", 0);
  memset(keys, other ? 1 : 0, sizeof keys);
  for (int i = 0; i < 6; i++) keys[code[i]] = (m >> i) & 1;
  if (n) *n = SDL_NUM_SCANCODES;
  idle = 0;
  return keys;
}
}
