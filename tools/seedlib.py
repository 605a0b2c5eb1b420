"""helpers to plant a bug: write seeded/<id>/ from an edit of /repo, its demonstration and its description"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = '''#!/bin/bash
# exit 0: behaves as the property says; 1: does not
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
run() { timeout 60 "$R/_build/nano_driver" "$@" 2>err; }
comp() { timeout 60 "$R/_build/nano_comp" "$@" >out 2>err; }
expect() { if [ "$1" != "$2" ]; then echo "expected: $2"; echo "got:      $1"; exit 1; fi; }
'''
CPP = '''#!/bin/bash
# exit 0: behaves as the property says; 1: does not
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
I="-I $R/source/lib_common -I $R/source/lib_compiler -I $R/source/lib_vm -I $R/source/lib_builtins"
printf '%s\\n' $R/source/lib_*/*.cpp "$D/demo.cpp" |
  xargs -P 8 -I{} sh -c 'g++ -w -g -include cstring -D__error_t_defined=1 '"$I"' -c {} -o '"$W"'/$(echo {} | tr / _).o' || exit 3
g++ "$W"/*.o -o "$W/demo" || exit 3
cd "$W" && timeout 60 ./demo
rc=$?
[ $rc = 0 ] && exit 0
echo "demo exit $rc"
exit 1
'''
SDLSH = '''#!/bin/bash
# exit 0: behaves as the property says; 1: does not
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -w -shared -fPIC -I/usr/include/SDL2 "$D/rec.cpp" -o "$W/rec.so" -ldl || exit 3
cd "$W" || exit 3
# pics FILE...: what the runner shows, one picture per line, on SDL's dummy display with a virtual clock
pics() { SDL_VIDEODRIVER=dummy LD_PRELOAD="$W/rec.so" REC="$W/rec.txt" timeout 60 "$R/_build/nano_driver_sdl" "$@" >out 2>err; echo "rc $?" >>rec.txt; cat rec.txt; rm -f rec.txt; }
expect() { if [ "$1" != "$2" ]; then echo "expected: $2"; echo "got:      $1"; exit 1; fi; }
'''
SDLREC = r'''
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <SDL.h>
static uint64_t ms = 0, polls = 0, asked = 0;
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
Uint32 SDL_GetTicks(void) { if (++asked % 1000 == 0) ms++; return Uint32(ms); }
void SDL_Delay(Uint32 n) { ms += n ? n : 1; polls = 0; }
SDL_Window *SDL_CreateWindow(const char *t, int x, int y, int w, int h, Uint32 f) {
  static int n = 0;
  if (getenv("FAIL") && atoi(getenv("FAIL")) == ++n) return nullptr;
  return real<SDL_Window *(*)(const char *, int, int, int, int, Uint32)>("SDL_CreateWindow")(t, x, y, w, h, f);
}
int SDL_UpdateWindowSurface(SDL_Window *w) {
  static int shown = 0;
  FILE *o = fopen(getenv("REC"), "a");
  SDL_Surface *s = real<SDL_Surface *(*)(SDL_Window *)>("SDL_GetWindowSurface")(w);
  if (getenv("CLOCK")) fprintf(o, "%llu ", (unsigned long long)ms);
  fprintf(o, "%dx%d", s->w, s->h);
  for (int y = 0; y < s->h; y += 3)
    for (int x = 0; x < s->w; x += 3) {
      uint32_t p = *(uint32_t *)((char *)s->pixels + y * s->pitch + x * 4) & 0xffffff;
      bool odd = false;
      for (int k = 0; k < 9; k++) if ((*(uint32_t *)((char *)s->pixels + (y + k / 3) * s->pitch + (x + k % 3) * 4) & 0xffffff) != p) odd = true;
      fprintf(o, " %x%s", p, odd ? "!" : "");
    }
  fprintf(o, "\n");
  fclose(o);
  polls = 0;
  return 0;
}
int SDL_PollEvent(SDL_Event *e) {
  if (++polls < 3000) return 0;
  if (getenv("CLOSE")) { FILE *o = fopen(getenv("REC"), "a"); fprintf(o, "closed\n"); fclose(o); }
  memset(e, 0, sizeof *e);
  e->type = SDL_QUIT;
  return 1;
}
const Uint8 *SDL_GetKeyboardState(int *) {
  static Uint8 k[SDL_NUM_SCANCODES];
  if (const char *s = getenv("KEYS")) {
    memset(k, 0, sizeof k);
    for (const char *p = s; *p; p++) k[*p == 'u' ? SDL_SCANCODE_UP : *p == 'd' ? SDL_SCANCODE_DOWN : *p == 'l' ? SDL_SCANCODE_LEFT : *p == 'r' ? SDL_SCANCODE_RIGHT : *p == 'e' ? SDL_SCANCODE_ESCAPE : SDL_SCANCODE_SPACE] = 1;
  }
  polls = 0;
  return k;
}
}
'''
PRE = r'''
#include <cstdio>
#include <string>
#include <vector>
#include "nano.h"
#include "errors.h"
#include "lexer.h"
#include "parser.h"
#include "ast.h"
#include "codegen.h"
#include "disassembler.h"
#include "source.h"
#include "program.h"
#include "vm.h"
#include "thread.h"
#include "builtin.h"
using namespace nano;
static std::vector<std::string> logged;
static void host_log(thread_t &t, int32_t n) {
  value_t *v = t.get_stack().pop();
  logged.push_back(v->to_string());
  t.get_stack().push_int(0);
}
static bool build(program_t &p, const char *text, bool opt = true) {
  source_manager_t s;
  s.load_from_string(text);
  nano_t n(p);
  n.optimize = opt;
  builtins_register(n);
  n.syscall_register("log", 1);
  nano::error_t e;
  const bool ok = n.build(s, e);
  if (!ok) printf("compile error line %d: %s\n", e.line.line, e.error.c_str());
  builtins_resolve(p);
  p.syscall_resolve("log", host_log);
  return ok;
}
static std::string log_text() {
  std::string o;
  for (auto &x : logged) o += x + " ";
  return o;
}
static int check(const std::string &got, const std::string &want) {
  if (got == want) return 0;
  printf("expected: %s\ngot:      %s\n", want.c_str(), got.c_str());
  return 1;
}
'''
def seed(id, prop, edits, needs, breaks, script=None, cpp=None, sdl=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    import shutil, tempfile
    w = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
        for f, a, b in edits:
            p = w + "/repo/source/" + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", w + "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    if sdl:
        open(d + "/demo.sh", "w").write(SDLSH + sdl.lstrip("\n"))
        open(d + "/rec.cpp", "w").write(SDLREC)
    elif script:
        open(d + "/demo.sh", "w").write(SCRIPT + script.lstrip("\n"))
    else:
        open(d + "/demo.sh", "w").write(CPP)
        open(d + "/demo.cpp", "w").write(PRE + cpp)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
