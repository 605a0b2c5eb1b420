#!/usr/bin/env python3
"""planted bugs, sixth batch: the graphics runner"""
from seedlib import seed
D = "driver_sdl/driver.cpp"
seed("C22-plot-right-edge", "C22", [(D, "    if (x >= 0 && x < (int32_t)global.width_) {", "    if (x >= 0 && x <= (int32_t)global.width_) {")],
 "a plot exactly one pixel right of the screen, on any row but the last", "the pixel appears at the left edge of the next row", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(3, 2)
 plot(3, 0)
 flip()
 plot(2, 0)
 flip()
end
X
expect "$(pics a.ccml)" "9x6 0 0 0 0 0 0
9x6 0 0 ffffff 0 0 0
rc 0"
''')
seed("C22-line-rounding", "C22", [(D, "      plot(x + i, y + (j >> 16));", "      plot(x + i, y + (j / 65536));")],
 "a flat line that rises and does not move by whole pixels", "the line is drawn one pixel lower than the straight line on part of its way", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(4, 3)
 line(0, 2, 4, 0)
 flip()
 cls()
 line(0, 0, 4, 2)
 flip()
end
X
expect "$(pics a.ccml)" "12x9 0 0 0 ffffff 0 ffffff ffffff 0 ffffff 0 0 0
12x9 ffffff ffffff 0 0 0 0 ffffff ffffff 0 0 0 0
rc 0"
''')
seed("C22-flip-unchanged", "C22", [
 (D, "  std::unique_ptr<uint32_t[]> video_;", "  std::unique_ptr<uint32_t[]> video_;\n  bool dirty_ = true;"),
 (D, "        *v = global.rgb_;\n      }\n    }\n  }\n}\n", "        *v = global.rgb_;\n        global.dirty_ = true;\n      }\n    }\n  }\n}\n"),
 (D, "    for (; v < e; ++v) {\n      *v = global.rgb_;\n    }\n", "    for (; v < e; ++v) {\n      *v = global.rgb_;\n    }\n    global.dirty_ = true;\n"),
 (D, "    uint32_t *d = (uint32_t *)global.screen_->pixels;\n\n    for (uint32_t y = 0; y < h; ++y) {", "    uint32_t *d = (uint32_t *)global.screen_->pixels;\n\n    // only scale what has changed\n    for (uint32_t y = 0; global.dirty_ && y < h; ++y) {"),
 (D, "    SDL_UpdateWindowSurface(global.window_);", "    global.dirty_ = false;\n    SDL_UpdateWindowSurface(global.window_);")],
 "a picture that was shown, then cleared and shown again with nothing drawn in between", "the cleared screen still shows the old picture", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(2, 1)
 plot(1, 0)
 flip()
 cls()
 flip()
 plot(0, 0)
 flip()
end
X
expect "$(pics a.ccml)" "6x3 0 ffffff
6x3 0 0
6x3 ffffff 0
rc 0"
''')
seed("C22-circle-octant", "C22", [(D, "  while (x++ <= y) {", "  while (x++ < y) {")],
 "a circle of one of the few radii whose last step meets the diagonal: 4, 8, 15, 39", "a part of the disc is not filled", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(8, 5)
 circle(4, 0, 3)
 flip()
 circle(4, 0, 4)
 flip()
end
X
expect "$(pics a.ccml)" "24x15 0 ffffff ffffff ffffff ffffff ffffff ffffff 0 0 ffffff ffffff ffffff ffffff ffffff ffffff 0 0 0 ffffff ffffff ffffff ffffff 0 0 0 0 0 ffffff ffffff 0 0 0 0 0 0 0 0 0 0 0
24x15 ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff ffffff 0 ffffff ffffff ffffff ffffff ffffff ffffff 0 0 0 ffffff ffffff ffffff ffffff 0 0
rc 0"
''')
seed("C22-colour-saturates", "C22", [(D, "    global.rgb_ = ((ir & 0xff) << 16) | ((ig & 0xff) << 8) | (ib & 0xff);", "    global.rgb_ = ((ir & 0xff) << 16) | (std::min(ig, 0xff) << 8) | (ib & 0xff);")],
 "a green component above 255 or below 0", "the colour differs from the components modulo 256, and a negative one spills into red", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(3, 1)
 setrgb(1, 255, 3)
 plot(0, 0)
 setrgb(1, 258, 3)
 plot(1, 0)
 setrgb(1, -1, 3)
 plot(2, 0)
 flip()
end
X
expect "$(pics a.ccml)" "9x3 1ff03 10203 1ff03
rc 0"
''')
seed("C22-video-keeps-picture", "C22", [(D, "    global.video_.reset(new uint32_t[(uint32_t)(w->v * h->v)]);\n    memset(global.video_.get(), 0, w->v * h->v * sizeof(uint32_t));", "    static int32_t capacity = 0;\n    if (w->v * h->v > capacity) {\n      capacity = w->v * h->v;\n      global.video_.reset(new uint32_t[capacity]);\n      memset(global.video_.get(), 0, capacity * sizeof(uint32_t));\n    }")],
 "a second video call with a screen that is not larger than the first, after drawing", "the new screen starts with what was drawn on the old one", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(3, 2)
 plot(1, 0)
 video(2, 2)
 flip()
 video(4, 2)
 flip()
end
X
expect "$(pics a.ccml)" "6x6 0 0 0 0
12x6 0 0 0 0 0 0 0 0
rc 0"
''')
seed("C22-wake-early", "C22", [(D, "    if (SDL_GetTicks() > tick_mark) {", "    if (SDL_GetTicks() + 16 > tick_mark) {")],
 "a sleep of more than 16 ms", "the script goes on up to 16 ms too early", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(1, 1)
 flip()
 sleep(100)
 flip()
end
X
o=$(CLOCK=1 pics a.ccml)
a=$(echo "$o" | sed -n 1p | cut -d' ' -f1)
b=$(echo "$o" | sed -n 2p | cut -d' ' -f1)
[ -n "$a" ] && [ -n "$b" ] && [ $((b - a)) -ge 100 ] || { echo "slept from $a to $b"; exit 1; }
''')
seed("C22-key-prefix", "C22", [(D, "  if (strcmp(s, \"up\") == 0) {", "  if (strncmp(s, \"up\", strlen(s)) == 0) {")],
 "keydown with a prefix of a key's name or the empty string", "a name that is no key reports the state of one", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(3, 1)
 if (keydown("up") == 1)
  plot(0, 0)
 end
 if (keydown("") == none)
  plot(1, 0)
 end
 if (keydown("u") == none)
  plot(2, 0)
 end
 flip()
end
X
expect "$(KEYS=u pics a.ccml)" "9x3 ffffff ffffff ffffff
rc 0"
''')
seed("C22-ends-by-itself", "C22", [(D, "  bool active = true;\n  while (active) {\n", "  bool active = true;\n  while (active && !vm.finished()) {\n")],
 "a script whose threads have all finished while the window is still open", "the window is closed as soon as the script ends, before its last picture can be seen", sdl=r'''
cat > a.ccml <<'X'
function main()
 video(1, 1)
 flip()
end
X
expect "$(CLOSE=1 pics a.ccml)" "3x3 0
closed
rc 0"
''')
