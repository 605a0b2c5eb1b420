#include "explore.h"

int main(int argc, char **argv) {
  mc::Runner r;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") r.o.prop = v;
    else if (k == "--tier") r.o.tier = v;
    else if (k == "--scratch") r.o.scratch = v;
    else if (k == "--replay-out") r.o.replay_out = v;
    else if (k == "--stats") r.o.stats_out = v;
    else if (k == "--replay") r.o.replay_in = v;
    else if (k == "--workers") r.o.workers = atoi(v.c_str());
    else if (k == "--deadline") r.o.deadline = atof(v.c_str());
    else if (k == "--only") r.o.only = v;
  }
  mc::scratch_dir() = r.o.scratch;
  if (chdir(r.o.scratch.c_str()) != 0) return 3;
  std::vector<mc::Space> all;
  mc::spaces(r.o.tier, all);
  for (auto &s : all)
    if (r.o.only.empty() || s.name == r.o.only) r.spaces.push_back(s);
  if (!r.o.replay_in.empty()) return r.replay(r.o.replay_in);
  return r.run();
}
