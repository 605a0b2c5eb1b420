// Exhaustive explorer: enumerates every choice sequence of a driver, runs each resulting case on the model and on the
// implementation, over forked workers.  Crashes, failed assertions and hangs are attributed to the case that ran.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "outside.h"

namespace mc {

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline uint64_t hash64(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ (h >> 32);
}

struct Chooser {
  std::vector<int> seq, width;
  size_t pos = 0;
  uint64_t nodes = 0;
  bool replaying = false;
  int choose(int n) {
    if (n <= 1) return 0;
    if (pos < seq.size()) {
      if (width.size() <= pos) width.push_back(n);
      if (width[pos] != n || seq[pos] >= n) {
        fprintf(stderr, "explorer: replay divergence at choice %zu (%d/%d, was %d)\n", pos, seq[pos], n, width[pos]);
        _exit(3);
      }
      return seq[pos++];
    }
    seq.push_back(0);
    width.push_back(n);
    nodes++;
    pos++;
    return 0;
  }
  template <class V> auto pick(const V &v) -> decltype(v[0]) { return v[choose(int(v.size()))]; }
  bool flip() { return choose(2) == 1; }
  // advance to the next sequence; false when exhausted
  bool next() {
    pos = 0;
    while (!seq.empty()) {
      if (seq.back() + 1 < width.back()) {
        seq.back()++;
        nodes++;
        return true;
      }
      seq.pop_back();
      width.pop_back();
    }
    return false;
  }
};

struct Case {
  std::vector<std::string> files;  // source texts
  std::vector<long> p;             // parameters
  std::string note;
  std::string key() const {
    std::string k;
    for (auto &f : files) { k += f; k += '\1'; }
    for (long x : p) { k += std::to_string(x); k += '\2'; }
    return k + note;
  }
  std::string show() const {
    std::string k;
    if (!note.empty()) k += note + "\n";
    if (!p.empty()) {
      k += "params:";
      for (long x : p) k += " " + std::to_string(x);
      k += "\n";
    }
    for (size_t i = 0; i < files.size(); i++) k += "--- source " + std::to_string(i) + "\n" + files[i] + "\n";
    return k;
  }
};

struct Result {
  bool bad = false;
  std::string msg;
  uint64_t model_steps = 0, impl_steps = 0, runs = 0, states = 0;
  std::string outcome;  // for counting distinct outcomes
  std::vector<std::string> known;  // known findings seen
  void fail(const std::string &m) {
    if (!bad) msg = m;
    bad = true;
  }
};

struct Space {
  std::string name;
  std::function<bool(Chooser &, Case &)> gen;
  std::function<void(const Case &, Result &)> exec;
  bool dedupe = true;
  double hang_s = 20;
  std::string bound;  // what is enumerated completely
};

struct Shm {
  volatile uint64_t leaf;
  volatile int space;
  volatile double since;
  volatile int running;
  volatile uint64_t cases, model_steps, impl_steps, runs, nodes, skipped, xstates, undecided[128];
  volatile int done, timed_out, nfail;
  volatile int nseq;
  int seq[4096];
  char msg[65536];
};

struct Options {
  std::string prop, tier = "quick", scratch, replay_out, stats_out, replay_in, only;
  int workers = 8;
  double deadline = 600;
};

struct Runner {
  Options o;
  std::vector<Space> spaces;
  std::vector<Shm *> shm;
  double t0 = now();
  bool loud = false;

  struct Fail {
    int space = -1;
    uint64_t leaf = 0, from = 0;
    int worker = -1;  // >=0: replay as a range of this worker
    std::vector<int> seq;
    std::string msg;
  };

  static Shm *map() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(p, 0, sizeof(Shm));
    return (Shm *)p;
  }

  static void record(Shm *s, const std::string &m) {
    size_t n = std::min(m.size(), sizeof(s->msg) - 1);
    memcpy(s->msg, m.data(), n);
    s->msg[n] = 0;
  }

  // enumerate, executing the leaves of worker w in (from..to]
  void work(int w, int start_space, uint64_t start_leaf, uint64_t to_leaf, bool range) {
    Shm *s = shm[w];
    const double end = t0 + o.deadline;
    std::unordered_set<uint64_t> outcomes;
    FILE *samples = (!range && start_space == 0 && start_leaf == 0) ? fopen((o.scratch + "/samples." + std::to_string(w)).c_str(), "w") : nullptr;
    uint64_t base = 0;
    for (size_t si = 0; si < spaces.size(); si++) {
      if (int(si) < start_space) continue;
      Space &sp = spaces[si];
      Chooser ch;
      std::unordered_set<uint64_t> seen;
      uint64_t leaf = 0, mine = 0;
      const double space_t0 = now();
      const uint64_t from = int(si) == start_space ? start_leaf : 0;
      do {
        Case c;
        if (!sp.gen(ch, c)) continue;
        if (sp.dedupe && !seen.insert(hash64(c.key())).second) continue;
        const uint64_t idx = leaf++;
        if (int(idx % o.workers) != w || idx < from) continue;
        if (range && idx > to_leaf) _exit(0);
        if (now() > end) {
          s->timed_out = 1;
          break;
        }
        s->space = int(si);
        s->leaf = idx;
        s->nseq = int(std::min(ch.seq.size(), size_t(4096)));
        for (int i = 0; i < s->nseq; i++) s->seq[i] = ch.seq[i];
        s->since = now();
        s->running = 1;
        Result r;
        const uint64_t before = outside();
        sp.exec(c, r);
        s->running = 0;
        if (outside() != before && si < 128) s->undecided[si]++;
        s->cases++;
        s->model_steps += r.model_steps;
        s->impl_steps += r.impl_steps;
        s->runs += r.runs;
        s->xstates += r.states;
        if (outcomes.size() < 2000000) outcomes.insert(hash64(r.outcome));
        if (samples && mine < 1 && w < 3) {
          std::string t = "[" + sp.name + "] " + c.show() + "=> " + r.outcome;
          for (char &x : t) if (x == 0) x = ' ';
          if (t.size() > 700) t.resize(700);
          fwrite(t.data(), 1, t.size(), samples);
          fputc(0, samples);
          fflush(samples);
        }
        mine++;
        for (auto &k : r.known) {
          FILE *f = fopen((o.scratch + "/known." + std::to_string(w)).c_str(), "a");
          fprintf(f, "%s\n", k.c_str());
          fclose(f);
        }
        if (r.bad) {
          record(s, r.msg);
          s->nfail = 1;
          if (range) _exit(10);
          goto out;
        }
      } while (ch.next());
      if (w == 0 && !range) s->nodes += ch.nodes;
      base += leaf;
      if (!range && w == 0) {
        FILE *f = fopen((o.scratch + "/space." + std::to_string(si)).c_str(), "w");
        fprintf(f, "%llu %llu %.2f\n", (unsigned long long)leaf, (unsigned long long)ch.nodes, now() - space_t0);
        fclose(f);
      }
      if (s->timed_out) break;
    }
  out:
    if (samples) fclose(samples);
    {
      FILE *f = fopen((o.scratch + "/outcomes." + std::to_string(w)).c_str(), "ab");
      for (uint64_t h : outcomes) fwrite(&h, 8, 1, f);
      fclose(f);
    }
    s->done = 1;
    fflush(nullptr);
    _exit(range ? 0 : 0);
  }

  static void limits() {
    rlimit r;
    r.rlim_cur = r.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &r);
#ifndef __SANITIZE_ADDRESS__
    r.rlim_cur = r.rlim_max = 3ull << 30;
    setrlimit(RLIMIT_AS, &r);
#endif
  }

  pid_t spawn(int w, int space, uint64_t leaf) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      limits();
      quiet();
      work(w, space, leaf, 0, false);
      _exit(0);
    }
    return p;
  }

  void quiet() {
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    int e = open((o.scratch + "/stderr.log").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    dup2(e, 2);
  }

  // run one case in a fresh process: returns "" when it passes
  std::string single(int si, const std::vector<int> &seq, double limit) {
    Shm *s = map();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      limits();
      if (!loud) quiet();
      Chooser ch;
      ch.seq = seq;
      Case c;
      if (!spaces[si].gen(ch, c)) _exit(4);
      Result r;
      spaces[si].exec(c, r);
      if (r.bad) {
        record(s, r.msg);
        _exit(10);
      }
      _exit(0);
    }
    std::string m = wait_for(p, limit, s);
    munmap(s, sizeof(Shm));
    return m;
  }
  std::string range(int w, int si, uint64_t from, uint64_t to, double limit) {
    Shm *keep = shm[w];
    shm[w] = map();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      limits();
      quiet();
      work(w, si, from, to, true);
      _exit(0);
    }
    std::string m = wait_for(p, limit, shm[w]);
    munmap(shm[w], sizeof(Shm));
    shm[w] = keep;
    return m;
  }
  std::string wait_for(pid_t p, double limit, Shm *s) {
    const double end = now() + limit;
    int st = 0;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (now() > end) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        return "hang: no result within " + std::to_string(int(limit)) + " s";
      }
      usleep(2000);
    }
    if (WIFSIGNALED(st)) return std::string("crash: signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    if (WEXITSTATUS(st) == 10) return s->msg[0] ? s->msg : "violation";
    if (WEXITSTATUS(st) == 0) return "";
    return "crash: exit status " + std::to_string(WEXITSTATUS(st));
  }

  static std::string json(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
      char b[8];
      if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
      else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += char(c);
    }
    return o + "\"";
  }

  void write_replay(const Fail &f) {
    FILE *fd = fopen(o.replay_out.c_str(), "w");
    if (!fd) return;
    Chooser ch;
    ch.seq = f.seq;
    Case c;
    spaces[f.space].gen(ch, c);
    fprintf(fd, "{\"property\":%s,\"tier\":%s,\"space\":%s,\"worker\":%d,\"workers\":%d,\"from\":%llu,\"leaf\":%llu,\n \"choices\":[",
            json(o.prop).c_str(), json(o.tier).c_str(), json(spaces[f.space].name).c_str(), f.worker, o.workers,
            (unsigned long long)f.from, (unsigned long long)f.leaf);
    for (size_t i = 0; i < f.seq.size(); i++) fprintf(fd, "%s%d", i ? "," : "", f.seq[i]);
    fprintf(fd, "],\n \"message\":%s,\n \"case\":%s}\n", json(f.msg).c_str(), json(c.show()).c_str());
    fclose(fd);
  }

  bool confirm(Fail &f, int w) {
    // alone, in a fresh process, twice
    const double lim = 3 * spaces[f.space].hang_s + 30;
    std::string a = single(f.space, f.seq, lim);
    if (!a.empty()) {
      std::string b = single(f.space, f.seq, lim);
      if (!b.empty()) {
        f.msg = a;
        return true;
      }
    }
    // after the cases that preceded it in the same process
    f.from = f.leaf > uint64_t(400 * o.workers) ? f.leaf - 400 * o.workers : 0;
    f.worker = w;
    std::string c = range(w, f.space, f.from, f.leaf, 240);
    if (!c.empty()) {
      std::string d = range(w, f.space, f.from, f.leaf, 240);
      if (!d.empty()) {
        f.msg = c + " (only after the preceding cases in the same process)";
        return true;
      }
    }
    return false;
  }

  int run() {
    std::vector<pid_t> pid(o.workers, 0);
    std::vector<int> restarts(o.workers, 0);
    for (int w = 0; w < o.workers; w++) shm.push_back(map());
    for (int w = 0; w < o.workers; w++) pid[w] = spawn(w, 0, 0);
    bool found = false;
    int unconfirmed = 0;
    Fail best;
    auto fail_of = [&](int w, const std::string &m) {
      Fail f;
      f.space = shm[w]->space;
      f.leaf = shm[w]->leaf;
      f.seq.assign(shm[w]->seq, shm[w]->seq + shm[w]->nseq);
      f.msg = m;
      return f;
    };
    auto kill_all = [&] {
      for (int w = 0; w < o.workers; w++)
        if (pid[w]) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], nullptr, 0);
          pid[w] = 0;
        }
    };
    while (!found) {
      bool alive = false;
      for (int w = 0; w < o.workers && !found; w++) {
        if (!pid[w]) continue;
        int st = 0;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        Shm *s = shm[w];
        std::string m;
        if (r == pid[w]) {
          pid[w] = 0;
          if (s->nfail) m = s->msg;
          else if (s->done) continue;
          else m = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: exit status " + std::to_string(WEXITSTATUS(st));
        } else {
          alive = true;
          if (s->running && now() - s->since > spaces[s->space].hang_s) {
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &st, 0);
            pid[w] = 0;
            m = "hang";
          }
        }
        if (m.empty()) continue;
        Fail f = fail_of(w, m);
        fprintf(stderr, "[%s] worker %d: %s in %s leaf %llu; confirming\n", o.prop.c_str(), w, m.substr(0, 200).c_str(),
                spaces[f.space].name.c_str(), (unsigned long long)f.leaf);
        if (confirm(f, w)) {
          best = f;
          found = true;
          break;
        }
        unconfirmed++;
        if (++restarts[w] > 20) {
          fprintf(stderr, "[%s] worker %d keeps failing without reproducing\n", o.prop.c_str(), w);
          continue;
        }
        s->running = 0;
        s->nfail = 0;
        pid[w] = spawn(w, f.space, f.leaf + 1);
        alive = true;
      }
      if (!alive) break;
      usleep(5000);
    }
    kill_all();
    // statistics
    uint64_t cases = 0, ms = 0, is = 0, runs = 0, nodes = 0, xs = 0;
    bool timed = false;
    for (auto *s : shm) {
      cases += s->cases;
      ms += s->model_steps;
      is += s->impl_steps;
      runs += s->runs;
      nodes += s->nodes;
      xs += s->xstates;
      timed |= s->timed_out != 0;
    }
    std::unordered_set<uint64_t> oc;
    for (int w = 0; w < o.workers; w++) {
      FILE *f = fopen((o.scratch + "/outcomes." + std::to_string(w)).c_str(), "rb");
      if (!f) continue;
      uint64_t h;
      while (fread(&h, 8, 1, f) == 1) oc.insert(h);
      fclose(f);
    }
    std::set<std::string> known;
    for (int w = 0; w < o.workers; w++) {
      FILE *f = fopen((o.scratch + "/known." + std::to_string(w)).c_str(), "r");
      if (!f) continue;
      char b[4096];
      while (fgets(b, sizeof b, f)) {
        b[strcspn(b, "\n")] = 0;
        known.insert(b);
      }
      fclose(f);
    }
    for (auto &k : known) printf("KNOWN-FINDING: property=%s %s\n", o.prop.c_str(), k.c_str());
    FILE *f = fopen(o.stats_out.c_str(), "w");
    fprintf(f, "{\"cases\":%llu,\"model_steps\":%llu,\"impl_steps\":%llu,\"runs\":%llu,\"nodes\":%llu,\"states\":%llu,\"outcomes\":%zu,"
            "\"timed_out\":%s,\"violations\":%d,\"unconfirmed\":%d,\"known\":%zu,\"spaces\":[",
            (unsigned long long)cases, (unsigned long long)ms, (unsigned long long)is, (unsigned long long)runs,
            (unsigned long long)nodes, (unsigned long long)xs, oc.size(), timed ? "true" : "false", found ? 1 : 0, unconfirmed, known.size());
    for (size_t i = 0; i < spaces.size(); i++) {
      unsigned long long n = 0, nd = 0;
      double secs = 0;
      FILE *q = fopen((o.scratch + "/space." + std::to_string(i)).c_str(), "r");
      bool complete = false;
      if (q) {
        complete = fscanf(q, "%llu %llu %lf", &n, &nd, &secs) == 3;
        fclose(q);
      }
      unsigned long long und = 0;
      for (auto *s : shm) und += i < 128 ? s->undecided[i] : 0;
      fprintf(f, "%s\n {\"name\":%s,\"bound\":%s,\"cases\":%llu,\"outside_model_bounds\":%llu,\"choice_nodes\":%llu,\"seconds\":%.1f,\"complete\":%s}", i ? "," : "",
              json(spaces[i].name).c_str(), json(spaces[i].bound).c_str(), n, und, nd, secs, complete && !timed ? "true" : "false");
    }
    fprintf(f, "],\"samples\":[");
    bool first = true;
    for (int w = 0; w < 3 && w < o.workers; w++) {
      FILE *q = fopen((o.scratch + "/samples." + std::to_string(w)).c_str(), "r");
      if (!q) continue;
      std::string all;
      int ch;
      int cnt = 0;
      while ((ch = fgetc(q)) != EOF && cnt < 14) {
        if (ch == 0) {
          fprintf(f, "%s\n %s", first ? "" : ",", json(all).c_str());
          first = false;
          all.clear();
          cnt++;
        } else
          all += char(ch);
      }
      fclose(q);
    }
    fprintf(f, "]}\n");
    fclose(f);
    if (found) {
      write_replay(best);
      printf("violation in space '%s':\n%s\n", spaces[best.space].name.c_str(), best.msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), o.replay_out.c_str());
      return 1;
    }
    if (cases == 0) {
      fprintf(stderr, "no case was explored\n");
      return 3;
    }
    printf("%s: %llu cases, %llu model steps, %llu impl steps, %zu outcomes%s, %.1f s\n", o.prop.c_str(),
           (unsigned long long)cases, (unsigned long long)ms, (unsigned long long)is, oc.size(), timed ? " (time cap hit)" : "", now() - t0);
    return 0;
  }

  int replay(const std::string &path) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f) { perror("replay"); return 3; }
    std::string all;
    int c;
    while ((c = fgetc(f)) != EOF) all += char(c);
    fclose(f);
    auto str = [&](const char *k) {
      std::string key = std::string("\"") + k + "\":\"";
      size_t p = all.find(key);
      if (p == std::string::npos) return std::string();
      p += key.size();
      return all.substr(p, all.find('"', p) - p);
    };
    auto num = [&](const char *k) {
      std::string key = std::string("\"") + k + "\":";
      size_t p = all.find(key);
      return p == std::string::npos ? -1ll : atoll(all.c_str() + p + key.size());
    };
    std::string sp = str("space");
    int si = -1;
    for (size_t i = 0; i < spaces.size(); i++) if (spaces[i].name == sp) si = int(i);
    if (si < 0) { fprintf(stderr, "no space %s\n", sp.c_str()); return 3; }
    std::vector<int> seq;
    size_t p = all.find("\"choices\":[") + 11;
    while (all[p] != ']') {
      seq.push_back(atoi(all.c_str() + p));
      while (all[p] != ',' && all[p] != ']') p++;
      if (all[p] == ',') p++;
    }
    Chooser ch;
    ch.seq = seq;
    Case cs;
    if (!spaces[si].gen(ch, cs)) { fprintf(stderr, "replay: pruned\n"); return 3; }
    printf("%s", cs.show().c_str());
    std::string m;
    loud = true;
    if (num("worker") >= 0) {
      o.workers = int(num("workers"));
      for (int w = 0; w < o.workers; w++) shm.push_back(map());
      m = range(int(num("worker")), si, uint64_t(num("from")), uint64_t(num("leaf")), 600);
    } else
      m = single(si, seq, 120);
    printf("%s\n", m.empty() ? "PASS" : m.c_str());
    return m.empty() ? 0 : 1;
  }
};

// each driver implements this
void spaces(const std::string &tier, std::vector<Space> &out);

inline std::string &scratch_dir() {
  static std::string s;
  return s;
}

}  // namespace mc
