// Exploration engine shared by the harnesses.
//
// A harness registers "groups"; a group is a function that enumerates a bounded space and calls
// vf::visit(desc, body) once per point (an execution of the real code).  The enumeration is
// deterministic, is split over worker processes by point index, and is total: every point of every
// group of the tier is executed.  A worker that dies (signal, abort, sanitizer report) or does not
// come back within the per-point limit is a violation of the point it was executing.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/stat.h>

namespace vf {

static const int MAXW = 16, MAXVIOL = 4, NCNT = 24;

struct WorkerShm {
  volatile uint64_t started_ms;        // time the current point was entered, 0 when idle
  volatile uint64_t cnt[NCNT];
  volatile uint64_t points;
  char cur_group[64];
  volatile uint64_t cur_index;
  char cur_desc[1400];
  volatile int nviol;
  char viol[MAXVIOL][2400];
  char viol_group[MAXVIOL][64];
  volatile uint64_t viol_index[MAXVIOL];
};
struct Sample { char text[700]; };

static WorkerShm *g_w = nullptr;       // this worker
static WorkerShm *g_all = nullptr;
static int g_shard = 0, g_nshards = 1;
static std::string g_only_group; static long long g_only_index = -1;
static std::string g_tier = "quick";
static int g_real_stderr = 2;
static uint64_t g_index = 0;
static const char *g_group = "";
static std::map<std::string, uint64_t> *g_group_points = nullptr;
static bool g_in_point = false;
static int g_point_limit_s = 120;

static inline uint64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static inline bool deep() { return g_tier == "deep"; }
static inline bool thorough() { return g_tier == "thorough" || deep(); }
static inline void count(int k, uint64_t n = 1) { g_w->cnt[k] += n; }

struct Violation { std::string text; };

static inline std::string fmt(const char *f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
// Called by a body: the property does not hold at this point.
[[noreturn]] static inline void fail(const std::string &what) { throw Violation{what}; }

static inline void record(const std::string &what) {
  int k = g_w->nviol;
  if (k < MAXVIOL) {
    snprintf(g_w->viol[k], sizeof g_w->viol[k], "%s\nat: %s", what.c_str(), g_w->cur_desc);
    snprintf(g_w->viol_group[k], 64, "%s", g_group);
    g_w->viol_index[k] = g_w->cur_index;
    g_w->nviol = k + 1;
  }
}

// One point of the bounded space.  desc is only evaluated for points this worker executes.
template <class D, class B> static inline void visit(D desc, B body) {
  uint64_t idx = g_index++;
  if (g_only_index >= 0) { if ((long long)idx != g_only_index) return; }
  else if ((int)(idx % g_nshards) != g_shard) return;
  if (g_w->nviol >= MAXVIOL) return;
  std::string d = desc();
  snprintf(g_w->cur_desc, sizeof g_w->cur_desc, "%s", d.c_str());
  snprintf(g_w->cur_group, 64, "%s", g_group);
  g_w->cur_index = idx;
  g_w->started_ms = now_ms();
  try { body(); } catch (Violation &v) { record(v.text); }
  g_w->started_ms = 0;
  g_w->points++;
}
// a point is this worker's to execute (lets a group skip building the point)
static inline bool mine_next() {
  if (g_only_index >= 0) return (long long)g_index == g_only_index;
  return (int)(g_index % g_nshards) == g_shard;
}
static inline void skip_point() { g_index++; }

struct Group { const char *name; const char *tiers; void (*fn)(); };   // tiers: "q", "t" or "qt"
static std::vector<Group> &groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char *n, const char *t, void (*f)()) { groups().push_back({n, t, f}); } };
#define VF_GROUP(name, tiers) static void grp_##name(); static vf::Reg reg_##name(#name, tiers, grp_##name); static void grp_##name()

static std::string jesc(const std::string &s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?'; else o += c; }
  return o;
}

static const char *g_cnt_name[NCNT] = {0};

// main of a harness: H --tier T --out RESULT.json [--groups a,b] [--only group:index]
static int main_(int argc, char **argv, const std::vector<const char *> &cnt_names, void (*init)() = nullptr) {
  std::string out; std::set<std::string> want; bool have_want = false; bool quiet = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier" && i + 1 < argc) g_tier = argv[++i];
    else if (a == "--out" && i + 1 < argc) out = argv[++i];
    else if (a == "--verbose") quiet = false;
    else if (a == "--groups" && i + 1 < argc) { have_want = true; std::string s = argv[++i], t; for (char c : s + ",") { if (c == ',') { if (!t.empty()) want.insert(t); t.clear(); } else t += c; } }
    else if (a == "--only" && i + 1 < argc) { std::string s = argv[++i]; size_t p = s.rfind(':'); g_only_group = s.substr(0, p); g_only_index = atoll(s.c_str() + p + 1); }
  }
  for (size_t i = 0; i < cnt_names.size() && i < (size_t)NCNT; i++) g_cnt_name[i] = cnt_names[i];
  int W = (int)sysconf(_SC_NPROCESSORS_ONLN); if (W > 8) W = 8; if (W < 1) W = 1;
  if (g_only_index >= 0) W = 1;
  g_nshards = W;
  g_all = (WorkerShm *)mmap(0, sizeof(WorkerShm) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t *gp = (uint64_t *)mmap(0, 8 * 256, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Sample *samples = (Sample *)mmap(0, sizeof(Sample) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t t0 = now_ms();
  pid_t pid[MAXW];
  fflush(stdout); fflush(stderr);
  for (int w = 0; w < W; w++) {
    pid[w] = fork();
    if (pid[w] == 0) {
      g_w = &g_all[w]; g_shard = w;
      g_real_stderr = dup(2);
      if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); close(n); }
      if (init) init();
      int gi = 0;
      for (auto &g : groups()) {
        int k = gi++;
        if (g_only_index >= 0) { if (g_only_group != g.name) continue; }
        else {
          if (have_want && !want.count(g.name)) continue;
          if (!strchr(g.tiers, thorough() ? 't' : 'q')) continue;
        }
        g_group = g.name; g_index = 0;
        g.fn();
        if (w == 0) gp[k] = g_index;
        if (w == 0 && k < 64) snprintf(samples[k].text, sizeof samples[k].text, "%s: %s", g.name, g_w->cur_desc);
      }
      _exit(0);
    }
  }
  struct V { std::string text, group; uint64_t idx; };
  std::vector<V> viols;
  int alive = W; bool done[MAXW] = {false};
  bool infra = false;
  while (alive > 0) {
    for (int w = 0; w < W; w++) if (!done[w]) {
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        done[w] = true; alive--;
        WorkerShm &s = g_all[w];
        bool killed_by_us = false;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          (void)killed_by_us;
          if (s.started_ms == 0) { infra = true; fprintf(stderr, "worker %d ended outside a point, status %x\n", w, st); }
          else viols.push_back({fmt("the real code ended abnormally (%s %d) instead of completing\nat: %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), s.cur_desc), s.cur_group, s.cur_index});
        }
      } else {
        uint64_t b = g_all[w].started_ms;
        if (b && now_ms() > b + (uint64_t)g_point_limit_s * 1000) {
          viols.push_back({fmt("the real code did not terminate within %d s\nat: %s", g_point_limit_s, g_all[w].cur_desc), g_all[w].cur_group, g_all[w].cur_index});
          kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); done[w] = true; alive--;
        }
      }
    }
    if (alive) usleep(3000);
  }
  for (int w = 0; w < W; w++) for (int k = 0; k < g_all[w].nviol; k++)
    viols.push_back({g_all[w].viol[k], g_all[w].viol_group[k], g_all[w].viol_index[k]});
  // simplest first
  for (size_t i = 0; i < viols.size(); i++) for (size_t j = i + 1; j < viols.size(); j++)
    if (viols[j].idx < viols[i].idx) std::swap(viols[i], viols[j]);
  uint64_t points = 0; for (int w = 0; w < W; w++) points += g_all[w].points;
  std::string js = "{\n";
  js += fmt("\"points\": %llu,\n\"wall_ms\": %llu,\n\"infra\": %s,\n", (unsigned long long)points, (unsigned long long)(now_ms() - t0), infra ? "true" : "false");
  js += "\"counters\": {";
  bool first = true;
  for (int c = 0; c < NCNT; c++) if (g_cnt_name[c]) { uint64_t t = 0; for (int w = 0; w < W; w++) t += g_all[w].cnt[c]; js += fmt("%s\"%s\": %llu", first ? "" : ", ", g_cnt_name[c], (unsigned long long)t); first = false; }
  js += "},\n\"groups\": {"; first = true;
  int gi = 0;
  for (auto &g : groups()) { int k = gi++; if (gp[k]) { js += fmt("%s\"%s\": %llu", first ? "" : ", ", g.name, (unsigned long long)gp[k]); first = false; } }
  js += "},\n\"samples\": ["; first = true;
  for (int k = 0; k < 64; k++) if (samples[k].text[0]) { js += fmt("%s\"%s\"", first ? "" : ", ", jesc(samples[k].text).c_str()); first = false; }
  js += "],\n\"violations\": ["; first = true;
  for (auto &v : viols) { js += std::string(first ? "" : ",") + "\n {\"group\": \"" + jesc(v.group) + "\", \"index\": " + fmt("%llu", (unsigned long long)v.idx) + ", \"text\": \"" + jesc(v.text) + "\"}"; first = false; }
  js += "]\n}\n";
  if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } } else fputs(js.c_str(), stdout);
  if (!viols.empty()) return 1;
  return infra ? 3 : 0;
}
} // namespace vf
