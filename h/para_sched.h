// Controlled scheduler for the fork-join passes of the multi-threaded prover.
//
// A pass is the set of thread bodies forked before a join.  Bodies run as coroutines, one at a time.  A
// schedule says when a body starts (at its fork, at the first join, or at its own join), in which order bodies
// run, and at which of its accesses to contended memory one of them is suspended.  With -DSCHED_TSAN the prover
// is compiled with the compiler's thread-sanitizer instrumentation, whose callbacks end here: they give the
// accesses of each body, hence the contended addresses (two bodies of a pass, at least one writing).
#pragma once
#include <ucontext.h>
namespace sched {
struct Task { std::function<void()> f; bool started = false, done = false; ucontext_t ctx; char *stk = nullptr; long points = 0; };
enum { FIRST_JOIN, AT_FORK, AT_OWN_JOIN };
struct Plan { int start = FIRST_JOIN; int perm = 0; long pass = -1;      // pass: only there (others: id order), -1: in every pass
  long k = 0, j = 0; };                                                 // suspend the first body at its k-th contended access, the second at its j-th
static Plan plan;
static std::vector<Task *> open_;                                       // forked, not finished
static std::vector<char *> stacks; static const size_t STK = 1 << 20;
static Task *cur = nullptr; static int cur_no = 0; static ucontext_t mainctx; static long stop_at = 0;
static long pass_no = 0, bodies = 0, switches = 0; static int forked = 0; static std::vector<int> ids; static std::vector<Task *> all;
static std::vector<std::vector<uintptr_t>> contended;                   // by pass
static std::vector<std::vector<long>> points;                           // by pass: contended accesses of each body
static bool recording = false, stopping = false;

// what a suspended body runs into: control goes back to the scheduler
static void yield_() { Task *t = cur; cur = nullptr; switches++; swapcontext(&t->ctx, &mainctx); cur = t; }
static std::unordered_map<void *, Task *> held; struct Bar { unsigned n, in; long gen; }; static std::unordered_map<void *, Bar> bars;

#ifdef SCHED_TSAN
struct Cell { uintptr_t key; uint32_t r, w; long ep; };
static std::vector<Cell> tab; static long epoch = 0; static std::vector<uintptr_t> hot; static std::unordered_set<uintptr_t> stopset;
static long accesses = 0;
static inline Cell &cell(uintptr_t k) { if (tab.empty()) tab.assign(1 << 21, Cell{0, 0, 0, -1}); size_t i = (k * 0x9e3779b97f4a7c15ull) >> 43; for (;;) { Cell &c = tab[i]; if (c.ep != epoch) { c.key = k; c.r = c.w = 0; c.ep = epoch; return c; } if (c.key == k) return c; i = (i + 1) & ((1 << 21) - 1); } }
static inline void access(const void *p, size_t n, bool wr) {
  if (!cur || (!recording && !stopping)) return;
  uintptr_t a = (uintptr_t)p; if (a >= (uintptr_t)cur->stk && a < (uintptr_t)cur->stk + STK) return;
  for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; g++) {
    if (recording) { accesses++; Cell &c = cell(g); bool h = c.w && (c.r | c.w) & ((c.r | c.w) - 1); uint32_t b = 1u << (cur_no & 31); (wr ? c.w : c.r) |= b; uint32_t u = c.r | c.w; if (!h && c.w && (u & (u - 1))) hot.push_back(g); }
    else if (stopset.count(g)) { cur->points++; if (cur->points == stop_at) yield_(); break; }
  }
}
#endif
static void tramp() { cur->f(); cur->done = true; Task *t = cur; cur = nullptr; swapcontext(&t->ctx, &mainctx); }
static void start(Task *t) {
  getcontext(&t->ctx); if (stacks.empty()) stacks.push_back((char *)malloc(STK)); t->stk = stacks.back(); stacks.pop_back();
  t->ctx.uc_stack.ss_sp = t->stk; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = nullptr; makecontext(&t->ctx, tramp, 0); t->started = true; bodies++;
}
// runs t until it finishes, or is suspended at its n-th contended access (n > 0)
static void resume(Task *t, int no, long n) {
  if (t->done) return;
#ifdef NO_ARENA
  t->done = true; bodies++; t->f(); return;                             // sanitizer build: no coroutines
#endif
  if (!t->started) start(t);
  stop_at = n; cur = t; cur_no = no; swapcontext(&mainctx, &t->ctx); cur = nullptr; stop_at = 0;
  if (t->done && t->stk) { stacks.push_back(t->stk); t->stk = nullptr; }
}
static std::vector<int> permutation(int n, int k) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; if (n > 4) { if (k & 1) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + (k / 2) % n, p.end()); } else for (int i = 0; i < k; i++) std::next_permutation(p.begin(), p.end()); return p; }
static void run_open() {
  int n = (int)open_.size(); if (!n) return;
  bool here = plan.pass < 0 || plan.pass == pass_no;
#ifdef SCHED_TSAN
  if (recording) { epoch++; hot.clear(); }
  stopping = !recording && here && plan.k > 0 && pass_no < (long)contended.size(); if (stopping) stopset = std::unordered_set<uintptr_t>(contended[pass_no].begin(), contended[pass_no].end());
#endif
  std::vector<int> p = permutation(n, here ? plan.perm : 0);
  if (here && plan.k > 0 && n > 1) {
    resume(open_[p[0]], p[0], plan.k);
    resume(open_[p[1]], p[1], plan.j);
    resume(open_[p[0]], p[0], 0);
  }
  for (bool left = true; left;) { left = false; for (int i = 0; i < n; i++) { resume(open_[p[i]], p[i], 0); left |= !open_[p[i]]->done; } }   // again while a body waits for another
#ifdef SCHED_TSAN
  stopping = false;
  if (recording) { contended.resize(pass_no + 1); contended[pass_no] = hot; }
#endif
  open_.clear(); pass_no++;
}
int fork(std::function<void()> f) {
  Task *t = new Task; t->f = std::move(f); all.push_back(t);
  if (plan.start == AT_FORK) resume(t, 0, 0);
  if (!t->done) open_.push_back(t);
  return (int)all.size() - 1;
}
void join(int id) {
  Task *t = all[id];
  if (!t->done) { if (plan.start == AT_OWN_JOIN) resume(t, 0, 0); if (t->done) open_.erase(std::find(open_.begin(), open_.end(), t)); else run_open(); }
  if (open_.empty()) { for (auto x : all) x->f = nullptr; }
}
static void reset(const Plan &p, bool rec) { plan = p; for (auto t : all) { if (t->stk) free(t->stk); delete t; } all.clear(); open_.clear(); pass_no = 0; cur = nullptr; recording = rec; stopping = false; if (rec) contended.clear(); held.clear(); bars.clear(); }
} // namespace sched
// blocking inside a body
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { using namespace sched; if (!cur) return 0; while (held.count(m) && held[m] != cur) yield_(); held[m] = cur; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { using namespace sched; if (!cur) return 0; if (held.count(m)) return EBUSY; held[m] = cur; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { sched::held.erase(m); return 0; }
int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *m) { using namespace sched; if (!cur) return 0; held.erase(m); yield_(); return pthread_mutex_lock(m); }
int pthread_cond_signal(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_broadcast(pthread_cond_t *) noexcept { return 0; }
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) noexcept { sched::bars[b] = {n, 0, 0}; return 0; }
int pthread_barrier_destroy(pthread_barrier_t *b) noexcept { sched::bars.erase(b); return 0; }
int pthread_barrier_wait(pthread_barrier_t *b) noexcept { using namespace sched; Bar &x = bars[b]; if (!cur) return 0; long g = x.gen; if (++x.in == x.n) { x.in = 0; x.gen++; return PTHREAD_BARRIER_SERIAL_THREAD; } while (bars[b].gen == g) yield_(); return 0; }
}
#ifdef SCHED_TSAN
extern "C" {
#define VF_ACC(n) \
  void __tsan_read##n(void *p) { sched::access(p, n, false); } void __tsan_write##n(void *p) { sched::access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { sched::access(p, n, false); } void __tsan_unaligned_write##n(void *p) { sched::access(p, n, true); } \
  void __tsan_read_write##n(void *p) { sched::access(p, n, false); sched::access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { sched::access(p, n, false); sched::access(p, n, true); }
VF_ACC(1) VF_ACC(2) VF_ACC(4) VF_ACC(8) VF_ACC(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) sched::access(p, n, false); } void __tsan_write_range(void *p, unsigned long n) { if (n) sched::access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { sched::access(p, 8, true); } void __tsan_vptr_read(void **p) { sched::access(p, 8, false); }
void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_init() {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (n) { sched::access(s, n, false); sched::access(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (n) { sched::access(s, n, false); sched::access(d, n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { if (n) sched::access(d, n, true); return memset(d, c, n); }
}
#endif
