// Harness for the three interactive provers/verifiers.  PROTO=1: linear GKR (fast track),
// PROTO=2: CMT-style GKR (bclogc), PROTO=3: data-parallel GKR (bc_clogc), PROTO=4: multi-threaded prover.
//
// The verifier is the real one.  Its prover is the real prover wrapped by a class of the same name
// (gkr_wrap.h) that hands every message through, records the challenges it is given, and, when the point being
// explored says so, replaces messages.  The verifier's coins come from rand(), which is defined here.
#include <bits/stdc++.h>
#include <sys/syscall.h>
#include "vf.h"
#include "ref.h"

// ---------------------------------------------------------------- memory: arena for array new
#ifndef NO_ARENA
static char *ar_base = nullptr; static size_t ar_used = 0; static const size_t AR_SIZE = 1ull << 30; static bool ar_on = false;
void *operator new[](size_t n) {
  if (ar_on && ar_used + n + 32 < AR_SIZE) { size_t *h = (size_t *)(ar_base + ar_used); h[0] = n; ar_used += (n + 16 + 31) / 16 * 16; memset((char *)h + 16, 0xCB, n); return (char *)h + 16; }
  void *p = malloc(n); if (!p) abort(); return p;
}
void operator delete[](void *p) noexcept {
  if ((char *)p >= ar_base && (char *)p < ar_base + AR_SIZE && ar_base) { size_t n = *(size_t *)((char *)p - 16); if (n < AR_SIZE) memset(p, 0xDD, n); return; }
  free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
static void ar_reset(bool on) { if (!ar_base) ar_base = (char *)mmap(0, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ar_used = 0; ar_on = on; }
#else
static void ar_reset(bool) {}
#endif

// ---------------------------------------------------------------- coins
// Draw k of tape T is a fixed function of (T, k); a point may force whole challenges to 0 or 1 and may
// flip single draws.
struct Tape { uint64_t id = 1; std::vector<std::pair<int, int>> force; long flip = -1; };
static Tape tape; static long draws = 0; static bool seeded = false; static uint64_t seed_state = 0; static long fake_time = 1000;
extern "C" int rand(void) {
  long k = draws++;
  if (seeded) { seed_state = ref::mix(seed_state); return (int)(seed_state & 0x7fffffff); }
  for (auto &f : tape.force) if (f.first == k / 3) return k % 3 == 0 ? f.second : 0;
  uint64_t x = ref::mix(tape.id * 1000003 + ref::mix(k));
  if (k == tape.flip) x ^= 0x5a5a5a5a;
  return (int)(x & 0x7fffffff);
}
extern "C" void srand(unsigned s) { seeded = true; seed_state = s; }
extern "C" time_t time(time_t *t) { if (t) *t = fake_time; return fake_time; }

#if PROTO == 4
#include "para_sched.h"
#endif
#include "gkr_wrap.h"
#if PROTO == 1
#include "linear_gkr/verifier_fast_track.h"
#elif PROTO == 2
#include "traditional_gkr/verifier_traditional.h"
#elif PROTO == 4
#include "linear_gkr/verifier_fast_para_track.h"
#else
#include "traditional_gkr/verifier_bc_clogc.h"
#endif
extern int prog_main(int, char **) __asm__("prog_main");       // the program's main, renamed in its object file
namespace hx {
using ref::F; using ref::Circ; using ref::Layer; using ref::Gate;
typedef prime_field::field_element FE;

static F toF(const FE &x) {
  F r; r.l[0] = (uint64_t)x.value.lo; r.l[1] = (uint64_t)(x.value.lo >> 64); r.l[2] = (uint64_t)x.value.mid; r.l[3] = (uint64_t)(x.value.mid >> 64);
  return r;
}
static bool canonical(const FE &x) { return x.value.hi.lo == 0 && x.value.hi.mid == 0 && x.value.hi.hi == 0 && mpn_cmp(toF(x).l, ref::P, 4) < 0; }
static FE toFE(const F &x) { FE r; r.value.lo = (__uint128_t)x.l[1] << 64 | x.l[0]; r.value.mid = (__uint128_t)x.l[3] << 64 | x.l[2]; r.value.hi = prime_field::u256b((unsigned long long)0); return r; }

// ---------------------------------------------------------------- session: model of the interaction
enum { L1_NONE, L1_COMMIT, L1_SWITCH, L1_SOLVE };
struct Adv {
  bool on = false;
  std::vector<std::pair<int, F>> claim;   // output index, what is added to the true value
  int t = -1;                             // index of the check from which the prover is honest again
  int style = 0;                          // power of x carrying the correction (0: constant)
  int rk = 0;                             // what absorbs the error at a layer's end: 0 V(u), 1 V(v)
  int l1 = L1_COMMIT;                     // linear: how the input relay layer is handled
  int ratio_layer = -1; F rho;            // at this layer absorb with V(u)+1, V(v)+rho
  std::vector<F> vu_commit;               // linear: change of V(u) announced before phase 2, by layer
  bool lie_vres = false;                  // evaluate the true output when asked for the claimed one's extension
  bool lie_blk = false;                   // data-parallel: hand over a block weight that fits
};
struct Sess {
  Circ c; int nb = 1, lb = 0;                                    // circuit, blocks
  std::vector<std::vector<long long>> binp;                      // per block inputs (data-parallel)
  Adv a;
  std::vector<F> outs, claimed; bool evaluated = false;
  // current layer
  int il = 0, top = 0; F alpha, beta; std::vector<F> r0, r1, rb0, ru, rv, rb;
  F delta, corr; int corr_pow = 0; bool pend = false;
  F du, dv, vu, vv, dr, kappa; bool active = false; int chk = 0; bool stuck = false; bool reached_final = false;
  F commit_du; bool committed = false; bool learned = false;
  std::vector<F> before;                 // error carried into check k
  std::vector<int> fin_chk;              // check index of each layer's closing check, by internal layer
  std::vector<F> lal, lbe;               // weights each layer was given
  std::vector<F> need;                   // error that makes the ratio repair exact, by internal layer
  F failing;                             // error at the check that should fail
  std::vector<F> chal, said; long calls = 0; bool noncanon = false;      // challenges handed out, messages of the real prover
  const Layer &layer(int internal) const {
#if PROTO == 1
    static Layer relay;                  // internal layer 1 is a copy of the inputs
    return internal <= 1 ? c[0] : c[internal - 1];
#else
    return c[internal];
#endif
  }
};
static Sess S;
static std::vector<F> vec(const FE *p, int n) { std::vector<F> r; for (int i = 0; i < n; i++) r.push_back(toF(p[i])); return r; }

static void m_begin(int layer, int lg, const FE &al, const FE &be, const FE *r0, const FE *r1, const FE *rb0, int lb) {
  bool top = S.calls++ == 0; vf::count(8);
  S.il = layer; S.alpha = toF(al); S.beta = toF(be);
  S.r0 = vec(r0, lg); S.r1.clear(); if (!S.beta.zero()) S.r1 = vec(r1, lg);
  if (rb0) S.rb0 = vec(rb0, lb);
  if ((int)S.lal.size() <= layer) { S.lal.resize(layer + 1); S.lbe.resize(layer + 1); }
  S.lal[layer] = S.alpha; S.lbe[layer] = S.beta;
  if (top) {
    for (auto &x : S.r0) S.chal.push_back(x);
    if (rb0) for (auto &x : S.rb0) S.chal.push_back(x);
    std::vector<F> pt = S.r0; pt.insert(pt.end(), S.rb0.begin(), S.rb0.end());
    S.delta = F(0);
    if (S.a.on && !S.a.lie_vres) { auto e = ref::eqtab(pt); for (auto &m : S.a.claim) S.delta = S.delta + e[m.first] * m.second; S.active = true; }
  } else {
    S.chal.push_back(S.alpha); S.chal.push_back(S.beta);
    S.delta = S.alpha * S.du + S.beta * S.dv;
  }
  S.ru.clear(); S.rv.clear(); S.rb.clear(); S.pend = false; S.du = F(0); S.dv = F(0); S.committed = false; S.kappa = F(0); S.commit_du = F(0);
}
static void m_challenge(const F &r, std::vector<F> &into) {
  S.chal.push_back(r); into.push_back(r);
  if (!S.a.on) return;
  if (S.pend) { F x(1); for (int i = 0; i < S.corr_pow; i++) x = x * r; S.delta = S.corr * x + S.kappa; }
  S.pend = false;
}
// message of a round: returns what to add to coefficient S.corr_pow
static bool m_round(int maxpow) {
  vf::count(8);
  if (!S.a.on) return false;
  int k = S.chk++; S.before.push_back(S.delta);
  if (k == S.a.t) { S.failing = S.delta; S.active = false; S.delta = F(0); S.kappa = F(0); }
  S.corr = F(0); S.corr_pow = 0; S.pend = true;
  if (!S.active || (S.delta.zero() && S.kappa.zero())) return false;
  F d = S.delta - S.kappa;
  int st = S.a.style; if (st > maxpow) st = maxpow;
  if (!S.kappa.zero()) st = 0;
  S.corr_pow = st; S.corr = st == 0 ? d * F(2).inv() : d;
  return true;
}
static void m_final(F &vu, F &vv, FE *blkval) {
  vf::count(8);
  if (!S.a.on) return;
  S.vu = vu; S.vv = vv;
  int k = S.chk++; S.before.push_back(S.delta);
  if ((int)S.fin_chk.size() <= S.il) { S.fin_chk.resize(S.il + 1, -1); S.need.resize(S.il + 1); }
  S.fin_chk[S.il] = k;
  if (k == S.a.t) { S.failing = S.delta; S.active = false; S.delta = F(0); return; }
  if (!S.active) return;
#if PROTO == 1
  if (S.il == 1) {
    if (S.committed) { if (S.a.l1 == L1_COMMIT) { S.du = S.commit_du; vu = vu + S.du; } return; }
    if (S.a.l1 == L1_SOLVE && !S.dr.zero()) { S.du = S.delta / S.dr; vu = vu + S.du; return; }
    S.failing = S.delta; S.stuck = true; S.active = false; return;
  }
#endif
  auto e0 = ref::eqtab(S.r0); for (auto &x : e0) x = x * S.alpha;
  if (!S.beta.zero()) { auto e1 = ref::eqtab(S.r1); for (size_t i = 0; i < e0.size(); i++) e0[i] = e0[i] + e1[i] * S.beta; }
  ref::Pred P = ref::pred(S.layer(S.il), e0, ref::eqtab(S.ru), ref::eqtab(S.rv));
#if PROTO == 3
  { F w = ref::eqpt(S.rb0, S.rb); P.A = P.A * w; P.B = P.B * w; P.C = P.C * w; P.D = P.D * w; }
#endif
  S.need[S.il] = P.at(vu + F(1), vv + S.a.rho) - P.at(vu, vv);
  if (S.il == S.a.ratio_layer && S.need[S.il] == S.delta && !S.delta.zero()) { S.du = F(1); S.dv = S.a.rho; vu = vu + S.du; vv = vv + S.dv; return; }
  if (S.delta.zero()) return;
#if PROTO == 3
  if (S.a.lie_blk && S.il == 1) { F h = P.at(vu, vv); if (!h.zero()) { *blkval = toFE(toF(*blkval) * (h + S.delta) / h); } S.failing = S.delta; S.active = false; S.delta = F(0); return; }
#endif
  F cu = P.B + P.D * vv, cv = P.C + P.D * vu;
  int rk = S.a.rk; if (rk == 0 && cu.zero()) rk = 1; else if (rk == 1 && cv.zero()) rk = 0;
  if (rk == 0 && !cu.zero()) { S.du = S.delta / cu; vu = vu + S.du; }
  else if (rk == 1 && !cv.zero()) { S.dv = S.delta / cv; vv = vv + S.dv; }
  else { S.failing = S.delta; S.stuck = true; S.active = false; }
}

// a whole program is running: each proof it starts is a session of its own
static bool in_program = false; static int prog_copies = 0, prog_cheat_at = -1, prog_out = 0; static int prog_t = 0; static F prog_err;
static void prog_copy() {
  Sess n; n.c = S.c; n.nb = S.nb; n.lb = S.lb; n.binp = S.binp; S = n;
  if (prog_copies++ == prog_cheat_at) { S.a.on = true; S.a.claim = {{prog_out, prog_err}}; S.a.t = prog_t; }
}
} // namespace hx
using namespace hx;
FE *prover::evaluate() {
  if (in_program) prog_copy();
  FE *r = real_prover::evaluate();
  size_t n = (size_t)ref::width(S.c.back()) * S.nb;
  S.outs.clear(); S.claimed.clear();
  for (size_t i = 0; i < n; i++) { if (!canonical(r[i])) S.noncanon = true; S.outs.push_back(toF(r[i])); }
  if (S.a.on) for (auto &m : S.a.claim) r[m.first] = toFE(toF(r[m.first]) + m.second);
  for (size_t i = 0; i < n; i++) S.claimed.push_back(toF(r[i]));
  S.evaluated = true;
  return r;
}
#if PROTO == 3
FE prover::V_res(const FE *omr, const FE *r, const FE *omrb, const FE *rb, const FE *out, int nr, int nrb, int n) {
  if (S.a.on && S.a.lie_vres) { std::vector<F> pt = vec(r, nr), q = vec(rb, nrb); pt.insert(pt.end(), q.begin(), q.end()); return toFE(ref::mle(S.outs, pt)); }
  return real_prover::V_res(omr, r, omrb, rb, out, nr, nrb, n);
}
void prover::sumcheck_init(int layer, int lb, int lg, int lu, int lv, const FE &al, const FE &be, const FE *rb0, const FE *r0, const FE *r1, FE *ob, FE *o0, FE *o1) {
  m_begin(layer, lg, al, be, r0, r1, rb0, lb);
  real_prover::sumcheck_init(layer, lb, lg, lu, lv, al, be, rb0, r0, r1, ob, o0, o1);
}
cubic_poly prover::sumcheck_phase0_update(FE prev, int j) {
  if (j > 0) m_challenge(toF(prev), S.rb);
  cubic_poly q = real_prover::sumcheck_phase0_update(prev, j);
  if (m_round(3)) { FE *c = S.corr_pow == 0 ? &q.d : S.corr_pow == 1 ? &q.c : S.corr_pow == 2 ? &q.b : &q.a; *c = toFE(toF(*c) + S.corr); }
  return q;
}
void prover::sumcheck_phase1_init(FE prev) { if (S.lb > 0) m_challenge(toF(prev), S.rb); real_prover::sumcheck_phase1_init(prev); }
void prover::sumcheck_phase2_init(FE prev) { m_challenge(toF(prev), S.ru); real_prover::sumcheck_phase2_init(prev); }
#else
FE prover::V_res(const FE *omr, const FE *r, const FE *out, int nr, int n) {
  if (S.a.on && S.a.lie_vres) return toFE(ref::mle(S.outs, vec(r, nr)));
  return real_prover::V_res(omr, r, out, nr, n);
}
void prover::sumcheck_init(int layer, int lg, int lu, int lv, const FE &al, const FE &be, const FE *r0, const FE *r1, FE *o0, FE *o1) {
  m_begin(layer, lg, al, be, r0, r1, nullptr, 0);
  real_prover::sumcheck_init(layer, lg, lu, lv, al, be, r0, r1, o0, o1);
}
void prover::sumcheck_phase2_init(FE prev, const FE *ru, const FE *omru) {
  m_challenge(toF(prev), S.ru);
  real_prover::sumcheck_phase2_init(prev, ru, omru);
#if PROTO == 1
  if (S.il >= 2 && S.a.on && S.active && (S.a.t < 0 || S.a.t > S.chk + (int)S.ru.size()) && S.il < (int)S.a.vu_commit.size()) { S.commit_du = S.a.vu_commit[S.il]; v_u = toFE(toF(v_u) + S.commit_du); S.committed = !S.commit_du.zero(); }
  if (S.il == 1 && S.a.on) {
    S.dr = S.alpha * ref::eqpt(S.r0, S.ru); if (!S.beta.zero()) S.dr = S.dr + S.beta * ref::eqpt(S.r1, S.ru);
    if (S.active && !S.delta.zero() && !S.dr.zero() && S.chk != S.a.t) {
      if (S.a.l1 == L1_COMMIT) { S.commit_du = S.delta / S.dr; v_u = toFE(toF(v_u) + S.commit_du); S.committed = true; S.delta = F(0); }
      else if (S.a.l1 == L1_SWITCH) {
        int n = (int)S.ru.size();
        // constants k1, k1/2, ... in the rounds, and a value V' with k_n + dr*(V'-v) = 0
        F half = F(2).inv(), p2(1); for (int i = 0; i < n - 1; i++) p2 = p2 * half;
        F k1 = S.delta / (F(2) - p2), kn = k1 * p2; S.failing = S.delta;
        S.commit_du = (F(0) - kn) / S.dr; S.kappa = F(0) - kn; v_u = toFE(toF(v_u) + S.commit_du); S.committed = true;
      }
    }
  }
#endif
}
#endif
quadratic_poly prover::sumcheck_phase1_update(FE prev, int j) {
  if (j > 0) m_challenge(toF(prev), S.ru);
  quadratic_poly q = real_prover::sumcheck_phase1_update(prev, j);
#if PROTO == 4
  for (FE *x : {&q.a, &q.b, &q.c}) S.said.push_back(toF(*x));
#endif
  if (m_round(2)) { FE *c = S.corr_pow == 0 ? &q.c : S.corr_pow == 1 ? &q.b : &q.a; *c = toFE(toF(*c) + S.corr); }
  return q;
}
quadratic_poly prover::sumcheck_phase2_update(FE prev, int j) {
  if (j > 0) m_challenge(toF(prev), S.rv);
  quadratic_poly q = real_prover::sumcheck_phase2_update(prev, j);
#if PROTO == 4
  for (FE *x : {&q.a, &q.b, &q.c}) S.said.push_back(toF(*x));
#endif
  if (m_round(2)) { FE *c = S.corr_pow == 0 ? &q.c : S.corr_pow == 1 ? &q.b : &q.a; *c = toFE(toF(*c) + S.corr); }
  return q;
}
std::pair<FE, FE> prover::sumcheck_finalize(FE prev) {
  m_challenge(toF(prev), S.rv);
  std::pair<FE, FE> r = real_prover::sumcheck_finalize(prev);
  F vu = toF(r.first), vv = toF(r.second);
#if PROTO == 4
  S.said.push_back(vu); S.said.push_back(vv);
#endif
#if PROTO == 1
  if (S.committed) vu = vu - S.commit_du;                     // the real prover returned what was put into v_u
  if (S.committed) v_u = toFE(vu + (S.a.l1 == L1_COMMIT || S.il > 1 ? S.commit_du : F(0)));
  m_final(vu, vv, nullptr);
  if (S.a.on && S.il >= 2 && S.active && S.du != S.commit_du) {      // to be announced earlier in the next try
    if ((int)S.a.vu_commit.size() <= S.il) S.a.vu_commit.resize(S.il + 1);
    S.a.vu_commit[S.il] = S.du; S.learned = true;
  }
#elif PROTO == 3
  m_final(vu, vv, &beta_blk_val);
#else
  m_final(vu, vv, nullptr);
#endif
  if (S.a.on) { r.first = toFE(vu); r.second = toFE(vv); if (S.il == 1 && S.active && !(S.du.zero() && S.dv.zero())) S.reached_final = true; }
  return r;
}
namespace hx {
static prover *gp; static verifier *gv; static int memfd = -1; static char fdpath[64];
static void init_all() {
  ref::init();
  prime_field::init(P_DEC, 10);
  gp = new prover; gv = new verifier;
  memfd = (int)syscall(SYS_memfd_create, "circuit", 0); snprintf(fdpath, sizeof fdpath, "/proc/self/fd/%d", memfd);
  if (vf::g_only_index < 0) { std::cerr.rdbuf(nullptr); static char b1[1 << 16], b2[1 << 16]; setvbuf(stderr, b1, _IOFBF, sizeof b1); setvbuf(stdout, b2, _IOFBF, sizeof b2); }
}
static void put_text(const std::string &s) { if (ftruncate(memfd, 0) || pwrite(memfd, s.data(), s.size(), 0) != (ssize_t)s.size()) abort(); }

static void load(const std::string &txt) {
  put_text(txt);
  gp->total_time = 0;
#if PROTO == 3
  gv->set_blocks(S.nb, S.lb);
#endif
  gv->get_prover(gp);
#if PROTO == 1 || PROTO == 4
  gv->read_circuit(fdpath);
#elif PROTO == 2
  FILE *f = fopen(fdpath, "r"); gv->read_circuit_from_FILE(f); fclose(f);
#else
  gv->read_circuit(fdpath, S.nb);
  for (size_t b = 0; b < S.binp.size(); b++) for (size_t g = 0; g < S.binp[b].size(); g++) if (S.c[0][g].ty == ref::INPUT) gv->C.blocks[b].circuit[0].gates[g].u = S.binp[b][g];
#endif
}
// true outputs by the reference
static std::vector<F> ref_out() {
  std::vector<F> r;
  if (PROTO != 3 || S.binp.empty()) { auto w = ref::eval(S.c).back(); for (int b = 0; b < S.nb; b++) r.insert(r.end(), w.begin(), w.end()); return r; }
  for (int b = 0; b < S.nb; b++) { Circ c = S.c; for (size_t g = 0; g < c[0].size(); g++) c[0][g].u = S.binp[b][g]; auto w = ref::eval(c).back(); r.insert(r.end(), w.begin(), w.end()); }
  return r;
}
struct Pt { Circ c; int lb = 0; std::vector<std::vector<long long>> binp; Tape t; };
static void setup(const Pt &p) { S = Sess(); S.c = p.c; S.lb = p.lb; S.nb = 1 << p.lb; S.binp = p.binp; tape = p.t; draws = 0; seeded = false; }
static void (*mutate_prover)() = nullptr;
#if PROTO == 4
static sched::Plan sched_plan; static bool sched_rec = false;
#endif
static bool run(const Pt &p, const Adv &a) {
  setup(p); S.a = a; ar_reset(true);
#if PROTO == 4
  sched::reset(sched_plan, sched_rec);
#endif
  load(ref::text(p.c));
  gp->get_circuit(gv->C);
  if (mutate_prover) mutate_prover();
  bool ok = gv->verify();
  vf::count(1);
#ifndef NO_ARENA
  ar_on = false;
#endif
  return ok;
}
// a cheating run; the linear verifier learns V(u) before phase 2, so the prover needs to know there
// what it will have to return: found by repeating the run with the same coins
static bool cheat(const Pt &p, Adv &a) {
  bool acc = false;
  for (int i = 0; i < (int)p.c.size() + 3; i++) { acc = run(p, a); if (acc || !S.learned) break; a.vu_commit = S.a.vu_commit; }
  return acc;
}
static std::string ctext(const Pt &p) {
  std::string s = ref::text(p.c); for (char &ch : s) if (ch == '\n') ch = ';';
  if (p.lb) s += vf::fmt(" blocks=%d", 1 << p.lb);
  for (auto &b : p.binp) { s += " ["; for (auto x : b) s += std::to_string(x) + " "; s += "]"; }
  s += vf::fmt(" tape=%llu", (unsigned long long)p.t.id); for (auto &f : p.t.force) s += vf::fmt(" c%d=%d", f.first, f.second);
  if (s.size() > 900) s = s.substr(0, 900) + "...";
  return s;
}

// ---------------------------------------------------------------- circuits
static const std::vector<int> TYPES =
#if PROTO == 1
  {ref::ADD, ref::MUL, ref::DUMMY, ref::SUM, ref::NOT, ref::MINUS, ref::XOR, ref::NAAB, ref::RELAY};
#else
  {ref::ADD, ref::MUL, ref::DUMMY};
#endif
static const int SUM_MIN = 0;                    // shortest summation range
#include "circuits.h"
static Pt block_pt(const Circ &c, int lb, int mode, uint64_t tid) {   // mode 0: same inputs everywhere, 1: distinct, 2: only the last block differs
  Pt p; p.c = c; p.lb = lb; p.t.id = tid;
  for (int b = 0; b < (1 << lb); b++) { std::vector<long long> v; for (size_t g = 0; g < c[0].size(); g++) { bool d = mode == 1 || (mode == 2 && b == (1 << lb) - 1); v.push_back(c[0][g].ty == ref::INPUT ? (d ? moved(c[0][g].u, 101 * b * (long long)(g + 1) - 5) : c[0][g].u) : 0); } p.binp.push_back(v); }
  return p;
}
// the points standing for a circuit: itself, or (data-parallel) every block layout of the tier
template <class FN> static void per_point(const Circ &c, uint64_t tid, FN fn) {
#if PROTO == 3
  for (int lb = 0; lb <= (vf::deep() ? 5 : vf::thorough() ? 3 : 2); lb++) for (int m = 0; m < (lb == 0 ? 1 : 3); m++) { if (c.size() == 1 && m) continue; fn(block_pt(c, lb, m, tid)); }
#else
  Pt p; p.c = c; p.t.id = tid; fn(p);
#endif
}
#include "gkr_groups.h"
#if PROTO == 4
#include "para_groups.h"
#endif
} // namespace hx
int main(int argc, char **argv) {
  return vf::main_(argc, argv, {"points_checked", "protocol_runs", "cheats_rejected", "cheat_chains_to_final_check", "honest_accepted", "challenges_checked", "outputs_compared", "skipped_vacuous", "messages", "program_runs", "passes", "bodies_run", "contended_addresses", "schedules", "accesses", "interleavings_beyond_budget"}, init_all);
}
