// Harness for the zero-knowledge argument (zk_prover / zk_verifier) and its polynomial commitments.
//
// Verifier, prover, commitments and program are the real ones.  The verifier's prover and transcript are
// the real classes behind wrappers of the same name (zk_wrap.h) that hand everything through, record
// messages and challenges, and replace what the point being explored says.  The groups are those of
// zk/bn.h.  Coins come from rand() and mpz_urandomm(), both defined here.
#include <bits/stdc++.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include "vf.h"
#include "ref.h"

#ifndef NO_ARENA
static char *ar_base = nullptr; static size_t ar_used = 0; static const size_t AR_SIZE = 1ull << 30; static bool ar_on = false;
void *operator new[](size_t n) {
  if (ar_on && ar_used + n + 32 < AR_SIZE) { size_t *h = (size_t *)(ar_base + ar_used); h[0] = n; ar_used += (n + 16 + 31) / 16 * 16; memset((char *)h + 16, 0xCB, n); return (char *)h + 16; }
  void *p = malloc(n); if (!p) abort(); return p;
}
void operator delete[](void *p) noexcept {
  if ((char *)p >= ar_base && (char *)p < ar_base + AR_SIZE && ar_base) { size_t n = *(size_t *)((char *)p - 16); if (n < AR_SIZE) memset(p, 0xDD, n); return; }
  free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
static void ar_reset(bool on) { if (!ar_base) ar_base = (char *)mmap(0, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ar_used = 0; ar_on = on; }
#else
static bool ar_on = false;
static void ar_reset(bool) {}
#endif

#include "zk_wrap.h"
#include "linear_gkr/zk_verifier.h"
extern int prog_main(int, char **) __asm__("prog_main");

// ---------------------------------------------------------------- coins
// Draw k of the process source is a fixed function of (tape, k); single draws may be moved by +-1.
struct Tape { uint64_t id = 1; bool fixed = false;                    // fixed: challenges from the tape instead of the transcript's hash
  std::vector<std::pair<int, int>> force;                             // challenge number, 0 or 1
  long flip = -1; int by = 0; long gflip = -1; int gby = 0; };
static Tape tape; static long draws = 0, gdraws = 0, nchal = 0;
extern "C" int rand(void) {
  long k = draws++; int x = (int)(ref::mix(tape.id * 1000003 + ref::mix(k)) & 0x7ffffff0) + 4;
  return k == tape.flip ? x + tape.by : x;
}
extern "C" void srand(unsigned) {}
// GMP's generator: values are a function of the seed and the number of draws since
static std::map<const void *, std::pair<uint64_t, uint64_t>> gstate;
extern "C" void __gmp_randinit_default(gmp_randstate_ptr s) { gstate[s] = {0, 0}; }
extern "C" void __gmp_randseed_ui(gmp_randstate_ptr s, unsigned long x) { gstate[s] = {x, 0}; }
extern "C" void __gmpz_urandomm(mpz_ptr r, gmp_randstate_ptr s, mpz_srcptr n) {
  auto &g = gstate[s]; uint64_t w[5]; for (int i = 0; i < 5; i++) w[i] = ref::mix(g.first * 0x100000001b3ull + ref::mix(g.second * 8 + i));
  g.second++; long k = gdraws++;
  mpz_import(r, 5, -1, 8, 0, 0, w); mpz_mod(r, r, n);
  if (k == tape.gflip) { mpz_set_ui(r, mpz_fdiv_ui(r, 1000000007)); if (tape.gby > 0) mpz_add_ui(r, r, tape.gby); }
}
// files a proof leaves in the working directory go nowhere, or to a memory file for a check that reads it
static bool keep_proof = false; static int proof_fd = -1;
extern "C" FILE *fopen(const char *path, const char *mode) {
  static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  char mem[64];
  if (path[0] != '/' && keep_proof && !strcmp(path, "proof.bin")) { if (proof_fd < 0) proof_fd = (int)syscall(SYS_memfd_create, "proof", 0); sprintf(mem, "/proc/self/fd/%d", proof_fd); path = mem; }
  else if (path[0] != '/') path = "/dev/null";
  return real(path, mode);
}

namespace hx {
using ref::F; using ref::Circ; using ref::Layer; using ref::Gate;
typedef prime_field::field_element FE;
typedef std::vector<bn::Ec1> VE;
static F toF(const FE &x) {
  F r; r.l[0] = (uint64_t)x.value.lo; r.l[1] = (uint64_t)(x.value.lo >> 64); r.l[2] = (uint64_t)x.value.mid; r.l[3] = (uint64_t)(x.value.mid >> 64);
  return r;
}
static bool canonical(const FE &x) { return x.value.hi.lo == 0 && x.value.hi.mid == 0 && x.value.hi.hi == 0 && mpn_cmp(toF(x).l, ref::P, 4) < 0; }
static FE toFE(const F &x) { FE r; r.value.lo = (__uint128_t)x.l[1] << 64 | x.l[0]; r.value.mid = (__uint128_t)x.l[3] << 64 | x.l[2]; r.value.hi = prime_field::u256b((unsigned long long)0); return r; }
static mpz_class toZ(const F &x) { mpz_class z; mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, x.l); return z; }
static F ofZ(const mpz_class &z) { static const mpz_class P(P_DEC, 10); mpz_class m; mpz_mod(m.get_mpz_t(), z.get_mpz_t(), P.get_mpz_t()); F r; mpz_export(r.l, nullptr, -1, 8, 0, 0, m.get_mpz_t()); return r; }
static F ofE(const bn::Ec1 &e) { F r; memcpy(r.l, e.e.l, 32); return r; }
static bn::Ec1 toE(const F &x) { bn::Ec1 e; memcpy(e.e.l, x.l, 32); return e; }
// prover members a verifier might be tempted to read; absent ones are skipped
#define OPT(name) template <class T> static auto opt_##name(T &t, int) -> decltype(&t.name) { return &t.name; } template <class T> static FE *opt_##name(T &, long) { return nullptr; }
OPT(Iuv) OPT(preZu) OPT(preZv) OPT(prepreu1) OPT(preprev1) OPT(maskpoly_sum) OPT(maskpoly_sumc) OPT(Zu) OPT(Zv)
template <class T> static auto opt_preR(T &t, int) -> decltype(&t.preR[0]) { return &t.preR[0]; } template <class T> static FE *opt_preR(T &, long) { return nullptr; }
template <class T> static auto opt_maskR(T &t, int) -> decltype(&t.maskR[0]) { return &t.maskR[0]; } template <class T> static FE *opt_maskR(T &, long) { return nullptr; }
template <class T> static auto opt_sumRca(T &t, int) -> decltype(&t.sumRc.a) { return &t.sumRc.a; } template <class T> static FE *opt_sumRca(T &, long) { return nullptr; }

enum Kind { K_OUT, K_DIG_IN, K_DIG_R, K_DIG_MASK, K_SUM, K_U, K_VU, K_V, K_VU2, K_VV, K_C, K_R_WIT, K_R_ANS, K_M_WIT, K_M_ANS, K_IN_WIT, K_IN_ANS };
static const char *kname[] = {"claimed output", "input commitment", "commitment to R", "commitment to the mask", "sum of the mask", "phase 1 polynomial", "V(u)", "phase 2 polynomial", "V(u) at the end", "V(v)", "c polynomial", "R witness", "R value", "mask witness", "mask value", "input witness", "input value"};
enum Lie { L_NONE, L_VRES, L_SUM, L_IUV, L_PREZU, L_PREZV, L_POINTU, L_POINTV, L_R1, L_R2, L_MASK, L_IN, L_LATE_VU };
static const char *lname[] = {"none", "extension of the output", "sum of the mask after rho", "Iuv", "Z(u)", "Z(v)", "point of R(u)", "point of R(v)", "value of R(u)", "value of R(v)", "value of the mask", "value of the input", "V(u) after phase 2"};
enum { L1_NONE, L1_COMMIT, L1_SWITCH, L1_SOLVE };
struct Msg { int kind, layer, round, deg; F val; int chals; bool curve; };
struct Pert { int idx; F add; };
struct Info { F d_sum, d_semi, alpha, beta, Iuv, Z0, Z1, rc, rho, r1, r2, R[6]; bool have = false; };
struct Adv {
  bool on = false;
  std::vector<std::pair<int, F>> claim; int t = -1, style = 0, rk = 0, l1 = L1_COMMIT;
  int ratio_layer = -1; F rho; std::vector<F> vu_commit;
  int lie = L_NONE, lie_layer = 0; std::vector<Info> info;            // what the first try taught about each layer
};
struct Meta { int para = 0, bs = 0, rep = 0, lbs = 0, lrep = 0; };
struct Sess {
  Circ c; Adv a; std::vector<Pert> pert; bool again_R = false, again_M = false;
  std::vector<Msg> msgs; std::vector<F> outs, claimed, chal; std::vector<std::string> cname; bool evaluated = false, noncanon = false;
  int il = 0, calls = 0, round = 0, nR = 0; F alpha, beta; std::vector<F> r0, r1, ru, rv;
  F delta, corr, kappa, du, dv, dr, commit_du, failing, Z0, Z1; int corr_pow = 0; bool pend = false, active = false, stuck = false, committed = false, learned = false, reached_final = false, c_open = false;
  int chk = 0; std::vector<F> before, lal, lbe, need, fin_delta; std::vector<Info> info;
  std::vector<std::pair<FE *, FE>> undo; F csum; bool fix_c = false;
  const Layer &layer(int internal) const { return internal <= 1 ? c[0] : c[internal - 1]; }
};
static Sess S;
static std::vector<F> vec(const FE *p, int n) { std::vector<F> r; for (int i = 0; i < n; i++) r.push_back(toF(p[i])); return r; }
static void enter() { for (auto &u : S.undo) *u.first = u.second; S.undo.clear(); vf::count(8); }
static void lie_to(FE *m, const F &v) { if (!m) return; S.undo.push_back({m, *m}); *m = toFE(v); }
static void say(int kind, int round, int deg, FE &x) {
  int k = (int)S.msgs.size();
  for (auto &p : S.pert) if (p.idx == k) x = toFE(toF(x) + p.add);
  if (!canonical(x)) S.noncanon = true;
  S.msgs.push_back({kind, S.il, round, deg, toF(x), (int)S.chal.size(), false});
}
static void say(int kind, int round, int deg, bn::Ec1 &x) {
  int k = (int)S.msgs.size();
  for (auto &p : S.pert) if (p.idx == k) x = toE(ofE(x) + p.add);
  S.msgs.push_back({kind, S.il, round, deg, ofE(x), (int)S.chal.size(), true});
}
static void say(int kind, int round, int deg, mpz_class &x) {
  int k = (int)S.msgs.size();
  for (auto &p : S.pert) if (p.idx == k) x = toZ(ofZ(x) + p.add);
  S.msgs.push_back({kind, S.il, round, deg, ofZ(x), (int)S.chal.size(), false});
}
static void say_all(int kind, VE &v, int base = 0) { for (size_t i = 0; i < v.size(); i++) say(kind, (int)i + base, 0, v[i]); }
static void say_poly(int kind, int j, quadratic_poly &q) { say(kind, j, 2, q.a); say(kind, j, 1, q.b); say(kind, j, 0, q.c); }
static void say_poly(int kind, int j, quintuple_poly &q) { say(kind, j, 5, q.a); say(kind, j, 4, q.b); say(kind, j, 3, q.c); say(kind, j, 2, q.d); say(kind, j, 1, q.e); say(kind, j, 0, q.f); }
static FE *coef(quadratic_poly &q, int d) { return d == 0 ? &q.c : d == 1 ? &q.b : &q.a; }
static FE *coef(quintuple_poly &q, int d) { return d == 0 ? &q.f : d == 1 ? &q.e : d == 2 ? &q.d : d == 3 ? &q.c : d == 4 ? &q.b : &q.a; }
static void learn(const F &x, const char *what) { S.chal.push_back(x); S.cname.push_back(vf::fmt("%s of layer %d", what, S.il)); }
static Info &info() { if ((int)S.info.size() <= S.il) S.info.resize(S.il + 1); return S.info[S.il]; }

static void m_challenge(const F &r, std::vector<F> *into, const char *what) {
  learn(r, what); if (into) into->push_back(r);
  if (!S.a.on) return;
  if (S.pend) { F x(1); for (int i = 0; i < S.corr_pow; i++) x = x * r; S.delta = S.corr * x + S.kappa; }
  S.pend = false;
}
static bool m_round(int maxpow) {
  if (!S.a.on) return false;
  int k = S.chk++; S.before.push_back(S.delta);
  if (k == S.a.t) { S.failing = S.delta; S.active = false; S.delta = F(0); S.kappa = F(0); }
  S.corr = F(0); S.corr_pow = 0; S.pend = true;
  if (!S.active || (S.delta.zero() && S.kappa.zero())) return false;
  F d = S.delta - S.kappa;
  int st = S.a.style; if (st > maxpow) st = maxpow;
  if (!S.kappa.zero()) st = 0;
  S.corr_pow = st; S.corr = st == 0 ? d * F(2).inv() : d;
  return true;
}
template <class POLY> static void cheat_poly(POLY &q, int maxpow) { if (m_round(maxpow)) { FE *c = coef(q, S.corr_pow); *c = toFE(toF(*c) + S.corr); } }
static bool semi_lie() { return S.a.lie >= L_IUV && S.a.lie <= L_MASK && S.a.lie_layer == S.il; }
static void m_final(F &vu, F &vv) {
  if (!S.a.on) return;
  if ((int)S.fin_delta.size() <= S.il) { S.fin_delta.resize(S.il + 1); S.need.resize(S.il + 1); }
  F delta = S.delta; S.fin_delta[S.il] = delta;
  if (!S.active || S.chk == S.a.t || S.chk + 1 == S.a.t || semi_lie()) return;   // the c polynomial or the semi-final check is the one to notice
  if (S.il == 1) {
    if (S.committed) { if (S.a.l1 == L1_COMMIT) { S.du = S.commit_du; vu = vu + S.du; } return; }
    if (S.a.l1 == L1_SOLVE && !S.dr.zero()) { S.du = delta / S.dr; vu = vu + S.du; }
    return;
  }
  auto e0 = ref::eqtab(S.r0); for (auto &x : e0) x = x * S.alpha;
  if (!S.beta.zero()) { auto e1 = ref::eqtab(S.r1); for (size_t i = 0; i < e0.size(); i++) e0[i] = e0[i] + e1[i] * S.beta; }
  ref::Pred P = ref::pred(S.layer(S.il), e0, ref::eqtab(S.ru), ref::eqtab(S.rv));
  S.need[S.il] = P.at(vu + F(1), vv + S.a.rho) - P.at(vu, vv);
  if (S.il == S.a.ratio_layer && S.need[S.il] == delta && !delta.zero()) { S.du = F(1); S.dv = S.a.rho; vu = vu + S.du; vv = vv + S.dv; S.delta = F(0); return; }
  if (delta.zero()) return;
  F cu = P.B + P.D * vv, cv = P.C + P.D * vu;
  int rk = S.a.rk; if (rk == 0 && cu.zero()) rk = 1; else if (rk == 1 && cv.zero()) rk = 0;
  if (rk == 0 && !cu.zero()) { S.du = delta / cu; vu = vu + S.du; S.delta = F(0); }
  else if (rk == 1 && !cv.zero()) { S.dv = delta / cv; vv = vv + S.dv; S.delta = F(0); }
  else S.stuck = true;
}
static bool in_program = false; static Adv prog_adv;
} // namespace hx
using namespace hx;

prime_field::field_element *proof_transcript::random(int n) {
  size_t k0 = msg.size(); FE *r = real_proof_transcript::random(n);
  for (int i = 0; i < n; i++) {
    long k = nchal++;
    if (!tape.fixed) continue;
    F x; for (int j = 0; j < 4; j++) x.l[j] = ref::mix(tape.id * 7919 + ref::mix(k * 4 + j)); x.l[3] >>= 3;
    for (auto &f : tape.force) if (f.first == k) x = F(f.second);
    r[i] = toFE(x); if (k0 + i < msg.size()) msg[k0 + i].fld_ele = r[i];
  }
  return r;
}
prime_field::field_element proof_transcript::random() { FE *a = random(1); FE r = a[0]; delete[] a; return r; }

FE *zk_prover::evaluate() {
  enter(); FE *r = real_zk_prover::evaluate();
  size_t n = (size_t)ref::width(S.c.back());
  S.outs.clear(); S.claimed.clear(); S.il = (int)S.c.size();
  for (size_t i = 0; i < n; i++) { if (!canonical(r[i])) S.noncanon = true; S.outs.push_back(toF(r[i])); }
  if (S.a.on) for (auto &m : S.a.claim) r[m.first] = toFE(toF(r[m.first]) + m.second);
  for (size_t i = 0; i < n; i++) { say(K_OUT, (int)i, 0, r[i]); S.claimed.push_back(toF(r[i])); }
  S.evaluated = true;
  return r;
}
FE zk_prover::V_res(const FE *omr, const FE *r, const FE *out, int nr, int n) {
  enter(); if (S.a.on && S.a.lie == L_VRES) return toFE(ref::mle(S.outs, vec(r, nr)));
  return real_zk_prover::V_res(omr, r, out, nr, n);
}
std::pair<VE, VE> zk_prover::keygen_and_commit(int n, double &t) {
  enter(); auto r = real_zk_prover::keygen_and_commit(n, t); say_all(K_DIG_IN, r.first); say_all(K_DIG_IN, r.second, 2); return r;
}
VE zk_prover::sumcheck_init(int layer, int lg, int lu, int lv, const FE &al, const FE &be, const FE *r0, const FE *r1, FE *o0, FE *o1) {
  enter();
  bool top = S.calls++ == 0; S.il = layer; S.alpha = toF(al); S.beta = toF(be); S.r0 = vec(r0, lg); S.r1.clear(); if (!S.beta.zero()) S.r1 = vec(r1, lg);
  if ((int)S.lal.size() <= layer) { S.lal.resize(layer + 1); S.lbe.resize(layer + 1); } S.lal[layer] = S.alpha; S.lbe[layer] = S.beta;
  if (top) {
    for (auto &x : S.r0) learn(x, "output point"); S.delta = F(0);
    if (S.a.on && S.a.lie != L_VRES) { auto e = ref::eqtab(S.r0); for (auto &m : S.a.claim) S.delta = S.delta + e[m.first] * m.second; S.active = true; }
    S.Z0 = F(0); S.Z1 = F(0);
  } else {
    learn(S.alpha, "alpha"); learn(S.beta, "beta"); S.delta = S.alpha * S.du + S.beta * S.dv;
    S.Z0 = F(1); for (auto &x : S.ru) S.Z0 = S.Z0 * x * (F(1) - x); S.Z1 = F(1); for (auto &x : S.rv) S.Z1 = S.Z1 * x * (F(1) - x);
  }
  S.ru.clear(); S.rv.clear(); S.pend = false; S.du = S.dv = S.kappa = S.commit_du = F(0); S.committed = false; S.nR = 0; S.c_open = false;
  auto r = real_zk_prover::sumcheck_init(layer, lg, lu, lv, al, be, r0, r1, o0, o1);
  if (S.a.on && (S.a.lie == L_POINTU || S.a.lie == L_POINTV) && S.a.lie_layer == layer - 1) {      // a mask linear in its first variable for the layer below
    FE *m = opt_maskR(*this, 0), *s = opt_sumRca(*this, 0); if (m && s) { m[2] = toFE(F(0)); *s = toFE(F(0)); }
  }
  say_all(K_DIG_R, r); return r;
}
VE zk_prover::generate_maskpoly_pre_rho(int length, int degree) {
  enter(); auto r = real_zk_prover::generate_maskpoly_pre_rho(length, degree);
  say_all(K_DIG_MASK, r); FE *s = opt_maskpoly_sum(*this, 0); if (s) say(K_SUM, 0, 0, *s); return r;
}
void zk_prover::generate_maskpoly_after_rho(int length, int degree) {
  enter(); learn(toF(rho), "rho"); Info &I = info(); I.have = true; I.d_sum = S.delta; I.rho = toF(rho); I.alpha = S.alpha; I.beta = S.beta; I.Z0 = S.Z0; I.Z1 = S.Z1;
  real_zk_prover::generate_maskpoly_after_rho(length, degree);
  if (S.a.on && S.a.lie == L_SUM && S.a.lie_layer == S.il) {
    if (FE *m = opt_maskpoly_sumc(*this, 0)) lie_to(m, toF(*m) - S.delta);
    if (FE *m = opt_maskpoly_sum(*this, 0)) lie_to(m, toF(*m) - S.delta / toF(rho));
    S.failing = S.delta; S.active = false; S.delta = F(0);
  }
}
void zk_prover::sumcheck_phase1_init() { enter(); real_zk_prover::sumcheck_phase1_init(); }
quadratic_poly zk_prover::sumcheck_phase1_update(FE prev, int j) {
  enter(); if (j > 0) m_challenge(toF(prev), &S.ru, "phase 1 challenge");
  auto q = real_zk_prover::sumcheck_phase1_update(prev, j); cheat_poly(q, 2); say_poly(K_U, j, q); return q;
}
quintuple_poly zk_prover::sumcheck_phase1_updatelastbit(FE prev, int j) {
  enter(); if (j > 0) m_challenge(toF(prev), &S.ru, "phase 1 challenge");
  auto q = real_zk_prover::sumcheck_phase1_updatelastbit(prev, j); cheat_poly(q, 5); say_poly(K_U, j, q); return q;
}
void zk_prover::sumcheck_phase2_init(FE prev, const FE *ru, const FE *omru) {
  enter(); m_challenge(toF(prev), &S.ru, "phase 1 challenge");
  real_zk_prover::sumcheck_phase2_init(prev, ru, omru);
  if (S.il >= 2 && S.a.on && S.active && (S.a.t < 0 || S.a.t > S.chk + (int)S.ru.size() + 1) && S.il < (int)S.a.vu_commit.size()) { S.commit_du = S.a.vu_commit[S.il]; v_u = toFE(toF(v_u) + S.commit_du); S.committed = !S.commit_du.zero(); }
  if (S.il == 1 && S.a.on) {
    S.dr = S.alpha * ref::eqpt(S.r0, S.ru); if (!S.beta.zero()) S.dr = S.dr + S.beta * ref::eqpt(S.r1, S.ru);
    if (S.active && !S.delta.zero() && !S.dr.zero() && S.chk != S.a.t && !semi_lie()) {
      if (S.a.l1 == L1_COMMIT) { S.commit_du = S.delta / S.dr; v_u = toFE(toF(v_u) + S.commit_du); S.committed = true; S.delta = F(0); }
      else if (S.a.l1 == L1_SWITCH) {
        int n = (int)S.ru.size() + 1;                                // the c polynomial is one more round
        F half = F(2).inv(), p2(1); for (int i = 0; i < n - 1; i++) p2 = p2 * half;
        F k1 = S.delta / (F(2) - p2), kn = k1 * p2; S.failing = S.delta;
        S.commit_du = (F(0) - kn) / S.dr; S.kappa = F(0) - kn; v_u = toFE(toF(v_u) + S.commit_du); S.committed = true;
      }
    }
  }
  say(K_VU, 0, 0, v_u);
}
quadratic_poly zk_prover::sumcheck_phase2_update(FE prev, int j) {
  enter(); if (j > 0) m_challenge(toF(prev), &S.rv, "phase 2 challenge");
  auto q = real_zk_prover::sumcheck_phase2_update(prev, j); cheat_poly(q, 2); say_poly(K_V, j, q); return q;
}
quintuple_poly zk_prover::sumcheck_phase2_updatelastbit(FE prev, int j) {
  enter(); if (j > 0) m_challenge(toF(prev), &S.rv, "phase 2 challenge");
  auto q = real_zk_prover::sumcheck_phase2_updatelastbit(prev, j); cheat_poly(q, 5); say_poly(K_V, j, q); return q;
}
std::pair<FE, FE> zk_prover::sumcheck_finalize(FE prev) {
  enter(); m_challenge(toF(prev), &S.rv, "phase 2 challenge");
  auto r = real_zk_prover::sumcheck_finalize(prev);
  if (S.a.on) {
    F vu = toF(r.first), vv = toF(r.second);
    if (S.committed) vu = vu - S.commit_du;
    if (S.committed) v_u = toFE(vu + (S.a.l1 == L1_COMMIT || S.il > 1 ? S.commit_du : F(0)));
    m_final(vu, vv);
    if (S.il >= 2 && S.active && S.du != S.commit_du) { if ((int)S.a.vu_commit.size() <= S.il) S.a.vu_commit.resize(S.il + 1); S.a.vu_commit[S.il] = S.du; S.learned = true; }
    r.first = toFE(vu); r.second = toFE(vv);
  }
  say(K_VU2, 0, 0, r.first); say(K_VV, 0, 0, r.second); return r;
}
quadratic_poly zk_prover::sumcheck_finalround(FE prev, int current, FE general) {
  enter(); auto q = real_zk_prover::sumcheck_finalround(prev, current, general);
  cheat_poly(q, 2);
  if (S.fix_c) { F s = toF(q.a) + toF(q.b) + toF(q.c) + toF(q.c); q.c = toFE(toF(q.c) + (S.csum - s) * F(2).inv()); }
  S.c_open = true;
  if (S.a.on && semi_lie() && S.il < (int)S.a.info.size() && S.a.info[S.il].have) {
    const Info &I = S.a.info[S.il];
    if (S.a.lie == L_POINTU || S.a.lie == L_POINTV) { bool u = S.a.lie == L_POINTU; F k = (u ? I.alpha * I.Z0 : I.beta * I.Z1) * I.Iuv * (I.R[1] + I.R[5] * I.rc);
      FE *m = u ? opt_prepreu1(*this, 0) : opt_preprev1(*this, 0); if (m && !k.zero()) lie_to(m, toF(*m) + I.d_semi / k); }
  }
  say_poly(K_C, 0, q); return q;
}
static void c_challenge(const F &r) { if (!S.c_open) return; S.c_open = false; m_challenge(r, nullptr, "challenge of c"); info().rc = r; info().d_semi = S.delta; F x(1); for (auto &u : S.ru) x = x * (F(1) - u); for (auto &v : S.rv) x = x * (F(1) - v); info().Iuv = x; }
std::pair<VE, VE> zk_prover::prove_R(std::vector<mpz_class> R, mpz_class &ans) {
  auto keep = S.undo; S.undo.clear(); vf::count(8);
  c_challenge(ofZ(R.back()));
  int k = S.nR++; if (S.again_R) real_zk_prover::prove_R(R, ans);
  auto r = real_zk_prover::prove_R(R, ans);
  Info &I = info(); (k == 0 ? I.r1 : I.r2) = ofZ(ans); if (FE *m = opt_preR(*this, 0)) for (int i = 0; i < 6; i++) I.R[i] = toF(m[i]);
  if (S.a.on && semi_lie() && (S.a.lie == L_R1 ? k == 0 : S.a.lie == L_R2 && k == 1)) { F c = (k == 0 ? I.alpha * I.Z0 : I.beta * I.Z1) * I.Iuv; if (!c.zero()) ans = toZ(ofZ(ans) + S.delta / c); }
  say_all(K_R_WIT, r.first, k * 10); say_all(K_R_WIT, r.second, k * 10 + 5); say(K_R_ANS, k, 0, ans);
  S.undo = keep; return r;
}
std::pair<VE, VE> zk_prover::prove_mask(std::vector<mpz_class> R, mpz_class &ans) {
  enter(); c_challenge(ofZ(R.back())); if (S.again_M) real_zk_prover::prove_mask(R, ans);
  auto r = real_zk_prover::prove_mask(R, ans); Info &I = info();
  if (S.a.on) {
    S.chk++; S.before.push_back(S.delta);
    if (semi_lie() && S.active) {
      F w = I.alpha * I.Z0 * I.r1 + I.beta * I.Z1 * I.r2;
      if (S.a.lie == L_MASK) ans = toZ(ofZ(ans) + S.delta / I.rho);
      if (S.a.lie == L_IUV && !w.zero()) lie_to(opt_Iuv(*this, 0), I.Iuv + S.delta / w);
      if (S.a.lie == L_PREZU && !(I.alpha * I.Iuv * I.r1).zero()) lie_to(opt_preZu(*this, 0), I.Z0 + S.delta / (I.alpha * I.Iuv * I.r1));
      if (S.a.lie == L_PREZV && !(I.beta * I.Iuv * I.r2).zero()) lie_to(opt_preZv(*this, 0), I.Z1 + S.delta / (I.beta * I.Iuv * I.r2));
      S.failing = S.delta; S.active = false; S.delta = F(0);
    } else if (S.active && !S.delta.zero()) { S.failing = S.delta; S.active = false; }
  }
  say_all(K_M_WIT, r.first); say_all(K_M_WIT, r.second, 50); say(K_M_ANS, 0, 0, ans); return r;
}
std::pair<VE, VE> zk_prover::prove_input(std::vector<mpz_class> R, mpz_class &ans, mpz_class Z) {
  enter(); auto r = real_zk_prover::prove_input(R, ans, Z);
  if (S.a.on && !S.du.zero()) { S.failing = S.du; if (S.active) S.reached_final = true; if (S.a.lie == L_IN) ans = toZ(ofZ(ans) + S.du); }
  say_all(K_IN_WIT, r.first); say_all(K_IN_WIT, r.second, 50); say(K_IN_ANS, 0, 0, ans); return r;
}
namespace hx {
static int cfd = -1, mfd = -1, ofd = -1; static char cpath[64], mpath[64], opath[64];
static void *pmem, *vmem; static zk_prover *gp; static zk_verifier *gv;
static void init_all() {
  ref::init(); prime_field::init(P_DEC, 10);
  pmem = mmap(0, sizeof(zk_prover), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); vmem = calloc(1, sizeof(zk_verifier));
  auto mk = [](int &fd, char *path, const char *n) { fd = (int)syscall(SYS_memfd_create, n, 0); sprintf(path, "/proc/self/fd/%d", fd); };
  mk(cfd, cpath, "circuit"); mk(mfd, mpath, "meta"); mk(ofd, opath, "result");
  if (vf::g_only_index < 0) { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); static char b1[1 << 16], b2[1 << 16]; setvbuf(stderr, b1, _IOFBF, sizeof b1); setvbuf(stdout, b2, _IOFBF, sizeof b2); }
}
static void put(int fd, const std::string &s) { if (ftruncate(fd, 0) || pwrite(fd, s.data(), s.size(), 0) != (ssize_t)s.size()) abort(); }
struct Pt { Circ c; std::vector<Meta> meta; Tape t; };
static std::string mtext(const Pt &p) { std::string s; for (size_t i = 0; i < p.c.size(); i++) { Meta m = i < p.meta.size() ? p.meta[i] : Meta(); s += vf::fmt("%d %d %d %d %d\n", m.para, m.bs, m.rep, m.lbs, m.lrep); } return s; }
static void setup(const Pt &p) { S = Sess(); S.c = p.c; tape = p.t; draws = gdraws = nchal = 0; gstate.clear(); put(cfd, ref::text(p.c)); put(mfd, mtext(p)); }
static bool built = false;
static void fresh() {                              // the program's objects have static storage: zeroed, then constructed
  if (built) { gp->~zk_prover(); gv->~zk_verifier(); }
  memset(pmem, 0, sizeof(zk_prover)); memset(vmem, 0, sizeof(zk_verifier)); asm volatile("" ::"r"(pmem), "r"(vmem) : "memory");
  gp = new (pmem) zk_prover; gv = new (vmem) zk_verifier; built = true;
}
static std::vector<F> ref_out() { return ref::eval(S.c).back(); }
static void (*before_run)() = nullptr; static std::vector<Pert> *cur_pert = nullptr; static bool again_R = false, again_M = false; static bool fix_c = false; static F csum;
static bool run(const Pt &p, const Adv &a) {
  setup(p); S.a = a; if (cur_pert) S.pert = *cur_pert; S.again_R = again_R; S.again_M = again_M; S.fix_c = fix_c; S.csum = csum;
  fresh(); ar_reset(true);
  gp->total_time = 0; gv->get_prover(gp); gv->read_circuit(cpath, mpath); gp->get_circuit(gv->C);
  bool ok = gv->verify(opath);
  vf::count(1); ar_on = false;
  return ok;
}
static bool cheat(const Pt &p, Adv &a) {
  bool acc = false;
  for (int i = 0; i < (int)p.c.size() + 3; i++) { acc = run(p, a); if (acc || !S.learned) break; a.vu_commit = S.a.vu_commit; }
  return acc;
}
static std::string ctext(const Pt &p) {
  std::string s = ref::text(p.c) + "/ " + mtext(p); for (char &ch : s) if (ch == '\n') ch = ';';
  s += vf::fmt(" tape=%llu%s", (unsigned long long)p.t.id, p.t.fixed ? "f" : ""); for (auto &f : p.t.force) s += vf::fmt(" c%d=%d", f.first, f.second);
  if (s.size() > 900) s = s.substr(0, 900) + "...";
  return s;
}
static const std::vector<int> TYPES = {ref::ADD, ref::MUL, ref::DUMMY, ref::SUM, ref::NOT, ref::MINUS, ref::XOR, ref::NAAB, ref::RELAY, ref::EXPSUM, ref::BITTEST};
static const int SUM_MIN = 1;
#include "circuits.h"
#include "zk_groups.h"
#include "vpd_groups.h"
#include "tr_groups.h"
} // namespace hx
int main(int argc, char **argv) {
  return vf::main_(argc, argv, {"points_checked", "protocol_runs", "cheats_rejected", "cheat_chains_to_final_check", "honest_accepted", "challenges_checked", "outputs_compared", "skipped_vacuous", "messages", "openings_checked", "coins_moved", "program_runs"}, init_all);
}
