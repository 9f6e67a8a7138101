// Harness for the SHA-256 benchmark: the constraint program and the Merkle data layer written by
// bin/sha256gen_merkle.py and tests/SHA256/sha256gen.py (run by jython, as the repository's tests do).
// The program is the verifier's check of a computation trace; the oracle is SHA-256 written from the
// standard, and the adversary is a prover that departs from the computation at one place.
#include <bits/stdc++.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <thread>
#include "vf.h"
#include "ref.h"

namespace hx {
using ref::F; using std::string; using std::vector;
typedef uint64_t u64; typedef uint32_t u32;
static string base, repo;
enum { C_POINTS, C_EVALS, C_TESTS, C_LINES, C_RUNS, C_REJ, C_ACC };

// ---------------------------------------------------------------- SHA-256 from the standard
static u32 KS[64], HS[8];
static u32 rr(u32 x, int n) { return x >> n | x << (32 - n); }
static u32 S0(u32 x) { return rr(x, 2) ^ rr(x, 13) ^ rr(x, 22); }
static u32 S1(u32 x) { return rr(x, 6) ^ rr(x, 11) ^ rr(x, 25); }
static u32 s0(u32 x) { return rr(x, 7) ^ rr(x, 18) ^ (x >> 3); }
static u32 s1(u32 x) { return rr(x, 17) ^ rr(x, 19) ^ (x >> 10); }
static u32 ch(u32 e, u32 f, u32 g) { return (e & f) ^ (~e & g); }
static u32 maj(u32 a, u32 b, u32 c) { return (a & b) ^ (a & c) ^ (b & c); }
static void constants() {                                      // fractional parts of square and cube roots of the primes
  int n = 0; for (int p = 2; n < 64; p++) { bool pr = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (!pr) continue;
    mpz_t z, r; mpz_init(z); mpz_init(r); mpz_set_ui(z, p); mpz_mul_2exp(z, z, 96); mpz_root(r, z, 3); KS[n] = (u32)mpz_get_ui(r);
    if (n < 8) { mpz_set_ui(z, p); mpz_mul_2exp(z, z, 64); mpz_root(r, z, 2); HS[n] = (u32)mpz_get_ui(r); }
    mpz_clear(z); mpz_clear(r); n++; }
}
static void digest(const u32 *m, const u32 *H, const u32 *K, u32 *out) {
  u32 w[64]; for (int i = 0; i < 64; i++) w[i] = i < 16 ? m[i] : s1(w[i - 2]) + w[i - 7] + s0(w[i - 15]) + w[i - 16];
  u32 v[8]; memcpy(v, H, 32);
  for (int r = 0; r < 64; r++) { u32 t1 = v[7] + S1(v[4]) + ch(v[4], v[5], v[6]) + K[r] + w[r], t2 = S0(v[0]) + maj(v[0], v[1], v[2]); for (int i = 7; i > 0; i--) v[i] = v[i - 1]; v[0] = t1 + t2; v[4] += t1; }
  for (int i = 0; i < 8; i++) out[i] = v[i] + H[i];
}

// ---------------------------------------------------------------- the trace and its layout
enum { P_W = 34, P_WB = P_W + 64, P_WB16 = P_WB + 15 * 32, P_K = P_WB16 + 48 * 34, P_H = P_K + 64, P_HO = P_H + 8, P_HB = P_HO + 8, P_INIT = P_HB + 8 * 33, P_A = P_INIT + 192, P_E = P_A + 64 * 35, NIN = P_E + 64 * 35 };
static int wbpos(int i) { return i < 16 ? P_WB + 32 * (i - 1) : P_WB16 + 34 * (i - 16); }
static int wbits(int i) { return i < 16 ? 32 : 34; }
enum Kind { NONE, WB, WBF, WF, INIT, HF, AO, EO, HB, HBF, HO, KINDS };
static const char *kname[] = {"nothing", "bits of message word", "message word and its bits", "message word (field)", "initial working variable", "chaining value (field)", "a after round", "e after round", "bits of digest word", "digest word and its bits", "digest word (field)"};
struct Dev { int kind = NONE, i = 0, j = 0; };                 // bit j of object i is wrong; everything after it is computed honestly
struct Trace { vector<F> in; u32 out[8]; };
static Trace trace(const u32 *m, const u32 *H, const u32 *K, const Dev &d = Dev()) {
  Trace t; t.in.assign(NIN, F(0)); auto &x = t.in;
  for (int i = 1; i < 34; i++) x[i] = F((long long)1 << (i + 1));
  auto put = [&](int pos, int n, u64 v) { for (int k = 0; k < n; k++) x[pos + k] = F((long long)(v >> k & 1)); };
  auto dev = [&](int kind, int i, u64 v) { return d.kind == kind && d.i == i ? v ^ ((u64)1 << d.j) : v; };
  u64 wf[64], wb[64];
  for (int i = 0; i < 64; i++) {
    u64 s = i < 16 ? m[i] : (u64)s1((u32)wb[i - 2]) + wf[i - 7] + s0((u32)wb[i - 15]) + wf[i - 16];
    if (i >= 16) s &= ((u64)1 << 34) - 1;                      // a wrong field element may not fit
    wb[i] = dev(WBF, i, dev(WB, i, s)); wf[i] = dev(WF, i, d.kind == WBF ? (u32)wb[i] : (u32)s);
    x[P_W + i] = F((long long)wf[i]); if (i) put(wbpos(i), wbits(i), wb[i]);
  }
  u64 h[8]; for (int i = 0; i < 8; i++) { h[i] = dev(HF, i, H[i]); x[P_H + i] = F((long long)h[i]); }
  for (int i = 0; i < 64; i++) x[P_K + i] = F((long long)K[i]);
  u64 v[8]; for (int i = 0; i < 8; i++) { v[i] = i == 3 || i == 7 ? h[i] : dev(INIT, i, H[i]); if (i != 3 && i != 7) put(P_INIT + 32 * (i < 3 ? i : i - 1), 32, v[i]); }
  for (int r = 0; r < 64; r++) {
    u64 t1 = v[7] + S1((u32)v[4]) + ch((u32)v[4], (u32)v[5], (u32)v[6]) + K[r] + wf[r], t2 = (u64)S0((u32)v[0]) + maj((u32)v[0], (u32)v[1], (u32)v[2]);
    u64 e = (t1 + v[3]) & (((u64)1 << 35) - 1), a = (t1 + t2) & (((u64)1 << 35) - 1);
    a = dev(AO, r, a); e = dev(EO, r, e); put(P_A + 35 * r, 35, a); put(P_E + 35 * r, 35, e);
    for (int i = 7; i > 0; i--) v[i] = v[i - 1];
    v[0] = (u32)a; v[4] = (u32)e;
  }
  for (int i = 0; i < 8; i++) { u64 s = (v[i] + h[i]) & (((u64)1 << 33) - 1), b = dev(HBF, i, dev(HB, i, s)), o = dev(HO, i, d.kind == HBF ? (u32)b : (u32)s); put(P_HB + 33 * i, 33, b); x[P_HO + i] = F((long long)o); t.out[i] = (u32)o; }
  return t;
}
static vector<Dev> deviations() {
  vector<Dev> r; auto add = [&](int k, int i, int n, int from = 0) { for (int j = from; j < n; j++) { Dev d; d.kind = k; d.i = i; d.j = j; r.push_back(d); } };
  for (int i = 1; i < 64; i++) { add(WB, i, wbits(i)); if (i >= 16) add(WBF, i, 32); add(WF, i, 36); }
  for (int i = 0; i < 8; i++) { if (i != 3 && i != 7) { add(INIT, i, 32); add(HF, i, 36); } add(HB, i, 33); add(HBF, i, 32); add(HO, i, 36); }
  for (int i = 0; i < 64; i++) { add(AO, i, 35); add(EO, i, 35); }
  return r;
}

// ---------------------------------------------------------------- the program
enum { O_ADD, O_MUL, O_MINUS, O_XOR, O_NAAB, O_NOT, O_WSUM, O_BIT };
struct Op { int op, a, b; };
struct Prog { string name; vector<int> inv; vector<Op> ops; int first = 0; vector<int> outs; string why; };   // inv[k]: slot of input k; slot first+i: result of ops[i]
static string slurp(const string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static Prog read_prog(const string &file) {
  Prog p; std::ifstream in(file); string l; std::unordered_map<long long, int> slot; std::map<long long, int> inmap; vector<std::pair<long long, int>> outs;
  auto bad = [&](const string &w) { if (p.why.empty()) p.why = w; };
  vector<std::array<long long, 3>> raw; vector<long long> tgt; int nin = 0; long n = 0;
  while (std::getline(in, l)) {
    n++; char a[64], b[64], c[64], op[64], e[64]; char t[64];
    int k = sscanf(l.c_str(), "P %63s = %63s %63s %63s %63s", t, a, op, b, e);
    if (k == 3 && !strcmp(op, "E") && t[0] == 'V' && a[0] == 'I') { long long v = atoll(t + 1), i = atoll(a + 1); if (raw.size()) bad("an input is defined after a gate"); if (slot.count(v)) bad("line " + l + ": defined twice"); slot[v] = nin; if (inmap.count(i)) bad("line " + l + ": input used twice"); inmap[i] = nin++; continue; }
    if (k == 3 && !strcmp(op, "E") && t[0] == 'O' && a[0] == 'V') { long long v = atoll(a + 1); if (!slot.count(v)) { bad("line " + l + ": undefined"); continue; } outs.push_back({atoll(t + 1), slot[v]}); continue; }
    if (k != 5 || strcmp(e, "E") || t[0] != 'V' || a[0] != 'V' || b[0] != 'V') { bad("line not understood: " + l); continue; }
    static const std::map<string, int> names = {{"+", O_ADD}, {"*", O_MUL}, {"minus", O_MINUS}, {"XOR", O_XOR}, {"NAAB", O_NAAB}, {"NOT", O_NOT}, {"SS", O_WSUM}, {"EXPSUM", O_WSUM}, {"BIT", O_BIT}};
    auto it = names.find(op); long long v = atoll(t + 1), x = atoll(a + 1), y = atoll(b + 1);
    if (it == names.end() || !slot.count(x) || !slot.count(y)) { bad("line not understood: " + l); continue; }
    if (slot.count(v)) bad("line " + l + ": defined twice");
    // a weighted sum runs over the variables x..y, which have to be consecutive results
    if (it->second == O_WSUM) for (long long q = x; q <= y; q++) if (!slot.count(q) || slot[q] != slot[x] + (q - x)) { bad("line " + l + ": the summed variables are not consecutive"); break; }
    slot[v] = nin + (int)p.ops.size(); p.ops.push_back({it->second, slot[x], slot[y]}); raw.push_back({});
  }
  p.first = nin; p.inv.assign(nin, -1);
  for (auto &k : inmap) if (k.first < 0 || k.first >= nin) bad("the inputs are not numbered from 0"); else p.inv[k.first] = k.second;
  std::sort(outs.begin(), outs.end()); for (size_t i = 0; i < outs.size(); i++) { if (i && outs[i].first == outs[i - 1].first) bad("an output is defined twice"); p.outs.push_back(outs[i].second); }
  if (nin != NIN) bad(vf::fmt("%d inputs, expected %d", nin, (int)NIN));
  if (outs.empty()) bad("no outputs");
  return p;
}
// Values: 64-bit integers while they fit, the field otherwise
static bool eval_int(const Prog &p, const vector<long long> &in, vector<long long> &v) {
  v.resize(p.first + p.ops.size()); for (int k = 0; k < p.first; k++) v[p.inv[k]] = in[k];
  long long *o = v.data() + p.first; bool ov = false;
  for (auto &g : p.ops) {
    long long a = v[g.a], b = v[g.b], r = 0, t = 0;
    switch (g.op) {
      case O_ADD: ov |= __builtin_add_overflow(a, b, &r); break;
      case O_MUL: ov |= __builtin_mul_overflow(a, b, &r); break;
      case O_MINUS: ov |= __builtin_sub_overflow(a, b, &r); break;
      case O_XOR: ov |= __builtin_mul_overflow(a, b, &t); ov |= __builtin_mul_overflow(t, 2LL, &t); ov |= __builtin_add_overflow(a, b, &r); ov |= __builtin_sub_overflow(r, t, &r); break;
      case O_NAAB: ov |= __builtin_sub_overflow(1LL, a, &r); ov |= __builtin_mul_overflow(r, b, &r); break;
      case O_NOT: ov |= __builtin_sub_overflow(1LL, a, &r); break;
      case O_BIT: ov |= __builtin_sub_overflow(1LL, a, &r); ov |= __builtin_mul_overflow(r, a, &r); break;
      case O_WSUM: for (int k = g.b; k >= g.a; k--) { ov |= __builtin_mul_overflow(r, 2LL, &r); ov |= __builtin_add_overflow(r, v[k], &r); } break;
    }
    if (ov) return false;
    *o++ = r;
  }
  return true;
}
static void eval_f(const Prog &p, const vector<F> &in, vector<F> &v) {
  v.assign(p.first + p.ops.size(), F(0)); for (int k = 0; k < p.first; k++) v[p.inv[k]] = in[k];
  size_t o = p.first;
  for (auto &g : p.ops) {
    F a = v[g.a], b = v[g.b], r;
    switch (g.op) {
      case O_ADD: r = a + b; break; case O_MUL: r = a * b; break; case O_MINUS: r = a - b; break; case O_XOR: r = a + b - F(2) * a * b; break;
      case O_NAAB: r = (F(1) - a) * b; break; case O_NOT: r = F(1) - a; break; case O_BIT: r = (F(1) - a) * a; break;
      case O_WSUM: for (int k = g.b; k >= g.a; k--) r = r + r + v[k]; break;
    }
    v[o++] = r;
  }
}
// the number of outputs that are not zero, and the first of them
static int nonzero(const Prog &p, const vector<F> &in, int *first = nullptr) {
  vf::count(C_EVALS); vf::count(C_TESTS, p.outs.size()); int n = 0;
  vector<long long> li(NIN), lv; bool fit = true; for (int k = 0; k < NIN && fit; k++) { if (in[k].l[1] | in[k].l[2] | in[k].l[3] | in[k].l[0] >> 62) fit = false; li[k] = (long long)in[k].l[0]; }
  if (fit && eval_int(p, li, lv)) { for (size_t i = 0; i < p.outs.size(); i++) if (lv[p.outs[i]]) { if (!n++ && first) *first = (int)i; } return n; }
  vector<F> v; eval_f(p, in, v); for (size_t i = 0; i < p.outs.size(); i++) if (!v[p.outs[i]].zero()) { if (!n++ && first) *first = (int)i; }
  return n;
}

// ---------------------------------------------------------------- the data layer
struct Rdl { string why; vector<long long> val; vector<int> cls; vector<int> block; int ninp = 0; int nblocks = 0; vector<string> lines; vector<int> src; };
// src[pos]: >= 0 the input read at this position, < 0: -1-index into konst
struct Data { string why; vector<long long> konst; vector<long long> src; long long ninputs = 0; };
static Data read_rdl(const string &file) {
  Data d; std::ifstream in(file); string l; std::unordered_map<long long, long long> def; vector<std::pair<long long, long long>> outs; std::set<long long> used;
  auto bad = [&](const string &w) { if (d.why.empty()) d.why = w; };
  bool passes = false;
  while (std::getline(in, l)) {
    char t[64], a[64], op[64], b[64], e[64]; int k = sscanf(l.c_str(), "P %63s = %63s %63s %63s %63s", t, a, op, b, e); long long v = k > 0 ? atoll(t + 1) : 0;
    if (k == 3 && t[0] == 'V' && a[0] == 'I') { if (passes || def.count(v)) bad("line " + l); long long i = atoll(a + 1); if (!used.insert(i).second) bad("line " + l + ": input used twice"); def[v] = i; d.ninputs++; }
    else if (k == 3 && t[0] == 'V' && (isdigit(a[0]) || a[0] == '-')) { if (passes || def.count(v)) bad("line " + l); d.konst.push_back(atoll(a)); def[v] = -(long long)d.konst.size(); }
    else if (k == 3 && t[0] == 'O' && a[0] == 'V') { long long x = atoll(a + 1); if (!def.count(x)) bad("line " + l); else outs.push_back({v, def[x]}); }
    else if (k == 5 && t[0] == 'V' && a[0] == 'V' && !strcmp(op, "PASS") && !strcmp(a, b)) { passes = true; long long x = atoll(a + 1); if (def.count(v) || !def.count(x)) bad("line " + l); else def[v] = def[x]; }
    else bad("line not understood: " + l);
    vf::count(C_LINES);
  }
  std::sort(outs.begin(), outs.end()); for (size_t i = 0; i < outs.size(); i++) { if (i && outs[i].first == outs[i - 1].first) bad("an output is defined twice"); d.src.push_back(outs[i].second); }
  return d;
}

// ---------------------------------------------------------------- running the generators
struct Gen { const char *script; int m; bool pad; string dir; int status = -1; };
static vector<Gen> gens; static string jlog;
static int spawn(const string &dir, const vector<string> &a) {
  pid_t p = fork();
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(dir.c_str())) _exit(98); if (!freopen("log", "w", stdout) || dup2(1, 2) < 0) _exit(97); vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(nullptr); execv(av[0], av.data()); _exit(96); }
  return p;
}
static void generate(bool thorough) {
  const char *scripts[2] = {"bin/sha256gen_merkle.py", "tests/SHA256/sha256gen.py"};
  for (auto s : scripts) for (int m = thorough ? 6 : 5; m >= 1; m--) for (int pad = 1; pad >= 0; pad--) { if (!thorough && m == 5 && pad) continue; Gen g; g.script = s; g.m = m; g.pad = pad; g.dir = base + vf::fmt("/g%d", (int)gens.size()); mkdir(g.dir.c_str(), 0700); gens.push_back(g); }
  size_t next = 0, live = 0; std::map<pid_t, size_t> at;
  while (next < gens.size() || live) {
    if (next < gens.size() && live < 8) { auto &g = gens[next]; vector<string> a = {"/usr/bin/jython", "-Dpython.cachedir.skip=true", repo + "/" + g.script, "-R"}; if (!g.pad) a.push_back("-P"); a.push_back("-m"); a.push_back(std::to_string(g.m)); at[spawn(g.dir, a)] = next++; live++; continue; }
    int st; pid_t p = wait(&st); if (at.count(p)) { gens[at[p]].status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); live--; }
  }
}
static vector<Prog> progs;                                       // one per generator script
static void init() {
  ref::init(); constants();
  u32 m[16] = {0x61626380u}; m[15] = 24; u32 o[8]; digest(m, HS, KS, o); if (o[0] != 0xba7816bfu || o[7] != 0xf20015adu) abort();
  for (auto &g : gens) if (g.m == 1 && !g.pad) { progs.push_back(read_prog(g.dir + "/SHA256_64.pws")); progs.back().name = g.script; }
  if (chdir(base.c_str())) abort();
}
static void usable(const Prog &p) { for (auto &g : gens) if (p.name == g.script && g.status) vf::fail(vf::fmt("the generator ended with %d: ", g.status) + slurp(g.dir + "/log").substr(0, 500)); if (!p.why.empty()) vf::fail("the program is not well formed: " + p.why); }

struct Case { string name; u32 m[16], H[8], K[64]; };
static Case kase(const string &n, std::function<u32(int)> m, std::function<u32(int)> H = nullptr, std::function<u32(int)> K = nullptr) { Case c; c.name = n; for (int i = 0; i < 16; i++) c.m[i] = m(i); for (int i = 0; i < 8; i++) c.H[i] = H ? H(i) : HS[i]; for (int i = 0; i < 64; i++) c.K[i] = K ? K(i) : KS[i]; return c; }
static vector<Case> cases(bool all) {
  vector<Case> r; auto rnd = [](int s) { return [s](int i) { return (u32)ref::mix(s * 1000 + i); }; };
  r.push_back(kase("pseudorandom message", rnd(1)));
  r.push_back(kase("all words 2^32-1, chaining value and round constants too", [](int) { return ~0u; }, [](int) { return ~0u; }, [](int) { return ~0u; }));
  r.push_back(kase("all words 0", [](int) { return 0u; }));
  r.push_back(kase("pseudorandom chaining value", rnd(2), rnd(3)));
  if (!all) return r;
  for (u32 w : {0u, ~0u, 0x80000000u, 0x7fffffffu, 1u, 0xfffffffeu, 0xaaaaaaaau, 0x55555555u}) for (u32 h : {0u, ~0u, 0x80000000u, 0x7fffffffu}) for (u32 k : {0u, ~0u, 0x12345678u}) r.push_back(kase(vf::fmt("words %08x, chaining value %08x, round constants %08x", w, h, k), [=](int) { return w; }, [=](int) { return h; }, [=](int i) { return k == 0x12345678u ? KS[i] : k; }));
  for (int i = 0; i < 512; i++) r.push_back(kase(vf::fmt("only bit %d of word %d", i % 32, i / 32), [=](int w) { return w == i / 32 ? 1u << i % 32 : 0u; }));
  for (int i = 0; i < 512; i++) r.push_back(kase(vf::fmt("all but bit %d of word %d", i % 32, i / 32), [=](int w) { return w == i / 32 ? ~(1u << i % 32) : ~0u; }));
  for (int i = 0; i < 256; i++) for (int f = 0; f < 2; f++) r.push_back(kase(vf::fmt("chaining value with %s bit %d of word %d", f ? "all but" : "only", i % 32, i / 32), rnd(7), [=](int w) { u32 b = w == i / 32 ? 1u << i % 32 : 0u; return f ? ~b : b; }));
  for (int s = 0; s < (vf::thorough() ? 20000 : 500); s++) r.push_back(kase(vf::fmt("pseudorandom message %d", s), rnd(100 + s), s & 1 ? std::function<u32(int)>(rnd(50000 + s)) : nullptr, s & 2 ? std::function<u32(int)>(rnd(90000 + s)) : nullptr));
  return r;
}
} // namespace hx
#include "sha_groups.h"
int main(int argc, char **argv) {
  char t[] = "/tmp/libra-sha-XXXXXX"; if (!mkdtemp(t)) return 3; hx::base = t; const char *r = getenv("LIBRA_REPO"); hx::repo = r ? r : "/repo";
  bool th = false; for (int i = 1; i < argc; i++) if ((!strcmp(argv[i], "thorough") || !strcmp(argv[i], "deep"))) th = true;
  hx::generate(th);
  int rc = vf::main_(argc, argv, {"points_checked", "traces_evaluated", "constraints_evaluated", "data_lines_read", "tool_runs", "forgeries_rejected", "honest_accepted"}, hx::init);
  std::error_code ec; std::filesystem::remove_all(t, ec);
  return rc;
}
