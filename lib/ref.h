// Reference semantics, written independently of the code under test: arithmetic mod p on 4x64 limbs
// with GMP's mpn layer, multilinear extensions, layered circuits and their evaluation.
#pragma once
#include <gmp.h>
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
#include <cstdlib>

static const char *const P_DEC = "16798108731015832284940804142231733909759579603404752749028378864165570215949";

namespace ref {
static mp_limb_t P[4]; static mp_limb_t PM2[4]; static bool inited = false;
static void init() {
  if (inited) return; inited = true;
  mpz_t z; mpz_init_set_str(z, P_DEC, 10); memset(P, 0, sizeof P); size_t n; mpz_export(P, &n, -1, 8, 0, 0, z);
  mpz_sub_ui(z, z, 2); memset(PM2, 0, sizeof PM2); mpz_export(PM2, &n, -1, 8, 0, 0, z); mpz_clear(z);
}
struct F {
  mp_limb_t l[4];
  F() { memset(l, 0, sizeof l); }
  F(long long x) { memset(l, 0, sizeof l); if (x >= 0) l[0] = x; else { mp_limb_t b[4] = {(mp_limb_t)(-(unsigned long long)x), 0, 0, 0}; mpn_sub_n(l, P, b, 4); } }
  F(int x) : F((long long)x) {}
  bool operator==(const F &o) const { return !memcmp(l, o.l, 32); }
  bool operator!=(const F &o) const { return !(*this == o); }
  bool zero() const { return !(l[0] | l[1] | l[2] | l[3]); }
  F operator+(const F &o) const { F r; mp_limb_t c = mpn_add_n(r.l, l, o.l, 4); if (c || mpn_cmp(r.l, P, 4) >= 0) mpn_sub_n(r.l, r.l, P, 4); return r; }
  F operator-(const F &o) const { F r; if (mpn_sub_n(r.l, l, o.l, 4)) mpn_add_n(r.l, r.l, P, 4); return r; }
  F operator*(const F &o) const { mp_limb_t t[8], q[5]; F r; mpn_mul_n(t, l, o.l, 4); mpn_tdiv_qr(q, r.l, 0, t, 8, P, 4); return r; }
  F inv() const { F r(1), b = *this; for (int i = 0; i < 256; i++) { if (PM2[i / 64] >> (i % 64) & 1) r = r * b; b = b * b; } return r; }
  F operator/(const F &o) const { return *this * o.inv(); }
  F operator-() const { return F(0) - *this; }
  std::string str() const { mpz_t z; mpz_init(z); mpz_import(z, 4, -1, 8, 0, 0, l); char *s = mpz_get_str(0, 10, z); std::string r = s; free(s); mpz_clear(z); return r; }
  int bits() const { for (int i = 255; i >= 0; i--) if (l[i / 64] >> (i % 64) & 1) return i + 1; return 0; }
};
static F fromdec(const char *s) { mpz_t z, p; mpz_init_set_str(z, s, 10); mpz_init_set_str(p, P_DEC, 10); mpz_mod(z, z, p); F r; size_t n; mpz_export(r.l, &n, -1, 8, 0, 0, z); mpz_clear(z); mpz_clear(p); return r; }
static F pow2(int k) { F r(1), t(2); for (int i = 0; i < k; i++) r = r * t; return r; }

// eq(x, r) for all x in {0,1}^n, bit i of x paired with r[i]
static std::vector<F> eqtab(const std::vector<F> &r) {
  std::vector<F> t(1, F(1));
  for (size_t i = 0; i < r.size(); i++) { size_t n = t.size(); t.resize(2 * n); for (size_t j = 0; j < n; j++) { F x = t[j] * r[i]; t[j + n] = x; t[j] = t[j] - x; } }
  return t;
}
static F mle(const std::vector<F> &v, const std::vector<F> &r) { auto e = eqtab(r); F s; for (size_t i = 0; i < v.size() && i < e.size(); i++) s = s + v[i] * e[i]; return s; }
static F eqpt(const std::vector<F> &a, const std::vector<F> &b) { F r(1); for (size_t i = 0; i < a.size(); i++) r = r * (a[i] * b[i] + (F(1) - a[i]) * (F(1) - b[i])); return r; }

enum { ADD = 0, MUL = 1, DUMMY = 2, INPUT = 3, SUM = 5, NOT = 6, MINUS = 7, XOR = 8, NAAB = 9, RELAY = 10, EXPSUM = 12, BITTEST = 13 };
struct Gate { int ty; long long u, v; };
typedef std::vector<Gate> Layer;
typedef std::vector<Layer> Circ;                       // Circ[0] is the input layer

static std::string text(const Circ &c) {
  std::string s = std::to_string(c.size()) + "\n";
  for (auto &L : c) { s += std::to_string(L.size()); for (size_t g = 0; g < L.size(); g++) s += " " + std::to_string(L[g].ty) + " " + std::to_string(g) + " " + std::to_string(L[g].u) + " " + std::to_string(L[g].v); s += "\n"; }
  return s;
}
static int width(const Layer &L) { return L.size() == 1 ? 2 : (int)L.size(); }   // a one-gate layer is padded with a zero
static int bits(const Layer &L) { int b = 0; while ((1 << b) < width(L)) b++; return b; }

// value of every gate of every layer, straight from the meaning of the gates
static std::vector<std::vector<F>> eval(const Circ &c) {
  std::vector<std::vector<F>> w(c.size());
  for (size_t i = 0; i < c.size(); i++) {
    w[i].assign(width(c[i]), F(0));
    for (size_t g = 0; g < c[i].size(); g++) {
      const Gate &G = c[i][g]; F r;
      if (i == 0) { r = G.ty == INPUT ? F(G.u) : F(0); w[i][g] = r; continue; }
      auto &x = w[i - 1];
      switch (G.ty) {
        case ADD: r = x[G.u] + x[G.v]; break;
        case MUL: r = x[G.u] * x[G.v]; break;
        case DUMMY: r = F(0); break;
        case SUM: for (long long k = G.u; k < G.v; k++) r = r + x[k]; break;
        case NOT: r = F(1) - x[G.u]; break;
        case MINUS: r = x[G.u] - x[G.v]; break;
        case XOR: r = x[G.u] + x[G.v] - F(2) * x[G.u] * x[G.v]; break;
        case NAAB: r = (F(1) - x[G.u]) * x[G.v]; break;
        case RELAY: r = x[G.u]; break;
        case EXPSUM: { F w2(1); for (long long k = G.u; k <= G.v; k++) { r = r + w2 * x[k]; w2 = w2 + w2; } break; }
        case BITTEST: r = x[G.u] * (F(1) - x[G.u]); break;
        default: abort();
      }
      w[i][g] = r;
    }
  }
  return w;
}
// the layer relation at a point: A + B*vu + C*vv + D*vu*vv
struct Pred { F A, B, C, D; F at(const F &x, const F &y) const { return A + B * x + C * y + D * x * y; } };
static Pred pred(const Layer &L, const std::vector<F> &eg, const std::vector<F> &eu, const std::vector<F> &ev) {
  Pred p;
  for (size_t g = 0; g < L.size(); g++) {
    const Gate &G = L[g]; const F &e = eg[g];
    switch (G.ty) {
      case ADD: { F k = e * eu[G.u] * ev[G.v]; p.B = p.B + k; p.C = p.C + k; break; }
      case MUL: { F k = e * eu[G.u] * ev[G.v]; p.D = p.D + k; break; }
      case DUMMY: break;
      case SUM: { F s; for (long long j = G.u; j < G.v; j++) s = s + eu[j]; p.B = p.B + e * s * ev[0]; break; }
      case NOT: { F k = e * eu[G.u] * ev[0]; p.A = p.A + k; p.B = p.B - k; break; }
      case MINUS: { F k = e * eu[G.u] * ev[G.v]; p.B = p.B + k; p.C = p.C - k; break; }
      case XOR: { F k = e * eu[G.u] * ev[G.v]; p.B = p.B + k; p.C = p.C + k; p.D = p.D - k - k; break; }
      case NAAB: { F k = e * eu[G.u] * ev[G.v]; p.C = p.C + k; p.D = p.D - k; break; }
      case RELAY: { F k = e * eu[G.u] * ev[0]; p.B = p.B + k; break; }
      case EXPSUM: { F s, w2(1); for (long long j = G.u; j <= G.v; j++) { s = s + w2 * eu[j]; w2 = w2 + w2; } p.B = p.B + e * s * ev[0]; break; }
      case BITTEST: { F k = e * eu[G.u] * ev[G.v]; p.B = p.B + k; p.D = p.D - k; break; }
      default: abort();
    }
  }
  return p;
}
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
} // namespace ref
