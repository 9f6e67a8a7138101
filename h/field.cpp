// F01 / F02: the real field and polynomial code, driven through every operand tuple and every
// operation sequence of bounded spaces, in lock-step with arithmetic mod p done by GMP.
#include "vf.h"
#include "ref.h"
#include "linear_gkr/prime_field.h"
#include "linear_gkr/polynomial.h"
#include <algorithm>
#include <string>
using ref::F;
typedef prime_field::field_element FE;
typedef prime_field::u512b U;
enum { C_OPS, C_STATES, C_RED, C_CONV, C_POLY, C_RAND };

// ---- a rand() owned by the harness, so that the draws of random() can be enumerated
static int g_draw[64]; static int g_ndraw = 0, g_used = 0;
extern "C" int rand() { int v = g_ndraw ? g_draw[g_used % g_ndraw] : 0; g_used++; return v; }
extern "C" void srand(unsigned) {}

static FE fe(const F &x) { FE r; r.value.lo = ((__uint128_t)x.l[1] << 64) | x.l[0]; r.value.mid = ((__uint128_t)x.l[3] << 64) | x.l[2]; r.value.hi.lo = r.value.hi.mid = 0; r.value.hi.hi = 0; return r; }
struct W { mp_limb_t l[8]; bool operator==(const W &o) const { return !memcmp(l, o.l, 64); } bool operator<(const W &o) const { return mpn_cmp(l, o.l, 8) < 0; } };
static W words(const U &v) { W w; w.l[0] = (uint64_t)v.lo; w.l[1] = (uint64_t)(v.lo >> 64); w.l[2] = (uint64_t)v.mid; w.l[3] = (uint64_t)(v.mid >> 64); w.l[4] = v.hi.lo; w.l[5] = v.hi.mid; w.l[6] = (uint64_t)v.hi.hi; w.l[7] = (uint64_t)(v.hi.hi >> 64); return w; }
static U unwords(const W &w) { U v; v.lo = ((__uint128_t)w.l[1] << 64) | w.l[0]; v.mid = ((__uint128_t)w.l[3] << 64) | w.l[2]; v.hi.lo = w.l[4]; v.hi.mid = w.l[5]; v.hi.hi = ((__uint128_t)w.l[7] << 64) | w.l[6]; return v; }
static W wide(const F &x) { W w; memset(&w, 0, sizeof w); memcpy(w.l, x.l, 32); return w; }
static W wadd(const W &a, const W &b) { W r; mpn_add_n(r.l, a.l, b.l, 8); return r; }
static W wsub(const W &a, const W &b) { W r; mpn_sub_n(r.l, a.l, b.l, 8); return r; }
static W wmul(const F &a, const F &b) { W r; mpn_mul_n(r.l, a.l, b.l, 4); return r; }
static F wmod(const W &a) { mp_limb_t q[5]; F r; mpn_tdiv_qr(q, r.l, 0, a.l, 8, ref::P, 4); return r; }
static std::string hex(const mp_limb_t *l, int n) { std::string s; for (int i = n - 1; i >= 0; i--) s += vf::fmt("%016llx", (unsigned long long)l[i]); return "0x" + s; }
static std::string hx(const F &x) { return hex(x.l, 4); }
static bool same(const FE &r, const F &x) { return words(r.value) == wide(x); }
static void expect(const FE &r, const F &x, const char *what) {
  vf::count(C_OPS);
  if (!same(r, x)) vf::fail(std::string(what) + " gives " + hex(words(r.value).l, 8) + " instead of " + hx(x));
}

static bool lessP(const F &x) { return mpn_cmp(x.l, ref::P, 4) < 0; }
static void uniq(std::vector<F> &v) {
  v.erase(std::remove_if(v.begin(), v.end(), [](const F &x) { return !lessP(x); }), v.end());
  std::sort(v.begin(), v.end(), [](const F &a, const F &b) { return mpn_cmp(a.l, b.l, 4) < 0; });
  v.erase(std::unique(v.begin(), v.end(), [](const F &a, const F &b) { return a == b; }), v.end());
}
// values next to a power of two, next to 0, next to p, and next to p/2
static std::vector<F> edges() {
  std::vector<F> v; F one(1);
  for (int k = 0; k <= 3; k++) { v.push_back(F(k)); v.push_back(F(0) - F(k)); }
  for (int k : {16, 31, 32, 33, 60, 62, 63, 64, 65, 95, 96, 124, 126, 127, 128, 129, 160, 188, 190, 191, 192, 193, 224, 250, 251, 252, 253}) { F t = ref::pow2(k); for (F x : {t, t - one, t + one, F(0) - t, F(0) - t - one, F(0) - t + one}) v.push_back(x); }
  F half = F(1) / F(2); v.push_back(half); v.push_back(half - one);
  uniq(v); return v;
}
// every combination of per-limb patterns
static std::vector<F> limbs(const std::vector<uint64_t> &lo, const std::vector<uint64_t> &top) {
  std::vector<F> v;
  for (auto a : lo) for (auto b : lo) for (auto c : lo) for (auto d : top) { F x; x.l[0] = a; x.l[1] = b; x.l[2] = c; x.l[3] = d; v.push_back(x); }
  uniq(v); return v;
}
static const uint64_t M = ~0ull;
static std::vector<F> small_alpha() {
  std::vector<F> v = {F(0), F(1), F(2), F(-1), F(-2), F(2147483647), ref::pow2(63), ref::pow2(64), ref::pow2(64) - F(1), ref::pow2(128), ref::pow2(128) - F(1), ref::pow2(192) - F(1), ref::pow2(253) - F(1), F(1) / F(2), ref::pow2(192), ref::pow2(127)};
  F x; x.l[0] = 0x0123456789abcdefull; x.l[1] = 0xfedcba9876543210ull; x.l[2] = 0xdeadbeefcafebabeull; x.l[3] = 0x1357913579135791ull; v.push_back(x); v.push_back(F(0) - x);
  uniq(v); return v;
}
static void all_ops(const F &a, const F &b) {
  FE x = fe(a), y = fe(b);
  expect(x + y, a + b, "a + b"); expect(x - y, a - b, "a - b"); expect(x * y, a * b, "a * b");
  if ((x == y) != (a == b)) vf::fail("a == b is wrong");
  if ((x != y) == (a == b)) vf::fail("a != b is wrong");
  if (!(words(x.mul_non_mod(y).value) == wmul(a, b))) vf::fail("the unreduced product is " + hex(words(x.mul_non_mod(y).value).l, 8) + " instead of " + hex(wmul(a, b).l, 8));
  if (!same(x, a) || !same(y, b)) vf::fail("an operation changed its operand");
  vf::count(C_STATES);
}
static void pairs(const std::vector<F> &A, const std::vector<F> &B) {
  for (auto &a : A) vf::visit([&] { return "a = " + hx(a) + " with every b of the alphabet"; }, [&] {
    for (auto &b : B) { try { all_ops(a, b); } catch (vf::Violation &v) { vf::fail("b = " + hx(b) + ": " + v.text); } } });
}
// Every pair of values next to a boundary.
VF_GROUP(field_pairs_edges, "qt") { auto A = edges(); pairs(A, A); }
// Every pair of values whose limbs are boundary patterns.
VF_GROUP(field_pairs_limbs, "qt") {
  auto A = limbs({0, 1, 1ull << 63, M}, {0, 1, 0x2523648240000000ull, 0x1000000000000000ull, 0x0fffffffffffffffull, M >> 3});
  pairs(A, A);
}
VF_GROUP(field_pairs_limbs_deep, "t") {
  auto A = limbs({0, 1, 0xffffffffull, 1ull << 32, 1ull << 63, M - 1, M}, {0, 1, 0xffffffffull, 1ull << 32, 0x1000000000000000ull, 0x0fffffffffffffffull, 0x2523648240000000ull});
  auto B = limbs({0, 1, 0xffffffffull, 1ull << 63, M - 1, M}, {0, 1, 1ull << 32, 0x1000000000000000ull, M >> 3});
  pairs(A, B);
}
// operands chosen backwards: every b for which the low limbs of a*b, or a*b mod p, are a boundary pattern
static F mulinv2(const F &a) { F x(1); for (int i = 0; i < 8; i++) { mp_limb_t t[8], u[8]; mpn_mul_n(t, a.l, x.l, 4); F two(2), d; mpn_sub_n(d.l, two.l, t, 4); mpn_mul_n(u, x.l, d.l, 4); memcpy(x.l, u, 32); } return x; }
static void preimages(const std::vector<F> &A, const std::vector<F> &T) {
  for (auto &a : A) { if (a.zero()) continue; vf::visit([&] { return "a = " + hx(a) + ", b chosen so that a*b hits every boundary pattern"; }, [&] {
    F ia = a.inv(); bool odd = a.l[0] & 1; F i2 = odd ? mulinv2(a) : F(0);
    for (auto &t : T) {
      F b = t * ia;
      try { all_ops(a, b); all_ops(b, a); } catch (vf::Violation &v) { vf::fail("b = " + hx(b) + ": " + v.text); }
      for (F s : {t - a, t + a, a - t}) { try { all_ops(a, s); all_ops(s, a); } catch (vf::Violation &v) { vf::fail("b = " + hx(s) + ": " + v.text); } }
      if (odd) { mp_limb_t u[8]; mpn_mul_n(u, t.l, i2.l, 4); F c; memcpy(c.l, u, 32);
        for (int bits : {64, 128, 192, 253}) { F d = c; for (int k = bits; k < 256; k++) d.l[k / 64] &= ~(1ull << (k % 64)); if (!lessP(d)) continue;
          try { all_ops(a, d); all_ops(d, a); } catch (vf::Violation &v) { vf::fail("b = " + hx(d) + ": " + v.text); } } }
    } }); }
}
VF_GROUP(field_preimages, "qt") { auto A = edges(); auto T = edges(); preimages(A, T); }
VF_GROUP(field_preimages_limbs, "t") { preimages(edges(), limbs({0, 1, 1ull << 63, M - 1, M}, {0, 1, 0x1000000000000000ull, 0x2523648240000000ull})); preimages(limbs({0, 1, M}, {0, 1, 0x2523648240000000ull}), edges()); }

// Every program x0 op x1 op x2 (op x3 ...) over the alphabet: results of operations feed operations.
static void programs(const std::vector<F> &A, int depth) {
  for (auto &x0 : A) for (auto &x1 : A) vf::visit([&] { return "programs of " + std::to_string(depth) + " operations starting from " + hx(x0) + ", " + hx(x1); }, [&] {
    struct R { static void go(const FE &x, const F &r, const F *prev, const std::vector<F> &A, const F *first, int d) {
      vf::count(C_STATES);
      if (!d) return;
      for (size_t i = 0; i < (first ? 1 : A.size()); i++) { const F &b = first ? *first : A[i]; FE y = fe(b);
        FE z; F q;
        z = x + y; q = r + b; expect(z, q, "+"); go(z, q, prev, A, nullptr, d - 1);
        z = x - y; q = r - b; expect(z, q, "-"); go(z, q, prev, A, nullptr, d - 1);
        z = y - x; q = b - r; expect(z, q, "reversed -"); go(z, q, prev, A, nullptr, d - 1);
        z = x * y; q = r * b; expect(z, q, "*"); go(z, q, prev, A, nullptr, d - 1); }
      FE s = x * x; expect(s, r * r, "square"); s = x + x; expect(s, r + r, "double"); s = x - x; expect(s, F(0), "x - x");
    } };
    R::go(fe(x0), x0, nullptr, A, &x1, depth); });
}
VF_GROUP(field_programs, "qt") { programs(small_alpha(), 2); }
VF_GROUP(field_programs_deep, "t") { programs(small_alpha(), 4); }

// One reduction of a delayed sum: every q*p + r below the 2^508 the reduction is specified for, and
// every sum of two products and two elements.
static void reduce(const W &w, const char *what) {
  F r = wmod(w); U v = unwords(w) % prime_field::mod; vf::count(C_RED); vf::count(C_STATES);
  if (!(words(v) == wide(r))) vf::fail(std::string(what) + ": " + hex(w.l, 8) + " reduces to " + hex(words(v).l, 8) + " instead of " + hx(r));
}
static const W &limit() { static W w; static bool b = false; if (!b) { b = true; memset(&w, 0, sizeof w); w.l[7] = 1ull << 60; } return w; }   // 2^508
VF_GROUP(reduce_quotients, "qt") {
  std::vector<F> Q = limbs({0, 1, 1ull << 63, M}, {0, 1, 0x1000000000000000ull, 0x2523648240000000ull});
  auto E = edges(); Q.insert(Q.end(), E.begin(), E.end());
  // quotients above p too, up to 2^508 / p
  for (int hi = 0; hi < 3; hi++) for (auto &e : E) { W s; memset(&s, 0, sizeof s); (void)s; F x = e; mp_limb_t p2[4]; memcpy(p2, ref::P, 32); for (int k = 0; k <= hi; k++) if (mpn_add_n(x.l, x.l, p2, 4)) goto next; Q.push_back(x); next:; }
  std::vector<F> Rr = {F(0), F(1), F(2), F(-1), F(-2), F(1) / F(2), ref::pow2(252), ref::pow2(128), ref::pow2(64) - F(1)};
  F p; memcpy(p.l, ref::P, 32);
  for (auto &q : Q) vf::visit([&] { return "reduction of q*p + r, q = " + hx(q); }, [&] {
    for (auto &r : Rr) { W w = wadd(wmul(q, p), wide(r)); if (w < limit()) reduce(w, "q*p + r"); }
    W w = wmul(q, p); W one; memset(&one, 0, sizeof one); one.l[0] = 1; if (!q.zero()) { W v = wsub(w, one); if (v < limit()) reduce(v, "q*p - 1"); } });
  for (int k = 1; k <= 508; k++) vf::visit([&] { return vf::fmt("reduction next to 2^%d", k); }, [&] {
    W w, one; memset(&w, 0, sizeof w); memset(&one, 0, sizeof one); one.l[0] = 1; w.l[k / 64] = 1ull << (k % 64);
    reduce(wsub(w, one), "2^k - 1"); if (k < 508) { reduce(w, "2^k"); reduce(wadd(w, one), "2^k + 1"); } });
}
VF_GROUP(reduce_limbs, "qt") {
  std::vector<uint64_t> L = {0, 1, M}; if (vf::thorough()) L = {0, 1, 1ull << 63, M};
  std::vector<uint64_t> T = {0, 1, (1ull << 60) - 1, 1ull << 59};
  for (auto t : T) for (auto g : L) for (auto f : L) vf::visit([&] { return vf::fmt("reduction of every 512-bit pattern with top limbs %llx %llx %llx", (unsigned long long)t, (unsigned long long)g, (unsigned long long)f); }, [&] {
    for (auto e : L) for (auto d : L) for (auto c : L) for (auto b : L) for (auto a : L) { W w = {{a, b, c, d, e, f, g, t}}; reduce(w, "pattern"); } });
}
VF_GROUP(reduce_sums, "qt") {
  auto S = small_alpha(); std::vector<F> A = {F(1), F(-1), F(-2), ref::pow2(128) - F(1), F(1) / F(2), ref::pow2(253) - F(1), ref::pow2(64)};
  if (vf::thorough()) A = S;
  for (auto &a : S) for (auto &b : A) vf::visit([&] { return "one reduction of a*b + c*d + e + f, a = " + hx(a) + " b = " + hx(b); }, [&] {
    FE x = fe(a), y = fe(b);
    for (auto &c : A) for (auto &d : A) { FE z = fe(c), t = fe(d); W ab = wmul(a, b), cd = wmul(c, d);
      U two = x.value * y.value + z.value * t.value;
      if (!(words(two) == wadd(ab, cd))) vf::fail("a*b + c*d (unreduced) is wrong for c = " + hx(c) + " d = " + hx(d));
      FE r; r.value = two % prime_field::mod; expect(r, a * b + c * d, "(a*b + c*d) mod p");
      for (auto &e : A) { FE v; v.value = (x.value * y.value + fe(e).value) % prime_field::mod; expect(v, a * b + e, "(a*b + e) mod p");
        v.value = (two + fe(e).value + t.value) % prime_field::mod; expect(v, a * b + c * d + e + d, "(a*b + c*d + e + d) mod p");
        v.value = (x.value * y.value + z.value - fe(e).value + prime_field::mod) % prime_field::mod; expect(v, a * b + c - e, "(a*b + c - e + p) mod p"); vf::count(C_STATES); }
    } });
}
// 512-bit sums, differences and comparisons
VF_GROUP(wide_ops, "qt") {
  std::vector<uint64_t> L = {0, 1, M}; std::vector<W> V;
  for (auto a : L) for (auto b : L) for (auto c : L) for (auto d : L) for (auto e : L) for (auto f : (vf::thorough() ? L : std::vector<uint64_t>{0, M})) { W w = {{a, b, c, d, e, f, 0, 0}}; V.push_back(w); if (a == 0) { W u = {{a, b, c, d, e, f, M, 1}}; V.push_back(u); } }
  for (auto &x : V) vf::visit([&] { return "512-bit x = " + hex(x.l, 8) + " with every y of the alphabet"; }, [&] {
    U a = unwords(x);
    for (auto &y : V) { U b = unwords(y); vf::count(C_OPS, 6); vf::count(C_STATES);
      int c = mpn_cmp(x.l, y.l, 8); std::string at = " for y = " + hex(y.l, 8);
      if (!(words(a + b) == wadd(x, y))) vf::fail("x + y is " + hex(words(a + b).l, 8) + at);
      if (!(words(a - b) == wsub(x, y))) vf::fail("x - y is " + hex(words(a - b).l, 8) + at);
      if ((a < b) != (c < 0) || (a > b) != (c > 0) || (a >= b) != (c >= 0) || (a != b) != (c != 0)) vf::fail("comparison" + at); } });
}
// Conversions: machine integers, decimal text, bits, GMP.
VF_GROUP(conversions, "qt") {
  auto A = edges(); auto B = limbs({0, 1, 1ull << 63, M}, {0, 1, 0x1000000000000000ull, 0x2523648240000000ull}); auto S = small_alpha();
  std::vector<F> E; E.push_back(F(0)); for (int k = 0; k < 254; k++) { E.push_back(ref::pow2(k)); if (k < 253) E.push_back(ref::pow2(k + 1) - F(1)); }
  A.insert(A.end(), B.begin(), B.end()); A.insert(A.end(), S.begin(), S.end()); A.insert(A.end(), E.begin(), E.end()); uniq(A);
  for (auto &a : A) vf::visit([&] { return "conversions of " + hx(a); }, [&] {
    FE x = fe(a); vf::count(C_CONV, 6); vf::count(C_STATES);
    char *s = x.to_string(); for (int i = 0; i < 512; i++) if (s[i] != '0' + (i < 256 ? (int)(a.l[i / 64] >> (i % 64) & 1) : 0)) vf::fail(vf::fmt("bit %d of the bit string is wrong", i));
    auto bs = x.bit_stream(); if (bs.size() != 256) vf::fail("the bit stream of an element does not have 256 bits"); for (int i = 0; i < 256; i++) if ((int)bs[i] != (int)(a.l[i / 64] >> (i % 64) & 1)) vf::fail(vf::fmt("bit %d of the bit stream is wrong", i));
    std::string dec = a.str();
    if (x.to_gmp_class().get_str() != dec) vf::fail("conversion to GMP gives " + x.to_gmp_class().get_str());
    if (!a.zero() && x.bitLen() != a.bits()) vf::fail(vf::fmt("bit length is %d instead of %d", x.bitLen(), a.bits()));
    for (std::string t : {dec, "000" + dec}) { FE y; y.value = U(prime_field::u256b(t.c_str(), (int)t.size(), 10)); expect(y, a, "decimal text (256)"); y.value = U(t.c_str(), (int)t.size(), 10); expect(y, a, "decimal text (512)"); }
    prime_field::u256b u; u.lo = a.l[0]; u.mid = a.l[1]; u.hi = ((__uint128_t)a.l[3] << 64) | a.l[2];
    for (int i = 0; i < 256; i++) if (u.testBit(i) != (int)(a.l[i / 64] >> (i % 64) & 1)) vf::fail(vf::fmt("bit %d read by testBit is %d", i, u.testBit(i)));
  });
  std::vector<long long> I = {0, 1, 2, 3, 7, 8, 255, 256, 65535, 65536, (1ll << 30), 2147483646ll, 2147483647ll};
  for (auto i : I) vf::visit([&] { return vf::fmt("element of the integer %lld", i); }, [&] { vf::count(C_CONV, 2); expect(FE((int)i), F(i), "field_element(int)"); expect(FE((unsigned long long)i), F(i), "field_element(unsigned long long)"); expect(FE((int)-i), F(-i), "field_element(int) of a negative number"); });
  for (int k = 0; k < 64; k++) vf::visit([&] { return vf::fmt("element of the integers next to 2^%d", k); }, [&] {
    for (unsigned long long v : {1ull << k, (1ull << k) - 1, (1ull << k) + 1, ~(1ull << k)}) { F e; e.l[0] = v; vf::count(C_CONV, 3); expect(FE(v), e, "field_element(unsigned long long)"); long long s = (long long)v; int i = (int)v; expect(FE(s), F(s), vf::fmt("field_element of the signed number %lld", s).c_str()); expect(FE(i), F((long long)i), vf::fmt("field_element(int) of %d", i).c_str()); } });
}
// Every combination of boundary draws of the process's random source gives an element of the field, and
// different draws give different elements.
VF_GROUP(random_draws, "qt") {
  std::vector<int> D = {0, 1, 2, 0x3fffffff, 0x40000000, 2147483646, 2147483647};
  vf::visit([&] { return std::string("random() over every combination of boundary draws"); }, [&] {
    std::vector<W> seen;
    for (int a : D) for (int b : D) for (int c : D) { g_draw[0] = a; g_draw[1] = b; g_draw[2] = c; g_ndraw = 3; g_used = 0; FE r = prime_field::random(); vf::count(C_RAND); vf::count(C_STATES);
      if (!(words(r.value) < wide(F(0)) ) && !(words(r.value).l[4] == 0 && words(r.value).l[5] == 0 && words(r.value).l[6] == 0 && words(r.value).l[7] == 0 && mpn_cmp(words(r.value).l, ref::P, 4) < 0)) vf::fail(vf::fmt("draws %d %d %d give a value outside the field", a, b, c));
      if (g_used < 3) vf::fail(vf::fmt("a random element uses %d draws (of 31 bits each)", g_used));
      seen.push_back(words(r.value)); }
    std::sort(seen.begin(), seen.end()); for (size_t i = 1; i < seen.size(); i++) if (seen[i] == seen[i - 1]) vf::fail("two different draws give the same element " + hex(seen[i].l, 8));
    g_ndraw = 0; });
}
// Initialising again changes nothing.
VF_GROUP(init_history, "qt") {
  auto A = small_alpha();
  for (int n = 1; n <= 3; n++) vf::visit([&] { return vf::fmt("initialise %d times more, then all pairs", n); }, [&] {
    for (int i = 0; i < n; i++) { prime_field::init(P_DEC, 10); prime_field::init_random(); for (auto &a : A) for (auto &b : A) all_ops(a, b); } });
}

// ---------------------------------------------------------------- polynomials
static std::vector<F> coefs() { F x; x.l[0] = 0x0123456789abcdefull; x.l[1] = 0xfedcba9876543210ull; x.l[2] = 0xdeadbeefcafebabeull; x.l[3] = 0x1357913579135791ull; std::vector<F> v = {F(0), F(1), F(-1), ref::pow2(128) - F(1), x}; if (vf::thorough()) { v.push_back(F(2)); v.push_back(F(1) / F(2)); v.push_back(ref::pow2(253) - F(1)); } return v; }
static F horner(const std::vector<F> &c, const F &x) { F r; for (auto &k : c) r = r * x + k; return r; }   // c[0] is the leading coefficient
static std::string cs(const std::vector<F> &c) { std::string s; for (auto &k : c) s += " " + hx(k); return s; }
template <class P> P mk(const std::vector<F> &c);
template <> linear_poly mk<linear_poly>(const std::vector<F> &c) { return linear_poly(fe(c[0]), fe(c[1])); }
template <> quadratic_poly mk<quadratic_poly>(const std::vector<F> &c) { return quadratic_poly(fe(c[0]), fe(c[1]), fe(c[2])); }
template <> cubic_poly mk<cubic_poly>(const std::vector<F> &c) { return cubic_poly(fe(c[0]), fe(c[1]), fe(c[2]), fe(c[3])); }
template <> quadruple_poly mk<quadruple_poly>(const std::vector<F> &c) { return quadruple_poly(fe(c[0]), fe(c[1]), fe(c[2]), fe(c[3]), fe(c[4])); }
template <> quintuple_poly mk<quintuple_poly>(const std::vector<F> &c) { return quintuple_poly(fe(c[0]), fe(c[1]), fe(c[2]), fe(c[3]), fe(c[4]), fe(c[5])); }
static std::vector<FE> un(const linear_poly &p) { return {p.a, p.b}; }
static std::vector<FE> un(const quadratic_poly &p) { return {p.a, p.b, p.c}; }
static std::vector<FE> un(const cubic_poly &p) { return {p.a, p.b, p.c, p.d}; }
static std::vector<FE> un(const quadruple_poly &p) { return {p.a, p.b, p.c, p.d, p.e}; }
static std::vector<FE> un(const quintuple_poly &p) { return {p.a, p.b, p.c, p.d, p.e, p.f}; }
template <class P> static void coefcheck(const P &p, const std::vector<F> &c, const char *what) { auto v = un(p); for (size_t i = 0; i < c.size(); i++) { vf::count(C_POLY); if (!same(v[i], c[i])) vf::fail(vf::fmt("%s: coefficient of x^%d is wrong", what, (int)(c.size() - 1 - i))); } }
template <class P> static void polys(int n, const char *name) {
  auto A = coefs(); auto X = small_alpha();
  std::vector<F> c(n, F(0)); std::vector<int> k(n, 0);
  for (;;) {
    for (int i = 0; i < n; i++) c[i] = A[k[i]];
    vf::visit([&] { return std::string(name) + " with coefficients" + cs(c); }, [&] {
      P p = mk<P>(c); vf::count(C_STATES); coefcheck(p, c, "constructor");
      for (auto &x : X) { vf::count(C_POLY); if (!same(p.eval(fe(x)), horner(c, x))) vf::fail("value at " + hx(x) + " is wrong"); }
      // sums with a polynomial that has one non-zero coefficient, with its rotation and with itself
      for (int j = 0; j < n; j++) for (auto &a : A) { std::vector<F> d(n, F(0)); d[j] = a; std::vector<F> s = c; s[j] = s[j] + a; P q = p + mk<P>(d); coefcheck(q, s, "sum"); q = mk<P>(d) + p; coefcheck(q, s, "sum"); }
      std::vector<F> r = c, s = c; std::rotate(r.begin(), r.begin() + 1, r.end()); for (int i = 0; i < n; i++) s[i] = c[i] + r[i]; coefcheck(p + mk<P>(r), s, "sum"); });
    int i = 0; while (i < n && ++k[i] == (int)A.size()) k[i++] = 0; if (i == n) break;
  }
}
VF_GROUP(poly_linear, "qt") { polys<linear_poly>(2, "degree 1"); vf::visit([] { return std::string("constants and zero polynomials"); }, [] { for (auto &x : small_alpha()) { linear_poly p(fe(x)); coefcheck(p, {F(0), x}, "constant"); } coefcheck(linear_poly(), {F(0), F(0)}, "empty"); coefcheck(quadratic_poly(), {F(0), F(0), F(0)}, "empty"); coefcheck(cubic_poly(), {F(0), F(0), F(0), F(0)}, "empty"); coefcheck(quadruple_poly(), {F(0), F(0), F(0), F(0), F(0)}, "empty"); coefcheck(quintuple_poly(), {F(0), F(0), F(0), F(0), F(0), F(0)}, "empty"); }); }
VF_GROUP(poly_quadratic, "qt") { polys<quadratic_poly>(3, "degree 2"); }
VF_GROUP(poly_cubic, "qt") { polys<cubic_poly>(4, "degree 3"); }
VF_GROUP(poly_quadruple, "qt") { polys<quadruple_poly>(5, "degree 4"); }
VF_GROUP(poly_quintuple, "qt") { polys<quintuple_poly>(6, "degree 5"); }
VF_GROUP(poly_products, "qt") {
  auto A = coefs();
  for (auto &a : A) for (auto &b : A) for (auto &c : A) for (auto &d : A) vf::visit([&] { return "products of degree 1 polynomials" + cs({a, b, c, d}); }, [&] {
    linear_poly p(fe(a), fe(b)), q(fe(c), fe(d)); quadratic_poly r = p * q; coefcheck(r, {a * c, a * d + b * c, b * d}, "product"); vf::count(C_STATES);
    for (auto &e : A) { quadratic_poly s(fe(a), fe(b), fe(e)); coefcheck(s * q, {a * c, a * d + b * c, b * d + e * c, e * d}, "product of degrees 2 and 1"); }
    for (auto &e : A) for (auto &f : A) { linear_poly t(fe(e), fe(f)); F r0 = a * c, r1 = a * d + b * c, r2 = b * d; coefcheck(r * t, {r0 * e, r0 * f + r1 * e, r1 * f + r2 * e, r2 * f}, "product of three"); } });
}
static void init() { ref::init(); prime_field::init(P_DEC, 10); prime_field::init_random(); }
int main(int argc, char **argv) { return vf::main_(argc, argv, {"operations_compared", "states_compared", "reductions_compared", "conversions_compared", "coefficients_compared", "random_draws"}, init); }
