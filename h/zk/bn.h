// Stand-in for the pairing library (ate-pairing), which is not part of the repository: the groups are
// represented by discrete logarithms modulo the group order, so that the pairing is multiplication.
// Every equation the commitment schemes check is decided exactly; nothing is hidden from a prover,
// which can therefore also play the knowledge of the trapdoor.
#pragma once
#include <cassert>
#include <iostream>
#include <sstream>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <gmp.h>
#include <gmpxx.h>
namespace mie { struct Vuint { mpz_class v; Vuint() : v(0) {} explicit Vuint(const char *s) : v(s, 10) {} explicit Vuint(const std::string &s) : v(s, 10) {} Vuint(int x) : v(x) {} }; }
namespace bn {
// exponents modulo the order of the groups
struct Exp {
  mp_limb_t l[4];
  static const mp_limb_t *order() { static mp_limb_t p[4]; static bool ok = false; if (!ok) { mpz_class z("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10); memset(p, 0, sizeof p); mpz_export(p, nullptr, -1, 8, 0, 0, z.get_mpz_t()); ok = true; } return p; }
  Exp() { memset(l, 0, sizeof l); }
  static Exp of(const mpz_class &x) { static const mpz_class P("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10); mpz_class r; mpz_mod(r.get_mpz_t(), x.get_mpz_t(), P.get_mpz_t()); Exp e; mpz_export(e.l, nullptr, -1, 8, 0, 0, r.get_mpz_t()); return e; }
  static Exp of(long x) { if (x >= 0) { Exp e; e.l[0] = x; return e; } return of(mpz_class(x)); }
  // the order, 2^254 - small: P0 .. P3
  static constexpr unsigned long long P0 = 0xa10000000000000dull, P1 = 0xff9f800000000010ull, P2 = 0xba344d8000000007ull, P3 = 0x2523648240000001ull;
  Exp operator+(const Exp &o) const {
    typedef unsigned __int128 W; unsigned long long a[4], b[4]; W c;
    c = (W)l[0] + o.l[0]; a[0] = (unsigned long long)c; c = (W)l[1] + o.l[1] + (c >> 64); a[1] = (unsigned long long)c; c = (W)l[2] + o.l[2] + (c >> 64); a[2] = (unsigned long long)c; c = (W)l[3] + o.l[3] + (c >> 64); a[3] = (unsigned long long)c;
    unsigned long long k;
    c = (W)a[0] - P0; b[0] = (unsigned long long)c; k = (c >> 64) & 1; c = (W)a[1] - P1 - k; b[1] = (unsigned long long)c; k = (c >> 64) & 1; c = (W)a[2] - P2 - k; b[2] = (unsigned long long)c; k = (c >> 64) & 1; c = (W)a[3] - P3 - k; b[3] = (unsigned long long)c; k = (c >> 64) & 1;
    Exp r; for (int i = 0; i < 4; i++) r.l[i] = k ? a[i] : b[i]; return r;
  }
  Exp operator-(const Exp &o) const { Exp r; if (mpn_sub_n(r.l, l, o.l, 4)) mpn_add_n(r.l, r.l, order(), 4); return r; }
  Exp operator*(const Exp &o) const { mp_limb_t t[8], q[5]; Exp r; mpn_mul_n(t, l, o.l, 4); mpn_tdiv_qr(q, r.l, 0, t, 8, order(), 4); return r; }
  bool operator==(const Exp &o) const { return !memcmp(l, o.l, 32); }
};
template <int TAG> struct Grp {
  Exp e;
  Grp() {}
  Grp operator+(const Grp &o) const { Grp r; r.e = e + o.e; return r; }
  Grp operator-(const Grp &o) const { Grp r; r.e = e - o.e; return r; }
  Grp operator-() const { Grp r; r.e = r.e - e; return r; }
  Grp &operator+=(const Grp &o) { e = e + o.e; return *this; }
  Grp &operator-=(const Grp &o) { e = e - o.e; return *this; }
  Grp operator*(const mie::Vuint &k) const { Grp r; r.e = e * Exp::of(k.v); return r; }
  Grp operator*(int k) const { Grp r; r.e = e * Exp::of((long)k); return r; }
  Grp &operator*=(const mie::Vuint &k) { *this = *this * k; return *this; }
  Grp &operator*=(int k) { *this = *this * k; return *this; }
  bool operator==(const Grp &o) const { return e == o.e; }
  bool operator!=(const Grp &o) const { return !(e == o.e); }
  bool isZero() const { return e == Exp(); }
  void clear() { e = Exp(); }
};
struct Fp { Fp() {} Fp(int) {} explicit Fp(const char *) {} explicit Fp(const std::string &) {} };
struct Fp2 { Fp2() {} Fp2(const Fp &, const Fp &) {} };
struct Ec1 : Grp<1> { Ec1() {} Ec1(const Grp<1> &g) : Grp<1>(g) {} Ec1(const Fp &, const Fp &) { e = Exp::of(1L); } };       // the generator
struct Ec2 : Grp<2> { Ec2() {} Ec2(const Grp<2> &g) : Grp<2>(g) {} Ec2(const Fp2 &, const Fp2 &) { e = Exp::of(1L); } };
struct Fp12 {                                     // the target group, written multiplicatively
  Exp e; Fp12() {} Fp12(int) {}
  Fp12 &operator*=(const Fp12 &o) { e = e + o.e; return *this; }
  Fp12 operator*(const Fp12 &o) const { Fp12 r; r.e = e + o.e; return r; }
  bool operator==(const Fp12 &o) const { return e == o.e; }
  bool operator!=(const Fp12 &o) const { return !(e == o.e); }
};
inline void opt_atePairing(Fp12 &f, const Ec2 &q, const Ec1 &p) { f.e = q.e * p.e; }
struct CurveParam { int id; bool operator==(const CurveParam &o) const { return id == o.id; } bool operator!=(const CurveParam &o) const { return id != o.id; } };
static const CurveParam CurveFp254BNb = {1};
struct Param { static void init(const CurveParam &) {} };
} // namespace bn
