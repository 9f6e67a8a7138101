// The three polynomial commitments, through their public functions only.
// A polynomial is its coefficient vector in the layout the scheme takes; value() is its meaning.
struct Opening { VE dig, diga, wit, wita; mpz_class ans, Z; std::vector<mpz_class> r; bool ok = false; long coins0 = 0, coins1 = 0; };
enum { V_R, V_MASK, V_INPUT };
static const char *vname[] = {"R (bivariate)", "mask (univariate sum)", "input (multilinear)"};
struct VPoint { int scheme, d; std::vector<F> f, m, r; F Z; Tape t; };
static F power(F x, int k) { F r(1); while (k--) r = r * x; return r; }
static F vpd_value(const VPoint &p) {
  auto &f = p.f; auto &r = p.r; F s;
  if (p.scheme == V_R) return f[0] + f[1] * r[0] + f[2] * r[0] * r[0] + f[3] * r[1] + f[4] * r[1] * r[1] + f[5] * r[0] * r[1];
  if (p.scheme == V_MASK) {
    int L = p.d, a = L / 2 - 1, b = L - 2; s = f[2 * L];
    for (int i = 0; i < L; i++) s = s + f[2 * i] * power(r[i], 2) + f[2 * i + 1] * r[i];
    for (int e = 0; e < 3; e++) s = s + f[2 * L + 1 + e] * power(r[a], 5 - e) + f[2 * L + 4 + e] * power(r[b], 5 - e);
    return s;
  }
  return ref::mle(f, r) + p.Z * (p.m[0] + p.m[1] * r[p.d - 1]);
}
static std::vector<mpz_class> zvec(const std::vector<F> &v) { std::vector<mpz_class> r; for (auto &x : v) r.push_back(toZ(x)); return r; }
static void vpd_keys(const VPoint &p) {
  tape = p.t; draws = gdraws = nchal = 0; gstate.clear();
  if (p.scheme == V_R) { vpdR::environment_init(); vpdR::KeyGen(p.d); }
  else if (p.scheme == V_MASK) { vpd_test::environment_init(); vpd_test::KeyGen(p.d); }
  else { input_vpd::environment_init(); input_vpd::KeyGen(p.d); }
}
static Opening vpd_open(const VPoint &p) {
  Opening o; o.r = zvec(p.r); o.Z = toZ(p.Z); auto f = zvec(p.f); o.coins0 = gdraws;
  o.dig.resize(p.scheme == V_INPUT ? 2 : 1); o.diga.resize(o.dig.size());
  if (p.scheme == V_R) { auto rf = vpdR::commit(o.dig[0], o.diga[0], f); vpdR::prove(o.r, o.ans, f, o.wit, o.wita, rf); }
  else if (p.scheme == V_MASK) { auto rf = vpd_test::commit(o.dig[0], o.diga[0], f); vpd_test::prove(o.r, o.ans, f, o.wit, o.wita, rf); }
  else { auto m = zvec(p.m); f.push_back(0); auto rf = input_vpd::commit(o.dig[0], o.diga[0], o.dig[1], o.diga[1], f, m); input_vpd::prove(o.r, o.ans, f, m, o.wit, o.wita, rf.first, rf.second, o.Z); }
  o.coins1 = gdraws; return o;
}
// verdicts on whatever an opening contains
static bool vpd_commit_ok(const VPoint &p, const Opening &o) {
  if (p.scheme == V_R) return vpdR::check_commit(o.dig[0], o.diga[0]);
  if (p.scheme == V_MASK) return vpd_test::check_commit(o.dig[0], o.diga[0]);
  return input_vpd::check_commit(o.dig[0], o.diga[0], o.dig[1], o.diga[1]);
}
static bool vpd_verify(const VPoint &p, const Opening &o) {
  mpz_class a = o.ans; VE w = o.wit, wa = o.wita; vf::count(9);
  if (p.scheme == V_R) return vpdR::verify(o.r, o.dig[0], a, w, wa);
  if (p.scheme == V_MASK) return vpd_test::verify(o.r, o.dig[0], a, w, wa);
  return input_vpd::verify(o.r, o.dig[0], o.dig[1], o.Z, a, w, wa);
}
static std::string vtext(const VPoint &p) {
  std::string s = vf::fmt("%s commitment in %d variables, coefficients", vname[p.scheme], p.d); for (size_t i = 0; i < p.f.size() && i < 12; i++) s += " " + p.f[i].str();
  s += " at"; for (auto &x : p.r) s += " " + x.str(); if (p.scheme == V_INPUT) s += " Z=" + p.Z.str() + " m=" + p.m[0].str() + "," + p.m[1].str();
  if (s.size() > 900) s = s.substr(0, 900) + "...";
  return s;
}
static int vpd_len(int scheme, int d) { return scheme == V_R ? 6 : scheme == V_MASK ? 2 * d + 7 : 1 << d; }
static F vrand(uint64_t k) { F x; for (int j = 0; j < 4; j++) x.l[j] = ref::mix(k * 4 + j); x.l[3] >>= 3; return x; }
static std::vector<F> valpha() { std::vector<F> a{F(0), F(1), F(-1), ref::pow2(128), vrand(5)}; if (vf::thorough()) { a.push_back(F(2)); a.push_back(ref::pow2(253)); a.push_back(ref::pow2(64) - F(1)); } return a; }
static VPoint vbase(int scheme, int d) { VPoint p; p.scheme = scheme; p.d = d; p.f.resize(vpd_len(scheme, d)); p.m.resize(2); p.r.resize(d); p.t.id = 61; return p; }
static std::vector<std::pair<int, int>> vpd_sizes() {
  std::vector<std::pair<int, int>> r{{V_R, 2}};
  for (int L = 3; L <= (vf::thorough() ? 21 : 11); L += 2) r.push_back({V_MASK, L});
  for (int d = 1; d <= (vf::deep() ? 9 : vf::thorough() ? 7 : 5); d++) r.push_back({V_INPUT, d});
  return r;
}
// every point of alphabet^k (as many coordinates as the limit allows free, the others fixed)
template <class FN> static void all_points(int d, const std::vector<F> &A, size_t limit, FN fn) {
  std::vector<F> r(d); for (int i = 0; i < d; i++) r[i] = vrand(900 + i);
  int k = 0; size_t n = 1; while (k < d && n * A.size() <= limit) { n *= A.size(); k++; }
  for (size_t x = 0; x < n; x++) { size_t y = x; for (int i = 0; i < k; i++) { r[i] = A[y % A.size()]; y /= A.size(); } fn(r); if (k < d) { auto q = r; std::reverse(q.begin(), q.end()); fn(q); } }
}
template <class FN> static void all_openings(FN fn) {
  auto A = valpha();
  for (auto &sz : vpd_sizes()) {
    VPoint p = vbase(sz.first, sz.second); int n = (int)p.f.size();
    std::vector<std::vector<F>> polys; { std::vector<F> z(n); polys.push_back(z); for (int i = 0; i < n; i++) { auto q = z; for (auto &a : A) { if (a.zero()) continue; q[i] = a; polys.push_back(q); } }
      for (int k = 0; k < 4; k++) { auto q = z; for (int i = 0; i < n; i++) q[i] = k == 0 ? F(-1) : k == 1 ? F(i + 1) : vrand(k * 500 + i); polys.push_back(q); } }
    std::vector<std::vector<F>> pts; all_points(p.d, A, vf::deep() ? 600 : vf::thorough() ? 250 : 130, [&](const std::vector<F> &r) { pts.push_back(r); });
    for (size_t i = 0; i < polys.size(); i++) for (size_t j = 0; j < pts.size(); j++) {
      // every basis polynomial at some points, the dense ones at all
      if (i < polys.size() - 4 && (i + j) % (vf::thorough() ? 5 : 11)) continue;
      VPoint q = p; q.f = polys[i]; q.r = pts[j]; int z = (int)((i + j) % 3); q.Z = z == 0 ? F(0) : z == 1 ? F(1) : vrand(77); q.m = {A[i % A.size()], A[(i + j) % A.size()]}; fn(q);
    }
  }
}
VF_GROUP(vpd_honest, "qt") {
  int ks = -1, kd = -1;                            // keys of the last size this worker made
  all_openings([&](const VPoint &p) { vf::visit([&] { return "honest opening: " + vtext(p); }, [&] {
    if (ks != p.scheme || kd != p.d || vf::g_only_index >= 0) { vpd_keys(p); ks = p.scheme; kd = p.d; }
    auto o = vpd_open(p); vf::count(0); vf::count(6);
    if (ofZ(o.ans) != vpd_value(p) || o.ans < 0 || toZ(ofZ(o.ans)) != o.ans) vf::fail("the opened value is " + o.ans.get_str() + ", the polynomial's value is " + vpd_value(p).str());
    if (!vpd_commit_ok(p, o)) vf::fail("an honest commitment is rejected");
    if (!vpd_verify(p, o)) vf::fail("an honest opening is rejected");
    vf::count(4); }); });
}
static F alpha_of(const Opening &o) { return ofE(o.diga[0]) / ofE(o.dig[0]); }
VF_GROUP(vpd_reject, "qt") {
  for (auto &sz : vpd_sizes()) for (int kind = 0; kind < (vf::thorough() ? 4 : 2); kind++) {
    VPoint p = vbase(sz.first, sz.second); int n = (int)p.f.size(); for (int i = 0; i < n; i++) p.f[i] = kind == 1 ? F(i % 2) : vrand(kind * 100 + i); for (int i = 0; i < p.d; i++) p.r[i] = vrand(kind * 100 + 50 + i); p.Z = vrand(7 + kind); p.m = {vrand(8), vrand(9)};
    if (kind == 1) p.r[0] = F(0); p.t.id = 62 + kind;
    bool have = false; Opening H; auto probe = [&] { if (!have) { vpd_keys(p); H = vpd_open(p); have = true; } };
    int nd = p.scheme == V_INPUT ? 2 : 1;
    auto point = [&](const std::string &what, std::function<void(Opening &)> change, bool commit) {
      vf::visit([&] { return what + ": " + vtext(p); }, [&] {
        probe(); vf::count(0); Opening o = H; change(o);
        if ((commit || vpd_commit_ok(p, o)) && (commit ? vpd_commit_ok(p, o) : vpd_verify(p, o))) vf::fail(commit ? "the commitment is accepted" : "the opening is accepted");
        vf::count(2); }); };
    auto addE = [](bn::Ec1 &e, const F &d) { e = toE(ofE(e) + d); };
    for (int k = 0; k < 254; k++) for (int sgn = 0; sgn < 2; sgn++) { F d = sgn ? F(0) - ref::pow2(k) : ref::pow2(k);
      point(vf::fmt("value moved by %s2^%d", sgn ? "-" : "", k), [=](Opening &o) { o.ans = toZ(ofZ(o.ans) + d); }, false);
      if (!vf::thorough() && k % 31) continue;
      for (int i = 0; i <= p.d; i++) {
        point(vf::fmt("witness %d moved by %s2^%d", i, sgn ? "-" : "", k), [=](Opening &o) { addE(o.wit[i], d); }, false);
        point(vf::fmt("knowledge part of witness %d moved by %s2^%d", i, sgn ? "-" : "", k), [=](Opening &o) { addE(o.wita[i], d); }, false);
        point(vf::fmt("witness %d moved by %s2^%d, consistently", i, sgn ? "-" : "", k), [=](Opening &o) { F a = alpha_of(o); addE(o.wit[i], d); addE(o.wita[i], a * d); }, false);
      }
      for (int i = 0; i < p.d; i++) point(vf::fmt("coordinate %d of the point moved by %s2^%d", i, sgn ? "-" : "", k), [=](Opening &o) { o.r[i] = toZ(ofZ(o.r[i]) + d); }, false);
      for (int i = 0; i < nd; i++) {
        point(vf::fmt("commitment %d moved by %s2^%d, consistently", i, sgn ? "-" : "", k), [=](Opening &o) { F a = alpha_of(o); addE(o.dig[i], d); addE(o.diga[i], a * d); }, false);
        point(vf::fmt("commitment %d moved by %s2^%d", i, sgn ? "-" : "", k), [=](Opening &o) { addE(o.dig[i], d); }, true);
        point(vf::fmt("knowledge part of commitment %d moved by %s2^%d", i, sgn ? "-" : "", k), [=](Opening &o) { addE(o.diga[i], d); }, true);
      }
      if (p.scheme == V_INPUT) point(vf::fmt("Z moved by %s2^%d", sgn ? "-" : "", k), [=](Opening &o) { o.Z = toZ(ofZ(o.Z) + d); }, false);
    }
    // errors in two places that would cancel in a check that ignores where they are
    for (int i = 0; i <= p.d; i++) for (int j = 0; j <= p.d; j++) if (i != j) {
      point(vf::fmt("witness %d up, witness %d down", i, j), [=](Opening &o) { F a = alpha_of(o); addE(o.wit[i], F(1)); addE(o.wita[i], a); addE(o.wit[j], F(-1)); addE(o.wita[j], F(0) - a); }, false);
      point(vf::fmt("witnesses %d and %d exchanged", i, j), [=](Opening &o) { std::swap(o.wit[i], o.wit[j]); std::swap(o.wita[i], o.wita[j]); }, false);
      point(vf::fmt("knowledge parts of witnesses %d up and %d down", i, j), [=](Opening &o) { addE(o.wita[i], F(1)); addE(o.wita[j], F(-1)); }, false);
    }
    for (int i = 0; i <= p.d; i++) point(vf::fmt("value and witness %d moved together", i), [=](Opening &o) { F a = alpha_of(o); o.ans = toZ(ofZ(o.ans) + F(1)); addE(o.wit[i], F(-1)); addE(o.wita[i], F(0) - a); }, false);
    if (nd == 2) { point("commitments exchanged", [=](Opening &o) { std::swap(o.dig[0], o.dig[1]); std::swap(o.diga[0], o.diga[1]); }, false);
      point("knowledge part 0 up, 1 down", [=](Opening &o) { addE(o.diga[0], F(1)); addE(o.diga[1], F(-1)); }, true); }
    // an opening of another polynomial, of the same commitment's siblings, at another point
    for (int i = 0; i < n; i++) vf::visit([&] { return vf::fmt("opening of a polynomial with coefficient %d changed: ", i) + vtext(p); }, [&] {
      probe(); vf::count(0); VPoint q = p; q.f[i] = q.f[i] + F(1); if (vpd_value(q) == vpd_value(p)) { vf::count(7); return; } auto o = vpd_open(q); o.dig = H.dig; o.diga = H.diga; if (vpd_verify(p, o)) vf::fail("the opening of another polynomial is accepted"); vf::count(2); });
    for (int i = 0; i < p.d; i++) vf::visit([&] { return vf::fmt("opening at a point with coordinate %d changed: ", i) + vtext(p); }, [&] {
      probe(); vf::count(0); VPoint q = p; q.r[i] = q.r[i] + F(1); if (vpd_value(q) == vpd_value(p)) { vf::count(7); return; } auto o = vpd_open(q); o.dig = H.dig; o.diga = H.diga; o.r = H.r; if (vpd_verify(p, o)) vf::fail("an opening at another point is accepted"); vf::count(2); });
  }
}
VF_GROUP(vpd_hiding, "qt") {
  for (auto &sz : vpd_sizes()) for (int kind = 0; kind < 3; kind++) {
    VPoint p = vbase(sz.first, sz.second); int n = (int)p.f.size(); for (int i = 0; i < n; i++) p.f[i] = kind == 0 ? F(0) : kind == 1 ? F(i % 2) : vrand(kind * 100 + i); for (int i = 0; i < p.d; i++) p.r[i] = vrand(kind * 100 + 50 + i); p.Z = vrand(7 + kind); p.m = {vrand(8), vrand(9)}; p.t.id = 70 + kind;
    vf::visit([&] { return "what an opening reveals: " + vtext(p); }, [&] {
      vf::count(0); auto view = [&](long k, int by) { VPoint q = p; q.t.gflip = k; q.t.gby = by; vpd_keys(q); auto o = vpd_open(q); if (!vpd_verify(q, o)) vf::fail("an honest opening is rejected"); std::vector<F> v; for (auto &e : o.dig) v.push_back(ofE(e)); for (auto &e : o.wit) v.push_back(ofE(e)); return std::make_pair(v, o); };
      auto b = view(-1, 0); std::vector<std::vector<F>> J; size_t N = b.first.size();
      for (long k = b.second.coins0; k < b.second.coins1; k++) { auto x = view(k, 0), y = view(k, 1); std::vector<F> d(N); for (size_t i = 0; i < N; i++) d[i] = y.first[i] - x.first[i]; J.push_back(d); vf::count(10); }
      int r = rank_of(J); if (r < (int)N - 1) vf::fail(vf::fmt("the coins of commitment and opening move the %zu group elements sent in %d independent directions; the verifier's equation leaves %zu free", N, r, N - 1)); });
  }
}
