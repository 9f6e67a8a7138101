// Bounded spaces explored for the zero-knowledge argument.
static void need_accept(const Pt &p) {
  bool ok = run(p, Adv());
  vf::count(0);
  if (!S.evaluated) vf::fail("the verifier decided without looking at the claimed output");
  auto want = ref_out(); vf::count(6, want.size());
  for (size_t i = 0; i < want.size(); i++) if (S.outs[i] != want[i]) vf::fail(vf::fmt("output %zu is %s, the circuit's value is %s", i, S.outs[i].str().c_str(), want[i].str().c_str()));
  if (!ok) vf::fail("the verifier rejects the honest prover");
  vf::count(4);
}
static void visit_accept(const Pt &p) { vf::visit([&] { return "honest argument: " + ctext(p); }, [&] { need_accept(p); }); }
static Pt pt(const Circ &c, uint64_t id, bool fixed = false) { Pt p; p.c = c; p.t.id = id; p.t.fixed = fixed; return p; }
// a circuit of identical blocks: bw[i] is the block width of layer i; layers from the third on are declared parallel
static int lg2(int x) { int b = 0; while ((1 << b) < x) b++; return b; }
static Circ blocks_of(const Circ &one, int rep) {
  Circ c(one.size());
  for (size_t i = 0; i < one.size(); i++) for (int b = 0; b < rep; b++) for (auto G : one[i]) {
    if (i == 0) { if (G.ty == ref::INPUT) G.u = moved(G.u, -131 * b); }
    else { long long o = (long long)b * one[i - 1].size(); if (G.ty != ref::DUMMY) { G.u += o; if (G.ty != ref::NOT && G.ty != ref::RELAY) G.v += o; } }
    c[i].push_back(G);
  }
  return c;
}
static Pt para_pt(const Circ &one, int rep, int from, uint64_t id) {
  Pt p = pt(blocks_of(one, rep), id);
  for (size_t i = 0; i < one.size(); i++) { Meta m; m.para = (int)i >= from && i >= 1; m.bs = (int)one[i].size(); m.rep = rep; m.lbs = lg2(m.bs); m.lrep = lg2(rep); p.meta.push_back(m); }
  return p;
}

// ================================================================ honest prover accepted, values
VF_GROUP(zk_one_layer, "qt") { all_one_layer([](const Circ &c) { visit_accept(pt(c, 1)); }); }
VF_GROUP(zk_two_layers, "qt") { int k = 0; all_two_layers(vf::thorough(), [&](const Circ &c) { if (k++ % (vf::thorough() ? 7 : 3) == 0) visit_accept(pt(c, 2)); }); }
VF_GROUP(zk_shapes, "qt") { all_shapes(vf::thorough() ? 5 : 4, {1, 2, 4, 8}, vf::thorough() ? 3 : 2, [](const Circ &c) { visit_accept(pt(c, 3)); }); }
VF_GROUP(zk_one_gate, "qt") { all_one_gate(vf::thorough() ? std::vector<int>{2, 4, 8, 16} : std::vector<int>{2, 4, 8}, [](const Circ &c) { visit_accept(pt(c, 4)); }); }
VF_GROUP(zk_large, "qt") { all_large(4, vf::deep() ? 11 : vf::thorough() ? 10 : 8, [](const Circ &c) { visit_accept(pt(c, 5)); }); }
VF_GROUP(zk_coins, "qt") {
  for (auto &c : rep_circuits()) {
    if (!vf::thorough() && (c.size() > 3 || c[0].size() > 4)) continue;
    int K = 2 * ref::bits(c.back()); for (size_t i = 0; i <= c.size(); i++) K += 2 * ref::bits(c[i ? i - 1 : 0]) + 4;
    auto go = [&](std::vector<std::pair<int, int>> f) { Pt p = pt(c, 6, true); p.t.force = f; visit_accept(p); };
    for (int i = 0; i < K; i++) for (int x = 0; x < 2; x++) { go({{i, x}}); if (vf::thorough()) for (int j = i + 1; j < K; j++) for (int y = 0; y < 2; y++) go({{i, x}, {j, y}}); }
    for (int id = 100; id < (vf::thorough() ? 200 : 110); id++) { visit_accept(pt(c, id)); visit_accept(pt(c, id, true)); }
  }
}
VF_GROUP(zk_inputs, "qt") {
  for (auto &c : rep_circuits()) if (c[0].size() == 2)
    for (long long a : IV) for (long long b : IV) for (int d = 0; d < 3; d++) {
      if (!vf::thorough() && d && (a != b)) continue;
      Circ e = c; e[0] = two_inputs(a, b); if (d) e[0][d - 1] = {ref::DUMMY, 0, 0};   // dummy inputs are written with zero fields
      visit_accept(pt(e, 7)); }
}
VF_GROUP(zk_depth, "qt") { for (int d = 1; d <= (vf::thorough() ? 120 : 40); d++) visit_accept(pt(shape(std::vector<int>(d, 2), d), 8)); }
// layers declared as identical blocks: every gate kind and operand pair, block widths, numbers of blocks
VF_GROUP(zk_parallel, "qt") {
  for (int rep : vf::thorough() ? std::vector<int>{1, 2, 4, 8, 16} : std::vector<int>{1, 2, 4, 8}) for (int wp : {1, 2, 4}) for (int w : {1, 2, 4}) for (int g = 0; g < w; g++) for (auto &G : gates_over(wp)) {
    if (wp * rep < 2 || w * rep < 2) continue;
    if (!vf::thorough() && rep > 4 && (w > 2 || wp > 2)) continue;
    Circ one; one.push_back(inputs(wp, 3)); one.push_back(Layer()); for (int k = 0; k < wp; k++) one[1].push_back({ref::ADD, k, (k + 1) % wp});
    one.push_back(rotated(w, wp, wp + w)); one[2][g] = G;
    visit_accept(para_pt(one, rep, 2, 9));
  }
}
VF_GROUP(zk_parallel_shapes, "qt") {
  all_shapes(4, {1, 2, 4}, vf::thorough() ? 3 : 1, [](const Circ &one) {
    if (one.size() < 2) return;
    // a one-gate layer has no second value inside a block: rebuild with the block widths as they are
    Circ o; o.push_back(one[0]); for (size_t i = 1; i < one.size(); i++) o.push_back(rotated((int)one[i].size(), (int)one[i - 1].size(), (int)(i * 3 + one[i].size())));
    for (int rep : {2, 4}) for (int from = 1; from <= (int)o.size(); from++) visit_accept(para_pt(o, rep, from, 10));
  });
}

// ================================================================ false claims rejected
static void must_reject(bool accepted) {
  vf::count(0);
  if (!S.evaluated) vf::fail("the verifier decided without looking at the claimed output");
  auto want = ref_out(); bool falsec = false;
  for (size_t i = 0; i < want.size(); i++) if (i >= S.claimed.size() || S.claimed[i] != want[i]) falsec = true;
  if (!falsec) { vf::count(7); return; }
  if (accepted) vf::fail(vf::fmt("the verifier accepts a false output claim (error carried to the check expected to notice it: %s)", S.failing.str().c_str()));
  vf::count(2);
}
static std::vector<F> targets() {
  std::vector<F> r{F(1), F(-1), ref::pow2(64), ref::pow2(128), ref::pow2(192), ref::fromdec("98765432109876543210987654321098765432109876543210")};
  if (vf::thorough()) for (int k = 1; k < 254; k += 21) { r.push_back(ref::pow2(k)); r.push_back(F(0) - ref::pow2(k)); }
  return r;
}
static int num_checks(const Pt &p) { int n = 0; for (size_t i = 0; i < p.c.size(); i++) n += 2 * ref::bits(p.c[i == 0 ? 0 : i - 1]) + 2; return n; }
template <class FN> static void sound_points(FN fn) {
  for (auto &c : rep_circuits()) { if (!vf::thorough() && c.size() > 3) continue; fn(pt(c, 21, true)); if (vf::thorough()) fn(pt(c, 22, true)); }
  Circ one{inputs(2, 5), {{ref::ADD, 0, 1}, {ref::MUL, 0, 1}}, {{ref::MUL, 0, 1}, {ref::XOR, 1, 0}}}; Pt q = para_pt(one, 2, 2, 23); q.t.fixed = true; fn(q);
}
static void chain(const Pt &p, int oidx, int style, int rk, int l1, bool brief = false) {
  Adv a; a.on = true; a.claim = {{oidx, F(1)}}; a.style = style; a.rk = rk; a.l1 = l1;
  bool have = false; std::vector<F> f; int nt = num_checks(p);
  auto probe = [&] { if (have) return; have = true; cheat(p, a); f = S.before; f.resize(nt); };
  for (int in = 0; in < 2; in++) vf::visit([&] { return vf::fmt("cheat to the last check%s, output %d, style %d, absorb %d/%d: ", in ? ", then open the input at the false value" : "", oidx, style, rk, l1) + ctext(p); }, [&] {
    Adv b = a; if (in) b.lie = L_IN; bool acc = cheat(p, b); if (S.reached_final) vf::count(3); must_reject(acc); });
  auto T = targets(); if (brief) T = {F(1), ref::pow2(128)};
  for (int t = 0; t < nt; t++) for (size_t d = 0; d < T.size(); d++) {
    if (!brief && d >= 1 && t % 5 != (int)(d % 5) && !vf::thorough()) continue;
    vf::visit([&] { return vf::fmt("cheat caught only by check %d with error %s, output %d, style %d, absorb %d/%d: ", t, T[d].str().c_str(), oidx, style, rk, l1) + ctext(p); }, [&] {
      probe();
      if (f[t].zero()) { vf::count(7); return; }
      Adv b = a; b.t = t; F k = T[d] / f[t]; b.claim = {{oidx, k}}; for (auto &x : b.vu_commit) x = x * k; must_reject(run(p, b)); });
  }
}
VF_GROUP(zk_sound_chain, "qt") {
  sound_points([](const Pt &p) {
    int n = ref::width(p.c.back());
    for (int o = 0; o < n; o++) { if (o && o != n - 1) continue;
      for (int st = 0; st < 6; st++) for (int rk = 0; rk < 2; rk++) for (int l1 = 0; l1 < 4; l1++) {
        if (!vf::thorough() && ((o && (st || l1 > 1)) || (st && (rk || l1 != L1_COMMIT)))) continue;
        chain(p, o, st, rk, l1);
      } }
  });
}
// a check must not be lost in deep circuits or wide layers
VF_GROUP(zk_sound_far, "qt") {
  auto go = [](const Circ &c) { Pt p = pt(c, 24, true); int n = ref::width(c.back()); chain(p, 0, 0, 0, L1_COMMIT, true); chain(p, n - 1, 0, 1, L1_COMMIT, true); };
  for (int d = 4; d <= (vf::deep() ? 16 : vf::thorough() ? 10 : 6); d++) go(shape(std::vector<int>(d, 2), d));
  for (int k = 4; k <= (vf::deep() ? 8 : vf::thorough() ? 7 : 5); k++) { int n = 1 << k; go(shape({n, 2}, k)); go(shape({2, n, 2}, k)); go(shape({2, n}, k)); }
}
VF_GROUP(zk_sound_pairs, "qt") {
  sound_points([](const Pt &p) {
    for (int il = 2; il < (int)p.c.size() + 1; il++) for (int q = 0; q < 4; q++)
      vf::visit([&] { return vf::fmt("error split over both values at layer %d, ratio %d: ", il, q) + ctext(p); }, [&] {
        Adv a; a.on = true; a.claim = {{0, F(1)}}; a.rho = q == 0 ? F(-1) : q == 1 ? F(1) : F(0);
        cheat(p, a);
        if (q >= 2) { if (il >= (int)S.lal.size()) { vf::count(7); return; } F al = S.lal[il], be = S.lbe[il]; if (be.zero() || al.zero()) { vf::count(7); return; }
          a.rho = q == 2 ? F(0) - al / be : F(0) - be / al; a.vu_commit.clear(); cheat(p, a); }
        if (il >= (int)S.fin_delta.size() || S.fin_delta[il].zero() || S.need[il].zero()) { vf::count(7); return; }
        Adv b = a; b.ratio_layer = il; b.claim = {{0, S.need[il] / S.fin_delta[il]}}; b.vu_commit.clear();
        must_reject(cheat(p, b));
      });
  });
}
// everything the prover could be trusted for: values it is asked for, values lying in its object, openings
VF_GROUP(zk_sound_lies, "qt") {
  sound_points([](const Pt &p) { int n = ref::width(p.c.back()), top = (int)p.c.size();
    for (int lie = L_VRES; lie <= L_MASK; lie++) for (int il = lie == L_VRES ? top : 1; il <= top; il++) for (int o = 0; o < n; o++) for (int rk = 0; rk < 2; rk++) {
      if (!vf::thorough() && (o > 1 || (o && rk))) continue;
      vf::visit([&] { return vf::fmt("false %s at layer %d, output %d, absorb %d: ", lname[lie], il, o, rk) + ctext(p); }, [&] {
        Adv a; a.on = true; a.claim = {{o, F(1)}}; a.rk = rk; a.lie = lie; a.lie_layer = il;
        bool acc = false;
        if (lie != L_VRES) { acc = cheat(p, a); a.info = S.info; }                 // what the coins will be
        if (!acc) acc = cheat(p, a);
        if (lie >= L_IUV && lie <= L_MASK && S.failing.zero() && !acc) vf::count(7);
        must_reject(acc); }); }
    if (n >= 2) vf::visit([&] { return "two outputs exchanged: " + ctext(p); }, [&] {
      run(p, Adv()); if (S.outs.size() < 2 || S.outs[0] == S.outs[1]) { vf::count(7); return; }
      F a0 = S.outs[0], a1 = S.outs[1]; Adv a; a.on = true; a.t = 0; a.claim = {{0, a1 - a0}, {1, a0 - a1}}; must_reject(run(p, a)); });
  });
}
// any single message changed: nothing the prover sends is ignored
VF_GROUP(zk_every_message, "qt") {
  sound_points([](const Pt &p) {
    std::vector<Msg> tab; auto probe = [&] { if (tab.empty()) { cur_pert = nullptr; run(p, Adv()); tab = S.msgs; } };
    if (vf::g_only_index < 0 || true) probe();
    auto ads = std::vector<F>{F(1), ref::pow2(128)}; if (vf::thorough()) for (int k = 2; k < 254; k += 9) ads.push_back(ref::pow2(k));
    for (size_t m = 0; m < tab.size(); m++) for (auto &d : ads) {
      const Msg M = tab[m];
      vf::visit([&] { return vf::fmt("%s (layer %d, part %d/%d) changed by %s: ", kname[M.kind], M.layer, M.round, M.deg, d.str().c_str()) + ctext(p); }, [&] {
        std::vector<Pert> q{{(int)m, d}}; cur_pert = &q; bool ok = run(p, Adv()); cur_pert = nullptr; vf::count(0);
        // V(v) of the copy of the inputs takes part in no relation
        if (M.kind == K_VV && M.layer == 1) { vf::count(7); return; }
        // the circuit may not look at V(v) of a layer at all
        if (ok && M.kind == K_VV) { bool uses = false; for (auto &G : S.layer(M.layer)) uses |= G.ty != ref::NOT && G.ty != ref::RELAY && G.ty != ref::SUM && G.ty != ref::EXPSUM && G.ty != ref::DUMMY; if (!uses) { vf::count(7); return; } }
        if (ok) vf::fail(vf::fmt("the verifier accepts although the %s of layer %d (part %d) was changed", kname[M.kind], M.layer, M.round));
        vf::count(2); });
    }
  });
}

// ================================================================ challenges bound to the messages before them
static void bind_check(const Pt &p, const std::vector<F> &base, int from, const char *what) {
  vf::count(0);
  for (size_t i = from; i < S.chal.size() && i < base.size(); i++) { vf::count(5); if (S.chal[i] == base[i]) vf::fail(vf::fmt("%s: %s stays the same when the message is changed", what, S.cname[i].c_str())); }
  if ((int)S.chal.size() <= from) vf::count(7);
}
VF_GROUP(zk_binding, "qt") {
  std::vector<Circ> cs = rep_circuits(); cs.push_back({inputs(2, 3), {{ref::RELAY, 0, 0}, {ref::NOT, 1, 0}}, {{ref::SUM, 0, 2}, {ref::RELAY, 1, 0}}});
  for (auto &c : cs) { if (!vf::thorough() && (c.size() > 3 || c[0].size() > 4)) continue;
    Pt p = pt(c, 31); std::vector<Msg> tab; std::vector<F> base;
    cur_pert = nullptr; run(p, Adv()); tab = S.msgs; base = S.chal;
    for (size_t m = 0; m < tab.size(); m++) {
      const Msg M = tab[m]; bool poly = M.kind == K_U || M.kind == K_V || M.kind == K_C;
      if (M.kind == K_VU2 || M.kind == K_R_ANS || M.kind == K_M_ANS || M.kind == K_IN_ANS || M.kind == K_IN_WIT || M.kind == K_R_WIT || M.kind == K_M_WIT) continue;
      for (int k = 0; k < 254; k += vf::thorough() ? 1 : poly ? 23 : 11) {
        F d = ref::pow2(k); std::vector<Pert> q{{(int)m, d}};
        if (poly) {          // keep p(0) + p(1)
          int lin = -1, sq = -1; for (size_t x = 0; x < tab.size(); x++) if (tab[x].kind == M.kind && tab[x].layer == M.layer && tab[x].round == M.round) { if (tab[x].deg == 1) lin = (int)x; if (tab[x].deg == 2) sq = (int)x; }
          if (lin < 0 || sq < 0) continue;
          q.push_back({M.deg == 1 ? sq : lin, F(0) - (M.deg == 0 ? d + d : d)});
        }
        vf::visit([&] { return vf::fmt("%s (layer %d, part %d/%d) changed in bit %d: ", kname[M.kind], M.layer, M.round, M.deg, k) + ctext(p); }, [&] {
          if (M.kind == K_VV) { fix_c = true; F s; for (auto &t : tab) if (t.kind == K_C && t.layer == M.layer) s = s + t.val + (t.deg == 0 ? t.val : F(0)); csum = s; }
          cur_pert = &q; run(p, Adv()); cur_pert = nullptr; fix_c = false;
          bind_check(p, base, M.chals, kname[M.kind]); });
      }
    }
    // other valid witnesses
    for (int w = 0; w < 2; w++) vf::visit([&] { return vf::fmt("other witnesses of %s: ", w ? "the mask" : "R") + ctext(p); }, [&] {
      (w ? again_M : again_R) = true; bool ok = run(p, Adv()); again_M = again_R = false;
      if (!ok) vf::fail("the verifier rejects the honest prover with other blinding values");
      int from = -1; for (auto &M : tab) if (M.kind == (w ? K_M_WIT : K_R_WIT)) { from = M.chals; break; }
      bind_check(p, base, from, w ? "mask witness" : "R witness"); });
    // the public statement: another input value of the circuit (only through commitment and output) is covered above; here the challenges must be long
    vf::visit([&] { return "challenges of: " + ctext(p); }, [&] {
      run(p, Adv()); vf::count(0);
      for (size_t i = 0; i < S.chal.size(); i++) { vf::count(5); if (S.chal[i].bits() < 64) vf::fail(S.cname[i] + " is the small constant " + S.chal[i].str()); for (size_t j = 0; j < i; j++) if (S.chal[i] == S.chal[j]) vf::fail(S.cname[i] + " repeats " + S.cname[j]); } });
  }
}

// ================================================================ masks
static int rank_of(std::vector<std::vector<F>> m) {
  int r = 0; if (m.empty()) return 0; size_t n = m[0].size();
  for (size_t c = 0; c < n && r < (int)m.size(); c++) {
    int piv = -1; for (size_t i = r; i < m.size(); i++) if (!m[i][c].zero()) { piv = (int)i; break; }
    if (piv < 0) continue; std::swap(m[r], m[piv]); F inv = m[r][c].inv();
    for (size_t i = r + 1; i < m.size(); i++) if (!m[i][c].zero()) { F k = m[i][c] * inv; for (size_t j = c; j < n; j++) if (!m[r][j].zero()) m[i][j] = m[i][j] - k * m[r][j]; }
    r++;
  }
  return r;
}
static std::vector<F> field_view() { std::vector<F> v; for (auto &M : S.msgs) if (!M.curve && M.kind != K_OUT && M.kind != K_VU2 && M.kind != K_IN_ANS) v.push_back(M.val); return v; }
VF_GROUP(zk_masks, "qt") {
  std::vector<Circ> cs; for (auto &c : rep_circuits()) { int w = 0; for (auto &L : c) w = std::max(w, (int)L.size()); if (c.size() <= 3 && w <= (vf::thorough() ? 16 : 4)) cs.push_back(c); if (vf::thorough() && c.size() == 4) cs.push_back(c); }
  for (auto &c : cs) for (int id = 41; id < (vf::thorough() ? 44 : 42); id++) {
    Pt p = pt(c, id, true);
    vf::visit([&] { return "masks of: " + ctext(p); }, [&] {
      vf::count(0); if (!run(p, Adv())) vf::fail("the verifier rejects the honest prover");
      long nd = draws; auto b = field_view(); auto tab = S.msgs; std::vector<std::vector<F>> J;
      int want = -2; for (size_t i = 0; i < c.size(); i++) want += 4 * ref::bits(c[i == 0 ? 0 : i - 1]) + 13;
      for (long k = 0; k < nd; k++) {
        std::vector<F> v[2];
        for (int s = 0; s < 2; s++) { Pt q = p; q.t.flip = k; q.t.by = s ? -1 : 1; if (!run(q, Adv())) vf::fail("the verifier rejects the honest prover with another coin"); v[s] = field_view(); }
        vf::count(10);
        if (v[0].size() != b.size() || v[1].size() != b.size()) vf::fail("the number of messages depends on the coins");
        bool nz = false; std::vector<F> d(b.size()); for (size_t i = 0; i < b.size(); i++) { d[i] = v[0][i] - v[1][i]; nz |= !d[i].zero(); }
        if (nz) J.push_back(d);
      }
      // one field element takes several draws of the source: equal directions up to scaling add nothing
      int r = rank_of(J);
      if (r < want) {
        // which message is not free
        std::string who; std::vector<std::vector<F>> T(b.size()); size_t vi = 0;
        for (auto &M : tab) if (!M.curve && M.kind != K_OUT && M.kind != K_VU2 && M.kind != K_IN_ANS) { bool z = true; for (auto &d : J) z &= d[vi].zero(); if (z && !(M.kind == K_R_ANS && M.layer == (int)c.size())) { who = vf::fmt("; the %s of layer %d does not depend on any coin", kname[M.kind], M.layer); break; } vi++; }
        vf::fail(vf::fmt("the messages are not masked: the prover's coins move them in %d independent directions, the verifier's checks leave %d free%s", r, want, who.c_str()));
      }
    });
  }
}
// the input behind the same output: no message that is not masked tells two inputs apart
VF_GROUP(zk_masks_inputs, "qt") {
  Circ c{inputs(2, 3), {{ref::ADD, 0, 1}, {ref::ADD, 1, 0}}};
  for (int w = 2; w <= 8; w *= 2) for (int i = 0; i < w; i++) for (int j = 0; j < w; j++) if (i != j) {
    Circ e; e.push_back(inputs(w, 5)); Layer L; for (int g = 0; g < 2; g++) L.push_back({ref::SUM, 0, w}); e.push_back(L); Pt p = pt(e, 45, true);
    vf::visit([&] { return vf::fmt("input %d up, input %d down: ", i, j) + ctext(p); }, [&] {
      vf::count(0); if (!run(p, Adv())) vf::fail("the verifier rejects the honest prover");
      auto b = field_view(); auto tab = S.msgs; long nd = draws; Pt q = p; q.c[0][i].u += 7; q.c[0][j].u -= 7;
      if (!run(q, Adv())) vf::fail("the verifier rejects the honest prover"); auto d = field_view();
      // messages that differ must be moved by some coin
      std::vector<bool> need(b.size()), ok(b.size()); for (size_t x = 0; x < b.size(); x++) need[x] = d[x] != b[x];
      for (long k = 0; k < nd; k++) { Pt t = p; t.t.flip = k; t.t.by = 1; run(t, Adv()); auto v = field_view(); vf::count(10); for (size_t x = 0; x < b.size(); x++) if (v[x] != b[x]) ok[x] = true; bool all = true; for (size_t x = 0; x < b.size(); x++) all &= !need[x] || ok[x]; if (all) break; }
      size_t vi = 0; for (auto &M : tab) if (!M.curve && M.kind != K_OUT && M.kind != K_VU2 && M.kind != K_IN_ANS) { if (need[vi] && !ok[vi]) vf::fail(vf::fmt("the %s of layer %d tells two inputs with the same output apart and is moved by no coin", kname[M.kind], M.layer)); vi++; } });
  }
}

// ================================================================ the program
static std::string zk_program(const Pt &p, const Adv &a) {
  setup(p); S.a = a; int fd = (int)syscall(SYS_memfd_create, "out", 0); fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    vf::g_w->started_ms = vf::g_w->started_ms; dup2(fd, 1); fflush(stdout);
    char *argv[] = {(char *)"main_zk", cpath, mpath, opath, nullptr}; int r = prog_main(4, argv); fflush(stdout); _exit(r);
  }
  int st; waitpid(pid, &st, 0); vf::count(11); vf::count(1);
  char buf[1 << 16]; ssize_t n = pread(fd, buf, sizeof buf, 0); close(fd);
  if (!WIFEXITED(st)) vf::fail(vf::fmt("the program ended by signal %d", WTERMSIG(st)));
  if (WEXITSTATUS(st)) vf::fail(vf::fmt("the program ended with status %d", WEXITSTATUS(st)));
  return std::string(buf, n > 0 ? n : 0);
}
static bool has_line(const std::string &s, const char *w) { return ("\n" + s).find(std::string("\n") + w) != std::string::npos; }
VF_GROUP(zk_program_verdict, "qt") {
  std::vector<Circ> R{shape({2, 2}, 1), shape({4, 2}, 2), shape({2, 4, 2}, 3), shape({1, 2, 1}, 4), shape({8, 4, 4}, 5), shape({2}, 6)};
  for (auto &c : R) for (int fx = 0; fx < 2; fx++) {
    Pt p = pt(c, 51, fx);
    vf::visit([&] { return "program, honest: " + ctext(p); }, [&] { vf::count(0); auto o = zk_program(p, Adv()); if (!has_line(o, "Pass") || has_line(o, "Fail")) vf::fail("the program does not report Pass for an honest proof: " + o.substr(0, 200)); vf::count(4); });
    for (int t = 0; t < num_checks(p); t++) for (int o = 0; o < ref::width(c.back()); o++) vf::visit([&] { return vf::fmt("program, output %d claimed falsely, honest from check %d: ", o, t) + ctext(p); }, [&] {
      vf::count(0); Adv a; a.on = true; a.t = t; a.claim = {{o, F(t + 1)}}; auto s = zk_program(p, a); if (has_line(s, "Pass") || !has_line(s, "Fail")) vf::fail("the program does not report Fail for a false claim: " + s.substr(0, 200)); vf::count(2); });
  }
}
