// Bounded spaces explored for the protocol harness.
static void need_accept(const Pt &p) {
  bool ok = run(p, Adv());
  vf::count(0);
  if (!ok) vf::fail("the verifier rejects the honest prover");
  vf::count(4);
}
static void visit_accept(const Pt &p) { vf::visit([&] { return "honest run: " + ctext(p); }, [&] { need_accept(p); }); }
// computation only: reader + evaluation against the reference
static void need_value(const Pt &p, const std::string &txt) {
  setup(p); ar_reset(true);
  load(txt); gp->get_circuit(gv->C);
  FE *r = gp->real_prover::evaluate();
  auto want = ref_out();
  vf::count(0); vf::count(6, want.size());
  for (size_t i = 0; i < want.size(); i++) {
    if (!canonical(r[i])) vf::fail(vf::fmt("output %zu is not a reduced field element", i));
    if (toF(r[i]) != want[i]) vf::fail(vf::fmt("output %zu is %s, the circuit's value is %s", i, toF(r[i]).str().c_str(), want[i].str().c_str()));
  }
#ifndef NO_ARENA
  ar_on = false;
#endif
}
static void visit_value(const Pt &p) { vf::visit([&] { return "evaluate: " + ctext(p); }, [&] { need_value(p, ref::text(p.c)); }); }

// ================================================================ honest prover accepted
VF_GROUP(accept_one_layer, "qt") { all_one_layer([](const Circ &c) { per_point(c, 1, visit_accept); }); }
VF_GROUP(accept_two_layers, "qt") { all_two_layers(PROTO != 1 ? true : vf::thorough(), [](const Circ &c) {
#if PROTO == 3
  visit_accept(block_pt(c, 1, 1, 2));
#else
  per_point(c, 2, visit_accept);
#endif
}); }
VF_GROUP(accept_shapes, "qt") { all_shapes(vf::deep() ? 6 : vf::thorough() ? 5 : 4, {1, 2, 4, 8}, vf::thorough() ? 3 : 2, [](const Circ &c) { per_point(c, 3, visit_accept); }); }
VF_GROUP(accept_one_gate, "qt") { all_one_gate(vf::deep() && PROTO != 3 ? std::vector<int>{2, 4, 8, 16, 32} : vf::thorough() ? std::vector<int>{2, 4, 8, 16} : PROTO == 3 ? std::vector<int>{2, 4} : std::vector<int>{2, 4, 8}, [](const Circ &c) { per_point(c, 4, visit_accept); }); }
VF_GROUP(accept_large, "qt") { all_large(4, PROTO == 1 || PROTO == 4 ? (vf::deep() ? 15 : vf::thorough() ? 13 : 10) : (PROTO == 2 ? vf::deep() ? 13 : vf::thorough() ? 11 : 6 : vf::deep() ? 11 : vf::thorough() ? 9 : 6), [](const Circ &c) { per_point(c, 5, visit_accept); }); }
// heavy fan-out: every gate of a layer reads the same value, left, right or both, at every position
VF_GROUP(accept_fan, "qt") { all_fan(PROTO == 3 ? vf::deep() ? 8 : vf::thorough() ? 6 : 5 : vf::deep() ? 12 : vf::thorough() ? 10 : 8, [](const Circ &c) { per_point(c, 10, visit_accept); }); }
// coins: up to two challenges forced to 0 or 1, every position
VF_GROUP(accept_coins, "qt") {
  for (auto &c : rep_circuits()) {
    int b = 0; for (auto &L : c) b += 2 * ref::bits(L); int K = b + 2 * ref::bits(c.back()) + 2 * (int)c.size() + 3 * (int)c.size() + 2;
    if (!vf::thorough() && K > 36) continue;
    auto go = [&](std::vector<std::pair<int, int>> f) { Pt p =
#if PROTO == 3
      block_pt(c, 1, 1, 6);
#else
      Pt(); p.c = c; p.t.id = 6;
#endif
      p.t.force = f; visit_accept(p); };
    for (int i = 0; i < K; i++) for (int x = 0; x < 2; x++) { go({{i, x}}); for (int j = i + 1; j < K; j++) for (int y = 0; y < 2; y++) go({{i, x}, {j, y}}); }
  }
}
// every pair of input values from the boundary set, dummy inputs included
#if PROTO == 3
VF_GROUP(accept_blocks, "qt") {       // many blocks, and every arrangement of their inputs
  for (int lb = 3; lb <= (vf::deep() ? 9 : vf::thorough() ? 7 : 5); lb++) for (int m = 0; m < 3; m++) for (auto &c : {shape({2, 2}, 1), shape({4, 2}, 2), shape({2, 4, 2}, 3), shape({2}, 4), shape({1, 2}, 5), shape({2, 1}, 6)}) { if (c.size() == 1 && m) continue; visit_accept(block_pt(c, lb, m, 12)); visit_value(block_pt(c, lb, m, 12)); }
}
#endif
VF_GROUP(accept_inputs, "qt") {
  auto reps = rep_circuits();
  for (size_t k = 0; k < reps.size(); k++) { Circ c = reps[k]; if (c[0].size() != 2) continue;
    for (long long a : IV) for (long long b : IV) for (int d = 0; d < 3; d++) {
      Circ e = c; e[0] = two_inputs(a, b); if (d == 1) { e[0][0].ty = ref::DUMMY; e[0][0].u = 0; } if (d == 2) e[0][1] = {ref::DUMMY, PROTO == 3 ? 0 : b, 0}; per_point(e, 7, visit_accept); } }
}
#if PROTO != 1
// depth: chains of layers
VF_GROUP(accept_depth, "qt") { for (int d = 1; d <= (vf::deep() ? 400 : vf::thorough() ? 200 : 60); d++) { std::vector<int> s(d, 2); per_point(shape(s, d), 8, visit_accept); } }
#else
VF_GROUP(accept_depth, "qt") { for (int d = 1; d <= (vf::deep() ? 1000 : vf::thorough() ? 400 : 120); d++) { std::vector<int> s(d, 2); per_point(shape(s, d), 8, visit_accept); } }
#endif

// ================================================================ the circuit's value
VF_GROUP(value_one_layer, "qt") { all_one_layer([](const Circ &c) { per_point(c, 1, visit_value); }); }
VF_GROUP(value_two_layers, "qt") { all_two_layers(true, [](const Circ &c) {
#if PROTO == 3
  visit_value(block_pt(c, 1, 1, 2));
#else
  per_point(c, 2, visit_value);
#endif
}); }
VF_GROUP(value_shapes, "qt") { all_shapes(vf::deep() ? 7 : vf::thorough() ? 6 : 5, {1, 2, 4, 8}, vf::thorough() ? 3 : 2, [](const Circ &c) { per_point(c, 3, visit_value); }); }
VF_GROUP(value_one_gate, "qt") { all_one_gate({2, 4, 8, 16}, [](const Circ &c) { per_point(c, 4, visit_value); }); }
VF_GROUP(value_large, "qt") { all_large(4, vf::deep() ? 17 : vf::thorough() ? 15 : 12, [](const Circ &c) { per_point(c, 5, visit_value); }); }
VF_GROUP(value_fan, "qt") { all_fan(PROTO == 3 ? vf::deep() ? 9 : vf::thorough() ? 7 : 6 : vf::deep() ? 13 : vf::thorough() ? 11 : 9, [](const Circ &c) { per_point(c, 10, visit_value); }); }
VF_GROUP(value_inputs, "qt") {
  auto reps = rep_circuits();
  for (auto &c : reps) if (c[0].size() == 2) for (long long a : IV) for (long long b : IV) for (int d = 0; d < 3; d++) {
    Circ e = c; e[0] = two_inputs(a, b); if (d == 1) e[0][0] = {ref::DUMMY, 0, 0}; if (d == 2) e[0][1] = {ref::DUMMY, PROTO == 3 ? 0 : b, 0}; per_point(e, 7, visit_value); }
}
// chains of squarings and sums drive the values through the whole field
VF_GROUP(value_chain, "qt") {
  int D = vf::deep() ? 1000 : vf::thorough() ? 400 : 120;
  for (long long a : IV) for (int pat = 0; pat < (PROTO == 1 ? 81 : 4); pat++) {
    static const int ty1[] = {0, 1, 5, 6, 7, 8, 9, 10, 1};
    Circ c; c.push_back(two_inputs(a, 3));
    for (int i = 0; i < D; i++) { int t0 = PROTO == 1 ? ty1[(pat + i) % 9] : (pat & 1 ? 1 : i & 1), t1 = PROTO == 1 ? ty1[(pat / 9 + i * 2) % 9] : (pat & 2 ? 1 : (i >> 1) & 1);
      auto mk = [&](int t, int s) -> Gate { if (t == 5) return {5, 0, 2}; if (t == 6 || t == 10) return {t, s, 0}; return {t, s, 1 - s}; };
      c.push_back({mk(t0, i & 1), mk(t1, 1 - (i & 1))}); }
    per_point(c, 9, visit_value);
  }
}
// the same circuit written with other white space
VF_GROUP(value_text, "qt") {
  for (auto &c : rep_circuits()) for (int f = 0; f < 4; f++) {
    auto go = [&](const Pt &p) { vf::visit([&] { return vf::fmt("spacing %d: ", f) + ctext(p); }, [&] {
      std::string t = ref::text(c), o; for (char ch : t) { if (f == 0) { o += ch == ' ' ? '\n' : ch; } else if (f == 1) { o += ch == '\n' ? ' ' : ch; } else if (f == 2) { if (ch == ' ') o += "  \t"; else if (ch == '\n') o += "\r\n"; else o += ch; } else { if (ch == '\n') o += "\n\n"; else o += ch; } }
      need_value(p, o); }); };
    per_point(c, 1, go);
  }
}

// ================================================================ false claims rejected
static void must_reject(bool accepted) {
  vf::count(0);
  if (!S.evaluated) vf::fail("the verifier decided without looking at the claimed output");
  auto want = ref_out(); bool falsec = false;
  for (size_t i = 0; i < want.size(); i++) if (i >= S.claimed.size() || S.claimed[i] != want[i]) falsec = true;
  if (!falsec) { vf::count(7); return; }
  if (accepted) vf::fail(vf::fmt("the verifier accepts a false output claim (protocol check expected to fail: #%d, error carried there %s)", S.a.t < 0 ? S.chk : S.a.t, S.failing.str().c_str()));
  vf::count(2);
}
static std::vector<F> targets() {
  std::vector<F> r{F(1), F(-1), ref::pow2(32), ref::pow2(64), ref::pow2(128), ref::pow2(192), F(0) - ref::pow2(128), ref::fromdec("98765432109876543210987654321098765432109876543210")};
  if (vf::thorough()) for (int k = 1; k < 254; k += vf::deep() ? 5 : 35) { r.push_back(ref::pow2(k)); r.push_back(F(0) - ref::pow2(k)); }
  return r;
}
// The prover carries an error through every check up to check t, where it goes back to honest
// messages: check t is the only one that can notice.
static int num_checks(const Pt &p) {
  int n = 0;
  for (size_t i = 0; i < p.c.size(); i++) { if (i == 0 && PROTO != 1) continue; int prev = ref::bits(p.c[i == 0 ? 0 : i - 1]); n += p.lb + 2 * prev + 1; }
  return n;
}
static void chain(const Pt &p, int oidx, int style, int rk, int l1, bool brief = false) {
  Adv a; a.on = true; a.claim = {{oidx, F(1)}}; a.style = style; a.rk = rk; a.l1 = l1;
  // how error 1 in the claimed output travels through the checks (the model's run of the full chain)
  bool have = false; std::vector<F> f; int nt = num_checks(p);
  auto probe = [&] { if (have) return; have = true; cheat(p, a); f = S.before; f.resize(nt); };
  vf::visit([&] { return vf::fmt("cheat to the last check, output %d, style %d, absorb %d/%d: ", oidx, style, rk, l1) + ctext(p); }, [&] { Adv b = a; bool acc = cheat(p, b); if (S.reached_final) vf::count(3); must_reject(acc); });
  auto T = targets(); if (brief) T = {F(1), ref::pow2(128)};
  for (int t = 0; t < nt; t++) for (size_t d = 0; d < T.size(); d++) {
    if (!brief && d >= 2 && t % 3 != (int)(d % 3) && !vf::thorough()) continue;      // quick: a third of the wide targets per check
    vf::visit([&] { return vf::fmt("cheat caught only by check %d with error %s, output %d, style %d, absorb %d/%d: ", t, T[d].str().c_str(), oidx, style, rk, l1) + ctext(p); }, [&] {
      probe();
      if (f[t].zero()) { vf::count(7); return; }
      Adv b = a; b.t = t; F k = T[d] / f[t]; b.claim = {{oidx, k}}; for (auto &x : b.vu_commit) x = x * k; must_reject(run(p, b)); });
  }
}
template <class FN> static void sound_points(FN fn) {
  for (auto &c : rep_circuits()) {
#if PROTO == 3
    fn(block_pt(c, 1, 1, 21)); fn(block_pt(c, 2, 2, 22)); if (vf::thorough()) { fn(block_pt(c, 0, 0, 23)); fn(block_pt(c, 3, 1, 24)); fn(block_pt(c, 1, 1, 25)); } if (vf::deep()) { fn(block_pt(c, 4, 1, 26)); fn(block_pt(c, 2, 0, 27)); }
#else
    Pt p; p.c = c; p.t.id = 21; fn(p); if (vf::thorough()) { p.t.id = 22; fn(p); p.t.id = 23; fn(p); } if (vf::deep()) for (int id = 24; id < 30; id++) { p.t.id = id; fn(p); }
#endif
  }
}
VF_GROUP(sound_chain, "qt") {
  sound_points([](const Pt &p) {
    int n = ref::width(p.c.back()) << p.lb;
    for (int o = 0; o < n; o++) { if (o > 1 && o != n - 1 && !(vf::thorough() && n <= 16)) continue;
      for (int st = 0; st < (PROTO == 3 ? 4 : 3); st++) for (int rk = 0; rk < 2; rk++) for (int l1 = 0; l1 < (PROTO == 1 ? 4 : 1); l1++) {
        if (!vf::thorough() && o && (st || l1 > 1)) continue;
        chain(p, o, st, rk, PROTO == 1 ? l1 : 0);
      } }
  });
}
// a check must not be lost in deep circuits, wide layers or (data-parallel) with many blocks
template <class FN> static void sound_far_points(FN fn) {
  auto go = [&](const Circ &c, int lb) {
#if PROTO == 3
    fn(block_pt(c, lb, 1, 28));
#else
    (void)lb; Pt p; p.c = c; p.t.id = 28; fn(p);
#endif
  };
  for (int d = 4; d <= (vf::deep() ? 24 : vf::thorough() ? 12 : 6); d++) for (int w : {2, 4}) go(shape(std::vector<int>(d, w), d), 1);
  for (int k = 4; k <= (vf::deep() ? 9 : vf::thorough() ? 7 : 5); k++) { int n = 1 << k; go(shape({n, n}, k), 1); go(shape({2, n, 2}, k), 1); go(shape({n, 4, n}, k), 1); go(shape({4, 8, n}, k), 1); }
  if (PROTO == 3) for (int lb = 3; lb <= (vf::deep() ? 6 : vf::thorough() ? 5 : 3); lb++) for (auto &c : {shape({2, 2}, 1), shape({4, 2}, 2), shape({2, 4, 2}, 3), shape({2}, 4)}) go(c, lb);
}
VF_GROUP(sound_far, "qt") {
  sound_far_points([](const Pt &p) { int n = ref::width(p.c.back()) << p.lb;
    for (int o : {0, n - 1}) for (int st = 0; st < 2; st++) for (int rk = 0; rk < 2; rk++) chain(p, o, st, rk, PROTO == 1 ? 3 * st : 0, true); });
}
// each layer may absorb the error in both values at once, in every ratio a weak weighting of the two would hide
VF_GROUP(sound_pairs, "qt") {
  sound_points([](const Pt &p) {
    for (int il = PROTO == 1 ? 2 : 1; il < (int)p.c.size() + (PROTO == 1 ? 1 : 0); il++) for (int q = 0; q < 4; q++) {
      vf::visit([&] { return vf::fmt("error split over both values at layer %d, ratio %d: ", il, q) + ctext(p); }, [&] {
        Adv a; a.on = true; a.claim = {{0, F(1)}}; a.ratio_layer = -1;
        a.rho = q == 0 ? F(-1) : q == 1 ? F(1) : F(0);
        cheat(p, a);
        if (q >= 2) {                                   // ratios that cancel against the weights this layer itself was given (known when the message is sent)
          if (il >= (int)S.lal.size()) { vf::count(7); return; } F al = S.lal[il], be = S.lbe[il]; if (be.zero() || al.zero()) { vf::count(7); return; }
          a.rho = q == 2 ? F(0) - al / be : F(0) - be / al; a.vu_commit.clear(); cheat(p, a); }
        if (il >= (int)S.fin_chk.size() || S.fin_chk[il] < 0 || S.before[S.fin_chk[il]].zero() || S.need[il].zero()) { vf::count(7); return; }
        Adv b = a; b.ratio_layer = il; b.claim = {{0, S.need[il] / S.before[S.fin_chk[il]]}}; b.vu_commit.clear();
        must_reject(cheat(p, b));
      });
    }
  });
}
// prover-supplied shortcuts
VF_GROUP(sound_shortcuts, "qt") {
  sound_points([](const Pt &p) { int n = ref::width(p.c.back()) << p.lb;
    for (int o = 0; o < n; o++) for (int k = 0; k < 2; k++) vf::visit([&] { return vf::fmt("shortcut %d, output %d: ", k, o) + ctext(p); }, [&] {
      Adv a; a.on = true; a.claim = {{o, k ? F(1) : ref::fromdec("123456789012345678901234567890")}}; if (k == 0) a.lie_vres = true; else { if (PROTO != 3) { a.l1 = L1_SWITCH; } else a.lie_blk = true; }
      must_reject(run(p, a)); });
    if (n >= 2) vf::visit([&] { return "two outputs exchanged: " + ctext(p); }, [&] {
      run(p, Adv()); if (S.outs.size() < 2 || S.outs[0] == S.outs[1]) { vf::count(7); return; }
      Adv a; a.on = true; F d = S.outs[1] - S.outs[0]; a.claim = {{0, d}, {1, F(0) - d}}; must_reject(run(p, a)); });
  });
}
// an honest proof for a different circuit or different inputs
static Pt mut_pt; static int mut_layer, mut_gate; static Gate mut_to;
static void apply_mut() {
#if PROTO == 3
  for (int b = 0; b < S.nb; b++) {
    auto &BC = gp->C;
    if (b == 0) { auto *nbk = new layered_circuit[S.nb]; for (int k = 0; k < S.nb; k++) nbk[k] = gv->C.blocks[k]; BC.blocks = nbk; }
    layered_circuit &LC = BC.blocks[b];
    layer *nl = new layer[LC.total_depth];
    for (int i = 0; i < LC.total_depth; i++) { nl[i].bit_length = LC.circuit[i].bit_length; int n = 1 << nl[i].bit_length; nl[i].gates = new gate[n]; for (int g = 0; g < n; g++) nl[i].gates[g] = LC.circuit[i].gates[g]; }
    LC.circuit = nl;
    if (mut_layer > 0 || b == S.nb - 1) nl[mut_layer].gates[mut_gate] = gate(mut_to.ty, (int)mut_to.u, (int)mut_to.v);
  }
#else
  layered_circuit &LC = gp->C; layer *nl = new layer[LC.total_depth];
  for (int i = 0; i < LC.total_depth; i++) { nl[i].bit_length = LC.circuit[i].bit_length; int n = 1 << nl[i].bit_length; nl[i].gates = new gate[n]; for (int g = 0; g < n; g++) nl[i].gates[g] = LC.circuit[i].gates[g]; }
  LC.circuit = nl;
  int L = mut_layer == 0 ? 0 : mut_layer + (PROTO == 1 ? 1 : 0);
  nl[L].gates[mut_gate] = gate(mut_to.ty, (int)mut_to.u, (int)mut_to.v);
#if PROTO == 4
  for (int i = 0; i < LC.total_depth; i++) for (int g = 0; g < 1 << nl[i].bit_length; g++) { gate &G = nl[i].gates[g]; nl[i].u_gates[G.u].push_back({G.ty, {g, G.v}}); nl[i].v_gates[G.v].push_back({G.ty, {g, G.u}}); }
#endif
#endif
}
VF_GROUP(sound_other_circuit, "qt") {
  sound_points([](const Pt &p) {
    for (size_t i = 0; i < p.c.size(); i++) for (size_t g = 0; g < p.c[i].size(); g++) {
      std::vector<Gate> alts; Gate o = p.c[i][g];
      if (i == 0) { if (p.lb) o.u = p.binp.back()[g]; alts = {{ref::INPUT, o.u + 1, 0}, {ref::INPUT, 0, 0}, {ref::INPUT, o.u ^ (1 << 20), 0}}; alts.push_back({ref::DUMMY, 0, 0}); if (g + 1 < p.c[0].size()) alts.push_back({ref::INPUT, p.c[0][g + 1].u, 0}); }
      else { alts = gates_over(ref::width(p.c[i - 1])); }
      int cnt = 0;
      for (auto &A : alts) {
        if (A.ty == o.ty && A.u == o.u && A.v == o.v) continue;
        if (!vf::thorough() && i > 0 && alts.size() > 60 && cnt++ % 3) continue;
        vf::visit([&] { return vf::fmt("honest proof of the circuit with gate %zu.%zu = (%d %lld %lld): ", i, g, A.ty, A.u, A.v) + ctext(p); }, [&] {
          mut_layer = (int)i; mut_gate = (int)g; mut_to = A; mutate_prover = apply_mut; bool acc;
          acc = run(p, Adv()); mutate_prover = nullptr; must_reject(acc); });
      }
    }
  });
}

// ================================================================ challenges
VF_GROUP(fresh_coins, "qt") {
  auto each = [](const Pt &p0) {
    vf::visit([&] { return "challenges of: " + ctext(p0); }, [&] {
      Pt p = p0; vf::count(0);
      if (!run(p, Adv())) vf::fail("the verifier rejects the honest prover"); 
      std::vector<F> base = S.chal; long nd = draws; bool sd = seeded;
      auto name = [&](size_t i) { return vf::fmt("challenge #%zu of %zu (in the order the prover learns them)", i, base.size()); };
      for (size_t i = 0; i < base.size(); i++) {
        vf::count(5);
        if (base[i].bits() < 64) vf::fail(name(i) + " is the small constant " + base[i].str());
        for (size_t j = 0; j < i; j++) if (base[i] == base[j]) vf::fail(name(i) + vf::fmt(" repeats challenge #%zu", j));
      }
      std::vector<bool> ok(base.size(), false);
      if (sd || nd == 0) {           // the verifier brings its own generator: it must not repeat itself
        fake_time += 17; run(p, Adv()); for (size_t i = 0; i < base.size(); i++) if (i < S.chal.size() && S.chal[i] == base[i]) vf::fail(name(i) + " is the same in two runs");
        return;
      }
      for (long k = 0; k < nd; k++) {
        p.t.flip = k; run(p, Adv());
        if (S.chal.size() != base.size()) vf::fail("the number of challenges depends on the coins");
        for (size_t i = 0; i < base.size(); i++) if (S.chal[i] != base[i]) { ok[i] = true; break; }
      }
      for (size_t i = 0; i < base.size(); i++) if (!ok[i]) vf::fail(name(i) + " is determined by what the prover already knows: no coin changes it and leaves the earlier ones alone");
    });
  };
  sound_points(each); sound_far_points(each);
}
// a second proof by the same verifier must not reuse the coins of the first
VF_GROUP(fresh_runs, "qt") {
  sound_points([](const Pt &p) { vf::visit([&] { return "two proofs in a row: " + ctext(p); }, [&] {
    vf::count(0); run(p, Adv()); auto a = S.chal; long d = draws;
    // same generator state carried on
    S = Sess(); S.c = p.c; S.lb = p.lb; S.nb = 1 << p.lb; S.binp = p.binp; long before = draws; bool sd = seeded; fake_time += 13;
    ar_reset(true); load(ref::text(p.c)); gp->get_circuit(gv->C); if (!gv->verify()) vf::fail("second honest proof rejected"); (void)d; (void)before; (void)sd;
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < S.chal.size(); j++) if (a[i] == S.chal[j]) vf::fail(vf::fmt("challenge #%zu of the second proof equals challenge #%zu of the first", j, i));
#ifndef NO_ARENA
    ar_on = false;
#endif
  }); });
}

// ================================================================ histories and memory
// every ordered pair/triple of circuits proved by one prover and one verifier, results as if alone
VF_GROUP(history, "qt") {
  std::vector<Circ> R{shape({2, 2}, 1), shape({8, 4}, 2), shape({1, 2, 1}, 3), shape({2, 4, 8}, 4), shape({16, 2, 2, 2}, 5), shape({4}, 6), shape({2, 8, 8}, 7)};
  if (vf::thorough()) { R.push_back(shape({32, 32}, 8)); R.push_back(shape({1}, 9)); R.push_back(shape({64, 2, 64}, 10)); }
  auto mk = [&](const Circ &c, int i) { Pt p;
#if PROTO == 3
    p = block_pt(c, i % 3, 1, 31);
#else
    p.c = c; p.t.id = 31;
#endif
    (void)i; return p; };
  // step kinds: honest proof, proof abandoned by a rejection, evaluation only
  int n = (int)R.size();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) for (int kinds = 0; kinds < 9; kinds++)
    vf::visit([&] { return vf::fmt("history %d(kind %d),%d(kind %d),%d", i, kinds % 3, j, kinds / 3, k); }, [&] {
      vf::count(0);
      int seq[3] = {i, j, k};
      for (int s = 0; s < 3; s++) {
        Pt p = mk(R[seq[s]], seq[s] + s);
        int kind = s == 0 ? kinds % 3 : s == 1 ? kinds / 3 : 0;
        if (kind == 1) { Adv a; a.on = true; a.claim = {{0, F(5)}}; a.t = (i * 5 + j * 3 + k) % std::max(1, num_checks(p)); must_reject(cheat(p, a)); }
        else if (kind == 2) need_value(p, ref::text(p.c));
        else { if (!run(p, Adv())) vf::fail(vf::fmt("honest proof %d of the history rejected: ", s) + ctext(p)); auto w = ref_out(); if (S.outs != w) vf::fail(vf::fmt("wrong output in step %d of the history: ", s) + ctext(p)); }
      } });
}
VF_GROUP(memory_shapes, "qt") { all_shapes(vf::thorough() ? 4 : 3, {1, 2, 4, 8}, 1, [](const Circ &c) { per_point(c, 3, visit_accept); }); }
VF_GROUP(memory_kinds, "qt") { for (auto &c : rep_circuits()) per_point(c, 4, visit_accept); }
VF_GROUP(memory_large, "qt") { all_large(4, PROTO == 1 || PROTO == 4 ? (vf::thorough() ? 12 : 9) : (vf::thorough() ? 9 : 6), [](const Circ &c) { Pt p; 
#if PROTO == 3
  p = block_pt(c, 1, 1, 5);
#else
  p.c = c; p.t.id = 5;
#endif
  visit_accept(p); }); }
VF_GROUP(memory_reject, "qt") { sound_points([](const Pt &p) { for (int t = 0; t < num_checks(p); t++) vf::visit([&] { return vf::fmt("rejected at %d: ", t) + ctext(p); }, [&] { Adv a; a.on = true; a.claim = {{0, F(5)}}; a.t = t; must_reject(run(p, a)); }); }); }

// ================================================================ the programs' verdict
static std::string scratch;
// runs a program in a scratch directory and returns what it printed
static std::string program(const Pt &p, int which, int copies, int lg) {
  setup(p); ar_reset(false);
  if (scratch.empty()) { char t[] = "/tmp/libra_prog_XXXXXX"; if (!mkdtemp(t)) abort(); scratch = t; }
  std::string txt = ref::text(p.c), path = scratch + "/test_circuit.txt";
  FILE *f = fopen(path.c_str(), "w"); fwrite(txt.data(), 1, txt.size(), f); fclose(f);
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(scratch.c_str())) abort();
  fflush(stdout); std::cout.flush(); int keep = dup(1); int cap = (int)syscall(SYS_memfd_create, "out", 0); dup2(cap, 1);
  std::string a1 = std::to_string(copies), a2 = std::to_string(lg); char *argv[] = {(char *)"prog", (char *)path.c_str(), (char *)a1.c_str(), (char *)a2.c_str(), nullptr};
  in_program = true; prog_copies = 0; int rc;
  rc = prog_main(PROTO == 1 || PROTO == 4 ? 1 : 4, argv);
  in_program = false; (void)rc; (void)which; vf::count(9); vf::count(1);
  fflush(stdout); std::cout.flush(); dup2(keep, 1); close(keep);
  std::string out; char b[4096]; lseek(cap, 0, SEEK_SET); ssize_t n; while ((n = read(cap, b, sizeof b)) > 0) out.append(b, n); close(cap);
  if (chdir(cwd)) abort(); unlink(path.c_str()); rmdir(scratch.c_str()); scratch.clear();
  return out;
}
static void verdict(const std::string &out, bool want, int copies) {
  vf::count(0);
  bool pass = out.find("Pass") != std::string::npos, fl = out.find("Fail") != std::string::npos;
  if (want && (!pass || fl)) vf::fail("every proof was honest, but the program printed: " + out.substr(0, 300));
  if (!want && (pass || !fl)) vf::fail("a proof was false, but the program printed: " + out.substr(0, 300));
  if (want && prog_copies != copies) vf::fail(vf::fmt("the program checked %d of %d proofs", prog_copies, copies));
}
VF_GROUP(program_verdict, "qt") {
  std::vector<Circ> R{shape({2, 2}, 1), shape({4, 2}, 2), shape({2, 4, 2}, 3), shape({1, 2, 1}, 4), shape({8, 4, 4}, 5)};
  if (vf::thorough()) { R.push_back(shape({16, 16}, 6)); R.push_back(shape({4, 2, 2, 2, 2}, 7)); }
  for (auto &c : R) for (int which = 0; which < 1; which++) for (int lg = 0; lg <= (PROTO == 1 || PROTO == 4 || which ? 0 : 3); lg++) {
    int copies = PROTO == 2 && !which ? 1 << lg : 1;
    Pt p; p.c = c; p.t.id = 41; p.lb = PROTO == 3 ? lg : 0;
    if (PROTO == 2 && !which && lg == 3) copies = vf::thorough() ? 11 : 7;
    int n = ref::width(c.back()) << p.lb;
    int arg = PROTO == 3 ? 1 << lg : copies;
    vf::visit([&] { return vf::fmt("program %d, %d honest copies or blocks: ", which, arg) + ctext(p); }, [&] { prog_cheat_at = -1; verdict(program(p, which, arg, lg), true, copies); });
    for (int k = 0; k < copies; k++) for (int o = 0; o < n; o++) for (int t = 0; t < 3; t++)
      vf::visit([&] { return vf::fmt("program %d, %d copies or blocks, proof %d claims output %d falsely (honest from check %d): ", which, arg, k, o, t) + ctext(p); }, [&] {
        prog_cheat_at = k; prog_out = o; prog_t = t; prog_err = F(t + 1); std::string out = program(p, which, arg, lg); prog_cheat_at = -1; verdict(out, false, copies); });
  }
}
