// Bounded spaces explored for the generators and translators.
namespace hx {
#if TOOL == 1
// ---------------------------------------------------------------- bin/gen
static void check_meta(const Circ &c, const vector<size_t> &lens, int lgblocks) {
  auto m = numbers(slurp("meta_data.txt"));
  if (m.size() != c.size()) vf::fail(vf::fmt("%zu lines of meta data for %zu layers", m.size(), c.size()));
  for (size_t i = 0; i < m.size(); i++) {
    vf::count(3);
    if (m[i].size() != 5) vf::fail("a meta data line does not have five numbers");
    if (m[i][0] * m[i][1] != (long long)c[i].size() || m[i][0] != (1LL << m[i][2]) || m[i][1] != (1LL << m[i][3]) || m[i][3] != lgblocks) vf::fail(vf::fmt("meta data of layer %zu (%lld %lld %lld %lld) does not describe its %zu gates", i, m[i][0], m[i][1], m[i][2], m[i][3], c[i].size()));
    if (m[i][4] != (long long)lens[i]) vf::fail(vf::fmt("meta data says layer %zu takes %lld characters, it takes %zu", i, m[i][4], lens[i]));
  }
}
// wires of a block stay inside the block
static void check_blocks(const Circ &c, int nb) {
  for (size_t i = 1; i < c.size(); i++) { long long bs = c[i].size() / nb, ps = c[i - 1].size() / nb;
    for (size_t g = 0; g < c[i].size(); g++) if (c[i][g].u / ps != (long long)g / bs || c[i][g].v / ps != (long long)g / bs) vf::fail(vf::fmt("gate %zu of layer %zu reads another block", g, i)); }
}
static Circ gen(const vector<string> &a, vector<size_t> *lens) { run(a); Circ c = parse(slurp("stdout"), lens); size_t n = 0; for (auto &L : c) n += L.size(); vf::count(4, n); vf::count(0); return c; }
VF_GROUP(gen_layers, "qt") {
  int D = vf::thorough() ? 40 : 14, W = vf::thorough() ? 12 : 9;
  for (int d = 2; d <= D; d++) for (int w = 1; w <= W; w++) for (int s = 1; s <= (vf::thorough() ? 6 : 3); s++) vf::visit([&] { return vf::fmt("gen 0 %d %d, draws %d", d, w, s); }, [&] {
    draw_base = s; vector<size_t> l; Circ c = gen({"gen", "0", std::to_string(d), std::to_string(w)}, &l);
    if ((int)c.size() != d || (int)c[0].size() != 1 << w) vf::fail("wrong shape");
    // d-2 layers of x XOR x0, then every second value
    vector<F> x; for (int j = 0; j < 1 << w; j++) { if (c[0][j].u != draw(j)) vf::fail("the inputs are not the draws"); x.push_back(F((long long)draw(j))); }
    for (int k = 1; k < d - 1; k++) { F y = x[0]; for (auto &e : x) e = e + y - F(2) * e * y; }
    vector<F> want; for (size_t j = 0; j < x.size(); j += 2) want.push_back(x[j]);
    if (want.size() == 1) want.push_back(F(0));
    expect(ref::eval(c).back(), want, "output"); });
}
VF_GROUP(gen_blocks, "qt") {
  int D = vf::thorough() ? 40 : 14, W = vf::thorough() ? 13 : 10;
  for (int d = 2; d <= D; d++) for (int w = 6; w <= W; w++) for (int s = 1; s <= (vf::thorough() ? 6 : 3); s++) vf::visit([&] { return vf::fmt("gen 1 %d %d, draws %d", d, w, s); }, [&] {
    draw_base = s; vector<size_t> l; Circ c = gen({"gen", "1", std::to_string(d), std::to_string(w)}, &l);
    if ((int)c.size() != d || (int)c[0].size() != 1 << w) vf::fail("wrong shape");
    vector<F> want; for (int j = 0; j < 1 << w; j += 2) { F a((long long)draw(j)), b((long long)draw(j + 1)); for (int k = 1; k < d - 1; k++) a = a + a, b = b + b; want.push_back(a * b); }
    expect(ref::eval(c).back(), want, "output"); check_meta(c, l, w - 5); check_blocks(c, 1 << (w - 5)); });
}
static void product(const char *mode, int n, int s, bool meta) {
  draw_base = s; vector<size_t> l; Circ c = gen({"gen", mode, std::to_string(n)}, &l);
  // draws may go to A and B alternately or to one after the other
  bool ok = false; auto out = ref::eval(c).back();
  if ((int)out.size() != (n == 1 ? 2 : n * n)) vf::fail(vf::fmt("%zu outputs for a product of %d x %d matrices", out.size(), n, n));
  for (int order = 0; order < 2 && !ok; order++) {
    vector<vector<long long>> A(n, vector<long long>(n)), B = A;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int k = i * n + j; A[i][j] = draw(order ? k : 2 * k) % 10; B[i][j] = draw(order ? n * n + k : 2 * k + 1) % 10; }
    ok = true;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long long x = 0; for (int k = 0; k < n; k++) x += A[i][k] * B[k][j]; vf::count(2); if (out[i * n + j] != F(x)) ok = false; }
  }
  if (!ok) vf::fail("the outputs are not the entries of the product A*B");
  if (meta) { check_meta(c, l, 2 * lg(n)); check_blocks(c, n * n); }
}
VF_GROUP(gen_product_tree, "qt") { for (int n = 1; n <= (vf::thorough() ? 64 : 32); n *= 2) for (int s = 1; s <= (n <= 8 ? 400 : n <= 32 ? 8 : 2); s++) vf::visit([&] { return vf::fmt("gen 2 %d, draws %d", n, s); }, [&] { product("2", n, s, true); }); }
VF_GROUP(gen_product_sum, "qt") { for (int n = 1; n <= (vf::thorough() ? 64 : 32); n *= 2) for (int s = 1; s <= (n <= 8 ? 400 : n <= 32 ? 8 : 2); s++) vf::visit([&] { return vf::fmt("gen 4 %d, draws %d", n, s); }, [&] { product("4", n, s, false); }); }
#else
// ---------------------------------------------------------------- the translators
enum { O_ADD, O_MUL, O_XOR, O_MINUS, O_NAAB, O_NOT, O_SS };
static const char *opname[] = {"+", "*", "XOR", "minus", "NAAB", "NOT", "SS"};
struct G { int op, a, b; };
struct Src { int nin; vector<G> gates; vector<int> outs; };     // variable k: input k, then the gates; outs: the outputs, by default the deepest level
static const long long DRAW = -(long long)(~0ull >> 1) - 1;
struct Rdl { vector<long long> konst; vector<int> pass; int omap = 0; int base = 0; };   // source j: constant konst[j] or the next draw
static vector<F> eval_src(const Src &s, const vector<F> &in) {
  vector<F> x = in;
  for (auto &g : s.gates) { F a = x[g.a], b = x[g.b], r; switch (g.op) { case O_ADD: r = a + b; break; case O_MUL: r = a * b; break; case O_XOR: r = a + b - F(2) * a * b; break; case O_MINUS: r = a - b; break; case O_NAAB: r = (F(1) - a) * b; break; case O_NOT: r = F(1) - a; break; case O_SS: for (int k = g.a; k <= g.b; k++) r = r + x[k]; break; } x.push_back(r); }
  return x;
}
static vector<int> levels(const Src &s) { vector<int> l(s.nin, 0); for (auto &g : s.gates) { int m = 0; if (g.op == O_SS) for (int k = g.a; k <= g.b; k++) m = std::max(m, l[k]); else if (g.op == O_NOT) m = l[g.a]; else m = std::max(l[g.a], l[g.b]); l.push_back(m + 1); } return l; }
static vector<F> rdl_sources(const Rdl &r) { vector<F> v; uint64_t k = 0; for (auto c : r.konst) v.push_back(c != DRAW ? F(c) : F((long long)draw(k++))); return v; }
static int stride = 1;                                           // variable names k*stride+off of the source
static string var(int k) { return "V" + std::to_string(k * stride); }
static string pws(const Src &s) {
  string t; for (int k = 0; k < s.nin; k++) t += "P " + var(k) + " = I" + std::to_string(k) + " E\n";
  int k = s.nin; for (auto &g : s.gates) { t += "P " + var(k) + " = " + var(g.a) + " " + opname[g.op] + " " + var(g.b) + " E\n"; k++; }
  auto l = levels(s); int mx = *std::max_element(l.begin(), l.end()), o = 0; for (size_t i = 0; i < l.size(); i++) if (s.outs.empty() ? l[i] == mx : std::count(s.outs.begin(), s.outs.end(), (int)i) > 0) t += "P O" + std::to_string(100 + o++) + " = " + var((int)i) + " E\n";
  return t;
}
// position of pass p among the outputs of the data layer
static int opos(const Rdl &r, int p) { int n = (int)r.pass.size(); return r.omap == 0 ? p : r.omap == 1 ? n - 1 - p : (p + n / 2) % n; }
static string rdltext(const Rdl &r) {
  string t; int ns = (int)r.konst.size(), ni = 0;
  for (int j = 0; j < ns; j++) t += "P V" + std::to_string(j + r.base) + " = " + (r.konst[j] != DRAW ? std::to_string(r.konst[j]) : "I" + std::to_string(ni++)) + " E\n";
  for (size_t p = 0; p < r.pass.size(); p++) t += "P V" + std::to_string(ns + p + r.base) + " = V" + std::to_string(r.pass[p] + r.base) + " PASS V" + std::to_string(r.pass[p] + r.base) + " E\n";
  for (size_t p = 0; p < r.pass.size(); p++) t += "P O" + std::to_string(ns + 50 + opos(r, (int)p)) + " = V" + std::to_string(ns + p + r.base) + " E\n";
  return t;
}
static bool early(const Src &s, size_t i) { return std::count(s.outs.begin(), s.outs.end(), (int)i) > 0; }
// where outputs are computed before the last level, their place in the last layer is the tool's choice: compared as a multiset per copy
static void sorted_if_early(const Src &s, const vector<int> &lv, int mx, int parts, vector<F> &a, vector<F> &b) {
  bool e = false; for (int i : s.outs) e = e || lv[i] != mx; if (!e || a.size() != b.size()) return;
  size_t n = a.size() / parts; auto less = [](const F &x, const F &y) { return mpn_cmp(x.l, y.l, 4) < 0; };
  for (auto v : {&a, &b}) for (int p = 0; p < parts; p++) std::sort(v->begin() + p * n, v->begin() + (p + 1) * n, less);
}
static void check(const Src &s, const Rdl &r, int rep) {
  put("c.pws", pws(s)); put("c.rdl", rdltext(r)); vf::count(0);
  auto src = rdl_sources(r); auto lv = levels(s); int mx = *std::max_element(lv.begin(), lv.end());
  vector<vector<F>> val;                                         // per copy
#if TOOL == 2
  run({"tool", "c.pws", "c.rdl"});
  Circ c = parse(slurp("test_circuit.txt"));
  vector<F> pos(r.pass.size()); for (size_t p = 0; p < r.pass.size(); p++) pos[opos(r, (int)p)] = src[r.pass[p]];
  for (int b = 0; b < rep; b++) val.push_back(eval_src(s, vector<F>(pos.begin() + b * s.nin, pos.begin() + (b + 1) * s.nin)));
  auto w = ref::eval(c); if (w.back().size() % rep) vf::fail("the last layer is not divided into the copies");
  size_t bs = w.back().size() / rep; vector<F> want;
  for (int b = 0; b < rep; b++) { size_t n = 0; for (size_t i = 0; i < lv.size(); i++) if (lv[i] == mx || early(s, i)) { want.push_back(val[b][i]); n++; } if (n > bs) vf::fail("the last layer is too small for the outputs"); for (; n < bs; n++) want.push_back(F(0)); }
  sorted_if_early(s, lv, mx, rep, w.back(), want);
  expect(w.back(), want, "output");
  if ((int)c.size() != mx + 3) vf::fail(vf::fmt("%zu layers for a circuit of depth %d", c.size(), mx));
  // the meta data and the blocks
  auto m = numbers(slurp("meta_data_linear.txt"));
  if (m.size() != c.size()) vf::fail(vf::fmt("%zu lines of meta data for %zu layers", m.size(), c.size()));
  for (size_t i = 0; i < m.size(); i++) {
    vf::count(3); if (m[i].size() != 5) vf::fail("a meta data line does not have five numbers");
    if (m[i][0] != (i >= 2)) vf::fail(vf::fmt("meta data marks layer %zu as %lld", i, m[i][0]));
    if (i == 0) continue;
    if (m[i][2] != rep || m[i][4] != lg(rep) || m[i][1] * m[i][2] != (long long)c[i].size() || m[i][1] != (1LL << m[i][3])) vf::fail(vf::fmt("meta data of layer %zu (%lld %lld %lld %lld) does not describe its %zu gates in %d copies", i, m[i][1], m[i][2], m[i][3], m[i][4], c[i].size(), rep));
    if (i >= 2) { long long b1 = c[i].size() / rep, b0 = c[i - 1].size() / rep;
      for (size_t g = 0; g < c[i].size(); g++) { const Gate &q = c[i][g], &f = c[i][g % b1]; long long o = (long long)g / b1 * b0;
        long long v = f.ty == ref::RELAY || f.ty == ref::NOT ? 0 : f.v + o; if (q.ty == ref::DUMMY && f.ty == ref::DUMMY) continue;
        if (q.ty != f.ty || q.u != f.u + o || q.v != v) vf::fail(vf::fmt("gate %zu of layer %zu is not the copy of its block's gate", g, i)); } }
  }
#else
  run({"tool", "c.pws", "c.rdl", std::to_string(rep)});
  Circ c = parse(slurp(TOOL == 3 ? "lanczos_circuit.txt" : "sha_circuit.txt"));
  for (int b = 0; b < rep; b++) { vector<F> in; for (int k = 0; k < s.nin; k++) in.push_back(src[r.pass[k * rep + b]]); val.push_back(eval_src(s, in)); }
  auto w = ref::eval(c); vector<F> want(1, F(0));                // the zero of the layer comes first
  for (size_t i = 0; i < lv.size(); i++) if (lv[i] == mx || early(s, i)) for (int b = 0; b < rep; b++) want.push_back(val[b][i]);
  if (want.size() > w.back().size()) vf::fail("the last layer is too small for the outputs");
  want.resize(w.back().size());
  sorted_if_early(s, lv, mx, 1, w.back(), want);
  expect(w.back(), want, "output");
  if ((int)c.size() != mx + 2) vf::fail(vf::fmt("%zu layers for a circuit of depth %d", c.size(), mx));
#endif
  size_t n = 0; for (auto &L : c) n += L.size(); vf::count(4, n);
}
static void visit(const Src &s, const Rdl &r, int rep, int st = 1) { vf::visit([&] { stride = st; return vf::fmt("copies %d, source: ", rep) + oneline(pws(s)) + " data: " + oneline(rdltext(r)); }, [&] { stride = st; draw_base = 3; check(s, r, rep); }); }
static vector<int> kinds() {
#if TOOL == 2
  return {O_ADD, O_MUL, O_XOR, O_MINUS, O_NAAB, O_NOT, O_SS};
#elif TOOL == 3
  return {O_ADD, O_MUL};
#else
  return {O_ADD, O_MUL, O_XOR, O_MINUS, O_NAAB, O_NOT};
#endif
}
// every gate that may come next
static vector<G> next_gates(const Src &s, const vector<int> &K) {
  vector<G> r; auto l = levels(s); int n = (int)l.size();
  for (int op : K) {
    if (op == O_NOT) for (int a = 0; a < n; a++) r.push_back({op, a, a});
    else if (op == O_SS) { for (int a = 0; a < n; a++) for (int b = a; b < n && l[b] == l[a]; b++) r.push_back({op, a, b}); }
    else for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) r.push_back({op, a, b});
  }
  return r;
}
template <class FN> static void all_src(int nin, int ng, const vector<int> &K, FN fn) {
  Src s; s.nin = nin;
  std::function<void()> rec = [&] { if ((int)s.gates.size() == ng) { fn(s); return; } for (auto &g : next_gates(s, K)) { s.gates.push_back(g); rec(); s.gates.pop_back(); } };
  rec();
}
static Rdl rdl_for(int outs, int salt) { Rdl r; r.konst = {DRAW, 7, DRAW, salt & 2 ? 0 : -80084992}; for (int p = 0; p < outs; p++) r.pass.push_back((p * (salt % 3 + 1) + salt) % 4); if (salt & 1) { r.pass[0] = 0; if (outs > 1) r.pass[1] = 2; } return r; }
// all circuits of few gates, every kind and wiring, one to four copies
VF_GROUP(translate_small, "qt") {
  int REP = 4; auto K = kinds(); int salt = 0;
  for (int nin = 1; nin <= 3; nin++) for (int ng = 1; ng <= 2; ng++) all_src(nin, ng, K, [&](const Src &s) { for (int rep = 1; rep <= REP; rep *= 2) { if (nin == 3 && ng == 2 && rep == 4 && !vf::thorough()) continue; visit(s, rdl_for(s.nin * rep, salt++ % 6), rep); } });
}
VF_GROUP(translate_three, "qt") {
  vector<int> K = TOOL == 3 ? vector<int>{O_ADD, O_MUL} : TOOL == 2 ? vector<int>{O_MINUS, O_SS, O_NOT} : vector<int>{O_MINUS, O_NOT, O_MUL};
  if (vf::thorough()) K = kinds();
  all_src(2, 3, K, [&](const Src &s) { visit(s, rdl_for(s.nin * 2, 1), 2); });
}
#if TOOL == 2
// summation gates need their range on one level: inputs, one layer over them, then any ranges of it
VF_GROUP(translate_sums, "qt") {
  for (int n = 1; n <= (vf::thorough() ? 10 : 7); n++) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int a2 = 0; a2 < n; a2++) for (int b2 = a2; b2 < n; b2++) for (int rep = 1; rep <= 2; rep++) {
    Src s; s.nin = n; for (int k = 0; k < n; k++) s.gates.push_back({O_XOR, k, (k + 1) % n});
    s.gates.push_back({O_SS, n + a, n + b}); s.gates.push_back({O_SS, n + a2, n + b2}); visit(s, rdl_for(n * rep, 1), rep); }
  for (int n = 1; n <= 9; n++) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) { Src s; s.nin = n; s.gates.push_back({O_SS, a, b}); s.gates.push_back({O_MUL, n, 0}); visit(s, rdl_for(n * 4, 3), 4); }
}
#endif
// outputs at any level: every set of outputs of every small circuit, and of a chain
VF_GROUP(translate_outputs, "qt") {
  auto K = kinds(); if (!vf::thorough() && TOOL != 3) K = TOOL == 2 ? vector<int>{O_MINUS, O_NOT, O_SS, O_XOR} : vector<int>{O_MINUS, O_NOT, O_NAAB};
  for (int ng = 1; ng <= 2; ng++) all_src(2, ng, K, [&](const Src &s0) { for (int set = 1; set < 1 << (2 + ng); set++) { Src s = s0; for (int k = 0; k < 2 + ng; k++) if (set >> k & 1) s.outs.push_back(k); visit(s, rdl_for(s.nin * 2, 1), 2); } });
  for (int depth = 2; depth <= (vf::thorough() ? 9 : 7); depth++) for (int set = 1; set < 1 << (depth + 2); set++) for (int rep = 1; rep <= 2; rep++) {
    Src s; s.nin = 2; for (int d = 0; d < depth; d++) s.gates.push_back({d & 1 ? O_MUL : O_ADD, d ? 1 + d : 0, d % 3 ? 1 + d : 1});
    for (int k = 0; k < depth + 2; k++) if (set >> k & 1) s.outs.push_back(k);
    visit(s, rdl_for(2 * rep, 1), rep); }
}
// values that travel several layers before they are used
VF_GROUP(translate_relays, "qt") {
  auto K = kinds();
  for (int depth = 1; depth <= (vf::thorough() ? 24 : 9); depth++) for (int op : K) { if (op == O_SS) continue;
    for (int late = 0; late < 4; late++) for (int side = 0; side < 2; side++) for (int rep = 1; rep <= 4; rep *= 2) {
      Src s; s.nin = 3; int top = 0;
      for (int d = 0; d < depth; d++) { s.gates.push_back({d % 2 ? O_ADD : O_MUL, top, late == 1 ? 1 : top}); top = 3 + d; }
      int old = late == 3 ? 3 + depth / 2 : late; if (old >= 3 + depth) continue;
      s.gates.push_back(op == O_NOT ? G{O_NOT, old, old} : side ? G{op, old, top} : G{op, top, old}); int x = 3 + depth;
      s.gates.push_back({O_MUL, x, old}); s.gates.push_back({O_ADD, old, x + 1});
      visit(s, rdl_for(3 * rep, late), rep); } }
}
// layer sizes around powers of two
VF_GROUP(translate_widths, "qt") {
  auto K = kinds();
  for (int n = 1; n <= (vf::thorough() ? 40 : 18); n++) for (int m = 1; m <= (vf::thorough() ? 40 : 18); m++) for (int rep = 1; rep <= 4; rep *= 2) {
    Src s; s.nin = n; for (int k = 0; k < m; k++) { int op = K[k % (K.size() - (TOOL == 2))]; int a = k % n, b = (k * 3 + 1) % n; if (op == O_NOT) b = a; s.gates.push_back({op, a, b}); }
    visit(s, rdl_for(n * rep, 1 + m % 5), rep); }
}
// every way the data layer can feed the copies
static const long long KV[10] = {5, 0, -1, 2147483648LL, -2147483648LL, 4286316544LL, -80084992, -4294967297LL, (long long)(~0ull >> 1), DRAW + 1};
VF_GROUP(translate_data, "qt") {
  for (int nin = 1; nin <= 3; nin++) for (int rep = 1; rep <= 4; rep *= 2) { int n = nin * rep; if (n > (vf::thorough() ? 8 : 6)) continue;
    for (int ns = 1; ns <= 3; ns++) { int tot = 1; for (int k = 0; k < n; k++) tot *= ns; for (int x = 0; x < tot; x++) for (int om = 0; om < (TOOL == 2 ? 3 : 1); om++) {
      Rdl r; r.omap = om; for (int j = 0; j < ns; j++) r.konst.push_back(j == 1 ? KV[x % 10] : DRAW); int y = x; for (int k = 0; k < n; k++) { r.pass.push_back(y % ns); y /= ns; }
      Src s; s.nin = nin; for (int k = 0; k < nin; k++) s.gates.push_back({O_MUL, k, (k + 1) % nin}); s.gates.push_back({O_ADD, nin, 0});
      visit(s, r, rep); } } }
}
// gaps in the numbering, many copies
VF_GROUP(translate_names, "qt") {
  for (int st = 1; st <= 5; st += 2) for (int b0 = 0; b0 <= 40; b0 += 20) for (int rep = 1; rep <= 16; rep *= 2) for (int k = 0; k < 12; k++) {
    Src s; s.nin = 2; auto K = kinds(); int op = K[k % (K.size() - (TOOL == 2))]; s.gates.push_back(op == O_NOT ? G{op, 1, 1} : G{op, 0, 1}); s.gates.push_back({O_ADD, 2, k & 1}); s.gates.push_back({O_MUL, 3, 2});
    Rdl r = rdl_for(2 * rep, k); r.base = b0; if (TOOL == 3 && st > 1) continue; visit(s, r, rep, st); }
}
#endif
} // namespace hx
