// Bounded spaces explored for the SHA-256 constraint program and the Merkle data layer.
namespace hx {
// ---------------------------------------------------------------- S01: the constraint program
VF_GROUP(sha_accept, "qt") {
  auto C = cases(true);
  for (auto &p : progs) for (auto &c : C) vf::visit([&] { return p.name + ": honest trace, " + c.name; }, [&] {
    usable(p); vf::count(C_POINTS); Trace t = trace(c.m, c.H, c.K); u32 o[8]; digest(c.m, c.H, c.K, o);
    if (memcmp(o, t.out, 32)) vf::fail("the reference trace is wrong");
    int f = 0, n = nonzero(p, t.in, &f); if (n) vf::fail(vf::fmt("%d of %zu outputs of a correct computation are not zero, the first is output %d", n, p.outs.size(), f));
    vf::count(C_ACC); });
}
VF_GROUP(sha_forge, "qt") {
  auto C = cases(false); if (!vf::thorough()) C.resize(2);
  auto D = deviations();
  for (auto &p : progs) for (auto &c : C) for (auto &d : D) vf::visit([&] { return p.name + ": " + c.name + vf::fmt(", forged: %s %d, bit %d", kname[d.kind], d.i, d.j); }, [&] {
    usable(p); vf::count(C_POINTS); Trace t = trace(c.m, c.H, c.K, d);
    if (!nonzero(p, t.in)) vf::fail("every output is zero although the trace is not a computation of the digest");
    vf::count(C_REJ); });
}
// every input that stands for a bit has an output that depends on it alone and vanishes exactly on 0 and 1
VF_GROUP(sha_bits, "qt") {
  for (auto &p : progs) {
    // inputs each slot depends on: none, one, or many
    vector<int> dep(p.first + p.ops.size(), -1);                 // -1 none, -2 many
    for (int k = 0; k < p.first; k++) if (p.inv[k] >= 0) dep[p.inv[k]] = k;
    auto join = [](int a, int b) { return a == -1 ? b : b == -1 || a == b ? a : -2; };
    for (size_t i = 0; i < p.ops.size(); i++) { auto &g = p.ops[i]; int d = dep[g.a]; if (g.op == O_WSUM) for (int k = g.a; k <= g.b; k++) d = join(d, dep[k]); else if (g.op != O_NOT && g.op != O_BIT) d = join(d, dep[g.b]); dep[p.first + i] = d; }
    auto group = [&](int pos, int n, const char *what) {
      for (int k = pos; k < pos + n; k++) vf::visit([&] { return p.name + vf::fmt(": %s, input %d is a bit", what, k); }, [&] {
        usable(p); vf::count(C_POINTS); bool ok = false; vector<int> out; for (size_t i = 0; i < p.outs.size(); i++) if (dep[p.outs[i]] == k) out.push_back(p.outs[i]);
        // evaluate only what depends on this input
        auto value = [&](int slot, const F &x) { std::function<F(int)> ev = [&](int s) -> F { if (s < p.first) return x; auto &g = p.ops[s - p.first]; F a = ev(g.a); if (g.op == O_NOT) return F(1) - a; if (g.op == O_BIT) return (F(1) - a) * a; if (g.op == O_WSUM) { F r; for (int q = g.b; q >= g.a; q--) r = r + r + ev(q); return r; } F b = ev(g.b); switch (g.op) { case O_ADD: return a + b; case O_MUL: return a * b; case O_MINUS: return a - b; case O_XOR: return a + b - F(2) * a * b; default: return (F(1) - a) * b; } }; return ev(slot); };
        vector<F> not_bits = {F(2), F(-1), F(3), F(-2), F(1) / F(2), ref::pow2(32), ref::pow2(31), ref::pow2(34), ref::pow2(128), F(4), F(5), F(65537)};
        for (int s : out) { bool good = value(s, F(0)).zero() && value(s, F(1)).zero(); for (auto &x : not_bits) { vf::count(C_EVALS); good = good && !value(s, x).zero(); } ok = ok || good; }
        if (!ok) vf::fail("no output keeps this input in {0, 1}");
        vf::count(C_REJ); });
    };
    group(P_WB, 15 * 32 + 48 * 34, "bits of the message words"); group(P_HB, 8 * 33, "bits of the digest"); group(P_INIT, 192, "bits of the chaining value"); group(P_A, 128 * 35, "bits of the working variables");
  }
}

// ---------------------------------------------------------------- S02: the Merkle data layer
// an object of the tree: shared constants of the hash, or something of one block
static string role(int b, int pos, int m) {
  int nb = (2 << m) - 1, leaves = 1 << m; auto child = [&](int b, int side) { int first = 0, n = leaves; while (b >= first + n) { first += n; n /= 2; } int prev = first - 2 * n; return prev + 2 * (b - first) + side; };
  auto hout = [&](int blk, int i) { return blk == nb - 1 ? vf::fmt("root %d", i) : vf::fmt("block %d digest %d", blk, i); };
  if (pos < 34) return vf::fmt("constant %d", pos);
  if (pos < P_WB) { int i = pos - P_W; if (i < 16 && b >= leaves) return hout(child(b, i / 8), i % 8); return vf::fmt("block %d word %d", b, i); }
  if (pos < P_WB16) { int i = 1 + (pos - P_WB) / 32, j = (pos - P_WB) % 32; if (b >= leaves) return vf::fmt("block %d digest bits %d.%d", child(b, i / 8), i % 8, j); return vf::fmt("block %d word bits %d.%d", b, i, j); }
  if (pos < P_K) return vf::fmt("block %d word bits %d.%d", b, 16 + (pos - P_WB16) / 34, (pos - P_WB16) % 34);
  if (pos < P_H) return vf::fmt("K %d", pos - P_K);
  if (pos < P_HO) return vf::fmt("H %d", pos - P_H);
  if (pos < P_HB) return hout(b, pos - P_HO);
  if (pos < P_INIT) return vf::fmt("block %d digest bits %d.%d", b, (pos - P_HB) / 33, (pos - P_HB) % 33);
  if (pos < P_A) return vf::fmt("initial bits %d.%d", (pos - P_INIT) / 32, (pos - P_INIT) % 32);
  return vf::fmt("block %d working bits %d", b, pos - P_A);
}
static string rdlfile(const Gen &g) { return g.dir + vf::fmt("/SHA256_64_merkle_%d_rdl.pws", g.m); }
static bool is_public(const string &r) { return r[0] == 'K' || r[0] == 'H' || r.compare(0, 4, "root") == 0 || r.compare(0, 7, "initial") == 0; }
VF_GROUP(tree_layout, "qt") {
  for (auto &g : gens) vf::visit([&] { return vf::fmt("%s, tree of %d leaves, padding %s: what each input of each block is", g.script, 1 << g.m, g.pad ? "on" : "off"); }, [&] {
    if (g.status) vf::fail(vf::fmt("the generator ended with %d: ", g.status) + slurp(g.dir + "/log").substr(0, 500));
    vf::count(C_POINTS); Data d = read_rdl(rdlfile(g)); if (!d.why.empty()) vf::fail("the data layer is not well formed: " + d.why);
    int nb = (2 << g.m) - 1; if (d.src.size() != (size_t)(nb + 1) * NIN) vf::fail(vf::fmt("%zu outputs for %d blocks of %d inputs", d.src.size(), nb + 1, (int)NIN));
    std::unordered_map<string, long long> at; std::unordered_map<long long, string> what; long long lastpub = -1, firstpriv = 1LL << 60, lastpriv = -1;
    for (int b = 0; b <= nb; b++) for (int k = 0; k < NIN; k++) {
      long long s = d.src[(size_t)b * NIN + k]; string r = role(b == nb ? nb - 1 : b, k, g.m); vf::count(C_TESTS);
      auto say = [&] { return vf::fmt("block %d input %d (%s)", b, k, r.c_str()); };
      if (k < 34) { long long want = k ? 2LL << k : 0; if (s >= 0 || d.konst[-s - 1] != want) vf::fail(say() + vf::fmt(" is not the constant %lld", want)); continue; }
      if (s < 0) vf::fail(say() + " is a constant");
      auto i = at.emplace(r, s); if (i.first->second != s) vf::fail(say() + vf::fmt(" reads input %lld, but elsewhere this is input %lld", s, i.first->second));
      auto j = what.emplace(s, r); if (j.first->second != r) vf::fail(say() + " reads the input that is also " + j.first->second);
      if (is_public(r)) lastpub = std::max(lastpub, s); else { firstpriv = std::min(firstpriv, s); lastpriv = std::max(lastpriv, s); }
    }
    if (lastpub >= firstpriv) vf::fail("a private input comes before a public one");
    if (g.pad) { if (firstpriv & (firstpriv - 1)) vf::fail(vf::fmt("the private inputs start at %lld, not a power of two", firstpriv)); if (lastpriv >= 2 * firstpriv) vf::fail("the private inputs are not one aligned half"); if (d.ninputs + 34 != lastpriv + 1) vf::fail("the inputs are not numbered from 34 on"); }
    else if (d.ninputs != (long long)at.size()) vf::fail(vf::fmt("%lld inputs for %zu values", d.ninputs, at.size())); });
}
// values of the whole tree, by role
struct Tree { int m; vector<Trace> t; vector<vector<u32>> msg; };
static Tree tree(int m, int salt, int forged_block = -1, int word = 0, int bit = 0) {   // a forged block hashes another message than the tree says
  Tree T; T.m = m; int leaves = 1 << m, nb = 2 * leaves - 1, first = 0, n = leaves; vector<vector<u32>> dig;
  for (int b = 0; b < nb; b++) {
    if (b == first + n) { first += n; n /= 2; } vector<u32> w(16);
    if (b < leaves) for (int i = 0; i < 16; i++) w[i] = (u32)ref::mix(salt * 4096 + b * 16 + i);
    else for (int i = 0; i < 16; i++) w[i] = dig[first - 2 * n + 2 * (b - first) + i / 8][i % 8];
    auto h = w; if (b == forged_block) h[word] ^= 1u << bit;
    T.msg.push_back(w); T.t.push_back(trace(h.data(), HS, KS)); dig.push_back(vector<u32>(T.t.back().out, T.t.back().out + 8));
  }
  return T;
}
static std::unordered_map<string, F> values(const Tree &T, const u32 *root) {
  std::unordered_map<string, F> v; int nb = (int)T.t.size(), leaves = 1 << T.m;
  for (int b = nb - 1; b >= 0; b--) for (int k = 34; k < NIN; k++) { if (b >= leaves && ((k >= P_W && k < P_W + 16) || (k >= P_WB && k < P_WB16))) continue; v[role(b, k, T.m)] = T.t[b].in[k]; }   // the message of an inner block is its children's digests
  if (root) for (int i = 0; i < 8; i++) v[vf::fmt("root %d", i)] = F((long long)root[i]);
  return v;
}
// the data layer feeds the program: honest trees are accepted, any other root or a block that hashes another message is not
VF_GROUP(tree_check, "qt") {
  for (auto &g : gens) { if (g.m > (vf::thorough() ? 4 : 2)) continue;
    const Prog *p = nullptr; for (auto &q : progs) if (q.name == g.script) p = &q;
    int nb = (2 << g.m) - 1;
    auto run = [&](const Tree &T, const u32 *root) {
      if (g.status) vf::fail("the generator failed"); usable(*p); vf::count(C_POINTS);
      static std::map<string, Data> cache; auto it = cache.find(g.dir); if (it == cache.end()) it = cache.emplace(g.dir, read_rdl(rdlfile(g))).first; Data &d = it->second;
      if (!d.why.empty() || d.src.size() != (size_t)(nb + 1) * NIN) vf::fail("the data layer is not well formed");
      // an input's value is that of its first reader in the layout; the layout group pins the rest
      auto v = values(T, root); std::unordered_map<long long, F> in; for (int b = 0; b < nb; b++) for (int k = 34; k < NIN; k++) { long long s = d.src[(size_t)b * NIN + k]; if (s >= 0 && !in.count(s)) in[s] = v[role(b, k, g.m)]; }
      int bad = 0; for (int b = 0; b <= nb; b++) { vector<F> x(NIN); for (int k = 0; k < NIN; k++) { long long s = d.src[(size_t)b * NIN + k]; x[k] = s < 0 ? F(d.konst[-s - 1]) : in[s]; } if (nonzero(*p, x)) bad++; }
      return bad; };
    auto name = [&](const char *w) { return vf::fmt("%s, tree of %d leaves, padding %s: %s", g.script, 1 << g.m, g.pad ? "on" : "off", w); };
    for (int s = 0; s < (vf::thorough() ? 20 : 4); s++) vf::visit([&] { return name("honest") + vf::fmt(" %d", s); }, [&] { int n = run(tree(g.m, s), nullptr); if (n) vf::fail(vf::fmt("%d blocks of an honest tree are rejected", n)); vf::count(C_ACC); });
    for (int i = 0; i < 8; i++) for (int j = 0; j < 32; j += vf::thorough() ? 1 : 5) vf::visit([&] { return name("other root") + vf::fmt(", word %d bit %d", i, j); }, [&] { Tree T = tree(g.m, 1); u32 r[8]; memcpy(r, T.t.back().out, 32); r[i] ^= 1u << j; if (!run(T, r)) vf::fail("accepted with another root"); vf::count(C_REJ); });
    for (int b = 1 << g.m; b < nb; b++) for (int w = 0; w < 16; w++) for (int j : {0, 31, 13}) vf::visit([&] { return name("forged block") + vf::fmt(" %d, word %d bit %d", b, w, j); }, [&] { if (!run(tree(g.m, 1, b, w, j), nullptr)) vf::fail("a block that does not hash its children's digests is accepted"); vf::count(C_REJ); });
  }
}
// the translated circuit of a tree whose inputs are written as constants
static string with_values(const Gen &g, const Tree &T, const u32 *root) {
  Data d = read_rdl(rdlfile(g)); auto v = values(T, root); std::unordered_map<long long, F> in; int nb = (int)T.t.size();
  for (int b = 0; b < nb; b++) for (int k = 34; k < NIN; k++) { long long s = d.src[(size_t)b * NIN + k]; if (s >= 0 && !in.count(s)) in[s] = v[role(b, k, g.m)]; }
  std::ifstream f(rdlfile(g)); string l, o; while (std::getline(f, l)) { long long a, b; if (sscanf(l.c_str(), "P V%lld = I%lld E", &a, &b) == 2) l = vf::fmt("P V%lld = %s E", a, in.count(b) ? in[b].str().c_str() : "0"); o += l + "\n"; }
  return o;
}
static ref::Circ translated(const Gen &g, const string &rdl) {
  string dir = base + vf::fmt("/t%d", (int)getpid()); mkdir(dir.c_str(), 0700); { std::ofstream o(dir + "/r.pws"); o << rdl; }
  bool bin = !strncmp(g.script, "bin/", 4); pid_t p = fork();
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(dir.c_str()) || !freopen("log", "w", stdout)) _exit(97); string pws = g.dir + "/SHA256_64.pws"; const char *av[] = {"psdp", pws.c_str(), "r.pws", bin ? nullptr : "test_circuit.txt", "meta.txt", nullptr}; execv(getenv(bin ? "PROGRAM_psdp" : "PROGRAM_psdp_tests"), (char **)av); _exit(96); }
  int st; waitpid(p, &st, 0); vf::count(C_RUNS); if (!WIFEXITED(st) || WEXITSTATUS(st)) vf::fail(vf::fmt("the translator ended with status %x", st));
  std::ifstream in(dir + "/test_circuit.txt"); int n; ref::Circ c; if (!(in >> n)) vf::fail("no circuit"); 
  for (int i = 0; i < n; i++) { int k; in >> k; ref::Layer L(k); for (auto &G : L) { long long id; if (!(in >> G.ty >> id >> G.u >> G.v)) vf::fail("the circuit ends early"); } c.push_back(L); }
  return c;
}
VF_GROUP(tree_translated, "qt") {
  for (auto &g : gens) { if (g.m != 1 || g.pad) continue;
    for (int k = 0; k < 3; k++) vf::visit([&] { return vf::fmt("%s, tree of 2 leaves, %s, translated to a circuit", g.script, k == 0 ? "honest" : k == 1 ? "other root" : "forged inner block"); }, [&] {
      if (g.status) vf::fail("the generator failed"); vf::count(C_POINTS); Tree T = tree(1, 5, k == 2 ? 2 : -1, 3, 7); u32 r[8]; memcpy(r, T.t.back().out, 32); r[2] ^= 16;
      auto c = translated(g, with_values(g, T, k == 1 ? r : nullptr)); auto w = ref::eval(c); size_t bad = 0; for (auto &x : w.back()) if (!x.zero()) bad++; vf::count(C_TESTS, w.back().size());
      if (k == 0 && bad) vf::fail(vf::fmt("%zu of the outputs of an honest tree are not zero", bad)); if (k && !bad) vf::fail("all outputs are zero");
      vf::count(k ? C_REJ : C_ACC); }); }
}
} // namespace hx
