// Bounded families of circuits over the gate kinds TYPES of the protocol.
#pragma once
// every gate over a previous layer of w values
static std::vector<Gate> gates_over(int w, int only = -1) {
  std::vector<Gate> r;
  for (int ty : TYPES) {
    if (only >= 0 && ty != only) continue;
    if (ty == ref::DUMMY) r.push_back({ty, 0, 0});
    else if (ty == ref::SUM) { for (int u = 0; u <= w; u++) for (int v = u + SUM_MIN; v <= w; v++) if (u < w) r.push_back({ty, u, v}); }
    else if (ty == ref::EXPSUM) { for (int u = 0; u < w; u++) for (int v = u; v < w; v++) if (v - u < 63) r.push_back({ty, u, v}); }
    else if (ty == ref::BITTEST) for (int u = 0; u < w; u++) r.push_back({ty, u, u});
    else if (ty == ref::NOT || ty == ref::RELAY) for (int u = 0; u < w; u++) r.push_back({ty, u, 0});
    else for (int u = 0; u < w; u++) for (int v = 0; v < w; v++) r.push_back({ty, u, v});
  }
  return r;
}
// small, negative and beyond 32 bits in turn
static long long wide_input(long long x, int i) { return i % 3 == 0 ? x : i % 3 == 1 ? -x * 2147 : x << 40; }
static long long moved(long long u, long long by) { return (long long)((unsigned long long)u + (unsigned long long)by); }
static Layer inputs(int n, uint64_t salt) { Layer L; for (int i = 0; i < n; i++) L.push_back({ref::INPUT, wide_input((long long)(ref::mix(salt * 77 + i) % 1000003), i), 0}); return L; }
// a layer of n gates over w values, gate kinds and wires rotating with salt
static Layer rotated(int n, int w, int salt) {
  Layer L;
  for (int g = 0; g < n; g++) {
    int ty = TYPES[(g + salt) % TYPES.size()]; uint64_t h = ref::mix(salt * 1009 + g);
    if (ty == ref::DUMMY && n <= 2) ty = ref::MUL;
    int u = h % w, v = (h >> 20) % w;
    if (ty == ref::DUMMY) u = v = 0;
    if (ty == ref::NOT || ty == ref::RELAY) v = 0;
    if (ty == ref::SUM) { if (u > v) std::swap(u, v); v++; }
    if (ty == ref::EXPSUM) { if (u > v) std::swap(u, v); if (v - u > 62) v = u + 62; }
    if (ty == ref::BITTEST) v = u;
    L.push_back({ty, u, v});
  }
  return L;
}
static Circ shape(const std::vector<int> &ws, int salt) {
  Circ c; c.push_back(inputs(ws[0], salt + 1)); int w = ref::width(c[0]);
  for (size_t i = 1; i < ws.size(); i++) { c.push_back(rotated(ws[i], w, salt + 3 * (int)i)); w = ref::width(c.back()); }
  return c;
}
static const long long IV[] = {0, 1, 2, 5, 65535, 65536, 2147483647, -1, -80084992, -2147483647 - 1, 2147483648LL, 4294967301LL, -4294967296LL, (long long)(~0ull >> 1), -(long long)(~0ull >> 1) - 1};
static Layer two_inputs(long long a, long long b) { return {{ref::INPUT, a, 0}, {ref::INPUT, b, 0}}; }

// every circuit of one layer of two gates over two inputs
template <class FN> static void all_one_layer(FN fn) {
  auto G = gates_over(2);
  for (auto &a : G) for (auto &b : G) for (int k = 0; k < 4; k++) {
    static const long long in[4][2] = {{3, 5}, {0, 1}, {4294967303LL, -7}, {0, 0}};
    Circ c; c.push_back(two_inputs(in[k][0], in[k][1])); c.push_back({a, b}); fn(c);
  }
}
// two layers of two gates: all of them (thorough) or every pair of first layers with one free gate above (quick)
template <class FN> static void all_two_layers(bool full, FN fn) {
  auto G = gates_over(2);
  for (size_t i = 0; i < G.size(); i++) for (size_t j = 0; j < G.size(); j++) for (size_t k = 0; k < G.size(); k++) {
    size_t step = full ? 1 : G.size();
    for (size_t l = full ? 0 : (i * 7 + j * 3 + k) % G.size(); l < G.size(); l += step) {
      Circ c; c.push_back(two_inputs(3, 5)); c.push_back({G[i], G[j]}); c.push_back({G[k], G[l]}); fn(c);
    }
  }
}
// all sequences of layer widths
template <class FN> static void all_shapes(int maxlen, const std::vector<int> &W, int salts, FN fn) {
  std::vector<int> s;
  std::function<void()> rec = [&] {
    if (!s.empty()) for (int k = 0; k < salts; k++) fn(shape(s, k * 5 + 1));
    if ((int)s.size() == maxlen) return;
    for (int w : W) { s.push_back(w); rec(); s.pop_back(); }
  };
  rec();
}
// one gate free (every kind, every wire) at every position of a layer, others fixed
template <class FN> static void all_one_gate(const std::vector<int> &W, FN fn) {
  for (int wp : W) for (int w : W) for (int g = 0; g < w; g++) for (auto &G : gates_over(wp)) {
    Circ c = shape({wp, w}, wp + w); c[1][g] = G; fn(c);
  }
}
static std::vector<Circ> rep_circuits() {
  std::vector<Circ> r;
  for (int ty : TYPES) { if (ty == ref::DUMMY) continue; auto G = gates_over(2, ty); Circ c; c.push_back(two_inputs(11, 13)); c.push_back({G[0], G.back()}); c.push_back({{ref::ADD, 0, 1}, {ref::MUL, 0, 1}}); r.push_back(c); }
  for (int ty : TYPES) { if (ty == ref::DUMMY) continue; auto G = gates_over(4, ty); Circ c; c.push_back(inputs(4, 9)); c.push_back({G[0], G.back(), G[G.size() / 2], G[G.size() / 3]}); r.push_back(c); }
  r.push_back(shape({2, 2}, 1)); r.push_back(shape({4, 2, 4}, 2)); r.push_back(shape({2, 4, 2}, 3)); r.push_back(shape({1, 2, 1}, 4)); r.push_back(shape({4, 4, 4}, 5));
  r.push_back(shape({8, 4, 2, 1}, 6)); r.push_back(shape({2, 8, 2}, 7)); r.push_back(shape({16, 2}, 8)); r.push_back(shape({2, 16, 4}, 9)); r.push_back(shape({8, 8}, 10)); r.push_back(shape({2, 1, 1, 2}, 11));
  return r;
}
// large layers of one gate kind each
template <class FN> static void all_large(int lo, int hi, FN fn) {
  for (int b = lo; b <= hi; b++) for (int ty : TYPES) {
    int n = 1 << b; Circ c; c.push_back(inputs(n, b)); Layer L; auto rot = rotated(n, n, b);
    for (int g = 0; g < n; g++) {
      uint64_t h = ref::mix(g * 31 + ty); long long u = h % n, v = (h >> 24) % n;
      if (ty == ref::DUMMY) u = v = 0; if (ty == ref::NOT || ty == ref::RELAY) v = 0;
      if (ty == ref::SUM) { u = h % n; v = u + (h >> 24) % 5; if (v > n) v = n; if (v < u + SUM_MIN) v = u + SUM_MIN; }
      if (ty == ref::EXPSUM) { v = u + (h >> 24) % 63; if (v >= n) v = n - 1; } if (ty == ref::BITTEST) v = u;
      L.push_back({ty, u, v});
    }
    if (ty == ref::DUMMY) L[n - 1] = {ref::ADD, n - 1, n - 2};
    c.push_back(L); fn(c);
    c.push_back(Layer(2, Gate{ref::ADD, n - 1, n / 2})); c.back()[1] = {ref::MUL, 0, n - 1}; fn(c);
  }
}

// layers of 2^b gates of one kind, or two in turn, that all read the same value: as left operand, right operand or both
template <class FN> static void all_fan(int hi, FN fn) {
  for (int b = 2; b <= hi; b++) for (int ty : TYPES) for (int t2 : {ty, (int)ref::ADD}) {
    if (ty == ref::DUMMY || (t2 != ty && ty == ref::ADD)) continue;
    int n = 1 << b;
    for (int side = 0; side < 3; side++) for (int at : {0, 1, n / 2, n - 1}) for (int w : {4, n}) {
      int pos = at % w; Circ c; c.push_back(inputs(w, b + at)); for (auto &G : c[0]) G.u = moved(2147483647, -G.u); Layer L;
      for (int g = 0; g < n; g++) {
        int t = g & 1 ? t2 : ty; long long u = side == 1 ? g % w : pos, v = side == 0 ? (g * 3 + 1) % w : pos;
        if (t == ref::NOT || t == ref::RELAY) v = 0; if (t == ref::BITTEST) v = u;
        if (t == ref::SUM) { u = side ? pos : g % (pos + 1); v = side == 0 ? pos + 1 : side == 1 ? w : pos + 1 + g % (w - pos); }
        if (t == ref::EXPSUM) { u = side ? pos : g % (pos + 1); v = side == 1 ? w - 1 : pos; if (v - u > 62) v = u + 62; }
        L.push_back({t, u, v});
      }
      c.push_back(L); fn(c);
    }
  }
}
