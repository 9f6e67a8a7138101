// Groups for the transcript of the zero-knowledge argument: its hash, the proof file, the challenges.
typedef real_proof_transcript TR;

// ---------------------------------------------------------------- AES-128, written from the standard
struct Aes {
  uint8_t s[256];
  static uint8_t xt(uint8_t x) { return (uint8_t)(x << 1 ^ (x & 0x80 ? 0x1b : 0)); }
  static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
  Aes() { for (int x = 0; x < 256; x++) { uint8_t i = 0; if (x) for (int y = 1; y < 256; y++) if (mul((uint8_t)x, (uint8_t)y) == 1) { i = (uint8_t)y; break; } uint8_t r = 0x63; for (int k = 0; k < 5; k++) r ^= (uint8_t)(i << k | i >> (8 - k)); s[x] = r; } }
  void enc(const uint8_t *key, const uint8_t *in, uint8_t *out) const {
    uint8_t k[16], t[16]; memcpy(k, key, 16); for (int i = 0; i < 16; i++) t[i] = in[i] ^ k[i]; uint8_t rc = 1;
    for (int rd = 1; rd <= 10; rd++) {
      uint8_t u[16]; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) u[4 * c + r] = s[t[4 * ((c + r) % 4) + r]];
      if (rd < 10) for (int c = 0; c < 4; c++) { uint8_t *a = u + 4 * c, b[4]; for (int r = 0; r < 4; r++) b[r] = mul(a[r], 2) ^ mul(a[(r + 1) % 4], 3) ^ a[(r + 2) % 4] ^ a[(r + 3) % 4]; memcpy(a, b, 4); }
      for (int i = 0; i < 4; i++) k[i] ^= s[k[12 + (i + 1) % 4]]; k[0] ^= rc; rc = xt(rc); for (int i = 4; i < 16; i++) k[i] ^= k[i - 4];
      for (int i = 0; i < 16; i++) t[i] = u[i] ^ k[i];
    }
    memcpy(out, t, 16);
  }
};
static const Aes &aes() { static Aes a; return a; }
static void hash_check(const uint8_t *blk, int shift) {
  alignas(64) uint8_t buf[96], out[64], want[32]; memset(out, 0x5a, sizeof out); memcpy(buf + shift, blk, 64);
  my_hhash(buf + shift, out + 16); vf::count(0);
  for (int h = 0; h < 2; h++) { aes().enc(blk + 32 * h, blk + 32 * h + 16, want + 16 * h); for (int i = 0; i < 16; i++) want[16 * h + i] ^= blk[32 * h + 16 + i]; }
  if (memcmp(out + 16, want, 32)) vf::fail("the hash of the block is not AES of the text under the key, plus the text");
  for (int i = 0; i < 16; i++) if (out[i] != 0x5a || out[48 + i] != 0x5a) vf::fail("the hash writes outside its digest");
  if (memcmp(buf + shift, blk, 64)) vf::fail("the hash changes its input");
}
static std::string hex(const uint8_t *b, int n) { std::string s; for (int i = 0; i < n; i++) s += vf::fmt("%02x", b[i]); return s; }
VF_GROUP(transcript_hash, "qt") {
  for (int base = 0; base < (vf::thorough() ? 8 : 4); base++) {
    uint8_t b[64]; for (int i = 0; i < 64; i++) b[i] = base == 0 ? 0 : base == 1 ? 0xff : base == 2 ? (uint8_t)i : (uint8_t)ref::mix(base * 64 + i);
    for (int sh = 0; sh < 32; sh++) vf::visit([&] { return vf::fmt("hash of %s at address %d mod 64", hex(b, 64).c_str(), sh); }, [&] { hash_check(b, sh); });
    for (int i = 0; i < 512; i++) vf::visit([&] { return vf::fmt("hash of %s with bit %d and every other bit flipped", hex(b, 64).c_str(), i); }, [&] {
      b[i / 8] ^= 1 << i % 8; hash_check(b, 0);
      for (int j = i + 1; j < 512; j += vf::thorough() ? 1 : 7) { b[j / 8] ^= 1 << j % 8; hash_check(b, 0); b[j / 8] ^= 1 << j % 8; }
      b[i / 8] ^= 1 << i % 8; });
  }
  // every value of every byte of key and text: each entry of the S-box at each place
  for (int p = 0; p < 64; p++) vf::visit([&] { return vf::fmt("hash of blocks with every value of byte %d", p); }, [&] { uint8_t b[64]; for (int x = 0; x < 256; x++) { for (int i = 0; i < 64; i++) b[i] = (uint8_t)(i * 37 + 11); b[p] = (uint8_t)x; hash_check(b, 0); } });
}

// ---------------------------------------------------------------- entries
struct Ent { int kind; uint8_t v[32]; };                      // 0 field element, 1 group element, 2 challenge
static Ent ent(int kind, int which) {
  static const int NV = 8; Ent e; e.kind = kind; memset(e.v, 0, 32); F x;
  switch (which % NV) { case 0: break; case 1: x = F(1); break; case 2: x = F(0) - F(1); break; case 3: x = ref::pow2(128); break; case 4: x = ref::pow2(253); break; case 5: x = F(0x4040201008040201ll); break; default: for (int i = 0; i < 4; i++) x.l[i] = ref::mix(which * 4 + i); x.l[3] >>= 3; }
  if (which >= NV) { for (int i = 0; i < 4; i++) x.l[i] = ref::mix(7777 + which * 4 + i); x.l[3] >>= 3; }
  memcpy(e.v, x.l, 32); return e;
}
static void add(TR &t, const Ent &e) {
  F x; memcpy(x.l, e.v, 32);
  if (e.kind == 1) t.msg.push_back(container(toE(x))); else t.msg.push_back(container(toFE(x), e.kind == 0 ? container::fld_ele_indicator : container::randomness_indicator));
}
static std::string etext(const std::vector<Ent> &s) { std::string r; for (auto &e : s) r += vf::fmt("%c:%s ", "FGR"[e.kind], hex(e.v, 32).c_str()); return r; }
static std::vector<F> draw_all(const std::vector<Ent> &s, int n, bool more = false) {
  TR t; for (auto &e : s) add(t, e); size_t k = t.msg.size();
  FE *r = t.random(n); std::vector<F> v; vf::count(5, n);
  for (int i = 0; i < n; i++) { if (!canonical(r[i])) vf::fail("a challenge is not a reduced field element"); v.push_back(toF(r[i])); }
  delete[] r;
  if (t.msg.size() != k + n) vf::fail(vf::fmt("%d challenges were drawn and %zu entries appended", n, t.msg.size() - k));
  for (int i = 0; i < n; i++) if (t.msg[k + i].indicator != container::randomness_indicator || toF(t.msg[k + i].fld_ele) != v[i]) vf::fail("the challenge appended to the transcript is not the one handed out");
  for (size_t i = 0; i < k; i++) { auto x = t.msg[i].output(); for (int b = 0; b < 256; b++) if (x[b] != ((s[i].v[b / 8] >> b % 8) & 1)) vf::fail("drawing a challenge changes an earlier entry"); }
  if (more) { FE x = t.random(); if (!canonical(x)) vf::fail("a challenge is not a reduced field element"); v.push_back(toF(x)); }
  return v;
}
static void differ(const std::vector<F> &a, const std::vector<F> &b, const char *what) { for (size_t i = 0; i < a.size(); i++) if (a[i] == b[i]) vf::fail(vf::fmt("challenge %zu stays the same when %s", i, what)); }
VF_GROUP(transcript_binding, "qt") {
  for (int n = 1; n <= (vf::thorough() ? 6 : 5); n++) for (int ks = 0; ks < (int)pow(3, n); ks++) for (int vs = 0; vs < (n <= 3 ? 3 : 1); vs++) {
    std::vector<Ent> s; for (int i = 0, k = ks; i < n; i++, k /= 3) s.push_back(ent(k % 3, vs == 0 ? 10 + i : vs == 1 ? 0 : i % 3));
    vf::visit([&] { return "challenges after " + etext(s); }, [&] {
      vf::count(0); auto base = draw_all(s, 3, true);
      if (draw_all(s, 3, true) != base) vf::fail("the same messages give different challenges");
      for (size_t i = 0; i < base.size(); i++) { if (base[i].bits() < 64) vf::fail("a challenge is small"); for (size_t j = 0; j < i; j++) if (base[i] == base[j]) vf::fail(vf::fmt("challenges %zu and %zu are the same", j, i)); }
      for (int i = 0; i < n; i++) for (int b = 0; b < 256; b += n <= 3 ? 1 : 3) { auto q = s; q[i].v[b / 8] ^= 1 << b % 8; differ(base, draw_all(q, 3, true), vf::fmt("bit %d of entry %d is changed", b, i).c_str()); }
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (memcmp(s[i].v, s[j].v, 32)) { auto q = s; std::swap(q[i].v, q[j].v); uint8_t t[32]; memcpy(t, s[i].v, 32); memcpy(q[j].v, t, 32); memcpy(q[i].v, s[j].v, 32); differ(base, draw_all(q, 3, true), vf::fmt("entries %d and %d are exchanged", j, i).c_str()); }
    });
  }
}
// long transcripts: every entry still counts (blocks of the hash, sizes)
VF_GROUP(transcript_long, "qt") {
  for (int n : {6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513}) for (int k = 0; k < 4; k++) {
    if (n > 130 && (k & 1) && !vf::thorough()) continue;
    auto make = [=] { std::vector<Ent> s; for (int i = 0; i < n; i++) s.push_back(ent(k < 3 ? k : i % 3, 20 + i)); return s; };
    vf::visit([&] { return vf::fmt("challenges and file of %d entries, kinds %d", n, k); }, [&] {
      vf::count(0); auto s = make(); auto base = draw_all(s, 2);
      for (int i = 0; i < n; i++) for (int b = i % 7; b < 256; b += n < 20 ? 17 : n < 70 ? 85 : 150) { auto q = s; q[i].v[b / 8] ^= 1 << b % 8; differ(base, draw_all(q, 2), vf::fmt("bit %d of entry %d is changed", b, i).c_str()); }
      for (int i = 0; i + 1 < n; i++) { auto q = s; std::swap(q[i].v, q[i + 1].v); differ(base, draw_all(q, 2), vf::fmt("entries %d and %d are exchanged", i, i + 1).c_str()); }
      { auto q = s; q.pop_back(); differ(base, draw_all(q, 2), "the last entry is left out"); q = s; q.erase(q.begin()); differ(base, draw_all(q, 2), "the first entry is left out"); }
      auto many = draw_all(s, 40); std::set<std::string> seen; for (auto &x : many) if (!seen.insert(std::string((char *)x.l, 32)).second) vf::fail("two of 40 challenges are the same"); });
  }
}
VF_GROUP(transcript_distinct, "qt") {
  int A = vf::thorough() ? 24 : 14;
  for (int n = 1; n <= 3; n++) for (int ks = 0; ks < (1 << n); ks++) vf::visit([&] { return vf::fmt("challenges after every %d messages of kinds %d over %d values", n, ks, A); }, [&] {
    std::map<std::string, std::vector<int>> seen; int N = (int)round(pow(A, n));
    for (int x = 0; x < N; x++) {
      std::vector<Ent> s; std::vector<int> id; for (int i = 0, y = x; i < n; i++, y /= A) { s.push_back(ent(ks >> i & 1, y % A)); id.push_back(y % A); }
      auto v = draw_all(s, 1); vf::count(0); std::string key((char *)v[0].l, 32);
      if (!seen.insert({key, id}).second) { std::vector<Ent> o; auto &w = seen[key]; for (int i = 0; i < n; i++) o.push_back(ent(ks >> i & 1, w[i])); vf::fail("two different sequences of messages give the same challenge: " + etext(s) + " and " + etext(o)); }
    } });
}
// ---------------------------------------------------------------- the proof file
static std::string file_of(TR &t) {
  static int fd = -1; static char path[64]; if (fd < 0) { fd = (int)syscall(SYS_memfd_create, "proof", 0); sprintf(path, "/proc/self/fd/%d", fd); }
  if (ftruncate(fd, 0)) abort();
  std::string junk(5000, '\xa5'); if (pwrite(fd, junk.data(), junk.size(), 0) < 0) abort();           // an older file is in the way
  t.output_to_file(path);
  std::string s; char b[4096]; ssize_t r; off_t o = 0; while ((r = pread(fd, b, sizeof b, o)) > 0) { s.append(b, r); o += r; } return s;
}
VF_GROUP(transcript_file, "qt") {
  auto go = [&](const std::vector<Ent> &s) { vf::visit([&] { return "proof file of " + etext(s); }, [&] {
    vf::count(0); TR t; std::string want; for (auto &e : s) { add(t, e); if (e.kind != 2) want.append((const char *)e.v, 32); }
    auto got = file_of(t);
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; vf::fail(vf::fmt("the proof file has %zu bytes for %zu bytes of messages and differs from them at byte %zu", got.size(), want.size(), i)); }
    if (t.get_proof_size() != (int)want.size()) vf::fail(vf::fmt("the reported proof size is %d, the proof has %zu bytes", t.get_proof_size(), want.size())); }); };
  for (int n = 0; n <= (vf::thorough() ? 9 : 7); n++) for (int ks = 0; ks < (int)round(pow(3, n)); ks++) { std::vector<Ent> s; for (int i = 0, k = ks; i < n; i++, k /= 3) s.push_back(ent(k % 3, n + i * 3 + ks % 5)); go(s); }
  for (int n : {10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}) for (int k = 0; k < 4; k++) { std::vector<Ent> s; for (int i = 0; i < n; i++) s.push_back(ent(k < 3 ? k : (i * 5 + i / 3) % 3, 20 + i)); go(s); }
  for (int k = 0; k < 3; k++) for (int b = 0; b < 256; b++) for (int inv = 0; inv < 2; inv++) { Ent e; e.kind = k; memset(e.v, inv ? 0xff : 0, 32); e.v[b / 8] ^= 1 << b % 8; go({ent(0, 9), e, ent(1, 9)}); }
}
// the file the verifier leaves after a proof: every message of the prover except the opened values, and nothing else
VF_GROUP(transcript_proof, "qt") {
  std::vector<Circ> cs = rep_circuits(); for (auto &c : {shape({1}, 1), shape({2}, 2), shape({4, 1}, 3), shape({8, 4, 2, 1}, 4), shape({2, 8, 2}, 5)}) cs.push_back(c);
  for (auto &c : cs) for (int id = 61; id < (vf::thorough() ? 65 : 63); id++) { Pt p = pt(c, id);
    vf::visit([&] { return "proof file of: " + ctext(p); }, [&] {
      vf::count(0); if (proof_fd >= 0 && ftruncate(proof_fd, 0)) abort(); keep_proof = true; bool ok = run(p, Adv()); keep_proof = false;
      if (!ok) vf::fail("the verifier rejects the honest prover");
      if (proof_fd < 0) vf::fail("the verifier writes no proof file");
      std::string s; char b[4096]; ssize_t r; off_t o = 0; while ((r = pread(proof_fd, b, sizeof b, o)) > 0) { s.append(b, r); o += r; }
      if (s.size() % 32) vf::fail(vf::fmt("the proof file has %zu bytes", s.size()));
      std::multiset<std::string> have; for (size_t i = 0; i < s.size(); i += 32) have.insert(s.substr(i, 32));
      for (auto &M : S.msgs) { if (M.kind == K_OUT || M.kind == K_VU2 || M.kind == K_R_ANS || M.kind == K_M_ANS || M.kind == K_IN_ANS) continue;
        vf::count(8); auto it = have.find(std::string((const char *)M.val.l, 32)); if (it == have.end()) vf::fail(vf::fmt("the proof file lacks the %s of layer %d (part %d/%d)", kname[M.kind], M.layer, M.round, M.deg)); have.erase(it); }
      if (!have.empty()) vf::fail(vf::fmt("the proof file has %zu elements the prover did not send", have.size())); });
  }
}
