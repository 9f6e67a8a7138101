// Harness for the circuit generators and translators.  TOOL=1: bin/gen, 2: parser_sha_data_parallel,
// 3: parser_lanczos, 4: parser_sha.  The tool's main is called in a forked child inside a scratch
// directory; what it wrote is parsed and evaluated here with the reference semantics.
#include <bits/stdc++.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include "vf.h"
#include "ref.h"

static uint64_t draw_base = 1; static uint64_t draw_no = 0;
static int draw(uint64_t k) { return (int)(ref::mix(draw_base * 7919 + k) & 0x7fffffff); }
extern "C" int rand(void) { return draw(draw_no++); }
extern "C" void srand(unsigned) {}

extern int tool_main(int, char **) __asm__("tool_main");       // the tool's main, renamed in its object file

namespace hx {
using ref::F; using ref::Circ; using ref::Gate; using ref::Layer;
using std::string; using std::vector;
static string base, dir;
static void init() { ref::init(); dir = base + vf::fmt("/w%d", (int)getpid()); if (mkdir(dir.c_str(), 0700) || chdir(dir.c_str())) abort(); }
static string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(const char *f, const string &s) { std::ofstream o(f); o << s; }
// runs the tool; its standard output goes to the file "stdout"
static void run(const vector<string> &args) {
  for (const char *f : {"stdout", "test_circuit.txt", "meta_data_linear.txt", "lanczos_circuit.txt", "sha_circuit.txt", "meta_data.txt"}) unlink(f);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!freopen("stdout", "w", stdout)) _exit(97);
    vector<char *> av; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
    draw_no = 0;
    int rc = tool_main((int)args.size(), av.data());
    std::cout.flush(); fflush(stdout); _exit(rc);
  }
  int st; if (waitpid(p, &st, 0) != p) vf::fail("lost the tool's process");
  vf::count(1);
  if (WIFSIGNALED(st)) vf::fail(vf::fmt("the tool was ended by signal %d", WTERMSIG(st)));
  if (WEXITSTATUS(st) != 0) vf::fail(vf::fmt("the tool ended with exit code %d", WEXITSTATUS(st)));
}
// parses a circuit description and insists that it is well formed
static Circ parse(const string &t, vector<size_t> *lens = nullptr) {
  std::istringstream in(t); int d; if (!(in >> d) || d < 1 || d > 100000) vf::fail("the circuit description has no layer count");
  Circ c;
  for (int i = 0; i < d; i++) {
    int n; if (!(in >> n) || n < 1) vf::fail(vf::fmt("layer %d is missing", i));
    Layer L;
    for (int j = 0; j < n; j++) {
      long long ty, g, u, v; if (!(in >> ty >> g >> u >> v)) vf::fail(vf::fmt("layer %d ends after %d of %d gates", i, j, n));
      if (g != j) vf::fail(vf::fmt("layer %d: gate %lld in place %d", i, g, j));
      int w = i ? ref::width(c[i - 1]) : 0;
      if (i == 0) { if (ty != ref::INPUT && ty != ref::DUMMY) vf::fail("the input layer has a gate that is no input"); }
      else switch (ty) {
        case ref::ADD: case ref::MUL: case ref::MINUS: case ref::XOR: case ref::NAAB: if (u < 0 || v < 0 || u >= w || v >= w) vf::fail(vf::fmt("layer %d gate %d: wires %lld %lld, but the layer below has %d gates", i, j, u, v, w)); break;
        case ref::NOT: case ref::RELAY: if (u < 0 || u >= w || v != 0) vf::fail(vf::fmt("layer %d gate %d: wires %lld %lld", i, j, u, v)); break;
        case ref::SUM: if (u < 0 || v < u || v > w) vf::fail(vf::fmt("layer %d gate %d: range %lld..%lld of %d", i, j, u, v, w)); break;
        case ref::DUMMY: break;
        default: vf::fail(vf::fmt("layer %d gate %d has kind %lld", i, j, ty));
      }
      L.push_back({(int)ty, u, v});
    }
    if (n & (n - 1)) vf::fail(vf::fmt("layer %d has %d gates, not a power of two", i, n));
    c.push_back(L);
  }
  string rest; if (in >> rest) vf::fail("text after the last layer");
  if (lens) { lens->clear(); std::istringstream l(t); string s; std::getline(l, s); while (std::getline(l, s)) lens->push_back(s.size() + 1); }
  return c;
}
static string oneline(string s) { for (char &c : s) if (c == '\n') c = ';'; return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
static void expect(const vector<F> &got, const vector<F> &want, const char *what) {
  if (got.size() != want.size()) vf::fail(vf::fmt("%zu %s, expected %zu", got.size(), what, want.size()));
  for (size_t i = 0; i < want.size(); i++) { vf::count(2); if (got[i] != want[i]) vf::fail(vf::fmt("%s %zu: the circuit gives %s, the source means %s", what, i, got[i].str().c_str(), want[i].str().c_str())); }
}
static vector<vector<long long>> numbers(const string &t) { vector<vector<long long>> r; std::istringstream in(t); string s; while (std::getline(in, s)) { std::istringstream l(s); vector<long long> v; long long x; while (l >> x) v.push_back(x); r.push_back(v); } return r; }
static int lg(long long x) { int b = 0; while ((1LL << b) < x) b++; return b; }
} // namespace hx
#include "tools_groups.h"
int main(int argc, char **argv) {
  char t[] = "/tmp/libra-tools-XXXXXX"; if (!mkdtemp(t)) return 3; hx::base = t;
  int rc = vf::main_(argc, argv, {"points_checked", "tool_runs", "values_compared", "meta_lines_compared", "gates_read"}, hx::init);
  std::error_code ec; std::filesystem::remove_all(t, ec);
  return rc;
}
