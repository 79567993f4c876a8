// C08: hostile data and parameters.  Built with ASan+UBSan+assertions (and a
// second time plain, for valgrind memcheck, mode C08V); the deciding monitor is
// the sanitizer, the checks here are on what the call promises besides.
#include "vt.hpp"
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define VT_DEFINED(p, n) VALGRIND_CHECK_MEM_IS_DEFINED(p, n)
#else
#define VT_DEFINED(p, n) 0
#endif
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }

// parameters no tessellation can be computed with (README / documented limits)
static bool unusable(const Params& p) { return p.k < 1 || p.gr < 1 || p.p < 6 || p.t < 8 || p.threads < 0; }

template <class Ti, class Tf>
void one(const std::string& fam, const std::vector<std::array<Tf, 3>>& in, const Params& p, bool inside) {
  std::ostringstream d;
  d << fam << " n=" << in.size() << " Ti=" << sizeof(Ti) * 8 << " " << (sizeof(Tf) == 4 ? "float" : "double") << " " << p.str();
  rep().begin(d.str());
  auto r = run<Ti, Tf>(in, p);
  rep().eval(fnv(d.str().data(), d.str().size(), hash_points(in)), in.size() >= 2);
  if (rep().case_index < 24) rep().sample(d.str() + (r.threw ? " -> refused: " + r.what : " -> " + I((long long)r.list.size()) + " neighbours"));
  if (in.empty() && !r.threw && !unusable(p)) rep().count("empty sets");
  if (r.threw) {
    rep().count("calls refused");
    if (unusable(p)) {
      rep().count("unusable parameters refused");
      if (hash_points(r.pts) != hash_points(in)) rep().violation("refused-after-work", "the point set was changed although the parameters are refused (" + r.what + ")");
      if (!r.rows.empty()) rep().violation("refused-result", "rows");
    }
    return;
  }
  rep().count("calls completed");
  if (unusable(p)) { rep().violation("unusable-accepted", "parameters that cannot be honoured were accepted"); return; }
  // whatever the data, what comes back must be safe to index with
  if (r.offs.size() != in.size() + 1 || r.rows.size() != in.size()) { rep().violation("rows", "offset table unusable: " + I((long long)r.offs.size()) + " entries for " + I((long long)in.size()) + " points"); return; }
  if (!r.offs.empty() && ((size_t)r.offs.back() != r.list.size() || r.offs[0] != 0)) rep().violation("offs", "offset table does not cover the list");
  for (size_t i = 0; i < r.rows.size(); i++)
    for (int64_t j : r.rows[i])
      if (j < 0 || j >= (int64_t)in.size()) { rep().violation(inside ? "index" : "index-hostile", "row " + I((long long)i) + " holds " + I(j)); return; }
  // memcheck: a returned value computed from uninitialised memory is flagged here
  uint64_t sum = 0;
  for (Ti x : r.list) { if (x & 1) sum += (uint64_t)x; }
  for (Ti x : r.offs) { if (x & 1) sum += (uint64_t)x; }
  if (r.sum.sr > 0) sum++;
  rep().count("checked sum parity", sum & 1);
}

static const double SPECIAL[] = {0.0, 1.0, -0.0, -0.5, 1.5, 1e30, -1e30, 3.4e38, 1e300, 1e-320, 1e-45, 0.5,
                                 std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                                 -std::numeric_limits<double>::infinity(), 2147483648.0, -2147483649.0, 0.99999999, 9.3e18};

template <class Ti, class Tf> void hostile(int64_t c, Rng& r, int maxn) {
  const int nmax = std::min<int64_t>(maxn, (int64_t)std::numeric_limits<Ti>::max() - (sizeof(Ti) == 1 ? 1 : 0));
  const bool big_small = sizeof(Ti) == 1 && r.chance(0.2);
  int n = r.chance(0.15) ? r.range(0, 3) : r.chance(0.5) ? r.range(4, std::min(40, nmax)) : r.range(4, nmax);
  if (big_small) n = r.range(100, 200);  // more than the type can index: must be refused
  const bool degen = r.chance(0.35);
  const int fam = degen ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  auto v = gen(fam, n, r);
  std::string name = family_name(fam);
  bool inside = true;
  std::vector<std::array<Tf, 3>> in = conv<Tf>(v);
  const int kind = r.range(0, 5);
  if (kind == 0 && n) {  // special values sprinkled in
    inside = false;
    name += "+special";
    const int m = r.range(1, std::max(1, n / 3));
    for (int i = 0; i < m; i++) {
      const double s = SPECIAL[r.below(sizeof SPECIAL / sizeof *SPECIAL)];
      Tf x = std::isfinite(s) && std::fabs(s) > (double)std::numeric_limits<Tf>::max() ? std::numeric_limits<Tf>::infinity() : (Tf)s;
      in[r.below((uint64_t)n)][r.below(3)] = x;
    }
  } else if (kind == 1 && n) {  // all outside, scaled and shifted
    inside = false;
    name += "+scaled";
    const double s = std::pow(10, r.uni(-6, 8)), t = r.uni(-3, 3);
    for (auto& p : in) for (auto& x : p) x = (Tf)((double)x * s + t);
  } else if (kind == 2 && n) {  // on the faces, edges and corners of the cube
    name += "+faces";
    inside = false;
    for (auto& p : in) if (r.chance(0.5)) for (auto& x : p) if (r.chance(0.4)) x = r.chance(0.5) ? Tf(0) : Tf(1);
  } else if (kind == 3 && n && r.chance(0.2)) {  // everything is the same special value
    inside = false;
    name += "+allspecial";
    const Tf x = (Tf)SPECIAL[r.below(6) + 12 > 18 ? 12 : r.below(6) + 12];
    for (auto& p : in) p = {x, x, x};
  }
  Params p;
  p.threads = r.chance(0.1) ? r.range(8, 33) : r.chance(0.03) ? 0 : r.range(1, 4);
  p.k = r.chance(0.15) ? n + r.range(-2, 3) : r.chance(0.1) ? r.range(256, 2000) : r.range(1, 64);
  p.gr = r.chance(0.2) ? (r.chance(0.15) ? r.range(33, 110) : r.range(16, 32)) : r.range(1, 12);
  if (sizeof(Ti) == 1) p.gr = r.range(1, 5);
  p.p = r.chance(0.3) ? r.range(6, 10) : r.chance(0.2) ? r.range(255, 1000) : r.range(11, 80);
  p.t = r.chance(0.3) ? r.range(8, 16) : r.chance(0.2) ? r.range(500, 2000) : r.range(17, 160);
  p.recompute = r.chance(0.35);
  p.suppress = r.chance(0.2);
  if (r.chance(0.4)) { p.chunking = true; p.chunk = r.chance(0.2) ? r.range(-3, 1) : r.range(1, n + 4); }
#ifdef VT_SHIM
  if (r.chance(0.3)) { p.gpu = true; p.nd = r.chance(0.2) ? r.range(-2, 1) : r.range(1, 70); }
#endif
  if (r.chance(0.18)) {  // values that cannot be honoured
    const int huge[] = {0, -1, -2147483647 - 1, 2147483647, -64, 1000000};
    switch (r.range(0, 5)) {
      case 0: p.k = huge[r.below(3)]; break;
      case 1: p.gr = huge[r.below(6)]; break;
      case 2: p.p = r.chance(0.5) ? r.range(-5, 5) : huge[r.below(3)]; break;
      case 3: p.t = r.chance(0.5) ? r.range(-5, 7) : huge[r.below(3)]; break;
      case 4: p.threads = r.range(-5, -1); break;
      case 5: p.chunking = true; p.chunk = huge[r.below(6)]; break;
    }
  }
  if (r.chance(0.05)) p.k = 2147483647;
  if (r.chance(0.03)) p.p = 2147483647;
  if (r.chance(0.03)) p.t = 2147483647;
  one<Ti, Tf>(name, in, p, inside);
  (void)c;
}

// sets and chunks beyond what 16 bits count, small everything else
template <class Ti, class Tf> void large(int64_t c, Rng& r) {
  const int fam = (int)r.below(F_NGENERIC);
  const int n = sizeof(Ti) == 2 ? r.range(30000, 32766) : c % 2 ? r.range(66000, 72000) : r.range(32000, 45000);
  Params p;
  p.threads = r.range(1, 4);
  p.k = r.range(1, 5);
  p.gr = sizeof(Ti) == 2 ? r.range(20, 31) : r.range(24, 48);
  p.p = r.range(6, 9); p.t = r.range(8, 12);
  p.suppress = r.chance(0.5);
  if (c % 4) { p.chunking = true; p.chunk = n > 66000 && r.chance(0.7) ? r.range(65536, n - 1) : n > 32800 && r.chance(0.6) ? r.range(32768, n - 1) : r.range(n / 9, n); }
#ifdef VT_SHIM
  if (c / 8 % 2) { p.gpu = true; p.nd = r.range(1, 300); }
#endif
  one<Ti, Tf>(family_name(fam), conv<Tf>(gen(fam, n, r)), p, true);
  rep().count("large sets");
}

template <class Ti> void text_params(Rng& r) {
  // parameter values that are not numbers: refused, and before any work
  const char* keys[] = {"k", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute", "dev_suppress_stdout"};
  const char* vals[] = {"", "abc", "1x", "99999999999999999999", "1.5", "--", "0x10", "nan"};
  const char* key = keys[r.below(10)];
  const char* val = vals[r.below(8)];
  rep().begin(std::string("text value '") + val + "' for " + key);
  auto pts = conv<float>(gen(F_UNIFORM, r.range(2, 30), r));
  const auto before = pts;
  votess::vtargs a;
  a["k"] = 8; a["knn_grid_resolution"] = 3;
  a[key] = std::string(val);
  CoutCapture c;
  CerrCapture e;
  rep().eval(mix(fnv(key, std::strlen(key)), fnv(val, std::strlen(val))));
  try {
    auto d = votess::tesellate<Ti, float>(pts, a, votess::device::cpu);
    rep().violation("text-accepted", std::string("value '") + val + "' was accepted for " + key);
  } catch (const std::exception&) {
    rep().count("text values refused");
    if (hash_points(pts) != hash_points(before)) rep().violation("refused-after-work", std::string("points were reordered before '") + val + "' was refused for " + key);
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  const bool v = opt().mode == "C08V";
  const int sc = opt().scale;
  cases(v ? 64 * sc : 2600 * sc, [&](int64_t c, Rng& r) {
    const int maxn = v ? 40 : r.chance(0.05) ? 1500 : 220;
    switch (c % 5) {
      case 0: hostile<int32_t, float>(c, r, maxn); break;
      case 1: hostile<int32_t, double>(c, r, maxn); break;
      case 2: hostile<int8_t, float>(c, r, maxn); break;
      case 3: hostile<int16_t, double>(c, r, maxn); break;
      case 4: hostile<int64_t, float>(c, r, maxn); break;
    }
  });
  if (!v) cases(24 * sc, [&](int64_t c, Rng& r) {
    switch (c % 8) {
      case 0: large<int64_t, double>(c, r); break;
      case 1: case 2: large<int32_t, double>(c, r); break;
      case 3: large<int64_t, float>(c, r); break;
      case 4: large<int16_t, float>(c, r); break;
      default: large<int32_t, float>(c, r); break;
    }
  });
  if (!v) cases(120 * sc, [&](int64_t, Rng& r) { text_params<int32_t>(r); });
#ifdef VT_SHIM
  rep().count("device accessor accesses bounds checked", vtshim::stats().accesses.load());
  rep().count("device kernels executed", vtshim::stats().kernels.load());
#endif
  rep().finish();
  return 0;
}
