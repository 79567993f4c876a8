// C16: the device path, executed through the shim, against the CPU path.
// Built with ASan+UBSan; accessors are bounds checked and device memory is
// poisoned by the shim.  Built without VT_SHIM (real SYCL runtime, no device
// present) it checks the documented fallback only.
#include "vt.hpp"
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }

template <class Ti, class Tf> void fallback(const std::vector<std::array<Tf, 3>>& in, Params p, const char* what) {
  p.gpu = false;
  const auto c = run<Ti, Tf>(in, p);
  p.gpu = true;
  const auto g = run<Ti, Tf>(in, p);
  rep().count(what);
  if (g.threw) { rep().violation("fallback-threw", "without a GPU the call threw: " + g.what); return; }
  if (g.hash() != c.hash()) rep().violation("fallback-result", "without a GPU the result differs from the CPU result");
  if (g.sum.str() != c.sum.str()) rep().violation("fallback-summary", "CPU " + c.sum.str() + ", fallback " + g.sum.str());
  if (g.err.find("GPU") == std::string::npos) rep().violation("fallback-silent", "no warning on standard error: '" + g.err + "'");
  if (!c.err.empty()) rep().violation("cpu-noise", "the CPU call wrote to standard error: " + c.err);
}

template <class Ti, class Tf> void one(int fam, const std::vector<P3>& v, Params p, Rng& r, bool large = false) {
  const auto in = conv<Tf>(v);
  std::ostringstream d;
  d << family_name(fam) << " n=" << v.size() << " Ti=" << sizeof(Ti) * 8 << (sizeof(Tf) == 4 ? " float " : " double ");
  Params g = p;
  g.gpu = true;
  g.nd = r.chance(0.2) ? r.range(-1, 1) : r.chance(0.5) ? r.range(2, 33) : (int)v.size() + r.range(-3, 40);
  if (r.chance(0.5)) { g.chunking = true; g.chunk = r.chance(0.2) ? r.range(-1, 2) : r.range(1, (int)v.size() + 5); if (v.size() > 80 && g.chunk < 4 && g.chunk > 0) g.chunk = 7; }
  if (large) {
    g.nd = r.chance(0.5) ? r.range(1, 64) : r.range(65, 700);
    g.chunking = r.chance(0.7);
    g.chunk = std::max(1, (int)v.size() / (r.chance(0.5) ? r.range(100, 140) : r.range(1, 9)) + r.range(-1, 1));
    if (rep().case_index % 4 == 3) { g.chunking = true; g.chunk = std::max(1, (int)v.size() / r.range(260, 600)); }
    if (v.size() > 65535) g.chunking = false;   // one launch over more cells than 16 bits can number
  }
  // the CPU run may use other chunks and threads: they never change the result
#ifdef VT_SHIM
  vtshim::gpu_count() = 1;
  vtshim::threads() = r.chance(0.4) ? r.range(2, 6) : 1;
  vtshim::item_threads() = 1;
  if (opt().mode == "C16T" || (v.size() <= 200 && r.chance(0.2))) {
    vtshim::item_threads() = r.range(2, 16);
    if (g.nd < 2 || (g.nd > 64 && r.chance(0.7))) g.nd = r.range(2, 40);
  }
  const unsigned pat[] = {0xA5u, 0x00u, 0xFFu, 0x7Fu, 0x01u, 0x3Fu};
  vtshim::poison() = pat[r.below(6)];
  d << g.str() << " shim-threads=" << vtshim::threads() << " item-threads=" << vtshim::item_threads() << " poison=" << vtshim::poison();
#else
  d << g.str();
#endif
  rep().begin(d.str());
  if (rep().case_index < 16) rep().sample(d.str());
#ifdef VT_SHIM
  auto c = run<Ti, Tf>(in, p);
  auto b = run<Ti, Tf>(in, g);
  rep().eval(mix(c.hash(), fnv(d.str().data(), d.str().size())), v.size() > 1);
  if (c.threw || b.threw) {
    rep().count("calls refused");
    if (c.threw != b.threw) {
      // the device buffers are indexed with Ti: a set the CPU can do may be too large for them
      if (b.threw && b.what.find("cannot index") != std::string::npos && sizeof(Ti) < 4) { rep().count("device buffers too large for the index type"); return; }
      rep().violation("refusal-differs", "CPU " + (c.threw ? c.what : std::string("ok")) + ", GPU " + (b.threw ? b.what : std::string("ok")));
    }
    return;
  }
  rep().count("rows compared", c.rows.size());
  if (c.sum.found && c.sum.p + c.sum.t > 0) rep().count("runs with abandoned cells");
  if (g.recompute) rep().count("runs with recompute");
  if (g.chunking) rep().count("runs with chunks");
  if (vtshim::threads() > 1) rep().count("runs with concurrent work groups");
  if (vtshim::item_threads() > 1) rep().count("runs with concurrent work items");
  if (hash_points(c.pts) != hash_points(b.pts)) { rep().violation("points", "points are left in another order"); return; }
  if (c.rows.size() != b.rows.size()) { rep().violation("row-count", I((long long)b.rows.size()) + " rows, CPU " + I((long long)c.rows.size())); return; }
  for (size_t i = 0; i < c.rows.size(); i++)
    if (c.rows[i] != b.rows[i]) { rep().violation("row", "row " + I((long long)i) + " CPU " + vstr(c.rows[i]) + " GPU " + vstr(b.rows[i])); break; }
  if (c.offs != b.offs || c.list != b.list) rep().violation("structure", "offset table or list differs");
  if (c.sum.str() != b.sum.str()) rep().violation("summary", "CPU " + c.sum.str() + ", GPU " + b.sum.str());
  if (b.err != c.err) rep().violation("stderr", "GPU run wrote to standard error: " + b.err);
  if (r.chance(0.1)) { vtshim::gpu_count() = 0; p.chunking = g.chunking; p.chunk = g.chunk; fallback<Ti, Tf>(in, p, "fallbacks without a device"); vtshim::gpu_count() = 1; }
#else
  rep().eval(fnv(d.str().data(), d.str().size()), v.size() > 1);
  fallback<Ti, Tf>(in, p, "fallbacks with the real runtime");
#endif
}

int main(int argc, char** argv) {
  init(argc, argv);
  const int sc = opt().scale;
#ifdef VT_SHIM
  const bool tsan = opt().mode == "C16T";   // built with the thread sanitizer: fewer, smaller, all with concurrent items
  const int64_t n = (tsan ? 160 : 1000) * sc;
#else
  const int64_t n = 48 * sc;
#endif
  cases(n, [&](int64_t c, Rng& r) {
    const bool deg = r.chance(0.3);
    const int fam = deg ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
    int n = r.chance(0.1) ? r.range(0, 3) : r.chance(0.6) ? r.range(4, 70) : r.chance(0.85) ? r.range(70, 300) : r.range(300, 900);
#ifdef VT_SHIM
    if (tsan && n > 90) n = r.range(20, 90);
#endif
    Params p;
    p.threads = r.range(1, 3);
    p.k = r.chance(0.2) ? n + r.range(-2, 2) : r.chance(0.08) && n < 300 ? r.range(80, 400) : r.range(1, 80);
    if (p.k < 1) p.k = 1;
    p.gr = r.chance(0.2) ? (r.chance(0.2) ? r.range(33, 64) : r.range(12, 32)) : r.range(1, 11);
    p.p = r.chance(0.35) ? r.range(6, 20) : r.chance(0.3) ? r.range(100, 300) : r.range(21, 90);
    p.t = r.chance(0.35) ? r.range(8, 34) : r.chance(0.3) ? r.range(200, 600) : r.range(35, 180);
    p.recompute = r.chance(0.25);
    const auto v = gen(fam, n, r);
    switch (c % 4) {
      case 0: case 1: one<int32_t, float>(fam, v, p, r); break;
      case 2: one<int32_t, double>(fam, v, p, r); break;
      case 3: one<int64_t, float>(fam, v, p, r); break;
    }
  });
#ifdef VT_SHIM
  // larger sets, more cells than 8 or 16 bit numbers hold
  if (!tsan) cases(16 * sc, [&](int64_t c, Rng& r) {
    const int fam = c % 2 ? F_UNIFORM : (int)r.below(F_NGENERIC);
    const int n = c % 16 == 0 ? r.range(66000, 70000) : c % 16 == 1 ? r.range(33000, 36000) : r.range(1000, 4500);
    Params p;
    p.threads = r.range(2, 5);
    p.k = n > 30000 ? r.range(2, 5) : r.range(6, 28);
    p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
    p.p = n > 30000 ? r.range(6, 14) : r.range(10, 40); p.t = n > 30000 ? r.range(12, 24) : r.range(16, 60);
    p.recompute = n < 2500 && r.chance(0.4);
    rep().count("large sets");
    const auto v = gen(fam, n, r);
    switch (c % 4) {
      case 0: one<int32_t, float>(fam, v, p, r, true); break;
      case 1: one<int64_t, double>(fam, v, p, r, true); break;
      case 2: one<int32_t, double>(fam, v, p, r, true); break;
      case 3: one<int64_t, float>(fam, v, p, r, true); break;
    }
  });
  // very fine grids
  if (!tsan) cases(16 * sc, [&](int64_t c, Rng& r) {
    const int n = r.range(2, 60);
    Params p;
    p.gr = c % 2 ? r.range(64, 140) : r.range(250, 300);
    p.k = r.range(1, 6); p.p = r.range(8, 60); p.t = r.range(16, 90);
    auto v = gen(F_UNIFORM, n, r);
    const double s = c % 2 ? r.uni(0.1, 0.4) : r.uni(0.02, 0.06);   // compact, so that the search stays affordable
    for (size_t a = 0; a < 3; a++) { const double o = r.chance(0.4) ? 0.99 - s : r.uni(0.01, 0.99 - s); for (auto& q : v) q[a] = o + s * q[a]; }
    if (c % 4 < 2) one<int32_t, float>(F_UNIFORM, v, p, r); else one<int32_t, double>(F_UNIFORM, v, p, r);
  });
  rep().count("device accessor accesses bounds checked", vtshim::stats().accesses.load());
  rep().count("device kernels executed", vtshim::stats().kernels.load());
  rep().count("work groups executed", vtshim::stats().groups.load());
#endif
  rep().finish();
  return 0;
}
