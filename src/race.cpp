// C09: the thread sanitizer watches real calls, alone and overlapping; results
// of overlapping calls are compared with those of the same calls made alone.
#include "vt.hpp"
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }

struct Job {
  int fam, n;
  bool dbl;
  Params p;
  std::vector<P3> v;
  uint64_t ref = 0, got = 0;
  bool threw = false;
};
template <class Tf> uint64_t call(const std::vector<P3>& v, const Params& p, bool& threw) {
  auto pts = conv<Tf>(v);
  uint64_t h = 0;
  threw = false;
  try {
    auto d = votess::tesellate<int32_t, Tf>(pts, p.args(), p.gpu ? votess::device::gpu : votess::device::cpu);
    h = hash_points(pts);
    if (!d.list.empty()) h = fnv(d.list.data(), d.list.size() * sizeof(int32_t), h);
    if (!d.offs.empty()) h = fnv(d.offs.data(), d.offs.size() * sizeof(int32_t), h);
  } catch (const std::exception&) { threw = true; }
  return h;
}
static uint64_t docall(const Job& j, bool& threw) { return j.dbl ? call<double>(j.v, j.p, threw) : call<float>(j.v, j.p, threw); }

static Job make(Rng& r, bool gpu_ok, int maxthreads) {
  Job j;
  j.fam = r.chance(0.2) ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  const bool large = r.chance(0.04);
  j.n = large ? r.range(400, 1500) : r.chance(0.15) ? r.range(0, 6) : r.range(7, 120);
  j.dbl = r.chance(0.4);
  j.v = gen(j.fam, j.n, r);
  j.p.threads = r.chance(0.2) ? r.range(9, 40) : r.range(2, maxthreads);
  if (r.chance(0.05)) j.p.threads = 0;
  j.p.k = r.chance(0.3) ? r.range(1, 6) : r.range(7, 40);
  j.p.gr = r.chance(0.1) ? r.range(9, 40) : r.range(1, 8);
  if (!large && r.chance(0.05)) j.p.k = r.range(41, 150);
  j.p.p = r.chance(0.3) ? r.range(6, 14) : r.range(20, 64);
  j.p.t = r.chance(0.3) ? r.range(8, 24) : r.range(30, 128);
  j.p.recompute = r.chance(0.45);
  j.p.suppress = true;
  if (r.chance(0.5)) { j.p.chunking = true; j.p.chunk = r.chance(0.3) ? r.range(1, 5) : r.range(1, j.n + 3); }
  if (j.n > 60 && j.p.chunk < 4) j.p.chunk = 4;
  if (large) { j.p.chunk = r.range(j.n / 6, j.n); j.p.gr = r.range(5, 16); j.p.k = r.range(8, 30); }
  if (gpu_ok && r.chance(0.2)) { j.p.gpu = true; j.p.nd = r.range(1, 16); }
  return j;
}

int main(int argc, char** argv) {
  init(argc, argv);
  const int sc = opt().scale;
#ifdef VT_SHIM
  vtshim::threads() = 4;  // work groups on several host threads
  vtshim::item_threads() = 3;  // and the items of a group as well
  const bool gpu = true;
#else
  const bool gpu = false;
#endif
  // one call at a time, many shapes
  cases(480 * sc, [&](int64_t, Rng& r) {
    Job j = make(r, gpu, 8);
    const std::string d = std::string("single ") + family_name(j.fam) + " n=" + I(j.n) + (j.dbl ? " double " : " float ") + j.p.str();
    rep().begin(d);
    CerrCapture e;
    j.ref = docall(j, j.threw);
    rep().eval(mix(j.ref, fnv(d.data(), d.size())), j.n > 1 && j.p.threads != 1);
    rep().count("single calls");
    rep().count("worker threads requested", (uint64_t)j.p.threads);
    if (rep().case_index < 16) rep().sample(d);
    if (j.threw) rep().violation("exception", "call threw");
  });
  // several callers at once on different sets
  cases(112 * sc, [&](int64_t, Rng& r) {
    const int m = r.range(2, 5);
    std::vector<Job> js;
    std::string d = "overlap of " + I(m) + ":";
    for (int i = 0; i < m; i++) {
      js.push_back(make(r, gpu, 4));
      if (js.back().p.threads > 8) js.back().p.threads = 3;
      // an unsuppressed call writes to std::cout, which the standard protects; exercise it too
      js.back().p.suppress = r.chance(0.8);
      d += " {" + std::string(family_name(js.back().fam)) + " n=" + I(js.back().n) + " " + js.back().p.str() + "}";
    }
    rep().begin(d);
    std::ostringstream sink_ref;
    CerrCapture e;
    std::streambuf* old = std::cout.rdbuf();
    struct Null : std::streambuf { int overflow(int c) override { return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } null;
    std::cout.rdbuf(&null);
    for (auto& j : js) j.ref = docall(j, j.threw);
    const int rounds = r.range(1, 3);
    for (int q = 0; q < rounds; q++) {
      std::vector<std::thread> ts;
      std::atomic<int> go{0};
      for (auto& j : js) ts.emplace_back([&j, &go, m] { go++; while (go.load() < m) std::this_thread::yield(); bool t; j.got = docall(j, t); });
      for (auto& t : ts) t.join();
      for (size_t i = 0; i < js.size(); i++)
        if (js[i].got != js[i].ref) rep().violation("overlap-result", "call " + I((long long)i) + " gave another result when overlapped");
      rep().count("overlapped calls", (uint64_t)m);
    }
    std::cout.rdbuf(old);
    rep().eval(fnv(d.data(), d.size()));
    if (rep().case_index < 16) rep().sample(d);
  });
  rep().finish();
  return 0;
}
