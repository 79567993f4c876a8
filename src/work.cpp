// C29: how much work a call does and who does it.  The harness is compiled with
// -fsanitize-coverage=trace-pc: every executed edge of the real code calls the
// counter below, so that work is counted per thread in executed edges instead of
// in seconds.
#include "vt.hpp"
#include <dlfcn.h>
#include <pthread.h>
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }
#define NOCOV __attribute__((no_sanitize_coverage))

namespace work {
static thread_local unsigned long edges = 0;
static std::mutex m;
static std::vector<unsigned long> by_worker;
static std::atomic<bool> on{false};
struct Start { void* (*f)(void*); void* a; };
NOCOV static void* wrapped(void* v) {
  Start s = *static_cast<Start*>(v);
  std::free(v);
  edges = 0;
  void* r = s.f(s.a);
  const unsigned long e = edges;
  std::lock_guard<std::mutex> l(m);
  by_worker.push_back(e);
  return r;
}
}
namespace work { static std::atomic<unsigned long> bytes{0}; }
NOCOV void* operator new(size_t n) {
  work::bytes.fetch_add(n, std::memory_order_relaxed);
  if (void* p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
NOCOV void operator delete(void* p) noexcept { std::free(p); }
NOCOV void operator delete(void* p, size_t) noexcept { std::free(p); }
extern "C" NOCOV void __sanitizer_cov_trace_pc(void) { work::edges++; }
extern "C" NOCOV int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  using fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
  if (!work::on.load()) return real(t, at, f, a);
  auto* s = static_cast<work::Start*>(std::malloc(sizeof(work::Start)));
  s->f = f;
  s->a = a;
  const int rc = real(t, at, work::wrapped, s);
  if (rc) std::free(s);
  return rc;
}

struct Done { double bytes = 0, total = 0, most = 0, workers = 0; int unfinished = -1; bool threw = false; std::string what; };
template <class Ti, class Tf> Done worked(const std::vector<std::array<Tf, 3>>& in, Params p) {
  Done d;
  auto pts = in;
  p.suppress = false;
  const auto a = p.args();
  CoutCapture c;
  CerrCapture e;
  work::by_worker.clear();
  const unsigned long e0 = work::edges, b0 = work::bytes.load();
  work::on = true;
  try {
    auto r = votess::tesellate<Ti, Tf>(pts, a, votess::device::cpu);
  } catch (const std::exception& ex) { d.threw = true; d.what = ex.what(); }
  work::on = false;
  d.total = (double)(work::edges - e0);
  d.bytes = (double)(work::bytes.load() - b0);
  for (auto w : work::by_worker) { d.total += (double)w; d.most = std::max(d.most, (double)w); }
  d.workers = (double)work::by_worker.size();
  const auto s = parse_summary(c.str());
  d.unfinished = (int)s.sr;
  if (d.threw) rep().violation("exception", d.what);
  return d;
}
static Params base(Rng& r) {
  Params p;
  p.threads = 1;
  p.k = r.range(8, 48);
  p.p = r.range(40, 90); p.t = r.range(80, 180);
  return p;
}
static void judge(const char* key, const std::string& what, double got, double lim) {
  rep().maxi(what + ": share of the allowance in percent", 100 * got / lim);
  if (got > lim) rep().violation(key, what + ": factor " + std::to_string(got) + ", allowed " + std::to_string(lim));
}
static const int fams[] = {F_UNIFORM, F_JLATTICE, F_UNIFORM};

// many more points, a grid to match: the work per point stays
template <class Ti, class Tf> void scale_case(int64_t, Rng& r) {
  const int fam = fams[r.below(3)];
  Params p = base(r);
  const int g1 = r.range(11, 13), g2 = r.range(23, 27), per = r.range(1, 3);
  Params q = p;
  p.gr = g1; q.gr = g2;
  const int n1 = per * g1 * g1 * g1, n2 = per * g2 * g2 * g2;
  if (r.chance(0.4)) { q.chunking = true; q.chunk = r.range(n2 / 12, n2); }
  if (r.chance(0.4)) q.threads = r.range(2, 6);
  const std::string d = std::string("scale ") + family_name(fam) + " n=" + I(n1) + "/" + I(n2) + " " + p.str() + " then " + q.str();
  const auto a = conv<Tf>(gen(fam, n1, r)), b = conv<Tf>(gen(fam, n2, r));
  rep().begin(d);
  const auto u = worked<Ti, Tf>(a, p), w = worked<Ti, Tf>(b, q);
  rep().eval(fnv(d.data(), d.size()), true);
  rep().count("edges counted", (long)((u.total + w.total) / 1e6));
  rep().sample(d + " -> per point " + I((long long)(u.total / n1)) + " then " + I((long long)(w.total / n2)) + " edges");
  if (u.total < 1000.0 * n1) { rep().count("calls in which the counter saw too little"); return; }
  judge("work-grows", "work per point of a set many times larger", (w.total / n2) / (u.total / n1), 1.8);
  // storage requested over the whole call stands for what is copied in it
  judge("requests-grow", "bytes requested per point of a set many times larger", (w.bytes / n2) / ((u.bytes + 100000) / n1), 4);
}
// chunks and workers divide the work, they do not add to it
template <class Ti, class Tf> void chunk_case(int64_t, Rng& r) {
  const int fam = (int)r.below(F_NGENERIC);
  const int n = r.range(1500, 5000);
  Params p = base(r);
  p.gr = std::max(1, (int)std::lround(std::cbrt(n / 2.0)));
  const std::string d = std::string("split ") + family_name(fam) + " n=" + I(n) + " " + p.str();
  const auto in = conv<Tf>(gen(fam, n, r));
  rep().begin(d);
  const auto u = worked<Ti, Tf>(in, p);
  if (u.total < 1000.0 * n) { rep().count("calls in which the counter saw too little"); return; }
  rep().eval(fnv(d.data(), d.size()), true);
  {
    Params q = p;
    q.chunking = true;
    q.chunk = r.range(n / 40, n / 3);
    if (r.chance(0.3)) q.chunk = r.chance(0.5) ? n - r.range(1, 40) : n / 2;
    if (r.chance(0.7)) q.threads = r.range(2, 6);
    const auto w = worked<Ti, Tf>(in, q);
    rep().count("chunked calls");
    judge("work-chunks", "total work with chunks", w.total / u.total, 1.3);
    judge("requests-chunks", "bytes requested with chunks", w.bytes / (u.bytes + 100000), 4);
  }
  {
    Params q = p;
    q.threads = r.range(4, 8);
    if (std::thread::hardware_concurrency() >= 3 && r.chance(0.3)) q.threads = 0;  // as many as the machine has
    // which worker takes which cell is up to the library; it is enough that in one of a few
    // calls no single worker did nearly everything
    double share = 1;
    Done w;
    for (int t = 0; t < 4 && share > 0.8; t++) {
      w = worked<Ti, Tf>(in, q);
      share = w.most / w.total;
    }
    rep().count("calls with several workers");
    rep().maxi("share of the busiest worker in percent", 100 * share);
    judge("work-threads", "total work with several workers", w.total / u.total, 1.3);
    if (share > 0.97 && (fam == F_UNIFORM || fam == F_JLATTICE)) rep().violation("work-not-shared", "with cpu_nthreads=" + I(q.threads) + " one worker did " + I((long long)(100 * share)) + "% of the work");
  }
}
// recomputation concerns the unfinished cells only
template <class Ti, class Tf> void recompute_case(int64_t, Rng& r) {
  const int fam = fams[r.below(3)];
  const int n = r.range(1000, 2500);
  Params p = base(r);
  p.gr = std::max(1, (int)std::lround(std::cbrt(n / 2.0)));
  p.k = r.range(90, 240); p.p = 200; p.t = 400;
  Params q = p;
  q.recompute = true;
  const std::string d = std::string("again ") + family_name(fam) + " n=" + I(n) + " " + p.str();
  const auto in = conv<Tf>(gen(fam, n, r));
  rep().begin(d);
  const auto u = worked<Ti, Tf>(in, p);
  if (u.total < 1000.0 * n || u.unfinished < 0) { rep().count("calls in which the counter saw too little"); return; }
  const double f = (double)u.unfinished / n;
  rep().eval(fnv(d.data(), d.size()), true);
  if (f > 0.004) { rep().count("too many unfinished cells to judge"); return; }
  const auto w = worked<Ti, Tf>(in, q);
  rep().count(u.unfinished ? "recomputations of a few cells" : "recomputations of nothing");
  judge("work-recompute", "total work with recompute", w.total / u.total, 1.25 + 100 * f);
}

int main(int argc, char** argv) {
  init(argc, argv);
  const int sc = opt().scale;
  cases(40 * sc, [](int64_t c, Rng& r) { if (c & 1) scale_case<int32_t, float>(c, r); else scale_case<int32_t, double>(c, r); });
  cases(96 * sc, [](int64_t c, Rng& r) { if (c % 3 == 0) chunk_case<int64_t, float>(c, r); else if (c % 3 == 1) chunk_case<int32_t, float>(c, r); else chunk_case<int32_t, double>(c, r); });
  cases(64 * sc, [](int64_t c, Rng& r) { if (c & 1) recompute_case<int32_t, float>(c, r); else recompute_case<int32_t, double>(c, r); });
  rep().finish();
  return 0;
}
