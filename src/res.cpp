// C27: what a call holds on to.  Memory (operator new, in bytes) and threads of
// real calls are metered: peak during the call, remainder after it.
#include "vt.hpp"
#include <dlfcn.h>
#include <dirent.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }

namespace meter {
static std::atomic<long> live{0}, peak{0}, blocks{0};
static std::atomic<bool> on{false};
static std::atomic<long> running{0}, most{0}, starts{0};
static void add(long n) {
  const long v = live.fetch_add(n, std::memory_order_relaxed) + n;
  blocks.fetch_add(1, std::memory_order_relaxed);
  long p = peak.load(std::memory_order_relaxed);
  while (v > p && !peak.compare_exchange_weak(p, v, std::memory_order_relaxed)) {}
}
static void* get(size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (p) add((long)malloc_usable_size(p));
  return p;
}
static void* get_al(size_t n, size_t a) {
  void* p = nullptr;
  if (posix_memalign(&p, std::max(a, sizeof(void*)), n ? n : 1)) return nullptr;
  add((long)malloc_usable_size(p));
  return p;
}
static void put(void* p) {
  if (!p) return;
  live.fetch_sub((long)malloc_usable_size(p), std::memory_order_relaxed);
  blocks.fetch_sub(1, std::memory_order_relaxed);
  std::free(p);
}
static void* must(void* p) { if (!p) throw std::bad_alloc(); return p; }
struct Start { void* (*f)(void*); void* a; };
static void* wrapped(void* v) {
  Start s = *static_cast<Start*>(v);
  std::free(v);
  void* r = s.f(s.a);
  running--;
  return r;
}
}
void* operator new(size_t n) { return meter::must(meter::get(n)); }
void* operator new[](size_t n) { return meter::must(meter::get(n)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return meter::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return meter::get(n); }
void* operator new(size_t n, std::align_val_t a) { return meter::must(meter::get_al(n, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return meter::must(meter::get_al(n, (size_t)a)); }
void operator delete(void* p) noexcept { meter::put(p); }
void operator delete[](void* p) noexcept { meter::put(p); }
void operator delete(void* p, size_t) noexcept { meter::put(p); }
void operator delete[](void* p, size_t) noexcept { meter::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { meter::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { meter::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { meter::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { meter::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { meter::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { meter::put(p); }

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  using fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
  if (!meter::on.load()) return real(t, at, f, a);
  auto* s = static_cast<meter::Start*>(std::malloc(sizeof(meter::Start)));
  s->f = f;
  s->a = a;
  meter::starts++;
  const long now = ++meter::running;
  long m = meter::most.load();
  while (now > m && !meter::most.compare_exchange_weak(m, now)) {}
  const int rc = real(t, at, meter::wrapped, s);
  if (rc) { meter::running--; std::free(s); }
  return rc;
}
static int open_fds() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
  return n;
}
struct NullBuf : std::streambuf {
  int overflow(int c) override { return traits_type::not_eof(c); }
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
};

struct Used { long peak = 0, left = 0, blocks = 0, most = 0, running = 0, starts = 0; size_t stored = 0; bool threw = false; std::string what; };
// one call; everything the caller gets is destroyed again before "left" is read
template <class Ti, class Tf> Used metered(std::vector<std::array<Tf, 3>>& pts, const Params& p) {
  Used u;
  const auto a = p.args();
  const long l0 = meter::live.load(), b0 = meter::blocks.load();
  meter::peak = l0;
  meter::most = 0;
  meter::starts = 0;
  meter::on = true;
  try {
    auto d = votess::tesellate<Ti, Tf>(pts, a, p.gpu ? votess::device::gpu : votess::device::cpu);
    meter::on = false;
    u.running = meter::running.load();
    u.stored = d.list.size();
  } catch (const std::exception& e) {
    meter::on = false;
    u.running = meter::running.load();
    u.threw = true;
    u.what = e.what();
  }
  u.peak = meter::peak.load() - l0;
  u.what.shrink_to_fit();
  const long kept = u.what.capacity() > 15 ? (long)malloc_usable_size((void*)u.what.data()) : 0;
  u.left = meter::live.load() - l0 - kept;
  u.blocks = meter::blocks.load() - b0 - (kept ? 1 : 0);
  u.most = meter::most.load();
  u.starts = meter::starts.load();
  return u;
}

// What a call may set up once and keep does not grow with the set, the chunks or the limits.
static void kept(const Used& u) {
  rep().maxi("bytes kept by a large call", (double)u.left);
  if (u.left > 65536) rep().violation("storage-kept", I(u.left) + " bytes in " + I(u.blocks) + " blocks stay behind after the call");
}

static void workers(const Used& u, const Params& p) {
  const long cap = p.threads > 0 ? p.threads : std::max(1u, std::thread::hardware_concurrency());
  if (u.most > cap) rep().violation("too-many-workers", I(u.most) + " workers at a time although cpu_nthreads allows " + I(cap));
  if (u.running) rep().violation("worker-left", I(u.running) + " workers outlive the call");
  rep().maxi("workers at a time", (double)u.most);
  if (u.most > 1) rep().count("calls with several workers at a time");
}

// What chunking promises: working storage for one chunk of cells, plus storage
// proportional to the set, to the grid and to the result.  Generous constants.
template <class Ti, class Tf> double allowance(size_t n, const Params& p, size_t stored) {
  const double cells = (double)p.gr * p.gr * p.gr;
  const double k = std::min<double>(p.k, (double)n), pm = std::min(p.p, 255), tm = std::min(p.t, 510);
  const double chunk = p.chunking && p.chunk > 0 ? std::min<double>(p.chunk, (double)n) : (double)n;
  const double per_cell = k * (2 * sizeof(Ti) + sizeof(Tf)) + pm * 4 * sizeof(Tf) + 3 * tm + pm + sizeof(Ti);
  const double per_point = 3 * sizeof(Tf) * 2 + 3 * sizeof(Ti) + 80;
  return 1.7 * (chunk * per_cell) + 2.0 * n * per_point + 2.5 * cells * sizeof(Ti) + 4.5 * (double)stored * sizeof(Ti) + 200000;
}

template <class Ti, class Tf> void peak_case(int64_t c, Rng& r) {
  const int fam = (int)r.below(F_NGENERIC);
  const int n = r.range(3000, 12000);
  Params p;
  p.threads = r.range(1, 6);
  p.k = r.range(20, 70);
  p.p = r.range(60, 128);
  p.t = r.range(120, 256);
  p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
  p.suppress = r.chance(0.5);
  p.chunking = c % 4 != 3;
  p.chunk = r.range(n / 40, n / 12);
  const std::string d = std::string("peak ") + family_name(fam) + " n=" + I(n) + " " + p.str() + " Ti=" + I(8 * sizeof(Ti)) + (sizeof(Tf) == 8 ? " double" : " float");
  auto pts = conv<Tf>(gen(fam, n, r));
  rep().begin(d);
  const auto u = metered<Ti, Tf>(pts, p);
  if (u.threw) { rep().violation("exception", u.what); return; }
  workers(u, p);
  kept(u);
  const double lim = allowance<Ti, Tf>((size_t)n, p, u.stored);
  Params q = p;
  q.chunking = false;
  const double full = allowance<Ti, Tf>((size_t)n, q, u.stored);
  rep().eval(fnv(d.data(), d.size()), true);
  rep().sample(d + " -> peak " + I(u.peak / 1024) + " KiB of " + I((long long)(lim / 1024)) + " allowed, " + I((long long)(full / 1024)) + " without chunks");
  rep().count(p.chunking ? "peaks of chunked calls" : "peaks of whole calls");
  rep().maxi("peak / allowance in percent", 100.0 * (double)u.peak / lim);
  if ((double)u.peak > lim) rep().violation(p.chunking ? "peak-chunked" : "peak", "peak of " + I(u.peak) + " bytes, a chunk of this size needs no more than " + I((long long)lim));
}

// With very small chunks, raising a limit costs storage for the cells of one chunk,
// not for all the cells of the set.
template <class Ti, class Tf> void growth_case(int64_t c, Rng& r) {
  const int fam = (int)r.below(F_NGENERIC);
  const int n = r.range(5000, 9000);
  Params p;
  p.threads = r.range(1, 3);
  p.k = r.range(24, 40); p.p = r.range(40, 48); p.t = r.range(80, 100);
  p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
  p.suppress = true;
  p.chunking = true;
  p.chunk = r.range(12, 24);
  Params q = p;
  const int which = (int)(c % 3);
  if (which == 0) q.p = r.range(220, 255); else if (which == 1) q.t = r.range(420, 510); else q.k = r.range(400, 500);
  const std::string d = std::string("growth ") + family_name(fam) + " n=" + I(n) + " " + p.str() + " then " + q.str() + " Ti=" + I(8 * sizeof(Ti)) + (sizeof(Tf) == 8 ? " double" : " float");
  const auto in = conv<Tf>(gen(fam, n, r));
  rep().begin(d);
  auto pts = in;
  const auto u = metered<Ti, Tf>(pts, p);
  pts = in;
  const auto w = metered<Ti, Tf>(pts, q);
  if (u.threw || w.threw) { rep().violation("exception", u.what + w.what); return; }
  workers(u, p);
  workers(w, p);
  kept(u);
  kept(w);
  rep().eval(fnv(d.data(), d.size()), true);
  rep().count("limits raised under small chunks");
  auto per_cell = [&](const Params& x) { return (double)x.k * (2 * sizeof(Ti) + sizeof(Tf)) + x.p * 4.0 * sizeof(Tf) + 3.0 * x.t + x.p; };
  // the result itself may be assembled in vectors that grow by doubling
  const double rows = (double)std::max(u.stored, w.stored) * sizeof(Ti);
  const double lim = (double)u.peak * 1.02 + 2.0 * p.chunk * (per_cell(q) - per_cell(p)) + (which == 2 ? 4.5 : 2.0) * rows + 60000;
  rep().maxi("peak after raising a limit / allowance in percent", 100.0 * (double)w.peak / lim);
  if ((double)w.peak > lim) rep().violation("peak-growth", "peak went from " + I(u.peak) + " to " + I(w.peak) + " bytes, one chunk of " + I(p.chunk) + " cells needs no more than " + I((long long)lim));
}

// Recomputing needs room for the cells that are incomplete in a round, not for all.
// How many those are is read from the summaries of plain calls at the limits of
// each round.
template <class Ti, class Tf> void recompute_case(int64_t c, Rng& r) {
  const int fam = c % 4 == 3 ? (int)F_JLATTICE : (int)F_UNIFORM;
  const int n = r.range(4000, 7000);
  Params p;
  p.threads = r.range(1, 3);
  p.k = r.range(60, 90); p.p = r.range(60, 110); p.t = r.range(120, 220);
  p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
  p.chunking = true;
  p.chunk = r.range(12, 40);
  const std::string d = std::string("recompute ") + family_name(fam) + " n=" + I(n) + " " + p.str() + " Ti=" + I(8 * sizeof(Ti)) + (sizeof(Tf) == 8 ? " double" : " float");
  const auto in = conv<Tf>(gen(fam, n, r));
  rep().begin(d);
  auto per_cell = [&](const Params& x) { return (double)x.k * (2 * sizeof(Ti) + sizeof(Tf)) + x.p * 4.0 * sizeof(Tf) + 3.0 * x.t + x.p + sizeof(Ti); };
  auto summary = [&](Params x) {
    x.suppress = false;
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    auto pts = in;
    try { votess::tesellate<Ti, Tf>(pts, x.args(), votess::device::cpu); } catch (...) {}
    std::cout.rdbuf(old);
    return parse_summary(o.str());
  };
  double need = 0;
  long first = -1;
  for (Params x = p;;) {
    const auto s = summary(x);
    if (!s.found) { rep().count("recompute cases without a summary"); return; }
    if (first < 0) first = s.sr;
    need = std::max(need, (double)s.sr * per_cell(x));
    if (s.sr == 0 || x.k >= n - 1) break;
    Params y = x;
    y.k = std::min(2 * x.k, n - 1); y.p = std::min(2 * x.p, 255); y.t = std::min(2 * x.t, 510);
    need = std::max(need, (double)s.sr * (per_cell(x) + per_cell(y)));
    x = y;
  }
  if (first > n / 8) { rep().count("recompute cases with too many incomplete cells"); return; }
  p.suppress = true;
  auto pts = in;
  const auto u = metered<Ti, Tf>(pts, p);
  p.recompute = true;
  pts = in;
  const auto w = metered<Ti, Tf>(pts, p);
  if (u.threw || w.threw) { rep().violation("exception", u.what + w.what); return; }
  workers(u, p);
  workers(w, p);
  kept(u);
  kept(w);
  rep().eval(fnv(d.data(), d.size()), first > 0);
  rep().count("peaks of calls with recompute");
  rep().count("cells recomputed", first);
  const double lim = 1.05 * (double)u.peak + 1.8 * need + 8.0 * n * sizeof(Ti) + 2.0 * (double)std::max(u.stored, w.stored) * sizeof(Ti) + 60000;
  rep().maxi("peak with recompute / allowance in percent", 100.0 * (double)w.peak / lim);
  rep().maxi("storage for all cells / allowance in percent", 100.0 * n * per_cell(p) / lim);
  if (rep().case_index < 8) rep().sample(d + " -> " + I(first) + " incomplete cells, peak " + I(w.peak / 1024) + " KiB of " + I((long long)(lim / 1024)) + " allowed");
  if ((double)w.peak > lim) rep().violation("peak-recompute", "peak of " + I(w.peak) + " bytes with " + I(first) + " cells to recompute, no more than " + I((long long)lim) + " are needed");
}

template <class Ti, class Tf> void keep_case(int64_t c, Rng& r) {
  const bool deg = r.chance(0.3);
  const int fam = deg ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  const bool big = !deg && r.chance(0.05);
  const int n = big ? r.range(1000, 4000) : r.chance(0.2) ? r.range(0, 6) : r.range(7, 300);
  Params p;
  p.threads = r.chance(0.1) ? 0 : r.chance(0.2) ? r.range(9, 30) : r.range(1, 6);
  p.k = r.range(1, 50); p.gr = r.chance(0.15) ? r.range(10, 48) : r.range(1, 9);
  if (big) p.gr = r.range(8, 16);
  p.p = r.chance(0.4) ? r.range(6, 14) : r.range(15, 100);
  p.t = r.chance(0.4) ? r.range(8, 16) : r.range(17, 200);
  p.recompute = !big && r.chance(0.4);
  p.suppress = r.chance(0.5);
  if (r.chance(0.4)) { p.chunking = true; p.chunk = r.range(1, n + 2); if (n > 100) p.chunk = std::max(p.chunk, r.chance(0.1) ? n / 60 : n / 20); }
  int bad = 0;
  if (r.chance(0.15)) { bad = r.range(1, 4); if (bad == 1) p.k = -r.range(0, 3); else if (bad == 2) p.p = r.range(-1, 5); else if (bad == 3) p.gr = r.range(-2, 0); else p.t = r.range(0, 7); }
  std::string d = std::string("keep ") + family_name(fam) + " n=" + I(n) + " " + p.str() + (bad ? " (refused)" : "");
  const auto in = conv<Tf>(gen(fam, n, r));
  rep().begin(d);
  const int fd0 = open_fds();
  long left[6] = {0}, blk[6] = {0};
  const int rounds = 5;
  for (int i = 0; i < rounds; i++) {
    auto pts = in;
    const auto u = metered<Ti, Tf>(pts, p);
    left[i] = u.left;
    blk[i] = u.blocks;
    workers(u, p);
    if (u.threw != (bad != 0)) rep().violation(u.threw ? "exception" : "not-refused", u.what);
    if (i == 0) rep().sample(d + " -> " + I(u.starts) + " workers, left " + I(u.left) + " bytes");
  }
  rep().eval(fnv(d.data(), d.size()), n > 1);
  rep().count("calls metered", rounds);
  // a first call may set something up once; after that nothing may stay behind
  long more = 0, mb = 0;
  for (int i = 2; i < rounds; i++) { more += left[i]; mb += blk[i]; }
  if (more > 0 && mb >= rounds - 2) rep().violation("memory-kept", "the last " + I(rounds - 2) + " of " + I(rounds) + " identical calls kept " + I(more) + " bytes in " + I(mb) + " blocks");
  if (open_fds() > fd0) rep().violation("descriptor-kept", "open file descriptors grew from " + I(fd0) + " to " + I(open_fds()));
}

int main(int argc, char** argv) {
  init(argc, argv);
  const int sc = opt().scale;
  NullBuf nb, ne;
  std::streambuf* oc = std::cout.rdbuf(&nb);
  std::streambuf* oe = std::cerr.rdbuf(&ne);
  cases(3200 * sc, [&](int64_t c, Rng& r) {
    switch (c % 3) {
      case 0: keep_case<int32_t, float>(c, r); break;
      case 1: keep_case<int32_t, double>(c, r); break;
      default: keep_case<int64_t, float>(c, r); break;
    }
  });
  cases(64 * sc, [&](int64_t c, Rng& r) {
    switch (c % 3) {
      case 0: peak_case<int32_t, float>(c, r); break;
      case 1: peak_case<int32_t, double>(c, r); break;
      default: peak_case<int64_t, float>(c, r); break;
    }
  });
  cases(48 * sc, [&](int64_t c, Rng& r) {
    switch (c / 3 % 3) {
      case 0: growth_case<int32_t, float>(c, r); break;
      case 1: growth_case<int32_t, double>(c, r); break;
      default: growth_case<int64_t, float>(c, r); break;
    }
  });
  cases(16 * sc, [&](int64_t c, Rng& r) {
    switch (c / 4 % 3) {
      case 0: recompute_case<int32_t, float>(c, r); break;
      case 1: recompute_case<int32_t, double>(c, r); break;
      default: recompute_case<int64_t, float>(c, r); break;
    }
  });
  std::cout.rdbuf(oc);
  std::cerr.rdbuf(oe);
  rep().finish();
  return 0;
}
