// C19 standard streams, C20 resource failures, C21 termination: real calls with
// operator new and pthread_create under the harness' control.
#include "vt.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <locale>
#include <new>
#include <pthread.h>
#include <sys/stat.h>
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }

// ------------------------------------------------------------ fault injection
namespace inj {
static std::atomic<bool> on{false};        // inside the call under observation
static std::atomic<long> allocs{0}, fail_at{0}, threads{0}, fail_thread_at{0}, live{0}, workers{0}, fired{0}, thread_limit{0};
static std::atomic<bool> persistent{false};
static bool fail_alloc() {
  if (!on.load(std::memory_order_relaxed)) return false;
  const long n = ++allocs, f = fail_at.load(std::memory_order_relaxed);
  if (f && (n == f || (n > f && persistent.load(std::memory_order_relaxed)))) { fired++; return true; }
  return false;
}
static void* get(size_t n, bool nothrow) {
  if (fail_alloc()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = std::malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  live++;
  return p;
}
static void* get_al(size_t n, size_t a) {
  if (fail_alloc()) throw std::bad_alloc();
  void* p = nullptr;
  if (posix_memalign(&p, std::max(a, sizeof(void*)), n ? n : 1)) throw std::bad_alloc();
  live++;
  return p;
}
static void put(void* p) { if (p) { live--; std::free(p); } }
struct Start { void* (*f)(void*); void* a; };
static void* wrapped(void* v) {
  Start s = *static_cast<Start*>(v);
  std::free(v);
  void* r = s.f(s.a);
  workers--;
  return r;
}
static void reset() { allocs = 0; threads = 0; fail_at = 0; fail_thread_at = 0; persistent = false; fired = 0; thread_limit = 0; }
}
void* operator new(size_t n) { return inj::get(n, false); }
void* operator new[](size_t n) { return inj::get(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return inj::get(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return inj::get(n, true); }
void* operator new(size_t n, std::align_val_t a) { return inj::get_al(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return inj::get_al(n, (size_t)a); }
void operator delete(void* p) noexcept { inj::put(p); }
void operator delete[](void* p) noexcept { inj::put(p); }
void operator delete(void* p, size_t) noexcept { inj::put(p); }
void operator delete[](void* p, size_t) noexcept { inj::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { inj::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { inj::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { inj::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { inj::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { inj::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { inj::put(p); }

extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  using fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
  if (!inj::on.load()) return real(t, at, f, a);
  const long n = ++inj::threads, ft = inj::fail_thread_at.load();
  if (ft && (n == ft || (n > ft && inj::persistent.load()))) { inj::fired++; return EAGAIN; }
  const long lim = inj::thread_limit.load();
  if (lim && n > lim) {  // logical work bound exceeded: this call does not terminate
    rep().violation("unbounded-work", "more than " + I(lim) + " worker threads started in one call");
    std::fflush(rep().f);
    _exit(1);
  }
  auto* s = static_cast<inj::Start*>(std::malloc(sizeof(inj::Start)));
  s->f = f;
  s->a = a;
  inj::workers++;
  const int rc = real(t, at, inj::wrapped, s);
  if (rc) { inj::workers--; std::free(s); }
  return rc;
}

// ------------------------------------------------------------------- streams
struct NullBuf : std::streambuf {
  std::atomic<uint64_t> n{0};
  int overflow(int c) override { n++; return traits_type::not_eof(c); }
  std::streamsize xsputn(const char*, std::streamsize k) override { n += (uint64_t)k; return k; }
};
// the caller's own destination; several calls may print to it at the same time
struct Sink : std::streambuf {
  std::mutex m;
  std::string s;
  int overflow(int c) override { std::lock_guard<std::mutex> l(m); if (c != traits_type::eof()) s += (char)c; return traits_type::not_eof(c); }
  std::streamsize xsputn(const char* p, std::streamsize k) override { std::lock_guard<std::mutex> l(m); s.append(p, (size_t)k); return k; }
  std::string str() { std::lock_guard<std::mutex> l(m); return s; }
};
struct StreamState {
  std::streambuf* buf; std::ios::iostate st, ex; std::ios::fmtflags fl; std::streamsize pr; char fill; std::ostream* tie; std::string loc;
  static StreamState of(std::ostream& o) { return {o.rdbuf(), o.rdstate(), o.exceptions(), o.flags(), o.precision(), o.fill(), o.tie(), o.getloc().name()}; }
  std::string diff(const StreamState& b) const {
    std::string d;
    if (buf != b.buf) d += " destination";
    if (st != b.st) d += " state(" + I(st) + "->" + I(b.st) + ")";
    if (ex != b.ex) d += " exceptions";
    if (fl != b.fl) d += " flags(" + I(fl) + "->" + I(b.fl) + ")";
    if (pr != b.pr) d += " precision(" + I(pr) + "->" + I(b.pr) + ")";
    if (fill != b.fill) d += " fill";
    if (tie != b.tie) d += " tie";
    if (loc != b.loc) d += " locale";
    return d;
  }
};

template <class Tf> struct Outcome { bool threw = false, std_exc = true; std::string what; uint64_t hash = 0; };
template <class Ti, class Tf>
Outcome<Tf> guarded(std::vector<std::array<Tf, 3>>& pts, const votess::vtargs& a, bool gpu, bool observe) {
  Outcome<Tf> o;
  inj::on = observe;
  try {
    auto d = votess::tesellate<Ti, Tf>(pts, a, gpu ? votess::device::gpu : votess::device::cpu);
    inj::on = false;
    uint64_t h = hash_points(pts);
    if (!d.list.empty()) h = fnv(d.list.data(), d.list.size() * sizeof(Ti), h);
    if (!d.offs.empty()) h = fnv(d.offs.data(), d.offs.size() * sizeof(Ti), h);
    o.hash = h;
  } catch (const std::exception& e) { inj::on = false; o.threw = true; o.what = e.what(); }
  catch (...) { inj::on = false; o.threw = true; o.std_exc = false; }
  return o;
}
template <class Tf> uint64_t multiset(const std::vector<std::array<Tf, 3>>& v) {
  uint64_t s = v.size();
  for (auto& p : v) s += mix(fnv(&p, sizeof p), 77);
  return s;
}

// ---------------------------------------------------------------------- C20
template <class Ti, class Tf> void faults(Rng& r) {
  const int n = r.chance(0.1) ? r.range(0, 2) : r.range(3, 28);
  const int fam = r.chance(0.25) ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  Params p;
  p.threads = r.range(1, 4);
  p.k = r.range(1, 20); p.gr = r.range(1, 4); p.p = r.range(6, 30); p.t = r.range(8, 50);
  p.recompute = r.chance(0.5);
  p.suppress = r.chance(0.5);
  if (r.chance(0.5)) { p.chunking = true; p.chunk = r.range(2, n + 2); }
  const bool bad = r.chance(0.06);
  if (bad) p.k = 0;
#ifdef VT_SHIM
  if (r.chance(0.25)) { p.gpu = true; p.nd = r.range(1, 8); }
  vtshim::threads() = 1;
#endif
  const auto in = conv<Tf>(gen(fam, n, r));
  const uint64_t ms = multiset(in);
  const votess::vtargs a = p.args();
  const std::string base = std::string(family_name(fam)) + " n=" + I(n) + (sizeof(Tf) == 4 ? " float " : " double ") + p.str();
  NullBuf nb;
  std::streambuf* oldc = std::cout.rdbuf(&nb);
  NullBuf ne;
  std::streambuf* olde = std::cerr.rdbuf(&ne);
  const auto before = StreamState::of(std::cout);
  rep().begin(base + " (reference)");
  Outcome<Tf> ref;
  long A = 0, T = 0;
  for (int w = 0; w < 2; w++) {  // the first one warms up what is allocated once
    auto pts = in;
    inj::reset();
    ref = guarded<Ti, Tf>(pts, a, p.gpu, true);
    A = inj::allocs; T = inj::threads;
  }
  rep().count("allocation points", (uint64_t)A);
  rep().count("thread start points", (uint64_t)T);
  if (ref.threw != bad) rep().violation("reference", "reference call: " + (ref.threw ? ref.what : std::string("accepted")));
  struct Shot { long alloc, thread; bool pers; };
  std::vector<Shot> shots;
  for (long i = 1; i <= A; i++) shots.push_back({i, 0, false});
  for (long i = 1; i <= A; i += 1 + A / 60) shots.push_back({i, 0, true});
  for (long i = 1; i <= T; i++) { shots.push_back({0, i, false}); shots.push_back({0, i, true}); }
  const size_t cap = 1500;
  if (shots.size() > cap) { for (size_t i = shots.size(); i > 1; i--) std::swap(shots[i - 1], shots[r.below(i)]); shots.resize(cap); rep().count("configurations sampled, not enumerated"); }
  else rep().count("configurations enumerated completely");
  size_t q = 0;
  for (const auto& s : shots) {
    const std::string what = s.alloc ? "allocation " + I(s.alloc) + (s.pers ? "+" : "") + " of " + I(A) : "thread start " + I(s.thread) + (s.pers ? "+" : "") + " of " + I(T);
    rep().begin(base + " failing " + what);
    auto pts = in;
    inj::reset();
    inj::fail_at = s.alloc; inj::fail_thread_at = s.thread; inj::persistent = s.pers;
    const long live0 = inj::live;
    bool leak = false, surfaced = false;
    std::string exc;
    {
      const auto o = guarded<Ti, Tf>(pts, a, p.gpu, true);
      exc = o.what;
      surfaced = o.threw;
      if (o.threw && !o.std_exc) rep().violation("foreign-exception", "something that is not a std::exception was thrown on " + what);
      if (!o.threw && !bad && inj::fired > 0) {
        if (o.hash != ref.hash) rep().violation("wrong-result", "call returned another result although " + what + " failed");
      }
      if (!o.threw && s.thread && inj::fired > 0 && o.hash != ref.hash) rep().violation("thread-swallowed", "failed " + what + " was swallowed");
    }
    exc.clear(); exc.shrink_to_fit();
    const int64_t t0 = Report::now_ms();
    while (inj::workers.load() != 0 && Report::now_ms() - t0 < 20000) std::this_thread::yield();
    if (inj::workers.load() != 0) { rep().violation("worker-left", "workers still running after the call failed on " + what); break; }
    if (inj::live.load() != live0) leak = true;
    rep().count(surfaced ? "failures surfaced as an exception" : "failures absorbed");
    if (leak) rep().violation("leak", I(inj::live.load() - live0) + " allocations leaked when failing " + what);
    if (multiset(pts) != ms) rep().violation("points-lost", "points are no longer a permutation after failing " + what);
    const auto after = StreamState::of(std::cout);
    if (!before.diff(after).empty()) { rep().violation("stream", "std::cout changed:" + before.diff(after)); std::cout.rdbuf(&nb); std::cout.clear(); }
    rep().eval(mix(fnv(base.data(), base.size()), mix((uint64_t)s.alloc * 4 + (s.pers ? 1 : 0), (uint64_t)s.thread)), inj::fired.load() > 0);
    if (q++ % 7 == 0 || s.thread) {
      inj::reset();
      auto again = in;
      const auto o = guarded<Ti, Tf>(again, a, p.gpu, false);
      if (o.threw != ref.threw || (!o.threw && o.hash != ref.hash)) rep().violation("next-call", "the call after failing " + what + " gives another result");
      rep().count("follow-up calls compared");
    }
  }
  if (rep().case_index < 16) rep().sample(base + ": " + I(A) + " allocations, " + I(T) + " thread starts, " + I((long long)shots.size()) + " injected failures");
  std::cout.rdbuf(oldc);
  std::cerr.rdbuf(olde);
}

// ---------------------------------------------------------------------- C21
template <class Ti, class Tf> void terminates(int64_t c, Rng& r) {
  const bool deg = !r.chance(0.25);
  const int fam = deg ? F_LATTICE + (int)(c % (F_NDEGEN - F_LATTICE)) : (int)r.below(F_NGENERIC);
  int n = r.chance(0.1) ? r.range(0, 4) : r.chance(0.75) ? r.range(5, 160) : r.range(160, 700);
  if (c % 97 == 0) n = r.range(2000, 5000);
  if (sizeof(Ti) == 1) n = std::min(n, 40);
  Params p;
  p.threads = r.chance(0.25) ? r.range(9, 40) : r.range(1, 4);
  p.k = r.chance(0.3) ? r.range(1, 4) : r.range(5, 60);
  if (r.chance(0.15)) p.k = std::max(1, n + r.range(-3, 3));
  p.gr = r.chance(0.15) ? r.range(16, 40) : r.range(1, 10);
  if (sizeof(Ti) == 1) p.gr = r.range(1, 5);
  p.p = r.chance(0.5) ? r.range(6, 12) : r.range(13, 120);
  p.t = r.chance(0.5) ? r.range(8, 14) : r.range(15, 240);
  p.recompute = r.chance(0.6);
  p.suppress = true;
  if (r.chance(0.4)) { p.chunking = true; p.chunk = r.chance(0.25) ? r.range(-2, 1) : r.range(1, n + 3); if (n > 300 && p.chunk > 0) p.chunk = std::max(p.chunk, n / 60); }
#ifdef VT_SHIM
  if (r.chance(0.15) && n < 300) { p.gpu = true; p.nd = r.range(1, 40); }
  vtshim::threads() = 1;
#endif
  auto v = gen(fam, n, r);
  if (r.chance(0.12)) {  // coordinates just inside the walls
    for (auto& q : v) for (auto& x : q) if (r.chance(0.3)) x = r.chance(0.5) ? 1e-12 : 1.0;
  }
  auto pts = conv<Tf>(v);
  const std::string d = std::string(family_name(fam)) + " n=" + I(n) + " Ti=" + I(sizeof(Ti) * 8) + (sizeof(Tf) == 4 ? " float " : " double ") + p.str();
  rep().begin(d);
  if (rep().case_index < 16) rep().sample(d);
  // chunk rounds plus growth rounds (k doubles up to n, p and t up to their
  // limits), with a wide margin
  const long chunks = p.chunking && p.chunk > 0 ? n / p.chunk + 2 : 2;
  inj::reset();
  inj::thread_limit = (long)std::max(1, p.threads) * (chunks + 400) + 1000;
  NullBuf nb, ne;
  std::streambuf* oc = std::cout.rdbuf(&nb);
  std::streambuf* oe = std::cerr.rdbuf(&ne);
  const auto o = guarded<Ti, Tf>(pts, p.args(), p.gpu, true);
  std::cout.rdbuf(oc);
  std::cerr.rdbuf(oe);
  rep().eval(mix(o.hash, fnv(d.data(), d.size())), n > 1);
  rep().count("calls that returned");
  rep().maxi("worker starts in one call", (double)inj::threads.load());
  rep().maxi("milliseconds in one call", (double)(Report::now_ms() - rep().case_start.load()));
  if (deg) rep().count("degenerate sets");
  if (p.recompute) rep().count("with recompute");
  if (o.threw) {
    rep().count("refused");
    if (o.what.find("cannot index") == std::string::npos) rep().violation("exception", "call threw: " + o.what);
  }
  if (inj::workers.load() != 0) rep().violation("worker-left", "workers outlive the call");
}

// ---------------------------------------------------------------------- C19
static int fd_log = -1;
static off_t fd_size() { std::fflush(stdout); struct stat s; fstat(fd_log, &s); return s.st_size; }

template <class Ti, class Tf> void streams(int64_t c, Rng& r) {
  struct Job { Params p; std::vector<std::array<Tf, 3>> pts; bool fail = false; bool failed = false; };
  const int m = c % 3 == 2 ? r.range(2, 5) : 1;
  const int preset = r.range(0, 5);
  std::vector<Job> js((size_t)m);
  std::string d = m > 1 ? "overlap:" : "single:";
  const bool all_supp = r.chance(0.6);
  int thread_fail = 0;
  for (auto& j : js) {
    const int fam = r.chance(0.2) ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
    const bool large = c % 64 == 9;
    const int n = large ? r.range(300, 5000) : r.range(0, 60);
    j.pts = conv<Tf>(gen(fam, n, r));
    j.p.k = r.range(1, 20); j.p.gr = r.range(1, 5); j.p.p = r.range(6, 40); j.p.t = r.range(8, 80);
    j.p.threads = r.chance(0.1) ? r.range(5, 40) : r.range(1, 4);
    j.p.recompute = r.chance(0.4) && !large;
    if (large) { j.p.gr = r.range(6, 20); j.p.k = r.range(5, 40); }
    else if (r.chance(0.1)) { j.p.k = r.range(20, 200); j.p.gr = r.range(5, 40); }
    if (r.chance(0.4)) { j.p.chunking = true; j.p.chunk = r.range(large ? n / 9 : 2, n + 3); }
    j.p.suppress = all_supp || r.chance(0.5);
#ifdef VT_SHIM
    if (r.chance(0.2) && !large) { j.p.gpu = true; j.p.nd = r.range(1, 6); }
#endif
    if (r.chance(0.3)) {
      j.fail = true;
      switch (r.range(0, 3)) { case 0: j.p.k = 0; break; case 1: j.p.gr = -1; break; case 2: j.p.p = 2; break; default: if (m == 1 && !j.p.gpu) thread_fail = r.range(1, j.p.threads); else j.p.t = 0; }
    }
    d += " {" + std::string(family_name(fam)) + " n=" + I(n) + " " + j.p.str() + (j.fail ? thread_fail ? " thread-start-fails" : " fails" : "") + "}";
  }
  d += " preset=" + I(preset);
  rep().begin(d);
  if (rep().case_index < 24) rep().sample(d);

  // the caller's stream, in some state of its own
  const bool own = r.chance(0.6);  // own buffer, or really file descriptor 1
  Sink sink;
  const auto orig = StreamState::of(std::cout);
  std::streambuf* const obuf = std::cout.rdbuf();
  if (own) std::cout.rdbuf(&sink);
  if (preset == 1) { std::cout << std::hex << std::showbase << std::uppercase; std::cout.precision(13); }
  if (preset == 2) { std::cout << std::fixed << std::left; std::cout.fill('*'); std::cout.precision(2); }
  if (preset == 3) std::cout << std::scientific << std::boolalpha << std::unitbuf;
  if (preset == 4) std::cout.setstate(std::ios::failbit);
  if (preset == 5) std::cout.setstate(r.chance(0.5) ? std::ios::badbit : std::ios::eofbit | std::ios::failbit);
  const bool working = std::cout.good();
  const auto before = StreamState::of(std::cout);
  const auto cerr0 = StreamState::of(std::cerr);
  std::ostringstream esink;
  const off_t fd0 = fd_size();
  const bool quiet = std::all_of(js.begin(), js.end(), [](const Job& j) { return j.p.suppress; });

  inj::reset();
  inj::fail_thread_at = thread_fail;
  inj::on = thread_fail != 0;
  std::vector<std::string> printed((size_t)m);
  auto work = [&](Job& j) {
    try {
      auto res = votess::tesellate<Ti, Tf>(j.pts, j.p.args(), j.p.gpu ? votess::device::gpu : votess::device::cpu);
    } catch (const std::exception&) { j.failed = true; }
  };
  if (m == 1) work(js[0]);
  else {
    std::vector<std::thread> ts;
    std::atomic<int> go{0};
    for (auto& j : js) ts.emplace_back([&] { go++; while (go < m) std::this_thread::yield(); work(j); });
    for (auto& t : ts) t.join();
  }
  inj::on = false;
  const auto after = StreamState::of(std::cout);
  // writing to a stream that was not good marks it further: that is the stream, not the call
  std::string df = before.diff(after);
  if (!quiet && !working) { auto a2 = after; a2.st = before.st; df = before.diff(a2); }
  if (!df.empty()) rep().violation(std::string("cout-") + (m > 1 ? "overlap" : js[0].failed ? "failed-call" : js[0].p.suppress ? "suppressed" : "enabled"), "std::cout changed:" + df);
  if (!cerr0.diff(StreamState::of(std::cerr)).empty()) rep().violation("cerr", "std::cerr changed:" + cerr0.diff(StreamState::of(std::cerr)));
  for (auto& j : js) {
    // whether a refused value or a missing worker makes this call fail is not the concern here
    if (!j.fail && j.failed) rep().violation("failure", "the call failed unexpectedly");
    rep().count(j.failed ? "failed calls" : "completed calls");
  }
  const off_t fd1 = fd_size();
  if (own && fd1 != fd0) rep().violation("other-destination", I(fd1 - fd0) + " bytes went to file descriptor 1 instead of the caller's buffer");
  if (quiet && own && !sink.str().empty()) rep().violation("not-quiet", "suppressed call wrote: " + sink.str().substr(0, 80));
  if (quiet && !own && fd1 != fd0) rep().violation("not-quiet", "suppressed call wrote " + I(fd1 - fd0) + " bytes to file descriptor 1");
  if (quiet) rep().count("quiet scenarios");
  // an enabled call must reach the same stream
  if (m == 1 && !js[0].p.suppress && !js[0].failed && working) {
    rep().count("enabled calls seen on the caller's stream");
    std::string text = sink.str();
    if (!own) { text.resize((size_t)(fd1 - fd0)); if (pread(fd_log, &text[0], text.size(), fd0) < 0) text.clear(); }
    if (preset != 1 && preset != 2) { if (!parse_summary(text).found) rep().violation("enabled-lost", "output enabled, but the summary did not reach the caller's stream"); }
    else if (text.empty()) rep().violation("enabled-lost", "output enabled, but nothing reached the caller's stream");
  }
  // and the stream keeps working
  if (working) {
    const off_t b = fd_size();
    const size_t l = sink.str().size();
    std::cout << "probe" << std::flush;
    if (own ? sink.str().size() != l + 5 : fd_size() != b + 5) rep().violation("probe", "the stream no longer works after the call");
    if (!std::cout) rep().violation("probe-state", "the stream went bad after the call");
  }
  // printing and saving leave the format alone as well
  if (m == 1 && !js[0].failed) {
    auto pts = js[0].pts;
    auto q = js[0].p; q.suppress = true;
    auto res = votess::tesellate<Ti, Tf>(pts, q.args(), votess::device::cpu);
    std::cout.clear();
    std::ostringstream s2;
    std::streambuf* o2 = std::cout.rdbuf(s2.rdbuf());
    auto b2 = StreamState::of(std::cout);
    if (preset != 2 && preset != 1) { res.print(); const auto a2 = StreamState::of(std::cout); if (!b2.diff(a2).empty()) rep().violation("print-format", "print changed std::cout:" + b2.diff(a2)); }
    std::cout.rdbuf(o2);
  }
  std::cout.rdbuf(obuf);
  std::cout.clear();
  std::cout.flags(orig.fl); std::cout.precision(orig.pr); std::cout.fill(orig.fill); std::cout.exceptions(orig.ex);
  rep().eval(fnv(d.data(), d.size()));
  if (thread_fail) rep().count("thread start failures injected", (uint64_t)inj::fired.load());
  if (m > 1) rep().count("overlapping scenarios");
}

// ---------------------------------------------------------------------- C30
// A process locale with its own digits grouping, separators and truth names.
struct Punct : std::numpunct<char> {
  char sep, dec; std::string grp;
  Punct(char s, char d, std::string g) : sep(s), dec(d), grp(std::move(g)) {}
  char do_thousands_sep() const override { return sep; }
  char do_decimal_point() const override { return dec; }
  std::string do_grouping() const override { return grp; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
static std::locale odd_locale(int i) {
  const std::locale c = std::locale::classic();
  switch (i) {
    case 0: return c;
    case 1: return std::locale(c, new Punct(',', '.', "\3"));
    case 2: return std::locale(c, new Punct('.', ',', "\3"));
    case 3: return std::locale(c, new Punct(' ', ',', "\3\2"));
    case 4: return std::locale(c, new Punct('\'', '.', "\1"));
    default: return std::locale(c, new Punct('_', ';', "\2"));
  }
}
struct InLocale {  // around calls into votess only: the harness prints in the classic locale
  std::locale old;
  explicit InLocale(const std::locale& l) : old(std::locale::global(l)) {}
  ~InLocale() { std::locale::global(old); }
};
static std::string slurp(const std::string& f) {
  std::ifstream is(f, std::ios::binary);
  std::stringstream o;
  o << is.rdbuf();
  return o.str();
}
template <class Ti, class Tf> void locales(int64_t c, Rng& r) {
  const int la = r.range(0, 5), lb = r.range(la ? 0 : 1, 5), lc = r.range(1, 5);
  const auto A = odd_locale(la), B = odd_locale(lb), C = odd_locale(lc);
  const bool large = c % 40 == 7;
  const int fam = (int)r.below(F_NGENERIC);
  const int n = large ? r.range(2000, 6000) : r.chance(0.1) ? r.range(0, 3) : r.range(4, 1200);
  Params p;
  p.threads = r.range(1, 3);
  p.k = r.chance(0.15) ? r.range(1000, 3000) : r.range(4, 40);
  if (n > 300) p.k = std::min(p.k, 40);
  p.gr = r.range(1, 12);
  p.p = r.chance(0.2) ? r.range(1000, 4000) : r.range(6, 60);
  p.t = r.chance(0.2) ? r.range(1000, 4000) : r.range(8, 120);
  if (n > 300) { p.p = std::min(p.p, 60); p.t = std::min(p.t, 120); }
  p.recompute = n < 300 && r.chance(0.3);
  p.suppress = true;
  p.chunking = r.chance(0.5);
  p.chunk = r.chance(0.5) ? r.range(1000, 2000000000) : r.range(1, n + 3);
  if (n > 300) p.chunk = std::max(p.chunk, n / 9);
  p.nd = r.range(1, 4000);
  const std::string d = "locales " + I(la) + I(lb) + I(lc) + " " + family_name(fam) + " n=" + I(n) + " nd=" + I(p.nd) + " " + p.str() + " chunksize=" + I(p.chunk);
  const auto in = conv<Tf>(gen(fam, n, r));
  rep().begin(d);
  if (rep().case_index < 16) rep().sample(d);
  auto pts1 = in;
  const auto want = guarded<Ti, Tf>(pts1, p.args(), false, true);
  // set in one, read in another
  votess::vtargs a;
  { InLocale l(A); a = p.args(); }
  const struct { const char* key; int v; } ints[] = {{"k", p.k}, {"knn_grid_resolution", p.gr}, {"cc_p_maxsize", p.p}, {"cc_t_maxsize", p.t}, {"cpu_nthreads", p.threads}, {"chunksize", p.chunk}, {"gpu_ndsize", p.nd}, {"use_chunking", p.chunking}, {"use_recompute", p.recompute}};
  for (const auto& e : ints) {
    int64_t got = 0, w2 = 0; std::string bad, text;
    try { InLocale l(B); got = a[e.key].template get<int>(); w2 = a[e.key].template get<int64_t>(); text = a[e.key].template get<std::string>(); } catch (const std::exception& x) { bad = x.what(); }
    if (!bad.empty()) rep().violation("parameter-locale", std::string(e.key) + "=" + I(e.v) + " set in one locale is refused in another: " + bad);
    else if (got != e.v || w2 != e.v) rep().violation("parameter-locale", std::string(e.key) + "=" + I(e.v) + " set in one locale reads " + I(got) + " in another");
    else if (text != I(e.v)) rep().violation("parameter-text-locale", std::string(e.key) + "=" + I(e.v) + " reads as text '" + text + "'");
    rep().count("parameters read");
  }
  {
    const double x = r.chance(0.5) ? r.range(-8000, 8000) / 8.0 : r.range(0, 100000);
    double got = 0; std::string bad; const std::string lit = r.chance(0.5) ? "" : "2.5";
    votess::vtargs b;
    try { { InLocale l(A); if (lit.empty()) b["k"] = x; else b["k"] = lit; } InLocale l(B); got = b["k"].template get<double>(); } catch (const std::exception& e) { bad = e.what(); }
    const double w = lit.empty() ? x : 2.5;
    if (!bad.empty() || got != w) rep().violation("number-locale", "the number " + std::to_string(w) + " reads " + (bad.empty() ? std::to_string(got) : bad));
  }
  Outcome<Tf> o;
  auto pts2 = in;
  { InLocale l(B); o = guarded<Ti, Tf>(pts2, a, false, true); }
  if (o.threw != want.threw) rep().violation("call-locale", "in another locale the call " + (o.threw ? "failed: " + o.what : std::string("succeeded")));
  else if (!o.threw && o.hash != want.hash) rep().violation("result-locale", "rows or points differ in another locale");
  rep().count("calls in a locale of its own");
  rep().eval(mix(want.hash, fnv(d.data(), d.size())), n > 1);
  if (c % 4 == 0 || large) {  // saved form
    auto pts = in;
    Params q = p;
    q.suppress = true;
    if (want.threw) return;
    auto res = votess::tesellate<Ti, Tf>(pts, q.args(), votess::device::cpu);
    char f1[] = "/tmp/vt-loc-XXXXXX", f2[] = "/tmp/vt-loc-XXXXXX";
    const int d1 = mkstemp(f1), d2 = mkstemp(f2);
    if (d1 < 0 || d2 < 0) { std::perror("mkstemp"); std::exit(2); }
    close(d1); close(d2);
    res.savetxt(f1);
    { InLocale l(C); res.savetxt(f2); }
    const auto t1 = slurp(f1), t2 = slurp(f2);
    unlink(f1); unlink(f2);
    rep().count("saved files compared");
    if (n > 1000) rep().count("saved files with indices of four digits");
    if (t1 != t2) { size_t i = 0; while (i < t1.size() && i < t2.size() && t1[i] == t2[i]) i++; rep().violation("save-locale", "saved file differs in another locale: '" + t2.substr(i > 6 ? i - 6 : 0, 16) + "'"); }
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  const int sc = opt().scale;
  const std::string m = opt().mode;
  if (m == "C20") {
    cases(480 * sc, [&](int64_t c, Rng& r) {
      switch (c % 3) {
        case 0: faults<int32_t, float>(r); break;
        case 1: faults<int32_t, double>(r); break;
        case 2: faults<int64_t, float>(r); break;
      }
    });
  } else if (m == "C21") {
    opt().case_limit_ms = std::min(opt().case_limit_ms, opt().only >= 0 ? 120000 : 30000);
    cases(3200 * sc, [&](int64_t c, Rng& r) {
      switch (r.range(0, 2)) {
        case 0: terminates<int32_t, float>(c, r); break;
        case 1: terminates<int32_t, double>(c, r); break;
        case 2: terminates<int64_t, float>(c, r); break;
      }
    });
  } else if (m == "C19") {
    // a private file descriptor 1, so that everything written to it is seen
    char name[] = "/tmp/vt-stdout-XXXXXX";
    fd_log = mkstemp(name);
    if (fd_log < 0) { std::perror("mkstemp"); return 2; }
    unlink(name);
    std::fflush(stdout);
    dup2(fd_log, 1);
    cases(9600 * sc, [&](int64_t c, Rng& r) {
      if (r.chance(0.7)) streams<int32_t, float>(c, r); else streams<int32_t, double>(c, r);
    });
  } else if (m == "C30") {
    cases(3200 * sc, [&](int64_t c, Rng& r) {
      switch (c % 3) {
        case 0: locales<int32_t, float>(c, r); break;
        case 1: locales<int32_t, double>(c, r); break;
        default: locales<int64_t, float>(c, r); break;
      }
    });
  } else { std::fprintf(stderr, "unknown mode\n"); return 2; }
  rep().finish();
  return 0;
}
