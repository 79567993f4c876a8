// C04 C05 C07 C23 C24 C25 C26: runs of the real code compared with each other
// (threads, chunks, schedules, permutations, resolutions, types, symmetries,
// histories) and the reordering compared with a reference stable sort.
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#include "oracle.hpp"
using namespace vt;
#ifdef VT_SEL
#define VT_WANT(n) (VT_SEL == n)
#else
#define VT_WANT(n) 1
#endif
static std::string I(long long x) { return std::to_string(x); }

// ---------------------------------------------------- schedule perturbation
// Every thread the library starts first waits a pseudo-random time, and the
// order in which workers start and end is recorded.
namespace sched {
static std::atomic<int> mode{0};  // 0 off, 1 random delays, 2 first worker last, 3 yield storm
static std::atomic<uint64_t> counter{0};
static uint64_t seed = 1;
static std::mutex m;
static std::vector<int> started, ended;
struct Start { void* (*f)(void*); void* a; int no; int mode; };
static void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
static void* tramp(void* v) {
  Start s = *static_cast<Start*>(v);
  delete static_cast<Start*>(v);
  Rng r(mix(seed, (uint64_t)s.no + 77));
  if (s.mode == 1) nap((int)r.below(900));
  else if (s.mode == 2) nap(s.no == 0 ? 1500 : 0);
  else if (s.mode == 3) for (uint64_t i = r.below(40); i > 0; i--) sched_yield();
  { std::lock_guard<std::mutex> l(m); started.push_back(s.no); }
  void* x = s.f(s.a);
  { std::lock_guard<std::mutex> l(m); ended.push_back(s.no); }
  return x;
}
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  using fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "pthread_create"));
  const int md = sched::mode.load();
  if (!md) return real(t, a, f, arg);
  auto* s = new sched::Start{f, arg, (int)sched::counter++, md};
  const int rc = real(t, a, sched::tramp, s);
  if (rc) delete s;
  return rc;
}
template <class Ti, class Tf>
Run<Ti, Tf> run_sched(const std::vector<std::array<Tf, 3>>& in, const Params& p, int mode, uint64_t seed, std::set<uint64_t>& orders) {
  sched::seed = seed;
  sched::counter = 0;
  sched::started.clear();
  sched::ended.clear();
  sched::mode = mode;
  auto r = run<Ti, Tf>(in, p);
  sched::mode = 0;
  uint64_t h = 5;
  if (!sched::started.empty()) h = fnv(sched::started.data(), sched::started.size() * 4, h);
  if (!sched::ended.empty()) h = fnv(sched::ended.data(), sched::ended.size() * 4, h);
  orders.insert(h);
  rep().count("worker threads observed", sched::ended.size());
  return r;
}

template <class Ti, class Tf> bool usable(const Run<Ti, Tf>& r, const char* what) {
  if (r.threw) { rep().violation(std::string("exception-") + what, r.what); return false; }
  if (r.rows.size() != r.pts.size()) { rep().violation(std::string("malformed-") + what, "rows do not match the points"); return false; }
  return true;
}

// ------------------------------------------------------------------- C04
template <class Ti, class Tf> void c04(Rng& r, int64_t c, bool large = false) {
  const bool deg = !large && c % 5 == 4;
  const int fam = deg ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  int n = c % 9 == 8 ? r.range(1500, 4000) : r.chance(0.3) ? r.range(0, 20) : r.range(20, 400);
  if (large) n = c % 2 ? r.range(33000, 40000) : r.range(66000, 72000);
  const auto in = conv<Tf>(gen(fam, n, r));
  Params p;
  p.threads = 1;
  p.gr = r.chance(0.15) ? r.range(13, 64) : r.range(1, 12);
  p.k = n <= 400 && r.chance(0.12) ? r.range(110, 420) : r.range(1, n > 1000 ? 60 : 110);
  p.p = r.chance(0.3) ? r.range(6, 20) : r.range(20, 200);
  p.t = r.chance(0.3) ? r.range(8, 40) : r.range(40, 400);
  p.recompute = r.chance(0.35);
  if (large) { p.gr = r.range(24, 36); p.k = r.range(3, 10); p.recompute = false; }
  const std::string base = std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + (sizeof(Tf) == 8 ? " double" : " float");
  rep().begin(base + " (reference, one thread)");
  const auto ref = run<Ti, Tf>(in, p);
  if (!usable(ref, "reference")) return;
  static std::set<uint64_t> orders;
  for (int v = 0; v < (large ? 3 : 7); v++) {
    Params q = p;
    const int x = r.range(0, 7);
    q.threads = x == 0 ? 0 : x == 1 ? n + r.range(0, 3) : x == 2 ? (r.chance(0.3) ? r.range(25, 64) : r.range(9, 24)) : r.range(2, 8);
    if (q.threads > 64) q.threads = 64;
    if (n < 1000 && r.chance(0.02)) q.threads = r.chance(0.4) ? 256 : r.range(65, 600);  // beyond what a byte holds
    q.chunking = v % 3 != 0 && !(q.threads > 64 && n > 100);
    if (q.chunking) {
      // sizes around the interesting boundaries: divisors, n-1, n, n+1, 1, 2
      const int y = r.range(0, 8);
      q.chunk = y == 0 ? 1 : y == 1 ? 2 : y == 2 ? n : y == 3 ? n + 1 : y == 4 ? n - 1 : y == 5 ? n / 2 : y == 6 ? n / 3 : r.range(1, n + 2);
      if (n > 1000 && q.chunk < n / 40) q.chunk = n / 40 + 1;
      if (y == 8 && r.chance(0.3)) q.chunk = r.range(-2, 0);
      if (large) q.chunk = n > 66000 && r.chance(0.6) ? r.range(65536, n - 1) : r.chance(0.5) ? r.range(32768, n - 1) : r.range(n / 9, n / 2);
    }
    const int mode = 1 + (int)r.below(3);
    rep().begin(base + " vs " + q.str() + " schedule " + I(mode));
    const auto a = run_sched<Ti, Tf>(in, q, mode, r.next(), orders);
    rep().eval(mix(ref.hash(), fnv(&q.threads, 4, (uint64_t)q.chunk * 31 + (uint64_t)q.chunking)), n >= 2);
    if (v == 0) rep().sample(rep().current + " -> " + a.sum.str() + " hash " + I((long long)(a.hash() & 0xffffff)));
    if (!usable(a, "variant")) continue;
    if (a.pts != ref.pts) rep().violation("points-differ", "reordered points differ from the one-thread run");
    if (a.offs != ref.offs || a.list != ref.list) {
      size_t i = 0;
      while (i < a.rows.size() && a.rows[i] == ref.rows[i]) i++;
      rep().violation("result-differs", "row " + I((long long)i) + (i < a.rows.size() ? ": " + vstr(a.rows[i]) + " instead of " + vstr(ref.rows[i]) : ""));
    }
    if (a.sum.str() != ref.sum.str()) rep().violation("summary-differs", a.sum.str() + " instead of " + ref.sum.str());
  }
  rep().maxi("distinct start/end orders of workers in a shard", (double)orders.size());
}
// more chunks than 8 or 16 bit numbers hold
template <class Ti, class Tf> void c04_many(Rng& r, int64_t c) {
  const int n = c % 8 == 0 ? r.range(65600, 66500) : c % 8 == 1 ? r.range(32800, 33500) : r.range(300, 3000);
  const int fam = (int)r.below(F_NGENERIC);
  const auto in = conv<Tf>(gen(fam, n, r));
  Params p;
  p.threads = 1; p.k = r.range(1, 4); p.p = r.range(7, 12); p.t = r.range(12, 20);
  p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
  const std::string base = std::string(family_name(fam)) + " n=" + I(n) + " " + p.str();
  rep().begin(base);
  const auto ref = run<Ti, Tf>(in, p);
  if (!usable(ref, "reference")) return;
  Params q = p;
  q.chunking = true;
  q.chunk = c % 8 < 2 ? 1 : r.range(1, std::max(1, n / 257));
  if (c % 8 > 1) q.threads = r.range(1, 3);
  rep().begin(base + " vs " + q.str());
  const auto a = run<Ti, Tf>(in, q);
  rep().eval(mix(ref.hash(), (uint64_t)q.chunk), true);
  rep().maxi("chunks in a call", (double)n / q.chunk);
  if (!usable(a, "variant")) return;
  if (a.pts != ref.pts) rep().violation("points-differ", "reordered points differ from the unchunked run");
  if (a.offs != ref.offs || a.list != ref.list) rep().violation("result-differs", "the result differs from that of the unchunked run");
  if (a.sum.str() != ref.sum.str()) rep().violation("summary-differs", a.sum.str() + " instead of " + ref.sum.str());
}

// rows keyed by the identity (index in `orig`) of the points; empty on failure
template <class Tf> using PV = std::vector<std::array<Tf, 3>>;
template <class Tf> std::map<std::array<Tf, 3>, int64_t> index_of(const PV<Tf>& v) {
  std::map<std::array<Tf, 3>, int64_t> m;
  for (size_t i = 0; i < v.size(); i++) m[v[i]] = (int64_t)i;
  return m;
}
template <class Ti, class Tf>
std::vector<std::set<int64_t>> by_identity(const Run<Ti, Tf>& r, const std::map<std::array<Tf, 3>, int64_t>& ix, size_t n) {
  std::vector<std::set<int64_t>> s(n);
  for (size_t i = 0; i < r.pts.size(); i++) {
    const auto it = ix.find(r.pts[i]);
    if (it == ix.end()) continue;
    for (int64_t j : r.rows[i])
      if (j >= 0 && j < (int64_t)r.pts.size()) {
        const auto jt = ix.find(r.pts[(size_t)j]);
        if (jt != ix.end()) s[(size_t)it->second].insert(jt->second);
      }
  }
  return s;
}
// is the difference between two relations explained by faces that are
// negligible (relative depth below tol)?  Reports otherwise.
template <class Tf>
void compare(const char* key, const std::vector<std::set<int64_t>>& a, const std::vector<std::set<int64_t>>& b, const PV<Tf>& pts,
             const Params& p, double tol0, double tol1, double margin, const std::string& what) {
  if (a == b) return;
  oracle::Diagram<Tf> dg(pts);
  const int n = (int)pts.size();
  const int keff = p.recompute ? n - 1 : std::max(1, std::min(p.k, n - 1));
  for (int i = 0; i < n; i++) {
    if (a[(size_t)i] == b[(size_t)i]) continue;
    const double tie = margin > 1e-5 ? 2e-6 : 1e-9;
    const auto m = p.recompute ? dg.model(i, keff, 255, 510, tie) : dg.model(i, keff, p.p, p.t, tie);
    if (m.tie_at_k || (m.abandoned() && (m.margin < margin))) { rep().count("cells skipped: tie"); continue; }
    std::vector<int64_t> diff;
    std::set_symmetric_difference(a[(size_t)i].begin(), a[(size_t)i].end(), b[(size_t)i].begin(), b[(size_t)i].end(), std::back_inserter(diff));
    if (!m.abandoned() && m.margin < margin && diff.size() > 8) { rep().count("cells skipped: near-degenerate"); continue; }
    for (int64_t j : diff) {
      P3 d;
      for (size_t c = 0; c < 3; c++) d[c] = dg.at((size_t)j)[c] - dg.at((size_t)i)[c];
      const double tol = tol0 + tol1 / oracle::dot(d, d);
      const double dp = m.abandoned() ? 1e9 : dg.depth(i, (int)j, m);
      if (std::fabs(dp) > tol) {
        rep().violation(key, what + ": point " + I(i) + " and " + I(j) + " neighbours in only one of the runs, face depth " + std::to_string(dp) +
                                 " rows " + vstr(std::vector<int64_t>(a[(size_t)i].begin(), a[(size_t)i].end())) + " / " +
                                 vstr(std::vector<int64_t>(b[(size_t)i].begin(), b[(size_t)i].end())));
        return;
      }
      rep().count("negligible differences tolerated");
    }
  }
}
template <class Tf> constexpr double tol0() { return sizeof(Tf) == 8 ? 1e-6 : 2e-3; }
template <class Tf> constexpr double tol1() { return sizeof(Tf) == 8 ? 1e-12 : 6e-5; }
template <class Tf> constexpr double marg() { return sizeof(Tf) == 8 ? 1e-7 : 2e-4; }

static Params mixed_params(Rng& r, int n) {
  Params p;
  p.threads = r.chance(0.1) ? r.range(5, 40) : r.range(1, 4);
  p.gr = r.chance(0.15) ? r.range(13, 64) : r.range(1, 12);
  const int x = r.range(0, 9);
  if (x < 5) { p.k = r.range(60, 160); p.p = 200; p.t = 400; }
  else if (x < 7) { p.k = r.range(1, 60); p.p = r.range(16, 60); p.t = r.range(20, 90); }
  else if (x < 8) { p.k = r.range(4, 60); p.p = r.range(6, 12); p.t = r.range(8, 20); p.recompute = true; }
  else { p.k = n + 2; p.p = 255; p.t = 510; }
  if (r.chance(0.2)) { p.chunking = true; p.chunk = r.range(1, n + 1); }
  return p;
}

// ------------------------------------------------------------------- C05
// the family with wall distances of 1e-6 is beyond what single precision resolves
template <class Tf> int resolved(int fam) { return fam == F_EDGES && sizeof(Tf) < 8 ? (int)F_WALLS : fam; }
template <class Tf> void c05(Rng& r, int64_t c) {
  const int fam = resolved<Tf>((int)(c % F_NGENERIC));
  const int n = c % 23 == 22 ? r.range(1500, 5000) : r.chance(0.2) ? r.range(2, 20) : r.range(20, 400);
  const auto in = conv<Tf>(gen(fam, n, r));
  const auto ix = index_of(in);
  Params p = mixed_params(r, n);
  if (n > 1000) { p.k = 60; p.p = 120; p.t = 240; p.recompute = false; }
  const std::string base = std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + (sizeof(Tf) == 8 ? " double" : " float");
  rep().begin(base);
  const auto ref = run<int, Tf>(in, p);
  if (!usable(ref, "reference")) return;
  const auto a = by_identity(ref, ix, in.size());
  static const int grs[] = {1, 2, 3, 4, 5, 7, 8, 10, 13, 16, 19, 24, 31, 32, 33, 40, 48, 64};
  for (int v = 0; v < 6; v++) {
    Params q = p;
    if (v != 3) q.gr = v == 0 ? 1 : v == 1 ? r.range(17, 64) : grs[r.below(18)];
    if (v == 4 && n <= 60) q.gr = c % 7 ? r.range(65, 128) : n <= 8 ? r.range(129, 270) : 100;
    auto in2 = in;
    if (v >= 2)
      switch (r.range(0, 3)) {
        case 0: std::reverse(in2.begin(), in2.end()); break;
        case 1: std::sort(in2.begin(), in2.end()); break;
        default: for (size_t i = in2.size(); i > 1; i--) std::swap(in2[i - 1], in2[r.below(i)]);
      }
    rep().begin(base + " vs gr=" + I(q.gr) + (v >= 2 ? " permuted" : ""));
    const auto b = run<int, Tf>(in2, q);
    rep().eval(mix(hash_points(in2), (uint64_t)q.gr), n >= 2);
    if (v == 0) rep().sample(rep().current + " -> " + b.sum.str());
    if (!usable(b, "variant")) continue;
    compare("neighbours-differ", a, by_identity(b, ix, in.size()), in, p, tol0<Tf>(), tol1<Tf>(), marg<Tf>(), rep().current);
  }
}

// large sets and very fine grids: which points are neighbours, compared by coordinates
template <class Tf> void c05_large(Rng& r, int64_t c) {
  const bool fine = c % 2;
  const int fam = fine ? (int)F_UNIFORM : resolved<Tf>((int)r.below(F_NGENERIC));
  const int n = fine ? r.range(150, 450) : c % 8 == 0 ? r.range(33000, 36000) : c % 8 == 4 ? r.range(66000, 68000) : r.range(8000, 14000);
  auto v = gen(fam, n, r);
  if (fine && r.chance(0.6)) {
    const double s = r.uni(0.06, 0.3);
    for (size_t a = 0; a < 3; a++) { const double o = r.chance(0.4) ? 0.99 - s : r.uni(0.01, 0.99 - s); for (auto& q : v) q[a] = o + s * q[a]; }
  }
  const auto in = conv<Tf>(v);
  const auto ix = index_of(in);
  if (ix.size() != in.size()) return;
  Params p;
  p.threads = 3; p.k = fine ? r.range(12, 40) : r.range(20, 34); p.p = 80; p.t = 160;
  p.gr = std::max(2, (int)std::lround(std::cbrt((double)n / 2)));
  if (!fine) { p.chunking = true; p.chunk = 5000; }
  const std::string base = std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + (sizeof(Tf) == 8 ? " double" : " float");
  rep().begin(base);
  const auto ref = run<int, Tf>(in, p);
  if (!usable(ref, "reference")) return;
  const auto a = by_identity(ref, ix, in.size());
  for (int w = 0; w < 2; w++) {
    Params q = p;
    q.gr = fine ? (r.chance(0.5) ? r.range(250, 310) : r.range(100, 260)) : w == 0 ? p.gr * 2 + r.range(0, 9) : p.gr;
    auto in2 = in;
    if (w) for (size_t i = in2.size(); i > 1; i--) std::swap(in2[i - 1], in2[r.below(i)]);
    rep().begin(base + " vs gr=" + I(q.gr) + (w ? " permuted" : ""));
    const auto b = run<int, Tf>(in2, q);
    rep().eval(mix(hash_points(in2), (uint64_t)q.gr), true);
    rep().count(fine ? "comparisons with very fine grids" : "comparisons of large sets");
    if (!usable(b, "variant")) continue;
    compare("neighbours-differ", a, by_identity(b, ix, in.size()), in, p, tol0<Tf>(), tol1<Tf>(), marg<Tf>(), rep().current);
  }
}

// ------------------------------------------------------------------- C25
template <class Tf> void c25(Rng& r, int64_t c) {
  const int fam = resolved<Tf>((int)(c % F_NGENERIC));
  const int n = r.chance(0.2) ? r.range(2, 20) : r.range(20, 300);
  const double q = sizeof(Tf) == 8 ? 0x1.0p50 : 0x1.0p23;
  auto pts = gen(fam, n, r);
  PV<Tf> in;
  for (auto& v : pts) {
    std::array<Tf, 3> x;
    for (size_t i = 0; i < 3; i++) x[i] = (Tf)(std::floor(std::min(std::max(v[i], 2 / q), 1 - 2 / q) * q) / q);
    in.push_back(x);
  }
  std::sort(in.begin(), in.end());
  in.erase(std::unique(in.begin(), in.end()), in.end());
  Params p = mixed_params(r, (int)in.size());
  const std::string base = std::string(family_name(fam)) + " n=" + I((long long)in.size()) + " " + p.str() + (sizeof(Tf) == 8 ? " double" : " float");
  rep().begin(base);
  const auto ref = run<int, Tf>(in, p);
  if (!usable(ref, "reference")) return;
  const auto a = by_identity(ref, index_of(in), in.size());
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int v = 0; v < 6; v++) {
    const int s = (int)((c * 7 + v * 8 + (int64_t)r.below(8)) % 48);
    auto in2 = in;
    for (size_t i = 0; i < in.size(); i++)
      for (size_t ax = 0; ax < 3; ax++) {
        const Tf x = in[i][(size_t)perm[s / 8][ax]];
        in2[i][ax] = (s >> ax) & 1 ? Tf(1) - x : x;
      }
    rep().begin(base + " symmetry " + I(s));
    rep().count("symmetry " + I(s));
    const auto b = run<int, Tf>(in2, p);
    rep().eval(mix(hash_points(in), (uint64_t)s), in.size() >= 2 && s);
    if (v == 0) rep().sample(rep().current + " -> " + b.sum.str());
    if (!usable(b, "variant")) continue;
    compare("symmetry-broken", a, by_identity(b, index_of(in2), in.size()), in, p, tol0<Tf>(), tol1<Tf>(), marg<Tf>(), rep().current);
  }
}

#if VT_WANT(26)
// ------------------------------------------------------------------- C26
// a cell complete under some limits keeps its row under any larger ones
template <class Ti, class Tf> void c26(Rng& r, int64_t c) {
  const int fam = resolved<Tf>((int)(c % F_NGENERIC));
  const int n = c % 29 == 28 ? r.range(900, 2500) : r.chance(0.2) ? r.range(2, 20) : r.range(20, 420);
  const auto in = conv<Tf>(gen(fam, n, r));
  Params p;
  p.threads = r.range(1, 4);
  p.gr = r.chance(0.12) ? r.range(15, 64) : r.range(1, 14);
  p.k = r.chance(0.2) ? r.range(1, 14) : r.range(15, 120);
  p.p = r.chance(0.3) ? r.range(10, 24) : r.range(25, 120);
  p.t = r.chance(0.3) ? r.range(16, 44) : r.range(45, 240);
  const std::string base = std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + (sizeof(Tf) == 8 ? " double" : " float");
  rep().begin(base);
  const auto ref = run<Ti, Tf>(in, p);
  if (!usable(ref, "reference")) return;
  // which cells are complete, by the independent model
  oracle::Diagram<Tf> dg(ref.pts);
  std::vector<char> sure(ref.pts.size(), 0);
  long shaky = 0;
  size_t done = 0;
  for (size_t i = 0; i < ref.pts.size() && n >= 2; i++) {
    const auto m = dg.model((int)i, std::max(1, std::min(p.k, n - 1)), p.p, p.t, sizeof(Tf) == 8 ? 1e-9 : 2e-5);
    const bool bad = m.tie_at_k || m.margin < marg<Tf>() || m.reach_margin < marg<Tf>() || m.order_margin < (sizeof(Tf) == 8 ? 1e-10 : 1e-5);
    shaky += bad;
    sure[i] = !bad && m.reached && !m.abandoned();
    done += sure[i];
  }
  rep().count("complete cells followed", done);
  for (int v = 0; v < 6; v++) {
    Params q = p;
    const int w = v == 0 ? 1 : v == 1 ? 2 : v == 2 ? 4 : r.range(1, 7);
    if (w & 1) q.k = r.chance(0.3) ? n + r.range(-2, 700) : p.k + r.range(1, 300);
    if (q.k < p.k) q.k = p.k;
    if (w & 2) q.p = r.chance(0.3) ? r.range(256, 5000) : std::max(p.p, r.range(p.p, 400));
    if (w & 4) q.t = r.chance(0.3) ? r.range(511, 9000) : std::max(p.t, r.range(p.t, 800));
    if (n > 1000) q.k = std::min(q.k, std::max(p.k, 400));
    q.recompute = v == 5;
    q.threads = r.range(1, 4);
    rep().begin(base + " vs " + q.str());
    const auto b = run<Ti, Tf>(in, q);
    rep().eval(mix(ref.hash(), fnv(&q.k, 4, (uint64_t)q.p * 31 + (uint64_t)q.t * 131071 + (uint64_t)q.recompute)), done > 0);
    if (v == 0) rep().sample(rep().current + " -> " + I((long long)done) + " complete cells, " + b.sum.str());
    if (!usable(b, "larger")) continue;
    if (b.pts != ref.pts) { rep().violation("points-differ", "the reordered points depend on the limits"); continue; }
    for (size_t i = 0; i < b.rows.size(); i++)
      if (sure[i] && b.rows[i] != ref.rows[i]) {
        rep().violation("complete-cell-changed", "row " + I((long long)i) + " is complete with the smaller limits: " + vstr(ref.rows[i]) + " but becomes " + vstr(b.rows[i]));
        break;
      }
    if (!q.recompute && b.sum.found && ref.sum.found && b.sum.sr > ref.sum.sr + shaky)
      rep().violation("more-failures", "larger limits leave more cells unfinished: " + ref.sum.str() + " became " + b.sum.str());
  }
}
#endif

#if VT_WANT(24)
// ------------------------------------------------------------------- C24
template <class Ti, class Tf>
void c24_type(const char* name, const PV<Tf>& in, const Params& p, const Run<int, Tf>& ref) {
  rep().begin(std::string("n=") + I((long long)in.size()) + " " + p.str() + " index type " + name + (sizeof(Tf) == 8 ? " double" : " float"));
  const auto b = run<Ti, Tf>(in, p);
  const int64_t mx = (int64_t)std::numeric_limits<Ti>::max();
  const int64_t cells = (int64_t)p.gr * p.gr * p.gr;
  rep().eval(mix(hash_points(in), fnv(name, std::strlen(name), (uint64_t)p.gr)), in.size() >= 2);
  const bool fits = (int64_t)ref.list.size() <= mx && (int64_t)in.size() < mx && cells < mx;
  if (b.threw) {
    rep().count(std::string("refused ") + name);
    if (fits) rep().violation("refused-fitting", "the result fits " + std::string(name) + " but the call threw: " + b.what);
    return;
  }
  if (!fits) {
    rep().violation("not-refused", "points, cells or neighbours do not fit " + std::string(name) + " but the call returned");
    return;
  }
  rep().count(std::string("compared ") + name);
  rep().sample(rep().current + " -> " + I((long long)b.list.size()) + " neighbours");
  if (b.pts != ref.pts) rep().violation("points-differ", "reordered points differ between int and " + std::string(name));
  if (b.rows != ref.rows) {
    size_t i = 0;
    while (i < b.rows.size() && i < ref.rows.size() && b.rows[i] == ref.rows[i]) i++;
    rep().violation("rows-differ", std::string(name) + " row " + I((long long)i) + " " + (i < b.rows.size() ? vstr(b.rows[i]) : "missing") + " int " + (i < ref.rows.size() ? vstr(ref.rows[i]) : "missing"));
  }
}
static void c24(Rng& r, int64_t c) {
  const bool deg = c % 6 == 5;
  const int fam = deg ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : resolved<float>((int)(c % F_NGENERIC));
  const int x = (int)(c % 10);
  const int n = x == 0 ? r.range(1, 12) : x == 1 ? r.range(100, 140) : x == 2 ? r.range(1800, 3500) : r.range(13, 400);
  const auto f = conv<float>(gen(fam, n, r));
  PV<double> d;
  for (auto& v : f) d.push_back({v[0], v[1], v[2]});
  Params p = mixed_params(r, n);
  if (n > 1000) { p.k = 60; p.p = 120; p.t = 240; p.recompute = false; }
  if (r.chance(0.2)) p.gr = r.range(28, 36);
  if (x == 0 || x == 1) p.gr = r.range(1, 6);
  rep().begin(std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + " int/float");
  const auto rf = run<int, float>(f, p);
  if (!usable(rf, "int/float")) return;
  rep().begin(std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + " int/double");
  const auto rd = run<int, double>(d, p);
  if (!usable(rd, "int/double")) return;
  c24_type<int64_t, float>("int64", f, p, rf);
  c24_type<int64_t, double>("int64", d, p, rd);
  c24_type<long, float>("long", f, p, rf);
  c24_type<int16_t, float>("int16", f, p, rf);
  if (c % 2) c24_type<int16_t, double>("int16", d, p, rd);
  if (n <= 140) c24_type<int8_t, float>("int8", f, p, rf);
  if (!deg && n >= 2) {
    rep().begin(std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + " float against double");
    rep().count("precisions compared");
    rep().eval(mix(hash_points(f), 99), true);
    compare("precision-differs", by_identity(rf, index_of(f), f.size()), by_identity(rd, index_of(d), d.size()), d, p,
            tol0<float>(), tol1<float>(), marg<float>(), rep().current);
  }
}
#endif

#if VT_WANT(24)
static void c24_large(Rng& r, int64_t c) {
  const int fam = (int)r.below(F_NGENERIC);
  const bool rec = c % 4 == 3;
  const int n = rec ? r.range(1000, 2500) : c % 4 == 0 ? r.range(66000, 70000) : c % 4 == 1 ? r.range(33000, 36000) : r.range(6000, 32000);
  const auto f = conv<float>(gen(fam, n, r));
  Params p;
  p.threads = 4; p.k = rec ? r.range(1, 24) : r.range(2, 12); p.p = r.range(7, 30); p.t = r.range(12, 50); p.recompute = rec;
  p.gr = c % 2 ? std::max(1, (int)std::lround(std::cbrt((double)n / 2))) : r.range(32, 70);
  if (r.chance(0.5)) { p.chunking = true; p.chunk = r.range(n / 9 + 1, n); }
  if (c % 4 == 0) { p.chunking = true; p.chunk = r.range(400, 2000); }   // chunks that start beyond 65535
  rep().begin(std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + " int/float");
  const auto rf = run<int, float>(f, p);
  if (!usable(rf, "int/float")) return;
  rep().count("large sets");
  c24_type<int64_t, float>("int64", f, p, rf);
  c24_type<int16_t, float>("int16", f, p, rf);
}
#endif

// ------------------------------------------------------------------- C07
// cells a coordinate may be put in: exact where the arithmetic is exact
static std::pair<int, int> cells_of(double x, int gr) {
  const double s = x * gr;
  auto cl = [&](double v) { return std::min(gr - 1, std::max(0, (int)std::floor(v))); };
  if ((gr & (gr - 1)) == 0) return {cl(s), cl(s)};
  const double e = 1e-6 * gr;
  return {cl(s - e), cl(s + e)};
}
template <class Tf> void allowed(const std::array<Tf, 3>& p, int gr, int lo[3], int hi[3]) {
  for (size_t a = 0; a < 3; a++) { auto q = cells_of((double)p[a], gr); lo[a] = q.first; hi[a] = q.second; }
}
// original indices of the reordered points: identical points are matched in order
template <class Tf> bool match(const PV<Tf>& in, const PV<Tf>& out, std::vector<size_t>& orig) {
  std::map<std::array<Tf, 3>, std::vector<size_t>> m;
  for (size_t i = 0; i < in.size(); i++) m[in[i]].push_back(i);
  std::map<std::array<Tf, 3>, size_t> used;
  orig.assign(out.size(), 0);
  for (size_t i = 0; i < out.size(); i++) {
    auto it = m.find(out[i]);
    if (it == m.end()) return false;
    size_t& u = used[out[i]];
    if (u >= it->second.size()) return false;
    orig[i] = it->second[u++];
  }
  return out.size() == in.size();
}
template <class Tf> bool same_bits(const PV<Tf>& a, const PV<Tf>& b) { return a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(a[0])); }

template <class Tf> void check_order(const PV<Tf>& in, const PV<Tf>& out, int gr, const char* who) {
  std::vector<size_t> orig;
  if (!match(in, out, orig)) { rep().violation(std::string("not-a-permutation-") + who, "the array is not a permutation of the points passed in"); return; }
  int64_t last = -1;
  size_t last_orig = 0;
  for (size_t i = 0; i < out.size(); i++) {
    int lo[3], hi[3];
    allowed(out[i], gr, lo, hi);
    if (lo[0] != hi[0] || lo[1] != hi[1] || lo[2] != hi[2]) { rep().count("points on a cell wall up to rounding"); continue; }
    const int64_t id = lo[0] + (int64_t)gr * lo[1] + (int64_t)gr * gr * lo[2];
    if (id < last) { rep().violation(std::string("not-grouped-") + who, "cell " + I(id) + " after cell " + I(last) + " at position " + I((long long)i)); return; }
    if (id == last && orig[i] < last_orig) { rep().violation(std::string("not-stable-") + who, "cell " + I(id) + ": point " + I((long long)orig[i]) + " of the input after " + I((long long)last_orig)); return; }
    last = id;
    last_orig = orig[i];
    rep().count("points checked");
  }
}
template <class Ti, class Tf> void c07_direct(const PV<Tf>& in, int gr, const char* ty) {
  auto v = in;
  rep().begin(std::string("sort n=") + I((long long)in.size()) + " gr=" + I(gr) + " " + ty + (sizeof(Tf) == 8 ? "/double" : "/float"));
  votess::vtargs args;
  args["knn_grid_resolution"] = gr;
  const auto res = xyzset::sort<Ti, Tf>(v, args.get_xyzset());
  const auto& id = res.first;
  const auto& offset = res.second;
  rep().eval(mix(hash_points(in), fnv(ty, std::strlen(ty), (uint64_t)gr)), in.size() > 1);
  check_order(in, v, gr, "sort");
  if (id.size() != in.size()) { rep().violation("id-size", "id has " + I((long long)id.size()) + " entries"); return; }
  const int64_t ncell = (int64_t)gr * gr * gr;
  if ((int64_t)offset.size() != ncell + 1) { rep().violation("offset-size", "offset has " + I((long long)offset.size()) + " entries for " + I(ncell) + " cells"); return; }
  std::vector<int32_t> cnt((size_t)ncell + 1, 0);
  for (size_t i = 0; i < id.size(); i++) {
    if (id[i] < 0 || id[i] >= ncell) { rep().violation("id-range", "cell " + I(id[i])); return; }
    if (i && id[i] < id[i - 1]) { rep().violation("id-order", "ids not ascending"); return; }
    cnt[(size_t)id[i]]++;
    int lo[3], hi[3];
    allowed(v[i], gr, lo, hi);
    const int64_t cx[3] = {(int64_t)id[i] % gr, ((int64_t)id[i] / gr) % gr, (int64_t)id[i] / gr / gr};
    for (size_t a = 0; a < 3; a++)
      if (cx[a] < lo[a] || cx[a] > hi[a]) {
        rep().violation("id-wrong", "coordinate " + std::to_string((double)v[i][a]) + " put in cell " + I(cx[a]) + " of " + I(gr));
        return;
      }
  }
  int64_t sum = 0;
  for (size_t i = 0; i <= (size_t)ncell; i++) {
    if ((int64_t)offset[i] != sum) { rep().violation("offset-wrong", "offset[" + I((long long)i) + "]=" + I(offset[i]) + " but " + I(sum) + " points lie in earlier cells"); return; }
    sum += cnt[i];
  }
}
template <class Tf> void c07(Rng& r, int64_t c) {
  const bool deg = c % 2;
  int fam = deg ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  if (c % 5 == 1) fam = F_GRIDWALL;
  const int n = c % 40 == 39 ? r.range(60000, 80000) : r.chance(0.3) ? r.range(0, 30) : r.range(30, 900);
  auto pts = gen(fam, n, r);
  auto in = conv<Tf>(pts);
  // a share of coordinates next to the walls and to 1
  for (auto& v : in) for (auto& x : v) if (r.chance(0.02)) {
    const int q = r.range(0, 3);
    x = q == 0 ? std::nextafter(Tf(1), Tf(0)) : q == 1 ? std::numeric_limits<Tf>::min() : q == 2 ? Tf(1) - std::numeric_limits<Tf>::epsilon() * Tf(3) : Tf(0.5);
  }
  const int gr = r.chance(0.1) ? r.range(65, 200) : r.chance(0.3) ? (1 << r.range(0, 6)) : r.range(1, 64);
  if (c % 160 == 30 || c % 160 == 116) {  // more cells than 27 bits can number
    auto few = in;
    few.resize(std::min<size_t>(few.size(), 2000));
    c07_direct<int, Tf>(few, r.range(513, 530), "int");
    rep().count("grids finer than 512");
  }
  if (c % 160 == 3 || c % 160 == 100) {  // more cells than 24 bits can number
    auto few = in;
    few.resize(std::min<size_t>(few.size(), 4000));
    const int g = r.range(257, 290);
    c07_direct<int, Tf>(few, g, "int");
    if (c % 160 == 3) c07_direct<int64_t, Tf>(few, g, "int64");
  }
  c07_direct<int, Tf>(in, gr, "int");
  c07_direct<int64_t, Tf>(in, gr, "int64");
  if (gr <= 31 && n < 30000) c07_direct<int16_t, Tf>(in, gr, "int16");
  if (gr <= 5 && n < 120) c07_direct<int8_t, Tf>(in, gr, "int8");
  // the whole call
  if (n < 5000) {
    Params p;
    p.gr = gr;
    p.k = r.range(1, 12);
    p.p = 20; p.t = 40;
    p.threads = r.range(1, 3);
    p.recompute = n < 200 && r.chance(0.3);
    if (r.chance(0.3)) { p.chunking = true; p.chunk = r.range(1, n + 2); if (n > 300) p.chunk = std::max(p.chunk, n / 10); }
    rep().begin(std::string(family_name(fam)) + " n=" + I(n) + " " + p.str() + " call");
    const auto a = run<int, Tf>(in, p);
    rep().eval(mix(hash_points(in), 1000 + (uint64_t)gr), n > 1);
    rep().sample(rep().current + " -> " + a.sum.str());
    if (a.threw) { rep().violation("exception", a.what); return; }
    check_order(in, a.pts, gr, "call");
  }
}

#if VT_WANT(23)
// ------------------------------------------------------------------- C23
struct Call { int fam, n, inst; uint64_t seed; Params p; bool bad; int moved = -1; };
static Call rand_call(Rng& r) {
  Call c;
  c.fam = r.chance(0.3) ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  const bool large = r.chance(0.07);
  c.n = large ? (r.chance(0.5) ? r.range(300, 900) : r.range(900, 3000)) : r.chance(0.2) ? r.range(0, 5) : r.range(6, 200);
  c.inst = r.range(0, 4);
  c.seed = r.next();
  c.p = mixed_params(r, c.n);
  if (large) { c.p.k = r.range(4, 60); c.p.gr = r.range(6, 20); c.p.p = r.range(6, 100); c.p.t = r.range(8, 200); c.p.recompute = false; if (c.n < 900 && r.chance(0.6)) c.p.k = r.range(200, 700); }
  c.p.suppress = r.chance(0.3);
  c.p.gpu = !large && r.chance(0.25);
  c.p.nd = r.range(1, 8);
  c.bad = r.chance(0.12);
  if (!c.bad && r.chance(0.1)) c.p.k = r.range(100, 500);
  if (c.bad) { const int q = r.range(0, 3); if (q == 0) c.p.k = 0; else if (q == 1) c.p.p = 3; else if (q == 2) c.p.gr = -1; else c.p.t = 2; }
  return c;
}
// like an earlier call of the history, in all but one respect
static Call similar_call(const Call& a, Rng& r) {
  Call c = a;
  switch (r.range(0, 9)) {
    case 0: case 1: c.moved = r.range(0, std::max(0, c.n - 1)); break;
    case 2: c.seed = r.next(); break;
    case 3: if (!c.bad) c.p.gr = r.range(1, 16); break;
    case 4: if (!c.bad) c.p.k = r.range(1, 80); break;
    case 5: if (!c.bad) { c.p.p = r.range(6, 80); c.p.t = r.range(8, 160); } break;
    case 6: c.p.recompute = !c.p.recompute && c.n < 300; break;
    case 7: c.p.gpu = !c.p.gpu && c.n < 300; break;
    case 8: c.inst = r.range(0, 4); break;
    default: c.p.chunking = !c.p.chunking; c.p.chunk = r.range(c.n / 20 + 1, c.n + 2);
  }
  return c;
}
static std::string call_str(const Call& c) {
  return std::string(family_name(c.fam)) + " n=" + I(c.n) + " inst=" + I(c.inst) + " " + c.p.str() + (c.moved >= 0 ? " point " + I(c.moved) + " moved" : "") + (c.bad ? " (refused)" : "");
}
template <class Ti, class Tf> uint64_t exec_t(const Call& c, uint64_t* again) {
  Rng r(c.seed);
  auto in = conv<Tf>(gen(c.fam, c.n, r));
  if (c.moved >= 0 && c.moved < (int)in.size()) for (auto& x : in[(size_t)c.moved]) x = (Tf)r.uni(0.01, 0.99);
  const auto a = run<Ti, Tf>(in, c.p);
  uint64_t h = a.hash();
  const std::string s = a.sum.str() + (a.threw ? " exception" : "");
  h = fnv(s.data(), s.size(), h);
  if (again) {
    // on the already reordered set: nothing changes
    const auto b = run<Ti, Tf>(a.pts, c.p);
    uint64_t g = b.hash();
    const std::string t = b.sum.str() + (b.threw ? " exception" : "");
    g = fnv(t.data(), t.size(), g);
    *again = g;
  }
  return h;
}
static uint64_t exec(const Call& c, uint64_t* again = nullptr) {
  switch (c.inst) {
    case 0: return exec_t<int, double>(c, again);
    case 1: return exec_t<int, float>(c, again);
    case 2: return exec_t<int64_t, float>(c, again);
    case 3: return exec_t<int64_t, double>(c, again);
    default: return exec_t<int16_t, float>(c, again);
  }
}
template <class F> bool in_child(F f, std::vector<uint64_t>& out) {
  int fd[2];
  if (pipe(fd)) return false;
  const pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(fd[0]);
    std::vector<uint64_t> v = f();
    if (write(fd[1], v.data(), v.size() * 8) < 0) _exit(3);
    _exit(0);
  }
  close(fd[1]);
  out.clear();
  uint64_t x;
  while (read(fd[0], &x, 8) == 8) out.push_back(x);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void c23(Rng& r, int64_t) {
  const int len = r.range(2, 9);
  std::vector<Call> h;
  for (int i = 0; i < len; i++) h.push_back(r.chance(0.12) && i ? h[r.below(h.size())] : r.chance(0.45) && i ? similar_call(h[r.below(h.size())], r) : rand_call(r));
  std::string d = "history of " + I(len) + ": ";
  for (auto& c : h) d += call_str(c) + "; ";
  rep().begin(d);
  std::vector<uint64_t> seq, one;
  if (!in_child([&] { std::vector<uint64_t> v; for (auto& c : h) { uint64_t a; v.push_back(exec(c, &a)); v.push_back(a); } return v; }, seq)) {
    rep().violation("history-crashed", "process running the history ended abnormally");
    return;
  }
  for (int i = 0; i < len; i++) {
    if (!in_child([&] { return std::vector<uint64_t>{exec(h[(size_t)i])}; }, one) || one.size() != 1) {
      rep().violation("fresh-crashed", "fresh process ended abnormally on " + call_str(h[(size_t)i]));
      return;
    }
    rep().count("calls compared with a fresh process");
    if (seq.size() != (size_t)(2 * len)) { rep().violation("history-short", "history incomplete"); return; }
    if (seq[(size_t)(2 * i)] != one[0]) { rep().violation("history-dependent", "call " + I(i) + " (" + call_str(h[(size_t)i]) + ") differs from a fresh process"); return; }
    if (seq[(size_t)(2 * i + 1)] != one[0]) { rep().violation("not-idempotent", "call " + I(i) + " (" + call_str(h[(size_t)i]) + ") repeated on its own output differs"); return; }
  }
  rep().eval(fnv(d.data(), d.size()), true);
  rep().sample(d);
}
#endif

int main(int argc, char** argv) {
  init(argc, argv, true);
  const std::string m = opt().mode;
  const int sc = opt().scale;
  bool ran = false;
#if VT_WANT(4)
  if (m == "C04") { ran = true; cases(sc * 260, [](int64_t c, Rng& r) { if (c % 3 == 0) c04<int, double>(r, c); else if (c % 3 == 1) c04<int, float>(r, c); else c04<int64_t, float>(r, c); }); cases(sc * 8, [](int64_t c, Rng& r) { if (c % 4 == 3) c04<int64_t, double>(r, c, true); else c04<int, float>(r, c, true); }); cases(sc * 24, [](int64_t c, Rng& r) { if ((c + c / 8) % 2) c04_many<int64_t, double>(r, c); else c04_many<int, float>(r, c); }); }
#endif
#if VT_WANT(5)
  if (m == "C05") { ran = true; cases(sc * 300, [](int64_t c, Rng& r) { if (c % 3) c05<double>(r, c); else c05<float>(r, c); }); cases(sc * 16, [](int64_t c, Rng& r) { if (c % 8 < 4) c05_large<double>(r, c); else c05_large<float>(r, c); }); }
#endif
#if VT_WANT(7)
  if (m == "C07") { ran = true; cases(sc * 480, [](int64_t c, Rng& r) { if (c % 4 < 2) c07<float>(r, c); else c07<double>(r, c); }); }
#endif
#if VT_WANT(23)
  if (m == "C23") { ran = true; cases(sc * 320, [](int64_t c, Rng& r) { c23(r, c); }); }
#endif
#if VT_WANT(24)
  if (m == "C24") { ran = true; cases(sc * 240, [](int64_t c, Rng& r) { c24(r, c); }); cases(sc * 16, [](int64_t c, Rng& r) { c24_large(r, c); }); }
#endif
#if VT_WANT(25)
  if (m == "C25") { ran = true; cases(sc * 1500, [](int64_t c, Rng& r) { if (c % 3) c25<double>(r, c); else c25<float>(r, c); }); }
#endif
#if VT_WANT(26)
  if (m == "C26") { ran = true; cases(sc * 480, [](int64_t c, Rng& r) { if (c % 4 == 1) c26<int, float>(r, c); else if (c % 4 == 3) c26<int64_t, double>(r, c); else c26<int, double>(r, c); }); }
#endif
  if (!ran) { std::fprintf(stderr, "unknown mode\n"); return 2; }
  rep().finish();
  return 0;
}
