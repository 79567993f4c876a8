// Common part of all harnesses: deterministic generators, point families,
// a call wrapper that records everything a caller can observe, and reporting.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unistd.h>

#ifndef VT_NO_VOTESS
#include <votess.hpp>
#endif

namespace vt {

// ------------------------------------------------------------------ random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
  double uni() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  double gauss() {
    double u = uni(), v = uni();
    return std::sqrt(-2 * std::log(u + 1e-300)) * std::cos(6.283185307179586 * v);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0x9E3779B97F4A7C15ull));
  return r.next();
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

// --------------------------------------------------------------- reporting
inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else if (c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

struct Report {
  std::mutex m;
  FILE* f = nullptr;
  uint64_t evaluations = 0, nviol = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, double> maxima;
  std::set<std::string> seen_keys;
  std::string current = "startup";
  std::atomic<uint64_t> case_no{0};
  std::atomic<int64_t> case_index{-1};
  std::atomic<int64_t> case_start{0};

  void open(const char* path) { f = path ? std::fopen(path, "w") : stdout; if (!f) { std::perror(path); std::exit(2); } }
  void line(const std::string& s) { std::fputs(s.c_str(), f); std::fputc('\n', f); std::fflush(f); }
  // announces the case about to run, so that a crash or hang can be attributed
  void begin(const std::string& desc) {
    std::lock_guard<std::mutex> l(m);
    current = desc;
    case_no++;
    case_start = now_ms();
    std::fprintf(f, "{\"case\":\"%s\",\"n\":%" PRId64 "}\n", jesc(desc).c_str(), case_index.load());
    std::fflush(f);
  }
  static int64_t now_ms() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  void eval(uint64_t hash, bool nontrivial = true) {
    std::lock_guard<std::mutex> l(m);
    evaluations++;
    if (nontrivial) distinct.insert(hash);
  }
  void sample(const std::string& s) { std::lock_guard<std::mutex> l(m); if (samples.size() < 6) samples.push_back(s); }
  void count(const std::string& k, uint64_t n = 1) { std::lock_guard<std::mutex> l(m); counters[k] += n; }
  void maxi(const std::string& k, double v) { std::lock_guard<std::mutex> l(m); auto& x = maxima[k]; if (v > x) x = v; }
  // key identifies the kind of violation; detail says what was observed
  void violation(const std::string& key, const std::string& detail) {
    std::lock_guard<std::mutex> l(m);
    nviol++;
    if (seen_keys.size() >= 40 && !seen_keys.count(key)) return;
    if (!seen_keys.insert(key).second) return;
    std::fprintf(f, "{\"violation\":\"%s\",\"case\":\"%s\",\"n\":%" PRId64 ",\"detail\":\"%s\"}\n",
                 jesc(key).c_str(), jesc(current).c_str(), case_index.load(), jesc(detail).c_str());
    std::fflush(f);
  }
  void finish() {
    std::lock_guard<std::mutex> l(m);
    std::ostringstream o;
    o << "{\"done\":true,\"evaluations\":" << evaluations << ",\"distinct\":" << distinct.size()
      << ",\"violations\":" << nviol << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
    o << "],\"counters\":{";
    bool first = true;
    for (auto& c : counters) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
    for (auto& c : maxima) { o << (first ? "" : ",") << "\"max " << jesc(c.first) << "\":" << (std::isfinite(c.second) ? c.second : -1); first = false; }
    o << "}}";
    std::fputs(o.str().c_str(), f); std::fputc('\n', f); std::fflush(f);
  }
};
inline Report& rep() { static Report r; return r; }
#define VT_COUNT(x) ::vt::rep().count(x)

// ------------------------------------------------------------ command line
struct Opt {
  uint64_t seed = 1;
  int scale = 1;            // 1 quick, larger: thorough
  int64_t only = -1;        // run only this case number
  int64_t shard = 0, shards = 1;
  int case_limit_ms = 60000;
  std::string out, mode, scratch;
};
inline Opt& opt() { static Opt o; return o; }
inline void watchdog() {
  std::thread([] {
    for (;;) {
      std::this_thread::sleep_for(std::chrono::milliseconds(200));
      const int64_t s = rep().case_start.load();
      if (s && Report::now_ms() - s > opt().case_limit_ms) {
        std::fprintf(rep().f, "{\"hang\":true}\n");
        std::fflush(rep().f);
        _exit(77);
      }
    }
  }).detach();
}
inline void init(int argc, char** argv, bool with_watchdog = true) {
  Opt& o = opt();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scale") o.scale = std::atoi(val().c_str());
    else if (a == "--only") o.only = std::atoll(val().c_str());
    else if (a == "--shard") o.shard = std::atoll(val().c_str());
    else if (a == "--shards") o.shards = std::max(1ll, std::atoll(val().c_str()));
    else if (a == "--out") o.out = val();
    else if (a == "--mode") o.mode = val();
    else if (a == "--scratch") o.scratch = val();
    else if (a == "--limit-ms") o.case_limit_ms = std::atoi(val().c_str());
    else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); std::exit(2); }
  }
  rep().open(o.out.empty() ? nullptr : o.out.c_str());
  if (with_watchdog) watchdog();
}
// runs f(case number, its own generator) for every selected case
inline void cases(int64_t n, const std::function<void(int64_t, Rng&)>& f) {
  for (int64_t i = 0; i < n; i++) {
    if (opt().only >= 0 ? i != opt().only : i % opt().shards != opt().shard) continue;
    rep().case_index = i;
    Rng r(mix(opt().seed, static_cast<uint64_t>(i) + 1));
    f(i, r);
  }
  rep().case_start = 0;
}

// ----------------------------------------------------------- point families
using P3 = std::array<double, 3>;

enum Family {
  F_UNIFORM, F_CLUSTER, F_SLAB, F_WALLS, F_POWER, F_PAIRS, F_FILAMENT, F_JLATTICE, F_TWOSCALE, F_HUB, F_EDGES, F_NGENERIC,
  F_LATTICE = 100, F_SPHERE, F_PLANE, F_LINE, F_DUPES, F_SAME, F_FCC, F_GRIDWALL, F_TWOVALS, F_CENTERED, F_NDEGEN
};
inline const char* family_name(int f) {
  switch (f) {
    case F_UNIFORM: return "uniform"; case F_CLUSTER: return "cluster"; case F_SLAB: return "slab";
    case F_WALLS: return "walls"; case F_POWER: return "power"; case F_PAIRS: return "pairs";
    case F_FILAMENT: return "filament"; case F_JLATTICE: return "jittered-lattice"; case F_TWOSCALE: return "two-scale";
    case F_HUB: return "hub"; case F_EDGES: return "edges";
    case F_LATTICE: return "lattice"; case F_SPHERE: return "sphere"; case F_PLANE: return "plane";
    case F_LINE: return "line"; case F_DUPES: return "duplicates"; case F_SAME: return "all-same"; case F_FCC: return "fcc";
    case F_GRIDWALL: return "grid-walls"; case F_TWOVALS: return "two-values"; case F_CENTERED: return "centred-sphere";
  }
  return "?";
}
inline double clampc(double x, double lo = 1e-4) { return std::min(1 - lo, std::max(lo, x)); }
inline double fold(double x) {  // reflect into the unit interval
  x = std::fabs(x);
  x = std::fmod(x, 2.0);
  if (x > 1) x = 2 - x;
  return std::min(0.9999, std::max(0.0001, x));
}

// points in general position (families below F_NGENERIC) or degenerate ones
inline std::vector<P3> gen(int fam, int n, Rng& r) {
  std::vector<P3> v;
  v.reserve(static_cast<size_t>(n));
  auto u = [&] { return r.uni(0.0005, 0.9995); };
  switch (fam) {
    case F_UNIFORM: for (int i = 0; i < n; i++) v.push_back({u(), u(), u()}); break;
    case F_CLUSTER: {
      const int nc = r.range(1, 5);
      std::vector<P3> c;
      std::vector<double> s;
      for (int i = 0; i < nc; i++) { c.push_back({u(), u(), u()}); s.push_back(std::pow(10, r.uni(-2.2, -0.8))); }
      for (int i = 0; i < n; i++) {
        const size_t j = r.below(static_cast<uint64_t>(nc));
        if (r.chance(0.1)) { v.push_back({u(), u(), u()}); continue; }
        v.push_back({fold(c[j][0] + s[j] * r.gauss()), fold(c[j][1] + s[j] * r.gauss()), fold(c[j][2] + s[j] * r.gauss())});
      }
      break;
    }
    case F_SLAB: {
      const int ax = r.range(0, 2);
      const double th = std::pow(10, r.uni(-2.0, -0.7)), pos = r.uni(0.01, 0.98 - th);
      for (int i = 0; i < n; i++) { P3 p{u(), u(), u()}; p[static_cast<size_t>(ax)] = pos + th * r.uni(); v.push_back(p); }
      break;
    }
    case F_WALLS:
      for (int i = 0; i < n; i++) {
        P3 p{u(), u(), u()};
        const int m = r.range(1, 7);
        for (int a = 0; a < 3; a++)
          if (m & (1 << a)) { const double e = r.uni(0.0003, 0.02); p[static_cast<size_t>(a)] = r.chance(0.5) ? e : 1 - e; }
        v.push_back(p);
      }
      break;
    case F_POWER: {
      const double e = r.uni(1.5, 3.0);
      for (int i = 0; i < n; i++) v.push_back({clampc(std::pow(r.uni(), e)), clampc(std::pow(r.uni(), e)), clampc(std::pow(r.uni(), e))});
      break;
    }
    case F_PAIRS: {
      const double s = std::pow(10, r.uni(-2.6, -1.5));
      while (static_cast<int>(v.size()) < n) {
        P3 p{r.uni(0.05, 0.95), r.uni(0.05, 0.95), r.uni(0.05, 0.95)};
        v.push_back(p);
        if (static_cast<int>(v.size()) < n)
          v.push_back({clampc(p[0] + s * r.gauss()), clampc(p[1] + s * r.gauss()), clampc(p[2] + s * r.gauss())});
      }
      break;
    }
    case F_FILAMENT: {
      P3 a{u(), u(), u()}, b{u(), u(), u()};
      const double s = r.uni(0.01, 0.06);
      for (int i = 0; i < n; i++) {
        const double t = r.uni();
        P3 p;
        for (size_t c = 0; c < 3; c++) p[c] = fold(a[c] + t * (b[c] - a[c]) + s * r.gauss());
        v.push_back(p);
      }
      break;
    }
    case F_JLATTICE: {
      const int m = std::max(1, static_cast<int>(std::ceil(std::cbrt(static_cast<double>(std::max(n, 1))))));
      const double j = std::pow(10, r.uni(-1.5, -0.5)) / m;
      for (int z = 0; z < m; z++) for (int y = 0; y < m; y++) for (int x = 0; x < m; x++) {
        if (static_cast<int>(v.size()) >= n) break;
        v.push_back({clampc((x + 0.5) / m + j * r.gauss()), clampc((y + 0.5) / m + j * r.gauss()), clampc((z + 0.5) / m + j * r.gauss())});
      }
      break;
    }
    case F_TWOSCALE: {
      // a dense ball inside a sparse background: cells with many neighbours
      const double s = r.uni(0.03, 0.1);
      P3 c{r.uni(0.3, 0.7), r.uni(0.3, 0.7), r.uni(0.3, 0.7)};
      for (int i = 0; i < n; i++) {
        if (i % 4 == 0) { v.push_back({u(), u(), u()}); continue; }
        P3 p{r.gauss(), r.gauss(), r.gauss()};
        const double l = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) + 1e-9, q = s * std::cbrt(r.uni()) / l;
        v.push_back({clampc(c[0] + q * p[0]), clampc(c[1] + q * p[1]), clampc(c[2] + q * p[2])});
      }
      break;
    }
    case F_HUB: {
      // a point in the middle of a rough shell: one cell with very many faces
      const double R = r.uni(0.1, 0.28), rough = R * std::pow(10, r.uni(-2.0, -1.0));
      const P3 c{r.uni(0.35, 0.65), r.uni(0.35, 0.65), r.uni(0.35, 0.65)};
      const double bg = r.chance(0.5) ? 0.0 : 0.3;
      v.push_back(c);
      while (static_cast<int>(v.size()) < n) {
        if (r.chance(bg)) {
          const P3 q{u(), u(), u()};
          const double d = std::hypot(q[0] - c[0], q[1] - c[1], q[2] - c[2]);
          if (d > R) v.push_back(q);
          continue;
        }
        P3 p{r.gauss(), r.gauss(), r.gauss()};
        const double l = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) + 1e-12, q = (R + rough * r.uni()) / l;
        v.push_back({c[0] + q * p[0], c[1] + q * p[1], c[2] + q * p[2]});
      }
      v.resize(static_cast<size_t>(n));
      break;
    }
    case F_EDGES: {
      // crowded against faces, edges and corners of the cube, at very small distances
      const double w = std::pow(10, r.uni(-6.0, -2.5));
      for (int i = 0; i < n; i++) {
        P3 p{u(), u(), u()};
        const int m = r.range(0, 7);
        for (int a = 0; a < 3; a++)
          if (m & (1 << a)) { const double e = r.uni(0.1, 1) * w; p[static_cast<size_t>(a)] = r.chance(0.5) ? e : 1 - e; }
        v.push_back(p);
      }
      break;
    }
    case F_LATTICE: {
      const int m = std::max(1, static_cast<int>(std::ceil(std::cbrt(static_cast<double>(std::max(n, 1))))));
      for (int z = 0; z < m; z++) for (int y = 0; y < m; y++) for (int x = 0; x < m; x++)
        if (static_cast<int>(v.size()) < n) v.push_back({(x + 0.5) / m, (y + 0.5) / m, (z + 0.5) / m});
      break;
    }
    case F_SPHERE: case F_CENTERED:
      for (int i = 0; i < n; i++) {
        P3 p{r.gauss(), r.gauss(), r.gauss()};
        const double l = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) + 1e-12;
        if (fam == F_CENTERED && i == 0) { v.push_back({0.5, 0.5, 0.5}); continue; }
        v.push_back({0.5 + 0.3 * p[0] / l, 0.5 + 0.3 * p[1] / l, 0.5 + 0.3 * p[2] / l});
      }
      break;
    case F_PLANE: {
      const size_t ax = r.below(3);
      const double c = r.chance(0.5) ? 0.5 : u();
      for (int i = 0; i < n; i++) { P3 p{u(), u(), u()}; p[ax] = c; v.push_back(p); }
      break;
    }
    case F_LINE: {
      const size_t ax = r.below(3);
      const P3 c{u(), u(), u()};
      for (int i = 0; i < n; i++) { P3 p = c; p[ax] = r.chance(0.5) ? u() : (i + 0.5) / n; v.push_back(p); }
      break;
    }
    case F_DUPES: {
      const int m = std::max(1, n / r.range(2, 5));
      std::vector<P3> b;
      for (int i = 0; i < m; i++) b.push_back({u(), u(), u()});
      for (int i = 0; i < n; i++) v.push_back(b[r.below(b.size())]);
      break;
    }
    case F_SAME: { P3 p{u(), u(), u()}; for (int i = 0; i < n; i++) v.push_back(p); break; }
    case F_FCC: {
      const int m = std::max(1, static_cast<int>(std::ceil(std::cbrt(static_cast<double>(std::max(n, 1)) / 4))));
      for (int z = 0; z < m; z++) for (int y = 0; y < m; y++) for (int x = 0; x < m; x++) {
        const double b[4][3] = {{0.25, 0.25, 0.25}, {0.75, 0.75, 0.25}, {0.75, 0.25, 0.75}, {0.25, 0.75, 0.75}};
        for (auto& q : b) if (static_cast<int>(v.size()) < n) v.push_back({(x + q[0]) / m, (y + q[1]) / m, (z + q[2]) / m});
      }
      break;
    }
    case F_GRIDWALL: {  // coordinates on or next to multiples of a power of two
      const int m = 1 << r.range(1, 4);
      for (int i = 0; i < n; i++) {
        P3 p;
        for (auto& c : p) {
          c = static_cast<double>(r.range(1, m - 1 > 0 ? m - 1 : 1)) / m;
          if (r.chance(0.4)) c = std::nextafter(static_cast<float>(c), r.chance(0.5) ? 0.0f : 1.0f);
          c = clampc(c, 1e-6);
        }
        v.push_back(p);
      }
      break;
    }
    case F_TWOVALS:
      for (int i = 0; i < n; i++) v.push_back({r.chance(0.5) ? 0.25 : 0.75, r.chance(0.5) ? 0.25 : 0.75, r.chance(0.5) ? 0.25 : 0.75});
      break;
    default: break;
  }
  // shuffle: input order must not matter
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  return v;
}
template <class Tf> std::vector<std::array<Tf, 3>> conv(const std::vector<P3>& v) {
  std::vector<std::array<Tf, 3>> o(v.size());
  for (size_t i = 0; i < v.size(); i++)
    for (size_t c = 0; c < 3; c++) {
      Tf x = static_cast<Tf>(v[i][c]);
      if (x >= Tf(1)) x = std::nextafter(Tf(1), Tf(0));
      if (x <= Tf(0)) x = std::numeric_limits<Tf>::min();
      o[i][c] = x;
    }
  return o;
}
template <class Tf> uint64_t hash_points(const std::vector<std::array<Tf, 3>>& v) {
  return v.empty() ? 7 : fnv(v.data(), v.size() * sizeof(v[0]));
}

#ifndef VT_NO_VOTESS
// ------------------------------------------------------------- call wrapper
struct Params {
  int k = 64, gr = 8, p = 64, t = 128, threads = 2;
  bool chunking = false, recompute = false, suppress = false;
  int chunk = 8196, nd = 1;
  bool gpu = false;
  std::string str() const {
    std::ostringstream o;
    o << "k=" << k << " gr=" << gr << " p=" << p << " t=" << t << " threads=" << threads
      << (chunking ? " chunk=" + std::to_string(chunk) : "") << (recompute ? " recompute" : "")
      << (gpu ? " gpu nd=" + std::to_string(nd) : "") << (suppress ? " suppress" : "");
    return o.str();
  }
  votess::vtargs args() const {
    votess::vtargs a;
    a["k"] = k; a["knn_grid_resolution"] = gr; a["cc_p_maxsize"] = p; a["cc_t_maxsize"] = t;
    a["cpu_nthreads"] = threads; a["use_chunking"] = chunking; a["chunksize"] = chunk;
    a["use_recompute"] = recompute; a["gpu_ndsize"] = nd; a["dev_suppress_stdout"] = suppress;
    return a;
  }
};
struct Summary {
  bool found = false;
  int copies = 0;
  long sr = -1, p = -1, t = -1, inf = -1, nv = -1, nn = -1, err = -1;
  std::string str() const {
    if (!found) return "no summary";
    std::ostringstream o;
    o << "sradius=" << sr << " p=" << p << " t=" << t << " inf=" << inf << " nvertex=" << nv << " nneighbor=" << nn << " err=" << err;
    return o.str();
  }
};
inline Summary parse_summary(const std::string& s) {
  Summary r;
  auto find = [&](const char* key, long& out) {
    const size_t a = s.rfind(key);
    if (a == std::string::npos) return false;
    const char* q = s.c_str() + a + std::strlen(key);
    while (*q == ' ' || *q == ':') q++;
    char* e = nullptr;
    out = std::strtol(q, &e, 10);
    return e != q;
  };
  r.found = find("sradius", r.sr);
  if (r.found) r.found = find("p overflow", r.p) && find("t overflow", r.t) && find("inf boundary", r.inf);
  find("nvalid vertice", r.nv);
  find("nvalid neighbor", r.nn);
  find("nerrors", r.err);
  for (size_t a = 0; (a = s.find("sradius", a)) != std::string::npos; a++) r.copies++;
  return r;
}
class CoutCapture {
 public:
  CoutCapture() : old_(std::cout.rdbuf(o_.rdbuf())) {}
  ~CoutCapture() { std::cout.rdbuf(old_); }
  std::string str() const { return o_.str(); }
 private:
  std::ostringstream o_;
  std::streambuf* old_;
};
class CerrCapture {
 public:
  CerrCapture() : old_(std::cerr.rdbuf(o_.rdbuf())) {}
  ~CerrCapture() { std::cerr.rdbuf(old_); }
  std::string str() const { return o_.str(); }
 private:
  std::ostringstream o_;
  std::streambuf* old_;
};

template <class Ti, class Tf> struct Run {
  std::vector<std::array<Tf, 3>> pts;  // as left by the call
  std::vector<Ti> list, offs;
  std::vector<std::vector<int64_t>> rows;
  std::string out, err, what;
  bool threw = false;
  Summary sum;
  uint64_t hash() const {
    uint64_t h = hash_points(pts);
    if (!list.empty()) h = fnv(list.data(), list.size() * sizeof(Ti), h);
    if (!offs.empty()) h = fnv(offs.data(), offs.size() * sizeof(Ti), h);
    return h;
  }
};
template <class Ti, class Tf>
Run<Ti, Tf> run(const std::vector<std::array<Tf, 3>>& in, const Params& p) {
  Run<Ti, Tf> r;
  r.pts = in;
  {
    CoutCapture c;
    CerrCapture e;
    try {
      auto d = votess::tesellate<Ti, Tf>(r.pts, p.args(), p.gpu ? votess::device::gpu : votess::device::cpu);
      r.list = d.list;
      r.offs = d.offs;
    } catch (const std::exception& ex) {
      r.threw = true;
      r.what = ex.what();
    }
    r.out = c.str();
    r.err = e.str();
  }
  r.sum = parse_summary(r.out);
  if (!r.threw) {
    bool ok = !r.offs.empty() && r.offs[0] >= 0 && static_cast<size_t>(r.offs.back()) <= r.list.size();
    for (size_t i = 1; ok && i < r.offs.size(); i++) ok = r.offs[i] >= r.offs[i - 1];
    if (ok)
      for (size_t i = 0; i + 1 < r.offs.size(); i++) {
        std::vector<int64_t> row;
        for (Ti j = r.offs[i]; j < r.offs[i + 1]; j++) row.push_back(static_cast<int64_t>(r.list[static_cast<size_t>(j)]));
        r.rows.push_back(std::move(row));
      }
  }
  return r;
}
#endif  // VT_NO_VOTESS

template <class T> std::string vstr(const std::vector<T>& v, size_t limit = 40) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size() && i < limit; i++) o << (i ? " " : "") << +v[i];
  if (v.size() > limit) o << " ...(" << v.size() << ")";
  o << "]";
  return o.str();
}

}  // namespace vt
