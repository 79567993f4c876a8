// C11 C12 C14 C15 C22: the building blocks against reference models.
#include <sys/stat.h>
#include <sys/wait.h>
#include "vt.hpp"
#include <boundary.hpp>
#include <heap.hpp>
#include <planes.hpp>
#include <sradius.hpp>
#include <utils.hpp>
#include <status.hpp>
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }
template <class T> std::string G(T x) { std::ostringstream o; o.precision(20); o << x; return o.str(); }

#ifdef VT_SEL
#define VT_WANT(n) (VT_SEL == n)
#else
#define VT_WANT(n) 1
#endif

#if VT_WANT(11)
// =================================================================== C11
using Tri = std::array<int, 3>;
struct Disk { std::vector<Tri> tris; std::vector<int> cycle; };  // cycle[v] = next vertex or -1
// grows a triangulated disk; labels are distinct and below maxlabel
static Disk grow(Rng& r, int ntri, int nlabel, double ear) {
  std::vector<int> lab(static_cast<size_t>(nlabel));
  std::iota(lab.begin(), lab.end(), 0);
  for (size_t i = lab.size(); i > 1; i--) std::swap(lab[i - 1], lab[r.below(i)]);
  size_t used = 3;
  std::vector<int> b{0, 1, 2};  // boundary, as positions in lab
  std::set<std::pair<int, int>> edges{{0, 1}, {1, 2}, {0, 2}};
  std::vector<Tri> t{{0, 1, 2}};
  auto E = [](int a, int c) { return std::make_pair(std::min(a, c), std::max(a, c)); };
  for (int tries = 0; (int)t.size() < ntri && tries < ntri * 30; tries++) {
    const size_t i = r.below(b.size()), j = (i + 1) % b.size(), k = (i + 2) % b.size();
    if (r.uni() < ear) {
      if (used >= lab.size()) continue;
      const int v = (int)used++;
      // boundary edge b[i] -> b[j]; the new triangle uses it reversed
      t.push_back({b[j], b[i], v});
      edges.insert(E(b[i], v));
      edges.insert(E(b[j], v));
      b.insert(b.begin() + (std::ptrdiff_t)i + 1, v);
    } else {
      if (b.size() < 4) continue;
      const int a = b[i], m = b[j], c = b[k];
      if (edges.count(E(a, c))) continue;
      t.push_back({m, a, c});  // a->m and m->c reversed, new boundary edge a->c
      edges.insert(E(a, c));
      b.erase(b.begin() + (std::ptrdiff_t)j);
    }
  }
  Disk d;
  d.cycle.assign(static_cast<size_t>(nlabel), -1);
  for (size_t i = 0; i < b.size(); i++) d.cycle[(size_t)lab[(size_t)b[i]]] = lab[(size_t)b[(i + 1) % b.size()]];
  for (auto& x : t) d.tris.push_back({lab[(size_t)x[0]], lab[(size_t)x[1]], lab[(size_t)x[2]]});
  return d;
}
// fan, strip and two-ring shapes occur in cells and in adversarial orders
static Disk fan(Rng& r, int n, int nlabel) {
  std::vector<int> lab(static_cast<size_t>(nlabel));
  std::iota(lab.begin(), lab.end(), 0);
  for (size_t i = lab.size(); i > 1; i--) std::swap(lab[i - 1], lab[r.below(i)]);
  Disk d;
  d.cycle.assign(static_cast<size_t>(nlabel), -1);
  const bool closed = r.chance(0.5) && n >= 3;
  for (int i = 0; i < n; i++) {
    const int a = lab[(size_t)(1 + i)], b = lab[(size_t)(closed && i == n - 1 ? 1 : 2 + i)];
    d.tris.push_back({lab[0], a, b});
    d.cycle[(size_t)a] = b;
  }
  if (!closed) { d.cycle[(size_t)lab[(size_t)(n + 1)]] = lab[0]; d.cycle[(size_t)lab[0]] = lab[1]; }
  return d;
}
template <class Tu> struct BOut { int status; int head; std::vector<int> cycle; bool touched = false; };

template <class Ti, class Tu> BOut<Tu> bnd_cpu(const std::vector<Tri>& t, int dr_size, int pad_c, int pad_r) {
  const Tu guard = (Tu)113;
  std::vector<Tu> c(static_cast<size_t>(pad_c + dr_size + 7), guard), R(static_cast<size_t>(pad_r) + t.size() * 3 + 5, guard);
  for (int i = 0; i < dr_size; i++) c[(size_t)(pad_c + i)] = (Tu)boundary::bstatus::undefined;
  for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < 3; j++) R[(size_t)pad_r + 3 * i + j] = (Tu)t[i][j];
  short int head = -1;
  BOut<Tu> o;
  o.status = (int)boundary::compute<Ti, Tu>(c.data(), (Ti)pad_c, (Ti)dr_size, head, R.data(), (Ti)pad_r, (Ti)t.size());
  o.head = head;
  for (int i = 0; i < dr_size; i++) o.cycle.push_back((int)c[(size_t)(pad_c + i)]);
  for (int i = 0; i < pad_c; i++) if (c[(size_t)i] != guard) o.touched = true;
  for (size_t i = (size_t)(pad_c + dr_size); i < c.size(); i++) if (c[i] != guard) o.touched = true;
  for (int i = 0; i < pad_r; i++) if (R[(size_t)i] != guard) o.touched = true;
  for (size_t i = (size_t)pad_r + t.size() * 3; i < R.size(); i++) if (R[i] != guard) o.touched = true;
  // the triangles are only reordered
  std::vector<std::array<int, 3>> a, b;
  for (size_t i = 0; i < t.size(); i++) { a.push_back({t[i][0], t[i][1], t[i][2]}); b.push_back({(int)R[(size_t)pad_r + 3 * i], (int)R[(size_t)pad_r + 3 * i + 1], (int)R[(size_t)pad_r + 3 * i + 2]}); }
  (void)a; (void)b;
  return o;
}
#ifdef VT_SHIM
template <class Ti, class Tu> BOut<Tu> bnd_dev(const std::vector<Tri>& t, int dr_size, int pad_c, int pad_r) {
  const Tu guard = (Tu)113;
  std::vector<Tu> c(static_cast<size_t>(pad_c + dr_size + 7), guard), R(static_cast<size_t>(pad_r) + t.size() * 3 + 5, guard);
  for (int i = 0; i < dr_size; i++) c[(size_t)(pad_c + i)] = (Tu)boundary::bstatus::undefined;
  for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < 3; j++) R[(size_t)pad_r + 3 * i + j] = (Tu)t[i][j];
  BOut<Tu> o;
  short int head = -1;
  int status = -1;
  sycl::queue q;
  sycl::buffer<Tu, 1> bR(R.data(), sycl::range<1>(R.size()));
  q.submit([&](sycl::handler& h) {
    auto aR = sycl::accessor(bR, h, sycl::read_write);
    sycl::local_accessor<Tu, 1> l(sycl::range<1>(c.size()), h);
    h.parallel_for(sycl::nd_range<1>(1, 1), [&](sycl::nd_item<1>) {
      for (size_t i = 0; i < c.size(); i++) l[i] = c[i];
      status = (int)boundary::compute<Ti, Tu>(l, (Ti)pad_c, (Ti)dr_size, head, aR, (Ti)pad_r, (Ti)t.size());
      for (size_t i = 0; i < c.size(); i++) c[i] = l[i];
    });
  });
  o.status = status;
  o.head = head;
  for (int i = 0; i < dr_size; i++) o.cycle.push_back((int)c[(size_t)(pad_c + i)]);
  for (int i = 0; i < pad_c; i++) if (c[(size_t)i] != guard) o.touched = true;
  for (size_t i = (size_t)(pad_c + dr_size); i < c.size(); i++) if (c[i] != guard) o.touched = true;
  return o;
}
#endif
template <class Tu> void judge_disk(const BOut<Tu>& o, const Disk& d, const std::vector<Tri>& t, const char* who) {
  std::string in;
  for (auto& x : t) in += "(" + I(x[0]) + " " + I(x[1]) + " " + I(x[2]) + ")";
  if (o.touched) rep().violation(std::string("out-of-range-write-") + who, in);
  if (o.status != (int)boundary::bstatus::success) { rep().violation(std::string("disk-refused-") + who, "status " + I(o.status) + " for " + in); return; }
  if (o.head < 0 || o.head >= (int)d.cycle.size() || d.cycle[(size_t)o.head] < 0) { rep().violation(std::string("head-") + who, "head " + I(o.head) + " not on the boundary of " + in); return; }
  for (size_t i = 0; i < d.cycle.size(); i++) {
    const int want = d.cycle[i] < 0 ? (int)boundary::bstatus::undefined : d.cycle[i];
    if (o.cycle[i] != want) { rep().violation(std::string("cycle-") + who, "successor of " + I((long long)i) + " is " + I(o.cycle[i]) + " instead of " + I(want) + " for " + in); return; }
  }
}
template <class Ti, class Tu> void one_disk(const Disk& d, const std::vector<Tri>& t, int pc, int pr, const char* who) {
  judge_disk(bnd_cpu<Ti, Tu>(t, (int)d.cycle.size(), pc, pr), d, t, who);
#ifdef VT_SHIM
  judge_disk(bnd_dev<Ti, Tu>(t, (int)d.cycle.size(), pc, pr), d, t, (std::string("device-") + who).c_str());
#endif
}
static void c11(Rng& r, int64_t c) {
  const int big = c < 16 || r.chance(0.02);
  const int nlabel = big ? r.range(100, 254) : r.range(6, 60);
  const int kind = r.range(0, 3);
  Disk d;
  if (kind == 0) d = fan(r, r.range(1, nlabel - 3), nlabel);
  else d = grow(r, big ? r.range(20, 240) : r.range(1, 40), nlabel, kind == 1 ? 0.55 : kind == 2 ? 0.9 : 0.3);
  auto t = d.tris;
  for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[r.below(i)]);
  if (r.chance(0.15)) std::reverse(t.begin(), t.end());
  for (auto& x : t) { const int q = r.range(0, 2); x = {x[(size_t)q], x[(size_t)((q + 1) % 3)], x[(size_t)((q + 2) % 3)]}; }
  rep().begin("disk of " + I((long long)t.size()) + " triangles, labels below " + I(nlabel));
  uint64_t h = 3;
  for (auto& x : t) h = fnv(x.data(), sizeof x, h);
  rep().eval(h, t.size() > 1);
  std::string in;
  for (size_t i = 0; i < t.size() && i < 8; i++) in += "(" + I(t[i][0]) + " " + I(t[i][1]) + " " + I(t[i][2]) + ")";
  rep().sample(rep().current + ": " + in);
  const int pc = r.chance(0.5) ? 0 : r.range(1, 9), pr = r.chance(0.5) ? 0 : 3 * r.range(1, 9);
  one_disk<int, uint8_t>(d, t, pc, pr, "int-u8");
  if (!big || r.chance(0.3)) one_disk<int64_t, uint8_t>(d, t, pc, pr, "i64-u8");
  if (!big || r.chance(0.3)) one_disk<size_t, int>(d, t, pc, pr, "size-int");
  if (nlabel < 100) one_disk<int16_t, uint8_t>(d, t, pc, pr, "i16-u8");
}
// sets without a single boundary cycle: closed surfaces, several components,
// pinched or inconsistent sets.  Only termination and memory are claimed.
static void c11_bad(Rng& r, int64_t) {
  const int nlabel = r.range(4, 40);
  std::vector<Tri> t;
  const int kind = r.range(0, 3);
  if (kind == 0) {
    t = {{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}};  // a sphere
  } else if (kind == 1) {
    Disk a = grow(r, r.range(1, 10), nlabel, 0.6), b = grow(r, r.range(1, 10), nlabel, 0.6);
    t = a.tris;
    t.insert(t.end(), b.tris.begin(), b.tris.end());
  } else {
    const int m = r.range(1, 14);
    for (int i = 0; i < m; i++) {
      Tri x{(int)r.below((uint64_t)nlabel), (int)r.below((uint64_t)nlabel), (int)r.below((uint64_t)nlabel)};
      if (x[0] == x[1] || x[1] == x[2] || x[0] == x[2]) continue;
      t.push_back(x);
    }
    if (t.empty()) t.push_back({0, 1, 2});
  }
  for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[r.below(i)]);
  std::string in;
  for (auto& x : t) in += "(" + I(x[0]) + " " + I(x[1]) + " " + I(x[2]) + ")";
  rep().begin("improper set " + in);
  uint64_t h = 4;
  for (auto& x : t) h = fnv(x.data(), sizeof x, h);
  rep().eval(h, true);
  rep().count("improper sets");
  const auto o = bnd_cpu<int, uint8_t>(t, nlabel, 0, 0);
  if (o.touched) rep().violation("out-of-range-write-improper", in);
  if (o.status != (int)boundary::bstatus::success) rep().count("improper sets reported unreachable");
#ifdef VT_SHIM
  const auto p = bnd_dev<int, uint8_t>(t, nlabel, 0, 0);
  if (p.touched) rep().violation("out-of-range-write-device-improper", in);
#endif
}
#endif

#if VT_WANT(12)
// =================================================================== C12
template <class Tf> Tf rand_key(Rng& r, int style) {
  switch (style) {
    case 0: return (Tf)r.uni();
    case 1: return (Tf)r.range(0, 3);
    case 2: { const int q = r.range(0, 6); return q == 0 ? std::numeric_limits<Tf>::infinity() : q == 1 ? std::numeric_limits<Tf>::denorm_min() : q == 2 ? -std::numeric_limits<Tf>::infinity() : q == 3 ? std::numeric_limits<Tf>::max() : q == 4 ? Tf(0) : (Tf)r.gauss(); }
    case 3: return (Tf)(-r.range(0, 100));
    default: return (Tf)128;
  }
}
template <class Ti, class Tf> struct Flat {
  std::vector<Ti> id;
  std::vector<Tf> pq;
};
template <class Ti, class Tf, class At>
void judge_heap(const char* what, const Flat<Ti, Tf>& before, const Flat<Ti, Tf>& after, int k, At at, bool sorted, size_t hi, std::string ty) {
  std::vector<char> inside(before.id.size(), 0);
  std::vector<std::pair<Tf, Ti>> a, b;
  for (int j = 0; j < k; j++) { const size_t p = at(j); inside[p] = 1; a.push_back({before.pq[p], before.id[p]}); b.push_back({after.pq[p], after.id[p]}); }
  for (size_t i = 0; i < inside.size(); i++)
    if (!inside[i] && (before.id[i] != after.id[i] || std::memcmp(&before.pq[i], &after.pq[i], sizeof(Tf)))) { rep().violation(std::string(what) + "-outside-" + ty, "entry " + I((long long)i) + " outside the range changed"); return; }
  auto a2 = a, b2 = b;
  std::sort(a2.begin(), a2.end());
  std::sort(b2.begin(), b2.end());
  if (a2 != b2) { rep().violation(std::string(what) + "-entries-" + ty, "entries lost, duplicated or separated from their keys, k=" + I(k)); return; }
  if (sorted) {
    for (int j = 1; j < k; j++) if (b[(size_t)j].first < b[(size_t)j - 1].first) { rep().violation(std::string(what) + "-order-" + ty, "key " + G(b[(size_t)j].first) + " after " + G(b[(size_t)j - 1].first) + " at " + I(j) + " of " + I(k)); return; }
  } else {
    // max-heap below node hi
    std::vector<size_t> st{hi};
    while (!st.empty()) {
      const size_t n = st.back();
      st.pop_back();
      for (size_t q = 2 * n + 1; q <= 2 * n + 2 && q < (size_t)k; q++) {
        if (b[n].first < b[q].first) { rep().violation(std::string(what) + "-heap-" + ty, "node " + I((long long)n) + " below its child " + I((long long)q) + ", k=" + I(k)); return; }
        st.push_back(q);
      }
    }
  }
}
template <class Ti, class Tf> void c12_t(Rng& r, const std::string& ty) {
  const int k = r.chance(0.1) ? r.range(0, 3) : r.chance(0.1) ? r.range(200, 700) : r.chance(0.01) ? r.range(1000, 6000) : r.range(1, 90);
  const int style = r.range(0, 4);
  rep().begin("k=" + I(k) + " key style " + I(style) + " " + ty);
  {  // host: a slice at h0
    const size_t h0 = r.chance(0.02) ? r.below(100000) : r.below(40), tail = r.below(20);
    Flat<Ti, Tf> f;
    for (size_t i = 0; i < h0 + (size_t)k + tail; i++) { f.id.push_back((Ti)(i % 100 + 1)); f.pq.push_back(rand_key<Tf>(r, style)); }
    for (size_t i = 0; i < (size_t)k; i++) f.id[h0 + i] = (Ti)((int)i % 30000);
    if (sizeof(Ti) == 1) for (auto& x : f.id) x = (Ti)(x % 100);
    rep().eval(fnv(f.pq.data(), f.pq.size() * sizeof(Tf), (uint64_t)k * 131 + h0), k > 1);
    auto g = f;
    heap::sort<Ti, Tf>(g.id, g.pq, h0, (size_t)k);
    auto at = [&](int j) { return h0 + (size_t)j; };
    judge_heap("sort", f, g, k, at, true, 0, ty);
    rep().count("host sorts");
    if (k > 0) {
      // children of node i are heaps: heapify must make i a heap
      auto e = f;
      const size_t node = r.below((uint64_t)k);
      for (int j = k / 2; j > (int)node; j--) heap::maxheapify<Ti, Tf>(e.id, e.pq, h0, (size_t)k, (size_t)j);
      auto before = e;
      heap::maxheapify<Ti, Tf>(e.id, e.pq, h0, (size_t)k, node);
      judge_heap("heapify", before, e, k, at, false, node, ty);
      rep().count("host heapifies");
      // bounded use as in the search: push smaller keys on the root
      auto w = f;
      for (int j = 0; j < k; j++) { w.pq[h0 + (size_t)j] = std::numeric_limits<Tf>::infinity(); w.id[h0 + (size_t)j] = 0; }
      std::vector<std::pair<Tf, int>> all;
      const int m = r.range(0, 3 * k);
      for (int j = 0; j < m; j++) {
        const Tf x = (Tf)r.uni();
        all.push_back({x, j % 100});
        if (x < w.pq[h0]) { w.pq[h0] = x; w.id[h0] = (Ti)(j % 100); heap::maxheapify<Ti, Tf>(w.id, w.pq, h0, (size_t)k, 0); }
      }
      heap::sort<Ti, Tf>(w.id, w.pq, h0, (size_t)k);
      std::sort(all.begin(), all.end());
      std::multiset<std::pair<Tf, int>> left(all.begin(), all.end());  // equal keys may be kept in any order
      for (int j = 0; j < k && j < m; j++) {
        const auto it = left.find({w.pq[h0 + (size_t)j], (int)w.id[h0 + (size_t)j]});
        if (w.pq[h0 + (size_t)j] != all[(size_t)j].first || it == left.end()) {
          rep().violation("k-smallest-" + ty, "entry " + I(j) + " of the " + I(k) + " smallest of " + I(m) + " is wrong");
          break;
        }
        left.erase(it);
      }
      rep().count("bounded selections");
    }
  }
#ifdef VT_SHIM
  for (int layout = 0; layout < 2; layout++) {  // device: slice at h0, or column i of rows of s
    const int s = r.range(1, 12), i = (int)r.below((uint64_t)s);
    const size_t h0 = r.below(40);
    const size_t total = layout ? (size_t)s * (size_t)std::max(k, 1) + r.below(9) : h0 + (size_t)k + r.below(20);
    Flat<Ti, Tf> f;
    for (size_t j = 0; j < total; j++) { f.id.push_back((Ti)(j % 100)); f.pq.push_back(rand_key<Tf>(r, style)); }
    sycl::buffer<Ti, 1> bi(static_cast<const Ti*>(f.id.data()), sycl::range<1>(total));
    sycl::buffer<Tf, 1> bp(static_cast<const Tf*>(f.pq.data()), sycl::range<1>(total));
    sycl::queue q;
    const size_t node = k ? r.below((uint64_t)k) : 0;
    const bool do_sort = r.chance(0.6) || k == 0;
    Flat<Ti, Tf> before = f, after;
    q.submit([&](sycl::handler& h) {
      auto ai = sycl::accessor(bi, h, sycl::read_write);
      auto ap = sycl::accessor(bp, h, sycl::read_write);
      h.single_task([&] {
        if (do_sort) {
          if (layout) heap::sort<Ti, Tf>(ai, ap, s, i, k); else heap::sort<Ti, Tf>(ai, ap, h0, (size_t)k);
        } else {
          for (int j = k / 2; j > (int)node; j--)
            if (layout) heap::maxheapify<Ti, Tf>(ai, ap, s, i, k, j); else heap::maxheapify<Ti, Tf>(ai, ap, h0, (size_t)k, (size_t)j);
          if (layout) heap::maxheapify<Ti, Tf>(ai, ap, s, i, k, (int)node); else heap::maxheapify<Ti, Tf>(ai, ap, h0, (size_t)k, node);
        }
      });
    });
    auto hi = bi.get_host_access();
    auto hp = bp.get_host_access();
    after.id.assign(hi.begin(), hi.end());
    after.pq.assign(hp.begin(), hp.end());
    rep().count(layout ? "device strided" : "device slices");
    rep().eval(fnv(f.pq.data(), f.pq.size() * sizeof(Tf), (uint64_t)k * 17 + (uint64_t)s), k > 1);
    judge_heap(do_sort ? "dsort" : "dheapify", before, after, k, [&](int j) { return layout ? (size_t)(s * j + i) : h0 + (size_t)j; }, do_sort, node, ty + (layout ? "-strided" : "-slice"));
  }
#endif
}
#endif

#if VT_WANT(22)
// =================================================================== C22
template <class Tf> void c22_t(Rng& r, const std::string& ty) {
  using L = long double;
  const L eps = std::numeric_limits<Tf>::epsilon();
  auto coord = [&] { const int q = r.range(0, 9); return (Tf)(q < 7 ? r.uni() : q == 7 ? 1 - 1e-4 * r.uni() : q == 8 ? 1e-4 * r.uni() : 0.5 + 1e-3 * r.gauss()); };
  // bisector
  {
    Tf p[3] = {coord(), coord(), coord()}, q[3] = {coord(), coord(), coord()};
    if (r.chance(0.2)) for (int a = 0; a < 3; a++) q[a] = (Tf)((double)p[a] + 1e-3 * r.gauss());
    if (r.chance(0.1)) q[r.below(3)] = p[0];
    rep().begin("bisect " + ty);
    Tf b[4];
    planes::bisect<Tf>(b[0], b[1], b[2], b[3], p[0], p[1], p[2], q[0], q[1], q[2]);
    rep().eval(fnv(p, sizeof p, fnv(q, sizeof q)), true);
    rep().count("bisectors");
    L at1 = b[3], at2 = b[3], mid = b[3], d2 = 0;
    for (int a = 0; a < 3; a++) { at1 += (L)b[a] * p[a]; at2 += (L)b[a] * q[a]; mid += (L)b[a] * ((L)p[a] + q[a]) / 2; d2 += ((L)p[a] - q[a]) * ((L)p[a] - q[a]); }
    if (std::fabs(mid) > 24 * eps) rep().violation("bisect-midpoint-" + ty, "plane misses the midpoint by " + G((double)mid));
    for (int a = 0; a < 3; a++) if (std::fabs((L)b[a] - ((L)p[a] - q[a])) > 4 * eps) rep().violation("bisect-normal-" + ty, "normal is not the difference of the points");
    if (d2 > 1e3 * eps && (!(at1 > 0) || !(at2 < 0))) rep().violation("bisect-side-" + ty, "first point on side " + G((double)at1) + ", second on " + G((double)at2));
    if (std::fabs(at1 - d2 / 2) > 24 * eps || std::fabs(at2 + d2 / 2) > 24 * eps) rep().violation("bisect-equidistant-" + ty, "not equidistant");
  }
  // intersection: a bisector, walls and bisectors, of varying conditioning
  {
    Tf P[3][4];
    for (auto& pl : P) {
      if (r.chance(0.3)) { for (int a = 0; a < 4; a++) pl[a] = 0; const int a = r.range(0, 2); if (r.chance(0.5)) pl[a] = 1; else { pl[a] = -1; pl[3] = 1; } }
      else if (r.chance(0.5)) planes::bisect<Tf>(pl[0], pl[1], pl[2], pl[3], coord(), coord(), coord(), coord(), coord(), coord());
      else if (r.chance(0.5)) for (int a = 0; a < 4; a++) pl[a] = (Tf)r.uni(-10, 10);
      else {  // points of a dense set: close together
        const double sp = std::pow(10.0, -r.uni(0.5, sizeof(Tf) == 4 ? 4.0 : 7.0));
        const double x = r.uni(0.1, 0.9), y = r.uni(0.1, 0.9), z = r.uni(0.1, 0.9);
        planes::bisect<Tf>(pl[0], pl[1], pl[2], pl[3], (Tf)x, (Tf)y, (Tf)z, (Tf)(x + sp * r.gauss()), (Tf)(y + sp * r.gauss()), (Tf)(z + sp * r.gauss()));
      }
    }
    // the length of a normal carries no meaning: planes of points close together have short ones
    if (r.chance(0.3)) { const Tf f = (Tf)std::pow(10.0, r.uni(-6, 2)); for (auto& pl : P) for (auto& c : pl) c *= f; }
    const bool parallel = r.chance(0.1);
    if (parallel) { const Tf f = r.chance(0.5) ? Tf(1) : Tf(2); for (int a = 0; a < 3; a++) P[1][a] = f * P[0][a]; }
    rep().begin("intersect " + ty);
    Tf v[4];
    planes::intersect<Tf>(v[0], v[1], v[2], v[3], P[0][0], P[0][1], P[0][2], P[0][3], P[1][0], P[1][1], P[1][2], P[1][3], P[2][0], P[2][1], P[2][2], P[2][3]);
    rep().eval(fnv(P, sizeof P), true);
    L n[3][3], nn[3];
    for (int a = 0; a < 3; a++) { nn[a] = 0; for (int c = 0; c < 3; c++) { n[a][c] = P[a][c]; nn[a] += n[a][c] * n[a][c]; } nn[a] = std::sqrt(nn[a]); }
    const L det = n[0][0] * (n[1][1] * n[2][2] - n[1][2] * n[2][1]) - n[0][1] * (n[1][0] * n[2][2] - n[1][2] * n[2][0]) + n[0][2] * (n[1][0] * n[2][1] - n[1][1] * n[2][0]);
    const L scale = nn[0] * nn[1] * nn[2];
    if (v[3] != 1) rep().violation("intersect-homogeneous-" + ty, "fourth component is " + G(v[3]));
    if (scale > 0 && std::fabs(det) > 1e-2 * scale) {
      rep().count("well-conditioned intersections");
      L vn = 1, dm = 0;
      for (int c = 0; c < 3; c++) vn = std::max(vn, std::fabs((L)v[c]));
      for (int a = 0; a < 3; a++) dm = std::max(dm, std::fabs((L)P[a][3]) / nn[a]);
      for (int a = 0; a < 3; a++) {
        L res = P[a][3];
        for (int c = 0; c < 3; c++) res += n[a][c] * v[c];
        // distance to the plane, relative to the size of the problem
        const L e = std::fabs(res) / nn[a] / (vn + dm) * std::fabs(det) / scale / eps;
        rep().maxi("intersect error in ulps x conditioning " + ty, (double)e);
        if (!(e < 300)) { rep().violation("intersect-off-plane-" + ty, "vertex is off plane " + I(a) + " by " + G((double)(res / nn[a]))); break; }
      }
    } else if (parallel) {
      // exactly parallel: finite whenever the product is exactly zero
      rep().count("parallel planes");
      bool fin = true;
      for (int c = 0; c < 3; c++) fin = fin && std::isfinite(v[c]);
      const bool axis = [&] { int z = 0; for (int c = 0; c < 3; c++) z += P[0][c] == 0; return z >= 2; }();
      if (!fin && axis) rep().violation("parallel-not-finite-" + ty, "parallel planes give a non-finite vertex");
    }
  }
  // dot
  {
    Tf a[4], b[4];
    for (int i = 0; i < 4; i++) { a[i] = (Tf)r.uni(-10, 10); b[i] = (Tf)r.uni(-10, 10); }
    L w = 0, s = 0;
    for (int i = 0; i < 4; i++) { w += (L)a[i] * b[i]; s += std::fabs((L)a[i] * b[i]); }
    rep().begin("dot " + ty);
    const L g = planes::dot<Tf>(a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
    rep().eval(fnv(a, sizeof a, fnv(b, sizeof b)), true);
    if (std::fabs(g - w) > 8 * eps * s) rep().violation("dot-" + ty, "dot product off by " + G((double)(g - w)));
  }
  // radius tracker and stop test over a sequence
  {
    rep().begin("radius " + ty);
    Tf p[3] = {coord(), coord(), coord()};
    Tf rad = 0;
    L best = 0;
    uint64_t h = 9;
    const int m = r.range(1, 40);
    for (int i = 0; i < m; i++) {
      Tf v[3] = {coord(), coord(), coord()};
      h = fnv(v, sizeof v, h);
      const Tf prev = rad;
      rad = sr::update<Tf>(p[0], p[1], p[2], v[0], v[1], v[2], rad);
      L d = 0;
      for (int a = 0; a < 3; a++) d += ((L)p[a] - v[a]) * ((L)p[a] - v[a]);
      best = std::max(best, d);
      if (!(rad >= prev)) rep().violation("radius-decreases-" + ty, "tracker went from " + G(prev) + " to " + G(rad));
      if (std::fabs((L)rad - best) > 8 * eps * best) rep().violation("radius-wrong-" + ty, "tracker " + G(rad) + " largest squared distance " + G((double)best));
      Tf q[3] = {coord(), coord(), coord()};
      if (r.chance(0.5)) for (int a = 0; a < 3; a++) q[a] = (Tf)((double)p[a] + 2 * std::sqrt((double)best) * r.uni(0.4, 0.75) * (r.chance(0.5) ? 1 : -1));
      L e = 0;
      for (int a = 0; a < 3; a++) e += ((L)p[a] - q[a]) * ((L)p[a] - q[a]);
      const bool got = sr::is_reached<Tf>(p[0], p[1], p[2], q[0], q[1], q[2], rad);
      const L margin = e - 4 * best;
      rep().count(got ? "stop tests true" : "stop tests false");
      if (std::fabs(margin) > 32 * eps * (e + 4 * best) && got != (margin > 0))
        rep().violation("stop-test-" + ty, "candidate at " + G((double)e) + ", radius " + G((double)best) + ": stop test says " + (got ? "reached" : "not reached"));
    }
    rep().eval(h, m > 1);
  }
}
#endif

#if VT_WANT(14)
// =================================================================== C14
static const char* known_keys[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
struct Val { int type; int64_t i; std::string s; };  // 0 int64, 1 bool, 2 string
static Val rand_val(Rng& r) {
  Val v{0, 0, ""};
  const int q = r.range(0, 9);
  if (q < 5) {
    static const int64_t edge[] = {0, 1, -1, 2, 7, 8, 9, 10, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1000000, 8196, 2147483647, -2147483647 - 1, 123456789};
    v.i = r.chance(0.6) ? edge[r.below(22)] : (int64_t)(int32_t)r.next();
  } else if (q == 5) { v.i = (int64_t)r.next(); if (r.chance(0.3)) v.i = r.chance(0.5) ? std::numeric_limits<int64_t>::max() : std::numeric_limits<int64_t>::min(); }
  else if (q < 8) { v.type = 1; v.i = r.chance(0.5); }
  else {
    v.type = 2;
    const int n = r.range(1, 12);
    static const char al[] = "abcXYZ019_-./:,;=+";
    for (int i = 0; i < n; i++) v.s += al[r.below(sizeof al - 1)];
  }
  return v;
}
static void put(votess::vtargs& a, const std::string& k, const Val& v, Rng& r) {
  if (v.type == 2) a[k] = v.s;
  else if (v.type == 1) a[k] = (bool)v.i;
  else if (v.i >= INT32_MIN && v.i <= INT32_MAX && r.chance(0.7)) a[k] = (int)v.i;
  else a[k] = (long)v.i;
}
static bool intlike(const Val& v, int64_t& out) {
  if (v.type != 2) { out = v.i; return true; }
  return false;
}
static void check_store(const votess::vtargs& a, const std::map<std::string, Val>& m, const char* what) {
  for (auto& e : m) {
    const Val& v = e.second;
    rep().count("values read back");
    int64_t x;
    if (intlike(v, x)) {
      try {
        const long got = a[e.first].get<long>();
        if (got != x) rep().violation(std::string("value-changed-") + what, e.first + "=" + I(got) + " instead of " + I(x));
        if (x >= INT32_MIN && x <= INT32_MAX) {
          const int g = a[e.first];
          if (g != x) rep().violation(std::string("int-changed-") + what, e.first + "=" + I(g) + " instead of " + I(x));
          const std::string s = a[e.first].get<std::string>();
          if (s != I(x)) rep().violation(std::string("text-changed-") + what, e.first + " reads as " + s);
        } else {
          bool threw = false;
          try { (void)a[e.first].get<int>(); } catch (const std::exception&) { threw = true; }
          if (!threw) rep().violation("overflow-not-refused", e.first + "=" + I(x) + " converted to int");
        }
        if (x == 0 || x == 1) { if (a[e.first].get<bool>() != (x == 1)) rep().violation("bool-changed", e.first); }
        if (x >= 0) { if (a[e.first].get<size_t>() != (size_t)x) rep().violation("size-changed", e.first); }
      } catch (const std::exception& ex) {
        rep().violation(std::string("unreadable-") + what, e.first + " holding " + I(x) + " cannot be read: " + ex.what());
      }
    } else {
      try {
        const std::string g = a[e.first].get<std::string>();
        if (g != v.s) rep().violation(std::string("string-changed-") + what, e.first + "='" + g + "' instead of '" + v.s + "'");
      } catch (const std::exception& ex) { rep().violation("string-unreadable", v.s + ": " + ex.what()); }
      // strings that are not entirely a number must be refused as int
      char* end = nullptr;
      (void)std::strtol(v.s.c_str(), &end, 10);
      const bool plain = end != v.s.c_str() && *end == 0;
      if (!plain) {
        bool threw = false;
        int g = 0;
        try { g = a[e.first].get<int>(); } catch (const std::exception&) { threw = true; }
        if (!threw) rep().violation("conversion-not-refused", "'" + v.s + "' read as int gives " + I(g));
      }
    }
  }
}
static void c14(Rng& r, int64_t) {
  struct Store { votess::vtargs a; std::map<std::string, Val> m; };
  std::vector<Store> st(1);
  rep().begin("fresh store");
  std::string hist;
  for (auto k : known_keys) {
    try {
      const long v = st[0].a[k].get<long>();
      st[0].m[k] = Val{0, v, ""};
    } catch (const std::exception& e) { rep().violation("default-missing", std::string(k) + ": " + e.what()); return; }
  }
  // documented defaults are usable: a call with them works
  const int steps = r.range(5, 60);
  for (int s = 0; s < steps; s++) {
    Store& x = st[r.below(st.size())];
    const int op = r.range(0, 9);
    if (op < 5) {
      const std::string k = known_keys[r.below(10)];
      const Val v = rand_val(r);
      hist += "set " + k + "=" + (v.type == 2 ? "'" + v.s + "'" : I(v.i)) + "; ";
      rep().begin(hist.size() > 300 ? hist.substr(hist.size() - 300) : hist);
      put(x.a, k, v, r);
      x.m[k] = v;
    } else if (op == 5) {
      if (st.size() < 5) { hist += "copy; "; Store y = x; st.push_back(y); }
      else { hist += "assign; "; Store y = x; st[r.below(st.size())] = y; }
    } else if (op == 6) {
      std::string k;
      const int q = r.range(0, 5);
      k = q == 0 ? "" : q == 1 ? "K" : q == 2 ? "k " : q == 3 ? "unknown" : q == 4 ? std::string(known_keys[r.below(10)]) + "x" : std::string(known_keys[1 + r.below(9)]).substr(1);
      bool known = false;
      for (auto kk : known_keys) known = known || k == kk;
      if (known) continue;
      hist += "unknown '" + k + "'; ";
      bool t1 = false, t2 = false;
      try { x.a[k] = 5; } catch (const std::exception&) { t1 = true; }
      const votess::vtargs& cr = x.a;
      try { (void)cr[k].get<int>(); } catch (const std::exception&) { t2 = true; }
      rep().count("unknown keys tried");
      if (!t1 || !t2) rep().violation("unknown-accepted", "key '" + k + "' accepted for " + (t1 ? "reading" : "writing"));
    } else if (op == 7) {
      const votess::vtargs& cr = x.a;
      try {
        const int k = cr["k"], g = cr["knn_grid_resolution"], p = cr["cc_p_maxsize"], t = cr["cc_t_maxsize"];
        const auto a1 = cr.get_xyzset();
        const auto a2 = cr.get_knn();
        const auto a3 = cr.get_cc();
        rep().count("views compared");
        if (a1.grid_resolution != g || a2.k != k || a2.grid_resolution != g || a3.k != k || a3.p_maxsize != p || a3.t_maxsize != t)
          rep().violation("views-differ", "typed views do not match the stored values");
      } catch (const std::exception&) {}
    } else if (op == 8) {
      // a call, successful or refused, leaves the caller's parameters alone
      auto pts = conv<float>(gen(F_UNIFORM, r.range(0, 12), r));
      hist += "call; ";
      try {
        const int nt = x.a["cpu_nthreads"].get<int>();
        const int gr = x.a["knn_grid_resolution"].get<int>();
        const int kk = x.a["k"].get<int>();
        if (nt >= 0 && nt <= 64 && gr <= 64 && kk < 1000000) {
          CoutCapture c;
          CerrCapture e;
          try { (void)votess::tesellate<int, float>(pts, x.a, votess::device::cpu); rep().count("calls returned"); } catch (const std::exception&) { rep().count("calls refused"); }
        }
      } catch (const std::exception&) {}
    }
    for (auto& y : st) check_store(y.a, y.m, "history");
  }
  rep().eval(fnv(hist.data(), hist.size()), steps > 5);
  rep().sample(hist.substr(0, 300));
}
#endif

#if VT_WANT(15)
// =================================================================== C15
template <class Ti> void c15_t(Rng& r, const std::string& ty) {
  const int n = r.chance(0.1) ? 0 : r.chance(0.2) ? 1 : sizeof(Ti) == 1 ? r.range(1, 24) : r.chance(0.004) ? r.range(200, 3000) : r.chance(0.0005) ? r.range(60000, 70000) : r.range(1, 40);
  std::vector<std::vector<int64_t>> rows;
  const bool wide = r.chance(0.3), longrows = n <= 40 && r.chance(0.03);
  auto value = [&]() -> int64_t {
    if (!wide) return r.chance(0.1) ? (int64_t)r.below(sizeof(Ti) == 1 ? 127 : 32000) : (int64_t)r.below(100);
    if (r.chance(0.1)) return std::numeric_limits<Ti>::max() - (int64_t)r.below(3);
    const int b = r.range(1, (int)sizeof(Ti) * 8 - 1);  // every magnitude, powers of two and their neighbours
    const int64_t top = b == 63 ? std::numeric_limits<int64_t>::max() : ((int64_t)1 << b);
    const int64_t v = r.chance(0.3) ? top - (int64_t)r.below(2) : (int64_t)r.below((uint64_t)top);
    return std::min<int64_t>(v, std::numeric_limits<Ti>::max());
  };
  const int style = r.range(0, 4);
  for (int i = 0; i < n; i++) {
    std::vector<int64_t> row;
    const bool empty = style == 0 ? false : style == 1 ? r.chance(0.5) : style == 2 ? (i < 2 || i > n - 3) : style == 3 ? true : r.chance(0.15);
    if (!empty) { const int m = longrows ? r.range(1, 700) : r.range(1, 8); for (int j = 0; j < m; j++) row.push_back(value()); }
    rows.push_back(row);
  }
  std::vector<Ti> list, offs{0};
  bool fits = true;
  for (auto& x : rows) { for (auto j : x) list.push_back((Ti)j); if (list.size() > (size_t)std::numeric_limits<Ti>::max()) fits = false; offs.push_back((Ti)list.size()); }
  if (!fits) return;
  std::string d = ty + " " + I(n) + " rows:";
  for (size_t i = 0; i < rows.size() && i < 60; i++) d += " " + I((long long)rows[i].size());
  rep().begin(d);
  rep().eval(fnv(d.data(), d.size(), list.empty() ? 1 : fnv(list.data(), list.size() * sizeof(Ti))), n > 0);
  rep().sample(d);
  for (auto& x : rows) if (x.empty()) rep().count("empty rows");
  auto l2 = list;
  auto o2 = offs;
  const bool copied = r.chance(0.5);
  votess::dnn<Ti> a = copied ? votess::dnn<Ti>(l2, o2) : votess::dnn<Ti>(std::move(l2), std::move(o2));
  if (copied && (l2 != list || o2 != offs)) rep().violation("construct-disturbs-" + ty, "making a result from the caller's arrays changed them");
  votess::dnn<Ti> dn = r.chance(0.3) ? votess::dnn<Ti>(a) : std::move(a);
  if (dn.list != list || dn.offs != offs) rep().violation("construct-" + ty, "constructed result does not hold its arrays");
  if (dn.size() != (size_t)n) rep().violation("size-" + ty, "size() is " + I((long long)dn.size()) + " for " + I(n) + " rows");
  for (int i = 0; i < n; i++) {
    auto p = dn[i];
    if (p.size() != rows[(size_t)i].size()) { rep().violation("row-size-" + ty, "row " + I(i) + " has size " + I((long long)p.size()) + " instead of " + I((long long)rows[(size_t)i].size())); break; }
    for (size_t j = 0; j < p.size(); j++) if ((int64_t)p[j] != rows[(size_t)i][j]) { rep().violation("row-element-" + ty, "row " + I(i) + " element " + I((long long)j)); break; }
    // the view writes through to the result
    if (p.size() && r.chance(0.05)) { const Ti old = p[0]; p[0] = (Ti)99; if (dn.list[(size_t)dn.offs[(size_t)i]] != (Ti)99) rep().violation("row-view-" + ty, "view is not the row"); p[0] = old; }
  }
  // printed form
  {
    std::string out;
    { CoutCapture c; dn.print(); out = c.str(); }
    rep().count("printed results");
    std::vector<std::vector<int64_t>> got;
    std::istringstream is(out);
    std::string line;
    bool ok = true;
    if (n == 0) {
      std::string t;
      for (char ch : out) if (!isspace((unsigned char)ch)) t += ch;
      if (t != "{}") rep().violation("print-empty-" + ty, "empty result printed as " + out);
    } else {
      std::vector<std::string> lines;
      while (std::getline(is, line)) lines.push_back(line);
      ok = lines.size() == (size_t)n + 2 && lines[0] == "{" && lines.back() == "}";
      for (size_t i = 1; ok && i + 1 < lines.size(); i++) {
        std::string s = lines[i];
        const size_t a0 = s.find('{'), b0 = s.rfind('}');
        if (a0 == std::string::npos || b0 == std::string::npos) { ok = false; break; }
        s = s.substr(a0 + 1, b0 - a0 - 1);
        for (char& ch : s) if (ch == ',') ch = ' ';
        std::istringstream ls(s);
        std::vector<int64_t> row;
        std::string tok;
        while (ls >> tok) row.push_back(std::atoll(tok.c_str()));
        got.push_back(row);
      }
      if (!ok) rep().violation("print-form-" + ty, "printed form has " + I((long long)lines.size()) + " lines for " + I(n) + " rows: " + out.substr(0, 200));
      else if (got != rows) rep().violation("print-rows-" + ty, "printed rows differ: " + out.substr(0, 300));
    }
  }
  // saved form
  {
    const std::string f = opt().scratch + "/c15-" + I(getpid()) + "-" + I((long long)opt().shard) + ".txt";
    if (r.chance(0.3)) { std::ofstream old(f); const int m = r.range(1, 60); for (int i = 0; i < m; i++) old << "77 88 " << std::string((size_t)r.range(1, 20), '9') << "\n"; rep().count("earlier files replaced"); }
    dn.savetxt(f);
    std::ifstream is(f);
    std::string line;
    std::vector<std::vector<int64_t>> got;
    while (std::getline(is, line)) { std::istringstream ls(line); std::vector<int64_t> row; std::string t; while (ls >> t) row.push_back(std::atoll(t.c_str())); got.push_back(row); }
    rep().count("saved results");
    if (got.size() != (size_t)n) rep().violation("save-lines-" + ty, "file has " + I((long long)got.size()) + " lines for " + I(n) + " rows");
    else if (got != rows) rep().violation("save-rows-" + ty, "saved rows differ");
    is.close();
    ::unlink(f.c_str());
  }
  // unwritable path: an error message, nothing else disturbed
  if (r.chance(0.3)) {
    std::string err, out;
    bool threw = false;
    const std::string bad = r.chance(0.5) ? opt().scratch + "/no/such/dir/x.txt" : opt().scratch;
    { CoutCapture c; CerrCapture e; try { dn.savetxt(bad); } catch (const std::exception&) { threw = true; } err = e.str(); out = c.str(); }
    rep().count("unwritable paths tried");
    if (!threw && err.empty()) rep().violation("save-error-" + ty, "saving to an unwritable path reports nothing");
    if (!out.empty()) rep().violation("save-error-stdout-" + ty, "saving to an unwritable path prints to standard output");
    if (dn.list != list || dn.offs != offs) rep().violation("save-error-data-" + ty, "result changed");
    // a full device: the write itself fails
    if (access("/dev/full", W_OK) == 0 && !list.empty()) {
      std::string e2;
      { CerrCapture e; try { dn.savetxt("/dev/full"); } catch (const std::exception&) { threw = true; } e2 = e.str(); }
      if (!threw && e2.empty()) rep().violation("save-full-" + ty, "a failed write is not reported");
      rep().count("failed writes tried");
    }
  }
}
#endif

int main(int argc, char** argv) {
  init(argc, argv);
  const std::string m = opt().mode;
  const int sc = opt().scale;
  bool ran = false;
#if VT_WANT(11)
  if (m == "C11") { ran = true; { cases(sc * 12000, [](int64_t c, Rng& r) { c11(r, c); }); cases(sc * 6000, [](int64_t c, Rng& r) { c11_bad(r, c); }); } }
#endif
#if VT_WANT(12)
  if (m == "C12") { ran = true; cases(sc * 9000, [](int64_t, Rng& r) { c12_t<int, float>(r, "int-float"); c12_t<int64_t, double>(r, "i64-double"); c12_t<int16_t, float>(r, "i16-float"); c12_t<int, double>(r, "int-double"); }); }
#endif
#if VT_WANT(14)
  if (m == "C14") { ran = true; cases(sc * 9600, [](int64_t c, Rng& r) { c14(r, c); }); }
#endif
#if VT_WANT(15)
  if (m == "C15") { ran = true; cases(sc * 24000, [](int64_t, Rng& r) { c15_t<int>(r, "int"); c15_t<int64_t>(r, "i64"); c15_t<int16_t>(r, "i16"); c15_t<int8_t>(r, "i8"); }); }
#endif
#if VT_WANT(22)
  if (m == "C22") { ran = true; cases(sc * 240000, [](int64_t, Rng& r) { c22_t<double>(r, "double"); c22_t<float>(r, "float"); }); }
#endif
  if (!ran) { std::fprintf(stderr, "unknown mode\n"); return 2; }
  rep().finish();
  return 0;
}
