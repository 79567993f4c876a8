// C01 C02 C03 C06 C10 C13: rows, candidates and summary of real calls against
// the brute-force oracle.
#include "oracle.hpp"
using namespace vt;

struct Want {
  bool missing = false, spurious = false, symmetry = false, structure = false, candidates = false,
       summary = false, exact = false;
};
static std::string I(long long x) { return std::to_string(x); }

template <class Tf> struct Tol;
template <> struct Tol<double> {
  static double depth(double d2) { return 1e-6 + 1e-12 / d2; }
  static constexpr double margin = 1e-7, reach = 1e-7, tie = 1e-10;
  static constexpr bool strict = true;
};
template <> struct Tol<float> {
  static double depth(double d2) { return 2e-3 + 1e-4 / d2 * 0.6; }
  static constexpr double margin = 2e-4, reach = 2e-4, tie = 2e-5;
  static constexpr bool strict = false;
};

template <class Ti, class Tf> std::string ctx(const Run<Ti, Tf>& r, size_t i) {
  std::ostringstream o;
  o.precision(17);
  o << "point " << i << " of " << r.pts.size() << " at (" << r.pts[i][0] << "," << r.pts[i][1] << "," << r.pts[i][2]
    << ") row " << (i < r.rows.size() ? vstr(r.rows[i]) : "none") << " summary " << r.sum.str();
  return o.str();
}

// ------------------------------------------------------ structural monitor
template <class Ti, class Tf>
bool structure(const Run<Ti, Tf>& r, const std::vector<std::array<Tf, 3>>& in, bool report, bool order = true) {
  auto bad = [&](const std::string& k, const std::string& d) { if (report) rep().violation(k, d); return false; };
  if (r.threw) return bad("exception", "call on valid input threw: " + r.what);
  const size_t n = in.size();
  if (r.offs.size() != n + 1) return bad("row-count", "offs has " + I((long long)r.offs.size()) + " entries for " + I((long long)n) + " points");
  if (r.offs[0] != 0) return bad("offs-start", "offs[0]=" + I(r.offs[0]));
  for (size_t i = 1; i < r.offs.size(); i++)
    if (r.offs[i] < r.offs[i - 1]) return bad("offs-decrease", "offs[" + I((long long)i) + "] decreases");
  if ((size_t)r.offs.back() != r.list.size()) return bad("offs-end", "offs ends at " + I(r.offs.back()) + ", list has " + I((long long)r.list.size()));
  if (r.rows.size() != n) return bad("rows", "rows unreadable");
  bool ok = true;
  for (size_t i = 0; i < n; i++) {
    std::set<int64_t> seen;
    double last = -1;
    for (int64_t j : r.rows[i]) {
      if (j < 0 || j >= (int64_t)n) { ok = bad("index-range", "neighbour " + I(j) + " out of range; " + ctx(r, i)); break; }
      if (j == (int64_t)i) ok = bad("self", "point listed as its own neighbour; " + ctx(r, i));
      if (!seen.insert(j).second) ok = bad("duplicate", "neighbour " + I(j) + " listed twice; " + ctx(r, i));
      double d = 0;
      for (size_t c = 0; c < 3; c++) { const double q = (double)r.pts[i][c] - (double)r.pts[(size_t)j][c]; d += q * q; }
      if (order && d < last * (1 - 16 * (double)std::numeric_limits<Tf>::epsilon()) - 1e-300)
        ok = bad("order", "row not in order of distance at neighbour " + I(j) + "; " + ctx(r, i));
      last = std::max(last, d);
    }
  }
  return ok;
}

// ------------------------------------------------------------ row oracle
// keff: candidates per cell; exact: every other point was a candidate
template <class Ti, class Tf>
void judge(const Run<Ti, Tf>& r, const Params& p, const Want& w, size_t sample, Rng& rng, const oracle::Diagram<Tf>& dg) {
  using T = Tol<Tf>;
  const size_t n = r.pts.size();
  const int kmax = (int)n - 1;
  const int keff = std::max(1, std::min(p.k, kmax));
  std::vector<size_t> idx(n);
  std::iota(idx.begin(), idx.end(), 0);
  if (sample && sample < n) {
    for (size_t i = 0; i < sample; i++) std::swap(idx[i], idx[i + rng.below(n - i)]);
    idx.resize(sample);
  }
  const bool all = idx.size() == n;
  long sr = 0, po = 0, to = 0, sr_a = 0, po_a = 0, to_a = 0;
  long inexact = 0;
  for (size_t i : idx) {
    // with recompute, every cell is finished with as many candidates as it takes
    const auto m = p.recompute ? dg.model((int)i, kmax, 255, 510) : dg.model((int)i, keff, p.p, p.t);
    const auto& row = r.rows[i];
    rep().count("cells");
    if (m.tie_at_k) { rep().count("cells skipped: tie at k"); sr_a++; po_a++; to_a++; continue; }
    const bool shaky = m.margin < T::margin || m.reach_margin < T::reach;
    if (shaky) rep().count("cells near-degenerate");
    if (m.p_over) po++;
    if (m.t_over) to++;
    if (!m.reached) sr++;
    if (shaky) { sr_a++; po_a++; to_a++; }
    if (m.abandoned()) {
      rep().count("cells abandoned");
      if (p.recompute) continue;  // beyond the 8-bit plane ids: separate finding
      if (w.candidates && !shaky) {
        // must be the full candidate list
        if (row.size() != m.cand.size()) {
          rep().violation("abandoned-not-candidates", "expected all " + I((long long)m.cand.size()) + " candidates; " + ctx(r, i));
        } else
          for (size_t c = 0; c < row.size(); c++) {
            P3 d; for (size_t a = 0; a < 3; a++) d[a] = dg.at((size_t)row[c])[a] - dg.at(i)[a];
            const double d2 = oracle::dot(d, d);
            if (std::fabs(d2 - m.cand[c].d2) > 1e-300 + 64 * (double)std::numeric_limits<Tf>::epsilon() * m.cand[c].d2) {
              rep().violation("abandoned-not-candidates", "candidate " + I((long long)c) + " should be at d2=" + std::to_string(m.cand[c].d2) + "; " + ctx(r, i));
              break;
            }
          }
      }
      continue;
    }
    if (m.reached) rep().count("cells proven complete");
    std::set<int64_t> have(row.begin(), row.end());
    std::set<int64_t> exp(m.row.begin(), m.row.end());
    bool deep_miss = false, deep_spur = false;
    for (int64_t j : exp) {
      if (have.count(j)) continue;
      const double dp = dg.depth((int)i, (int)j, m);
      P3 d; for (size_t a = 0; a < 3; a++) d[a] = dg.at((size_t)j)[a] - dg.at(i)[a];
      const double tol = T::depth(oracle::dot(d, d));
      rep().maxi("depth of tolerated missing / tolerance", dp / tol > 1 ? 0 : dp / tol);
      if (dp > tol) {
        deep_miss = true;
        if (w.missing || w.exact) rep().violation("missing-neighbour", "misses " + I(j) + " cut depth " + std::to_string(dp) + " expected " + vstr(m.row) + "; " + ctx(r, i));
      } else rep().count("negligible faces tolerated");
    }
    for (int64_t j : have) {
      if (exp.count(j)) continue;
      // an abandoned float cell (numerical boundary failure) lists its candidates
      const double dp = (j >= 0 && j < (int64_t)n && j != (int64_t)i) ? -dg.depth((int)i, (int)j, m) : 1e9;
      double tol = 0;
      if (dp < 1e8) {
        P3 d; for (size_t a = 0; a < 3; a++) d[a] = dg.at((size_t)j)[a] - dg.at(i)[a];
        tol = T::depth(oracle::dot(d, d));
      }
      if (dp > tol) {
        if (!T::strict && shaky && r.sum.inf > 0) { rep().count("float cells given up numerically"); break; }
        deep_spur = true;
        if (w.spurious || w.exact) rep().violation("spurious-neighbour", "lists " + I(j) + " which is " + std::to_string(dp) + " beyond the cell, expected " + vstr(m.row) + "; " + ctx(r, i));
      } else rep().count("negligible faces tolerated");
    }
    if (deep_miss || deep_spur) inexact++;
  }
  if (all && w.symmetry && po == 0 && to == 0 && sr == 0 && po_a == 0) {
    rep().count("relations checked for symmetry");
    std::vector<std::set<int64_t>> s(n);
    for (size_t i = 0; i < n; i++) s[i].insert(r.rows[i].begin(), r.rows[i].end());
    for (size_t i = 0; i < n; i++) for (int64_t j : s[i]) {
      rep().count("pairs checked for symmetry");
      if (!s[(size_t)j].count((int64_t)i)) {
        const auto m = dg.model((int)j, kmax, 255, 510);
        P3 d; for (size_t a = 0; a < 3; a++) d[a] = dg.at((size_t)j)[a] - dg.at(i)[a];
        if (std::fabs(dg.depth((int)j, (int)i, m)) > T::depth(oracle::dot(d, d)))
          rep().violation("asymmetric", I((long long)i) + " lists " + I(j) + " but not conversely; " + ctx(r, i));
      }
    }
  }
  if (all && w.summary) {
    if (!r.sum.found || r.sum.copies != 1) {
      rep().violation("summary-missing", "expected one summary, found " + I(r.sum.copies) + " in: " + r.out.substr(0, 400));
      return;
    }
    rep().count("summaries compared");
    if (sr) rep().count("summaries with unreached cells");
    if (po) rep().count("summaries with p overflow");
    if (to) rep().count("summaries with t overflow");
    auto cmp = [&](const char* what, long got, long want, long amb) {
      if (got < want - amb || got > want + amb)
        rep().violation(std::string("summary-") + what, std::string(what) + " reported " + I(got) + ", oracle " + I(want) + " (+-" + I(amb) + "); " + r.sum.str());
    };
    if (!p.recompute) {
      cmp("sradius", r.sum.sr, sr, sr_a);
      cmp("p-overflow", r.sum.p, po, po_a);
      cmp("t-overflow", r.sum.t, to, to_a);
    } else {
      // cells beyond the plane limit stay reported as p overflow
      cmp("sradius", r.sum.sr, sr, sr_a);
      cmp("p-overflow", r.sum.p, po, po_a);
      cmp("t-overflow", r.sum.t, to, to_a);
    }
    if (T::strict) cmp("inf-boundary", r.sum.inf, 0, po_a);
    if (r.sum.sr == 0 && r.sum.p == 0 && r.sum.t == 0 && r.sum.inf == 0 && inexact)
      rep().violation("summary-claims-success", "summary reports no failure but " + I(inexact) + " rows are not exact");
  }
}

template <class Ti, class Tf>
void go(const std::vector<P3>& pts, const Params& p, const Want& w, size_t sample, Rng& rng, const std::string& desc) {
  const auto in = conv<Tf>(pts);
  rep().begin(desc);
  const auto r = run<Ti, Tf>(in, p);
  rep().eval(fnv(desc.data(), desc.size(), hash_points(in)), in.size() >= 2);
  rep().sample(desc + " -> " + r.sum.str() + " stored " + I((long long)r.list.size()));
  if (!structure(r, in, true, w.structure)) return;
  if (in.size() < 2) return;
  if (!(w.missing || w.spurious || w.symmetry || w.candidates || w.summary || w.exact)) return;
  oracle::Diagram<Tf> dg(r.pts);
  judge(r, p, w, sample, rng, dg);
}

static std::string describe(int fam, size_t n, const Params& p, const char* ty) {
  return std::string(family_name(fam)) + " n=" + I((long long)n) + " " + p.str() + " " + ty;
}
// dispatch over the instantiations a user has
static void go_any(int fam, const std::vector<P3>& pts, const Params& p, const Want& w, size_t sample, Rng& r, int inst) {
  if (fam == F_EDGES && pts.size() < 5000) inst &= 2;  // wall distances below what single precision resolves
  switch (inst) {
    case 0: go<int, double>(pts, p, w, sample, r, describe(fam, pts.size(), p, "int/double")); break;
    case 1: go<int, float>(pts, p, w, sample, r, describe(fam, pts.size(), p, "int/float")); break;
    case 2: go<int64_t, double>(pts, p, w, sample, r, describe(fam, pts.size(), p, "int64/double")); break;
    default: go<int64_t, float>(pts, p, w, sample, r, describe(fam, pts.size(), p, "int64/float")); break;
  }
}
static int pick_inst(Rng& r) { const int x = r.range(0, 9); return x < 5 ? 0 : x < 8 ? 1 : x < 9 ? 2 : 3; }
static int pick_n(Rng& r, int hi = 600) {
  const int x = r.range(0, 9);
  if (x == 0) return r.range(1, 12);
  if (x < 4) return r.range(13, 90);
  if (x < 8) return r.range(91, hi / 2);
  return r.range(hi / 2, hi);
}
static int pick_gr(Rng& r, int n) {
  const int x = r.range(0, 9);
  if (x == 0) return 1;
  if (x == 1) return 2;
  if (x == 2) return r.range(20, 40);
  if (x < 6) return std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
  return r.range(3, 16);
}

// grids with far more cells per side than the defaults: a small or compact set, so that the search stays affordable
static int big_gr(Rng& r, int64_t c) {
  static const int g[] = {127, 128, 129, 160, 192, 255, 256, 257, 300, 64, 65, 100};
  return c % 3 ? g[r.below(12)] : r.range(60, 330);
}
static std::vector<P3> compact(int fam, int n, Rng& r, double s) {
  auto v = gen(fam, n, r);
  P3 o;
  for (auto& x : o) { const int w = r.range(0, 3); x = w == 0 ? 0.002 : w == 1 ? 0.998 - s : r.uni(0.002, 0.998 - s); }
  for (auto& q : v) for (size_t a = 0; a < 3; a++) q[a] = o[a] + s * q[a];
  return v;
}
// Two points at nearly the same distance from a third, one of them just across
// the shell of grid cells the other one lies in: which is nearer must not
// depend on the shell.
static std::vector<P3> near_ties(Rng& r, int gr, int& k, bool dbl) {
  const double gl = 1.0f / (float)gr;
  for (;;) {
    const int ax = r.range(0, 2), sgn = r.chance(0.5) ? 1 : -1, shells = r.range(0, std::max(1, gr / 2));
    std::array<int, 3> cell;
    for (auto& x : cell) x = r.range(0, gr - 1);
    const double m = gl * r.uni(0, 0.35);
    P3 q;
    for (size_t a = 0; a < 3; a++) q[a] = (cell[a] + r.uni(0.4, 0.6)) * gl;
    q[(size_t)ax] = sgn > 0 ? (cell[(size_t)ax] + 1) * gl - m : cell[(size_t)ax] * gl + m;
    const double d = gl * shells + m, e1 = std::pow(10, dbl ? r.uni(-9.5, -3) : r.uni(-5.5, -2)), e2 = std::pow(10, dbl ? r.uni(-9, -3) : r.uni(-4.2, -2));
    std::vector<P3> v{q};
    const int fill = r.range(0, 6);
    for (int i = 0; i < fill; i++) {
      P3 u{r.gauss(), r.gauss(), r.gauss()};
      const double l = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) + 1e-12, f = d * r.uni(0.2, 0.9) / l;
      v.push_back({q[0] + f * u[0], q[1] + f * u[1], q[2] + f * u[2]});
    }
    P3 a = q, b = q;
    a[(size_t)ax] += sgn * d * (1 + e1);
    const int bx = (ax + r.range(1, 2)) % 3;
    b[(size_t)bx] += (r.chance(0.5) ? 1 : -1) * d * (1 + e1 + e2);
    v.push_back(a); v.push_back(b);
    if (d < 1e-4) continue;
    bool in = true;
    for (auto& x : v) for (double y : x) in = in && y > 1e-6 && y < 1 - 1e-6;
    if (!in) continue;
    k = fill + 1;
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    return v;
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  const std::string m = opt().mode;
  const int sc = opt().scale;
  if (m == "C01" || m == "C02") {
    Want w;
    if (m == "C01") w.missing = true; else { w.spurious = w.symmetry = w.summary = false; w.spurious = true; w.symmetry = true; }
    cases(sc * 1320, [&](int64_t c, Rng& r) {
      const int fam = (int)(c % F_NGENERIC);
      Params p;
      p.threads = r.range(1, 4);
      int n = pick_n(r);
      const auto pts0 = gen(fam, n, r);
      p.gr = pick_gr(r, n);
      // ample, default-like, tight, or huge k
      const int kind = r.range(0, 9);
      if (kind < 4) { p.k = r.range(60, 160); p.p = r.range(100, 255); p.t = r.range(250, 510); }
      else if (kind < 5) { p.k = 64; p.p = 32; p.t = 32; }
      else if (kind < 7) { p.k = r.range(1, 60); p.p = r.range(20, 100); p.t = r.range(30, 200); }
      else if (kind < 9) { p.k = n + r.range(-3, 50); if (p.k < 1) p.k = 1; p.p = 255; p.t = 510; }
      else { p.k = r.range(20, 90); p.p = 160; p.t = 300; p.recompute = true; }
      if (r.chance(0.25)) { p.chunking = true; p.chunk = r.range(1, n + 3); }
      Want ww = w;
      if (m == "C02" && kind < 9 && kind >= 7) ww.summary = true;  // ample: every cell is completed
      go_any(fam, pts0, p, ww, 0, r, pick_inst(r));
    });
    // large sets: sampled cells
    cases(sc * 8, [&](int64_t c, Rng& r) {
      const int fam = (int)(c % 2 ? F_UNIFORM : r.below(F_NGENERIC));
      const int n = c % 8 == 0 ? 70000 + r.range(0, 3000) : r.range(4000, 30000);
      Params p;
      p.k = c % 4 == 1 ? 300 : 90; p.p = 128; p.t = 256; p.threads = 2;
      p.gr = c % 3 == 0 ? r.range(30, 60) : std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
      if (c % 4 == 1) p.k = 270;
      go_any(fam, gen(fam, n, r), p, w, (size_t)(n > 50000 ? 120 : 250), r, c % 4 == 2 ? 0 : 1);
    });
    // a cell with nearly as many planes as can be numbered, many of them losing their face again
    cases(sc * 64, [&](int64_t c, Rng& r) {
      const int n = r.range(150, 242);
      const double R = r.uni(0.1, 0.3), rough = R * std::pow(10, r.uni(-2.6, -1.5));
      const P3 o{r.uni(0.4, 0.6), r.uni(0.4, 0.6), r.uni(0.4, 0.6)};
      std::vector<P3> v{o};
      while ((int)v.size() < n) {
        P3 q{r.gauss(), r.gauss(), r.gauss()};
        const double l = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) + 1e-12, f = (R + rough * r.uni()) / l;
        v.push_back({o[0] + f * q[0], o[1] + f * q[1], o[2] + f * q[2]});
      }
      Params p;
      p.k = n - 1; p.p = 255; p.t = 510; p.gr = r.range(1, 9); p.threads = r.range(1, 3);
      Want ww = w;
      if (m == "C02") ww.summary = true;
      go_any(F_HUB, v, p, ww, 0, r, c % 4 ? 0 : 2);
    });
    // very fine grids
    cases(sc * 24, [&](int64_t c, Rng& r) {
      const int fam = (int)r.below(F_NGENERIC);
      const bool comp = c % 2;
      const int n = comp ? r.range(60, 900) : r.range(300, 1200);
      Params p;
      p.gr = big_gr(r, c); p.k = std::min(n - 1, comp ? r.range(40, 120) : r.range(20, 40)); p.p = r.range(60, 255); p.t = r.range(100, 510); p.threads = r.range(1, 4);
      go_any(fam, comp ? compact(fam, n, r, r.uni(0.03, 0.25)) : gen(F_UNIFORM, n, r), p, w, 200, r, comp ? (r.chance(0.3) ? 2 : 0) : (int)r.below(4));
    });
    // grid cells with thousands of points: sampled cells
    cases(sc * 8, [&](int64_t c, Rng& r) {
      const int fam = (int)r.below(F_NGENERIC);
      const int n = r.range(4500, 9000);
      Params p;
      p.k = 120; p.p = 200; p.t = 400; p.threads = 2; p.gr = c % 2 ? 1 : r.range(1, 3);
      go_any(fam, gen(fam, n, r), p, w, 150, r, fam == F_EDGES ? 0 : c % 3);
    });
  } else if (m == "C03") {
    Want w;
    w.structure = true;
    cases(sc * 9600, [&](int64_t c, Rng& r) {
      const bool deg = c % 3 != 0;
      const int fam = deg ? F_LATTICE + (int)(r.below(F_NDEGEN - F_LATTICE)) : (int)r.below(F_NGENERIC);
      const int x = r.range(0, 9);
      const int n = x < 4 ? r.range(0, 9) : x < 8 ? r.range(10, 70) : r.range(71, 260);
      Params p;
      p.threads = r.chance(0.2) ? r.range(5, 20) : r.range(1, 3);
      p.gr = r.chance(0.2) ? r.range(20, 50) : r.range(1, 12);
      p.k = r.chance(0.3) ? n + r.range(0, 300) : r.range(1, 100);
      if (p.k < 1) p.k = 1;
      p.p = r.chance(0.3) ? r.range(6, 20) : r.range(20, 400);
      p.t = r.chance(0.3) ? r.range(8, 30) : r.range(30, 800);
      p.recompute = r.chance(0.3);
      p.chunking = r.chance(0.3);
      p.chunk = r.chance(0.1) ? r.range(-3, 0) : r.range(1, n + 5);
      if (r.chance(0.2)) p.suppress = true;
      go_any(fam, gen(fam, n, r), p, w, 0, r, r.range(0, 3));
    });
    cases(sc * 16, [&](int64_t c, Rng& r) {
      const int fam = r.chance(0.3) ? F_LATTICE + (int)(r.below(F_NDEGEN - F_LATTICE)) : (int)r.below(F_NGENERIC);
      const int n = c % 8 == 0 ? r.range(66000, 72000) : r.range(300, 9000);
      const bool piled = fam == F_SAME || fam == F_TWOVALS || fam == F_GRIDWALL || fam == F_LINE;
      Params p;
      p.threads = r.range(2, 9);
      p.k = n < 3000 && r.chance(0.5) ? r.range(200, 500) : r.range(4, 24); p.p = r.range(12, 80); p.t = r.range(20, 150);
      p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
      p.recompute = n < 3000 && !piled && r.chance(0.5);
      if (r.chance(0.5)) { p.chunking = true; p.chunk = r.range(n / 300 + 1, n); }
      const auto v = gen(fam, piled ? std::min(n, 2000) : n, r);
      go_any(fam, v, p, w, 0, r, r.range(0, 3));
    });
  } else if (m == "C06") {
    Want w;
    w.exact = true;
    w.summary = true;
    cases(sc * 1500, [&](int64_t c, Rng& r) {
      const int fam = (int)(c % F_NGENERIC);
      const int n = pick_n(r, 420);
      Params p;
      p.recompute = true;
      p.threads = r.range(1, 5);
      p.gr = pick_gr(r, n);
      p.k = r.chance(0.5) ? r.range(1, 8) : r.range(9, 64);
      if (r.chance(0.15)) p.k = std::max(1, n - 1 + r.range(-2, 3));
      p.p = r.chance(0.5) ? r.range(6, 12) : r.range(13, 64);
      p.t = r.chance(0.5) ? r.range(8, 16) : r.range(17, 128);
      if (r.chance(0.3)) { p.chunking = true; p.chunk = r.range(1, n + 3); }
      const auto pts = gen(fam, n, r);
      const int inst = pick_inst(r);
      go_any(fam, pts, p, w, 0, r, inst);
      // cells complete in the first pass keep their rows: same call without recompute
      if (n >= 2 && inst == 0) {
        Params q = p;
        q.recompute = false;
        const auto in = conv<double>(pts);
        const auto a = run<int, double>(in, p), b = run<int, double>(in, q);
        if (!a.threw && !b.threw && a.rows.size() == b.rows.size()) {
          oracle::Diagram<double> dg(b.pts);
          const int keff = std::max(1, std::min(q.k, n - 1));
          for (size_t i = 0; i < a.rows.size(); i++) {
            const auto mo = dg.model((int)i, keff, q.p, q.t);
            if (mo.abandoned() || !mo.reached || mo.tie_at_k || mo.margin < 1e-7 || mo.reach_margin < 1e-7) continue;
            rep().count("complete cells compared with the run without recompute");
            if (a.rows[i] != b.rows[i]) rep().violation("recompute-changed-complete", "without recompute " + vstr(b.rows[i]) + "; " + ctx(a, i));
          }
        }
      }
    });
    // larger sets, sampled cells
    cases(sc * 8, [&](int64_t c, Rng& r) {
      const int fam = c % 2 ? F_UNIFORM : (int)r.below(F_NGENERIC);
      const int n = c % 8 == 1 ? r.range(33000, 36000) : c % 8 == 5 ? r.range(65600, 68000) : r.range(2000, 9000);
      Params p;
      p.recompute = true;
      p.threads = c % 8 == 3 ? 0 : c % 8 == 6 ? r.range(16, 40) : 4;
      p.k = r.range(8, 30); p.p = r.range(8, 20); p.t = r.range(8, 24);
      p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
      if (r.chance(0.5)) { p.chunking = true; p.chunk = r.range(n / 9 + 1, n); }
      Want ww = w;
      ww.summary = false;
      go_any(fam, gen(fam, n, r), p, ww, 150, r, pick_inst(r));
    });
  } else if (m == "C10") {
    Want w;
    w.candidates = true;
    w.structure = true;
    cases(sc * 1600, [&](int64_t c, Rng& r) {
      const bool deg = c % 7 == 6;
      const int fam = deg ? (r.chance(0.5) ? F_GRIDWALL : F_PLANE) : (int)(c % F_NGENERIC);
      const int n = pick_n(r, 900);
      Params p;
      p.threads = r.range(1, 3);
      p.gr = r.chance(0.3) ? r.range(1, 4) : r.chance(0.3) ? r.range(20, 48) : pick_gr(r, n);
      p.k = r.chance(0.2) ? std::max(1, n - 1 - r.range(0, 3)) : r.chance(0.2) ? r.range(128, 300) : r.range(1, 90);
      p.p = 6 + (r.chance(0.3) ? r.range(1, 6) : 0);
      p.t = r.range(16, 64);
      if (r.chance(0.3)) { p.chunking = true; p.chunk = r.range(1, n + 3); }
      const auto v = gen(fam, n, r);
      int inst = r.range(0, 3);
      if (fam == F_GRIDWALL) inst &= 2;  // neighbours one float ulp apart
      go_any(fam, v, p, w, n > 500 ? 300 : 0, r, inst);
    });
    cases(sc * 8, [&](int64_t c, Rng& r) {
      const int fam = (int)r.below(F_NGENERIC);
      const int n = r.range(10000, c % 8 == 0 ? 80000 : 30000);
      Params p;
      p.k = r.range(8, 130); p.p = 6; p.t = 16; p.threads = 2;
      p.gr = c % 2 ? r.range(33, 64) : r.range(4, 24);
      go_any(fam, gen(fam, n, r), p, w, 200, r, (int)(c % 4));
    });
    cases(sc * 40, [&](int64_t c, Rng& r) {
      const int fam = (int)r.below(F_NGENERIC);
      const bool comp = c % 2;
      const int n = comp ? r.range(60, 900) : r.range(300, 1500);
      Params p;
      p.gr = big_gr(r, c); p.k = std::min(n - 1, comp ? r.range(1, 200) : r.range(1, 20)); p.p = 6; p.t = r.range(16, 64); p.threads = r.range(1, 4);
      go_any(fam, comp ? compact(fam, n, r, r.uni(0.03, 0.25)) : gen(F_UNIFORM, n, r), p, w, 250, r, comp ? (r.chance(0.3) ? 2 : 0) : (int)r.below(4));
    });
    cases(sc * 4000, [&](int64_t c, Rng& r) {
      Params p;
      p.gr = r.chance(0.05) ? r.range(60, 110) : r.range(2, 60); p.p = 6; p.t = 16; p.threads = 1;
      const int inst = r.range(0, 3);
      const auto v = near_ties(r, p.gr, p.k, inst % 2 == 0);
      rep().count("sets with near ties across a shell of grid cells");
      go_any(F_UNIFORM, v, p, w, 0, r, inst);
    });
    // very crowded grid cells and long candidate lists
    cases(sc * 8, [&](int64_t c, Rng& r) {
      const int fam = c % 2 ? F_UNIFORM : (int)r.below(F_NGENERIC);
      const int n = r.range(2500, c % 8 == 0 ? 12000 : 6000);
      Params p;
      p.k = c % 2 ? r.range(500, 1400) : r.range(100, 500); p.p = 6; p.t = 16; p.threads = 4;
      p.gr = c % 4 == 3 ? r.range(70, 130) : r.range(1, 2);
      go_any(fam, gen(fam, n, r), p, w, 120, r, c % 4 == 0 ? 2 : (int)(c % 2));
    });
  } else if (m == "C13") {
    Want w;
    w.summary = true;
    cases(sc * 1800, [&](int64_t c, Rng& r) {
      const int fam = (int)(c % F_NGENERIC);
      const int n = pick_n(r, 400);
      Params p;
      p.threads = r.range(1, 4);
      p.gr = pick_gr(r, n);
      p.k = r.chance(0.3) ? std::max(1, n - r.range(-2, 2)) : r.range(2, 90);
      p.p = r.chance(0.4) ? r.range(6, 24) : r.range(25, 255);
      p.t = r.chance(0.4) ? r.range(8, 40) : r.range(41, 510);
      p.recompute = r.chance(0.25);
      if (r.chance(0.3)) { p.chunking = true; p.chunk = r.range(1, n + 3); }
      go_any(fam, gen(fam, n, r), p, w, 0, r, pick_inst(r));
    });
    // empty and single-point sets: still one summary, and it is exact
    cases(sc * 40, [&](int64_t c, Rng& r) {
      const int n = (int)(c % 2);
      Params p;
      p.k = r.range(1, 60); p.p = r.range(6, 80); p.t = r.range(8, 160); p.threads = r.range(0, 4); p.gr = r.range(1, 20);
      p.recompute = r.chance(0.3);
      if (r.chance(0.5)) { p.chunking = true; p.chunk = r.range(1, 4); }
#ifdef VT_SHIM
      if (r.chance(0.3)) { p.gpu = true; p.nd = r.range(1, 8); }
#endif
      const std::string d = describe(F_UNIFORM, (size_t)n, p, "smallest sets");
      const auto in = conv<double>(gen(F_UNIFORM, n, r));
      rep().begin(d);
      const auto a = run<int, double>(in, p);
      rep().eval(fnv(d.data(), d.size(), (uint64_t)c), true);
      rep().count("summaries of empty and single-point sets");
      if (a.threw) { rep().violation("exception", a.what); return; }
      // a lone point has no candidate at all, so nothing can prove its cell complete
      if (a.sum.copies != 1 || a.sum.sr != n || a.sum.p != 0 || a.sum.t != 0)
        rep().violation("summary-smallest", I(n) + " points, reported " + a.sum.str() + ", " + I(a.sum.copies) + " summaries");
    });
    // one candidate never proves a cell complete; and a list of all the
    // candidates is the mark of a cell abandoned for lack of vertices
    cases(sc * 8, [&](int64_t c, Rng& r) {
      const int fam = c % 2 ? F_UNIFORM : (int)r.below(F_NGENERIC);
      const int n = c % 8 < 2 ? r.range(66000, 90000) : r.range(33000, 45000);
      const bool verts = c % 2;
      Params p;
      p.k = verts ? 40 : 1; p.p = r.range(60, 200); p.t = verts ? r.range(8, 16) : r.range(16, 80); p.threads = r.range(2, 6);
      p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
      if (r.chance(0.5)) { p.chunking = true; p.chunk = r.range(n / 9 + 1, n); } else if (verts) { p.chunking = true; p.chunk = n / 4; }
      const std::string d = describe(fam, (size_t)n, p, verts ? "cells short of vertices" : "one candidate each");
      const auto in = conv<double>(gen(fam, n, r));
      rep().begin(d);
      const auto a = run<int, double>(in, p);
      rep().eval(fnv(d.data(), d.size(), hash_points(in)), true);
      rep().count("large summaries");
      if (a.threw) { rep().violation("exception", a.what); return; }
      long full = 0;
      for (auto& x : a.rows) full += (int)x.size() == p.k;
      if (!verts && (a.sum.copies != 1 || a.sum.sr != n || a.sum.p != 0 || a.sum.t != 0))
        rep().violation("summary-large", "none of " + I(n) + " cells can be complete, reported " + a.sum.str());
      if (verts && (a.sum.copies != 1 || a.sum.p != 0 || a.sum.t + a.sum.inf != full || a.sum.sr < full))
        rep().violation("summary-large", I(full) + " of " + I(n) + " cells were abandoned, reported " + a.sum.str());
    });
    // every cell of a large set fails for lack of planes: the nearest point always cuts
    cases(sc * 8, [&](int64_t c, Rng& r) {
      const int fam = (int)r.below(F_NGENERIC);
      const int n = c % 8 == 0 ? r.range(66000, 90000) : r.range(300, 40000);
      Params p;
      p.k = r.range(1, 6); p.p = 6; p.t = r.range(20, 60); p.threads = r.range(2, 6);
      p.gr = std::max(1, (int)std::lround(std::cbrt((double)n / 2)));
      if (r.chance(0.5)) { p.chunking = true; p.chunk = r.range(n / 9 + 1, n); }
      const std::string d = describe(fam, (size_t)n, p, "all cells short of planes");
      const auto in = conv<float>(gen(fam, n, r));
      rep().begin(d);
      const auto a = run<int, float>(in, p);
      rep().eval(fnv(d.data(), d.size(), hash_points(in)), true);
      rep().count("large summaries");
      if (a.threw) { rep().violation("exception", a.what); return; }
      std::set<std::array<float, 3>> u(in.begin(), in.end());
      if (u.size() != in.size()) return;  // coincident after rounding
      if (a.sum.copies != 1 || a.sum.sr != n || a.sum.p != n || a.sum.t != 0)
        rep().violation("summary-large", "all " + I(n) + " cells lack planes, reported " + a.sum.str());
    });
  } else {
    std::fprintf(stderr, "unknown mode\n");
    return 2;
  }
  rep().finish();
  return 0;
}
