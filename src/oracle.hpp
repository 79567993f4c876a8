// Reference model: Voronoi cells by brute-force half-space clipping in double
// precision, relative to the generator, and the abstract course of the
// computation (which candidates cut, how many planes and vertices, when the
// candidates prove the cell complete).  Independent of the code under test.
#pragma once
#include "vt.hpp"

namespace oracle {
using vt::P3;

inline double dot(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

struct Cell {
  struct Face { int gen; std::vector<P3> v; };
  std::vector<Face> faces;

  // the unit cube seen from p; walls have generators -1..-6
  static Cell cube(const P3& p) {
    Cell c;
    P3 lo, hi;
    for (size_t a = 0; a < 3; a++) { lo[a] = -p[a]; hi[a] = 1 - p[a]; }
    for (size_t a = 0; a < 3; a++)
      for (int side = 0; side < 2; side++) {
        const size_t b = (a + 1) % 3, d = (a + 2) % 3;
        Face f;
        f.gen = -1 - static_cast<int>(2 * a) - side;
        const double w = side ? hi[a] : lo[a];
        const double q[4][2] = {{lo[b], lo[d]}, {hi[b], lo[d]}, {hi[b], hi[d]}, {lo[b], hi[d]}};
        for (int i = 0; i < 4; i++) {
          P3 x;
          x[a] = w;
          x[b] = q[side ? i : 3 - i][0];
          x[d] = q[side ? i : 3 - i][1];
          f.v.push_back(x);
        }
        c.faces.push_back(std::move(f));
      }
    return c;
  }
  size_t nvertices() const { size_t s = 0; for (auto& f : faces) s += f.v.size(); return s / 3; }
  double r2() const { double m = 0; for (auto& f : faces) for (auto& x : f.v) m = std::max(m, dot(x, x)); return m; }
  // largest signed distance of a vertex beyond the plane n.x = off
  double beyond(const P3& n, double off) const {
    double m = -1e300;
    for (auto& f : faces) for (auto& x : f.v) m = std::max(m, dot(n, x) - off);
    return m;
  }
  double nearest(const P3& n, double off) const {
    double m = 1e300;
    for (auto& f : faces) for (auto& x : f.v) m = std::min(m, std::fabs(dot(n, x) - off));
    return m;
  }
  void clip(const P3& n, double off, int gen) {
    std::vector<std::pair<P3, P3>> segs;
    std::vector<Face> out;
    std::vector<double> s;
    for (auto& f : faces) {
      const size_t m = f.v.size();
      s.resize(m);
      bool any_in = false, any_out = false;
      for (size_t i = 0; i < m; i++) { s[i] = dot(n, f.v[i]) - off; (s[i] > 0 ? any_out : any_in) = true; }
      if (!any_out) { out.push_back(std::move(f)); continue; }
      if (!any_in) continue;
      Face g;
      g.gen = f.gen;
      P3 enter{}, leave{};
      bool he = false, hl = false;
      for (size_t i = 0; i < m; i++) {
        const size_t j = (i + 1) % m;
        const bool in_i = !(s[i] > 0), in_j = !(s[j] > 0);
        if (in_i) g.v.push_back(f.v[i]);
        if (in_i != in_j) {
          const double t = s[i] / (s[i] - s[j]);
          P3 x;
          for (size_t a = 0; a < 3; a++) x[a] = f.v[i][a] + t * (f.v[j][a] - f.v[i][a]);
          g.v.push_back(x);
          if (in_i) { leave = x; hl = true; } else { enter = x; he = true; }
        }
      }
      if (he && hl) segs.emplace_back(enter, leave);  // cap edge, reversed orientation
      if (g.v.size() >= 3) out.push_back(std::move(g));
    }
    faces.swap(out);
    if (segs.size() >= 3) {
      Face cap;
      cap.gen = gen;
      std::vector<char> used(segs.size(), 0);
      size_t cur = 0;
      for (size_t c = 0; c < segs.size(); c++) {
        used[cur] = 1;
        cap.v.push_back(segs[cur].first);
        const P3 e = segs[cur].second;
        double best = 1e300;
        size_t bi = cur;
        for (size_t j = 0; j < segs.size(); j++) {
          if (used[j]) continue;
          P3 d;
          for (size_t a = 0; a < 3; a++) d[a] = segs[j].first[a] - e[a];
          const double q = dot(d, d);
          if (q < best) { best = q; bi = j; }
        }
        cur = bi;
      }
      // segments run enter -> leave along each old face; the cap's own
      // orientation does not matter here
      faces.push_back(std::move(cap));
    }
  }
};

struct Neighbor { double d2; int id; };

template <class Tf> P3 d3(const std::array<Tf, 3>& p) { return {static_cast<double>(p[0]), static_cast<double>(p[1]), static_cast<double>(p[2])}; }

template <class Tf> class Diagram {
 public:
  explicit Diagram(const std::vector<std::array<Tf, 3>>& pts) { for (auto& p : pts) p_.push_back(d3(p)); }
  size_t size() const { return p_.size(); }
  const P3& at(size_t i) const { return p_[i]; }
  // other points by ascending distance, at least the first m of them in order
  std::vector<Neighbor> order(int i, size_t m) const {
    std::vector<Neighbor> v;
    v.reserve(p_.size());
    for (size_t j = 0; j < p_.size(); j++) {
      if (static_cast<int>(j) == i) continue;
      P3 d;
      for (size_t a = 0; a < 3; a++) d[a] = p_[j][a] - p_[static_cast<size_t>(i)][a];
      v.push_back({dot(d, d), static_cast<int>(j)});
    }
    m = std::min(m, v.size());
    std::partial_sort(v.begin(), v.begin() + static_cast<std::ptrdiff_t>(m), v.end(),
                      [](const Neighbor& a, const Neighbor& b) { return a.d2 < b.d2 || (a.d2 == b.d2 && a.id < b.id); });
    return v;
  }
  P3 normal(int i, const Neighbor& q) const {
    const double d = std::sqrt(q.d2);
    P3 n;
    for (size_t a = 0; a < 3; a++) n[a] = (p_[static_cast<size_t>(q.id)][a] - p_[static_cast<size_t>(i)][a]) / d;
    return n;
  }

  struct Model {
    std::vector<int> row;          // neighbours of the cell cut by the first k candidates, by distance
    std::vector<Neighbor> cand;    // the k candidates
    bool reached = false, p_over = false, t_over = false;
    double margin = 1e300;         // smallest |vertex to bisector| / cell radius of any decision taken
    double reach_margin = 1e300;   // smallest relative margin of the stop test
    double order_margin = 1e300;   // smallest relative gap between consecutive candidates
    bool tie_at_k = false;         // the k-th and (k+1)-th candidates are not separated
    int cuts = 0, steps = 0;
    size_t vmax = 8;
    double r2 = 0;
    Cell cell;
    bool abandoned() const { return p_over || t_over; }
  };
  Model model(int i, int k, int pmax, int tmax, double tie_tol = sizeof(Tf) == 8 ? 1e-9 : 2e-6) const {
    Model m;
    const size_t want = static_cast<size_t>(std::max(k, 0));
    auto ord = order(i, want + 1);
    const size_t kk = std::min(want, ord.size());
    if (kk < ord.size() && kk > 0)
      m.tie_at_k = ord[kk].d2 - ord[kk - 1].d2 <= tie_tol * ord[kk].d2;
    m.cand.assign(ord.begin(), ord.begin() + static_cast<std::ptrdiff_t>(kk));
    m.cell = Cell::cube(p_[static_cast<size_t>(i)]);
    const int plim = std::min(pmax, 255);
    for (size_t s = 0; s < kk; s++) {
      const Neighbor& q = ord[s];
      m.steps++;
      if (s) m.order_margin = std::min(m.order_margin, (q.d2 - ord[s - 1].d2) / (q.d2 + 1e-300));
      const double r2 = m.cell.r2();
      if (q.d2 > 0) {
        const P3 n = normal(i, q);
        const double off = std::sqrt(q.d2) / 2, sc = std::sqrt(r2);
        const double b = m.cell.beyond(n, off);
        m.margin = std::min(m.margin, m.cell.nearest(n, off) / sc);
        if (b > 0) {
          if (6 + m.cuts >= plim) { m.p_over = true; return m; }
          m.cuts++;
          m.cell.clip(n, off, q.id);
          const size_t v = m.cell.nvertices();
          m.vmax = std::max(m.vmax, v);
          if (v > static_cast<size_t>(tmax)) { m.t_over = true; return m; }
        }
      }
      m.reach_margin = std::min(m.reach_margin, std::fabs(q.d2 / (4 * r2) - 1));
      if (q.d2 > 4 * r2) { m.reached = true; break; }
    }
    m.r2 = m.cell.r2();
    std::unordered_set<int> have;
    for (auto& f : m.cell.faces) if (f.gen >= 0) have.insert(f.gen);
    for (auto& q : m.cand) if (have.count(q.id)) m.row.push_back(q.id);
    return m;
  }
  // How deep the bisector of j cuts into the cell of i made of the other
  // candidates, relative to the distance of j: > 0 neighbour, < 0 not.
  double depth(int i, int j, const Model& m) const {
    Neighbor q{0, j};
    P3 d;
    for (size_t a = 0; a < 3; a++) d[a] = p_[static_cast<size_t>(j)][a] - p_[static_cast<size_t>(i)][a];
    q.d2 = dot(d, d);
    if (q.d2 == 0) return -1e300;
    Cell c = Cell::cube(p_[static_cast<size_t>(i)]);
    for (auto& o : m.cand) {
      if (o.id == j || o.d2 == 0) continue;
      const P3 n = normal(i, o);
      const double off = std::sqrt(o.d2) / 2;
      if (c.beyond(n, off) > 0) c.clip(n, off, o.id);
      if (o.d2 > 4 * c.r2()) break;
    }
    return c.beyond(normal(i, q), std::sqrt(q.d2) / 2) / std::sqrt(q.d2);
  }
 private:
  std::vector<P3> p_;
};

}  // namespace oracle
