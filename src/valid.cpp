// C28: a call complains on standard error exactly about sets with a coordinate that is
// not strictly inside the unit cube; the validation routines decide exactly.
#include "vt.hpp"
using namespace vt;
static std::string I(long long x) { return std::to_string(x); }

template <class Tf> Tf bad_value(Rng& r, int& kind) {
  kind = (int)r.below(12);
  const Tf eps = std::numeric_limits<Tf>::epsilon();
  switch (kind) {
    case 0: return Tf(0);
    case 1: return Tf(1);
    case 2: return -std::numeric_limits<Tf>::denorm_min();
    case 3: return Tf(1) + eps;
    case 4: return Tf(-r.uni() * 3 - 1e-3);
    case 5: return Tf(1 + r.uni() * 3 + 1e-3);
    case 6: return std::numeric_limits<Tf>::quiet_NaN();
    case 7: return std::numeric_limits<Tf>::infinity();
    case 8: return -std::numeric_limits<Tf>::infinity();
    case 9: return std::numeric_limits<Tf>::max();
    case 10: return -Tf(0);
    default: return -std::numeric_limits<Tf>::min() * 3;
  }
}
template <class Tf> Tf edge_value(Rng& r) {  // still strictly inside
  switch (r.below(5)) {
    case 0: return std::numeric_limits<Tf>::denorm_min();
    case 1: return std::nextafter(Tf(1), Tf(0));
    case 2: return std::numeric_limits<Tf>::min();
    case 3: return std::numeric_limits<Tf>::epsilon();
    default: return Tf(1) - std::numeric_limits<Tf>::epsilon() * 2;
  }
}
template <class Ti, class Tf> void call_case(int64_t, Rng& r) {
  const bool deg = r.chance(0.25);
  const int fam = deg ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  const bool large = r.chance(0.01);
  const int n = large ? r.range(33000, 70000) : r.chance(0.15) ? r.range(0, 5) : r.chance(0.1) ? r.range(200, 1200) : r.range(6, 120);
  auto v = conv<Tf>(gen(fam, n, r));
  Params p;
  p.threads = r.range(1, 4);
  p.k = large ? r.range(2, 6) : r.range(1, 24);
  p.gr = large ? r.range(16, 40) : r.range(1, 9);
  p.p = r.range(6, 40); p.t = r.range(8, 80);
  p.recompute = !deg && !large && r.chance(0.15);
  p.suppress = r.chance(0.5);
  if (r.chance(0.2)) { p.chunking = true; p.chunk = r.range(1, n + 2); if (n > 100) p.chunk = std::max(p.chunk, n / 8); }
  if (n && r.chance(0.3)) v[r.below(n)][r.below(3)] = edge_value<Tf>(r);
  int kind = -1, where = -1, axis = -1;
  bool inside = true;
  if (n && r.chance(0.6)) {
    const int how = (int)r.below(4);
    where = how == 0 ? 0 : how == 1 ? n - 1 : (int)r.below(n);
    axis = (int)r.below(3);
    v[where][axis] = bad_value<Tf>(r, kind);
    if (r.chance(0.1)) { int q; v[r.below(n)][r.below(3)] = bad_value<Tf>(r, q); }
    p.recompute = false;
  }
  for (auto& a : v) for (auto c : a) inside = inside && c > Tf(0) && c < Tf(1);
  const std::string d = std::string("call ") + family_name(fam) + " n=" + I(n) + " " + p.str() + (sizeof(Tf) == 8 ? " double" : " float") + (kind >= 0 ? " bad value " + I(kind) + " at " + I(where) + "," + I(axis) : "");
  rep().begin(d);
  const bool said = xyzset::validate_xyzset<Tf>(v);
  if (said != inside) rep().violation(inside ? "valid-refused" : "invalid-accepted", "validate_xyzset says " + I(said));
  const auto u = run<Ti, Tf>(v, p);
  rep().eval(fnv(d.data(), d.size()), n > 1);
  rep().count(inside ? "valid sets" : "sets with a coordinate outside");
  if (u.threw) { rep().count("calls refused"); return; }
  if (inside && !u.err.empty()) rep().violation("false-complaint", "a valid set caused: " + u.err.substr(0, 80));
  if (!inside && u.err.empty()) rep().violation("no-complaint", "nothing on standard error");
  rep().sample(d + " -> " + (u.err.empty() ? std::string("silent") : "\"" + u.err.substr(0, 20) + "\""));
}
// numbers of a real sort, then one of them changed
template <class Ti, class Tf> void sort_case(int64_t, Rng& r) {
  const int gr = sizeof(Ti) == 2 ? r.range(1, 20) : r.chance(0.1) ? r.range(60, 150) : r.range(1, 24);
  const bool large = sizeof(Ti) > 2 && r.chance(0.02);
  const int n = large ? r.range(33000, 70000) : r.chance(0.1) ? r.range(0, 3) : r.range(4, 300);
  const int fam = r.chance(0.3) ? F_LATTICE + (int)r.below(F_NDEGEN - F_LATTICE) : (int)r.below(F_NGENERIC);
  auto v = conv<Tf>(gen(fam, n, r));
  const std::string d = std::string("sort ") + family_name(fam) + " n=" + I(n) + " gr=" + I(gr) + " Ti=" + I(8 * sizeof(Ti)) + (sizeof(Tf) == 8 ? " double" : " float");
  rep().begin(d);
  const auto so = xyzset::sort<Ti, Tf>(v, args::xyzset(gr));
  auto id = so.first;
  rep().eval(fnv(d.data(), d.size()) ^ r.next(), n > 1);
  if (!xyzset::validate_id<Ti>(id)) rep().violation("id-refused", "numbers in ascending order refused");
  if (!xyzset::validate_sort<Ti, Tf>(v, id, (Ti)gr)) rep().violation("sort-refused", "a correct sort refused");
  if (!xyzset::validate_offset<Ti>(so.second)) rep().violation("offset-refused", "correct ranges refused");
  if (n == 0) return;
  const int top = gr * gr * gr;
  for (int t = 0; t < 6; t++) {
    auto w = id;
    const int at = t == 0 ? 0 : t == 1 ? n - 1 : (int)r.below(n);
    const Ti was = w[at];
    w[at] = r.chance(0.5) ? (Ti)(was + (r.chance(0.5) ? 1 : -1)) : (Ti)r.below(top);
    bool asc = true;
    for (int i = 1; i < n; i++) asc = asc && w[i] >= w[i - 1];
    rep().count(asc ? "ascending numbers" : "descending numbers");
    if (xyzset::validate_id<Ti>(w) != asc) rep().violation("id-wrong", "number " + I(at) + " changed from " + I(was) + " to " + I(w[at]) + ": validate_id says " + I(!asc));
    if (xyzset::validate_sort<Ti, Tf>(v, w, (Ti)gr) != (w[at] == was)) rep().violation("sort-wrong", "number " + I(at) + " changed from " + I(was) + " to " + I(w[at]) + ": validate_sort says " + I(w[at] != was));
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  const int sc = opt().scale;
  cases(4000 * sc, [](int64_t c, Rng& r) { switch (c % 3) { case 0: call_case<int32_t, float>(c, r); break; case 1: call_case<int32_t, double>(c, r); break; default: call_case<int64_t, float>(c, r); } });
  cases(6000 * sc, [](int64_t c, Rng& r) { switch (c % 4) { case 0: sort_case<int32_t, float>(c, r); break; case 1: sort_case<int32_t, double>(c, r); break; case 2: sort_case<int64_t, double>(c, r); break; default: sort_case<int16_t, float>(c, r); } });
  rep().finish();
  return 0;
}
