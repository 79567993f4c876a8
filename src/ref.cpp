// Reference server for C17/C18: the library's own answer for points and
// parameters read from stdin.  Request: "k gr p t threads chunking chunk
// recompute n" and n lines of three floats; answer: "ok n" and n rows, or
// "err what".
#include "vt.hpp"
int main() {
  std::string line;
  vt::Params p;
  for (;;) {
    int n, ch, re;
    if (!(std::cin >> p.k >> p.gr >> p.p >> p.t >> p.threads >> ch >> p.chunk >> re >> n)) return 0;
    p.chunking = ch; p.recompute = re; p.suppress = true;
    std::vector<std::array<float, 3>> v((size_t)n);
    for (auto& q : v) for (auto& x : q) { std::string s; std::cin >> s; x = std::strtof(s.c_str(), nullptr); }
    auto r = vt::run<int, float>(v, p);
    if (r.threw) { std::printf("err %s\n", r.what.c_str()); std::fflush(stdout); continue; }
    std::printf("ok %zu\n", r.rows.size());
    for (auto& row : r.rows) { for (auto j : row) std::printf("%lld ", (long long)j); std::printf("\n"); }
    std::fflush(stdout);
  }
}
