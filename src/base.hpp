// Base problems shared by the checks that vary something else: the zoo, strictly feasible conic problems, and
// small problems without any regularity.  f(mk, kind): mk() builds the problem; kind 0 zoo, 1 strict, 2 arbitrary.
#pragma once
#include "zoo.hpp"
#include "conefam.hpp"
namespace vf {
template <class F> bool each_base(int level, F f) {
  for (auto &z : zoo()) for (int v = 0; v < 3; v++) if (!f([&] { return z.v[v]; }, 0)) return false;
  std::vector<Shape> ss = {{2, {}, 0, 1, 0}, {0, {3}, 0, 1, 0}, {1, {2}, 0, 2, 0}, {0, {2, 1}, 0, 1, 0}, {0, {}, 1, 1, 0}, {1, {}, 1, 1, 0}, {0, {2}, 1, 1, 0}, {1, {3}, 0, 1, 0}, {0, {2, 2}, 0, 1, 0}};
  if (level > 0) for (auto s : std::vector<Shape>{{1, {3}, 0, 2, 1}, {0, {3}, 0, 2, 0}, {0, {}, 1, 2, 0}, {3, {}, 0, 2, 0}, {1, {2}, 1, 1, 0}, {0, {}, 2, 1, 0}}) ss.push_back(s);
  if (level > 1) for (auto s : std::vector<Shape>{{0, {}, 1, 2, 1}, {0, {2, 2}, 0, 2, 0}, {0, {3, 2}, 0, 1, 1}, {0, {1}, 2, 1, 0}, {2, {3}, 0, 2, 1}}) ss.push_back(s);
  static const double ge[3] = {0, 1, -1};
  for (auto &S : ss) for (Odo o(std::vector<int>(S.m() * S.n, 3)); !o.done; o.next()) for (int pair = 0; pair < 2; pair++) {
    auto mk = [&] { Prob P = shell(S); for (size_t k = 0; k < P.G.size(); k++) P.G[k] = ge[o.d[k]]; if (S.p) { auto a = arow(S.n, pair); std::copy(a.begin(), a.end(), P.A.begin()); }
      std::vector<double> x0(S.n, 0.5); x0[0] = 1; std::vector<double> y0(S.p, 0.5); set_hb(P, x0, interior(S, pair ? 1 : 0, false)); set_c(P, interior(S, pair ? 2 : 0, true), y0); return P; };
    if (!f(mk, 1)) return false; }
  struct Arb { Shape S; std::vector<double> h; }; std::vector<Arb> as = {{{2, {}, 0, 1, 0}, {0, 1, -1}}, {{0, {2}, 0, 1, 0}, {0, 1, -1}}, {{0, {3}, 0, 1, 0}, {0, 1, -1}}, {{0, {2}, 0, 2, 0}, {1, -1, 0}}, {{0, {}, 1, 1, 0}, {0, 1, -1}}, {{2, {}, 0, 2, 0}, {0, 1, -1}}, {{1, {2}, 0, 1, 0}, {1, -1, 0}}};
  if (level > 0) for (auto s : std::vector<Arb>{{{0, {3}, 0, 2, 0}, {1, 0}}, {{1, {2}, 0, 2, 0}, {1, -1}}, {{0, {}, 1, 2, 0}, {1, 0}}, {{1, {}, 1, 1, 0}, {1, -1}}}) as.push_back(s);
  for (auto &a : as) { const Shape &S = a.S; std::vector<int> r(S.m() * S.n, 3); for (int i = 0; i < S.m(); i++) r.push_back(a.h.size()); for (int i = 0; i < S.n; i++) r.push_back(3);
    for (Odo o(r); !o.done; o.next()) { auto mk = [&] { Prob P = shell(S); int k = 0; for (auto &x : P.G) x = ge[o.d[k++]]; for (auto &x : P.h) x = a.h[o.d[k++]]; for (auto &x : P.c) x = ge[o.d[k++]]; return P; }; if (!f(mk, 2)) return false; } }
  return true;
}
}
