// Families of tiny LPs, enumerated completely (rows as multisets: row order is varied by C13).
#pragma once
#include "prob.hpp"
#include "exactlp.hpp"
namespace vf {
struct LPFam { int n, m, p; std::vector<double> ge, he, ce, ae, be; };
// calls f(P) for every member; f is called for all cases, want() is up to it
template <class F> void each_lp(const LPFam &L, F f) {
  // rows = all (g,h)
  std::vector<std::vector<double>> rows; Odo o([&] { std::vector<int> r(L.n, (int)L.ge.size()); r.push_back(L.he.size()); return r; }());
  for (; !o.done; o.next()) { std::vector<double> r; for (int j = 0; j < L.n; j++) r.push_back(L.ge[o.d[j]]); r.push_back(L.he[o.d[L.n]]); rows.push_back(r); }
  std::vector<std::vector<double>> eqs; Odo oe([&] { std::vector<int> r(L.n, (int)L.ae.size()); r.push_back(L.be.size()); return r; }());
  if (L.p) for (; !oe.done; oe.next()) { std::vector<double> r; bool nz = false; for (int j = 0; j < L.n; j++) r.push_back(L.ae[oe.d[j]]), nz |= r.back() != 0; r.push_back(L.be[oe.d[L.n]]); if (nz) eqs.push_back(r); }
  std::vector<int> ri(L.m, 0);
  while (true) {
    std::vector<int> ei(L.p, 0);
    while (true) {
      for (Odo oc(std::vector<int>(L.n, (int)L.ce.size())); !oc.done; oc.next()) {
        auto mk = [&]() { Prob P; P.n = L.n; P.m = P.l = L.m; P.p = L.p; for (int i = 0; i < L.m; i++) { for (int j = 0; j < L.n; j++) P.G.push_back(rows[ri[i]][j]); P.h.push_back(rows[ri[i]][L.n]); } for (int i = 0; i < L.p; i++) { for (int j = 0; j < L.n; j++) P.A.push_back(eqs[ei[i]][j]); P.b.push_back(eqs[ei[i]][L.n]); } for (int j = 0; j < L.n; j++) P.c.push_back(L.ce[oc.d[j]]); return P; };
        if (!f(mk)) return;
      }
      int k = L.p - 1; while (k >= 0 && ei[k] == (int)eqs.size() - 1) k--; if (k < 0) break; int v = ei[k] + 1; for (int t = k; t < L.p; t++) ei[t] = v;
    }
    int k = L.m - 1; while (k >= 0 && ri[k] == (int)rows.size() - 1) k--; if (k < 0) break; int v = ri[k] + 1; for (int t = k; t < L.m; t++) ri[t] = v;
  }
}
inline std::vector<LPFam> lp_families(bool thorough) {
  std::vector<double> T = {0, 1, -1};
  std::vector<LPFam> F;
  F.push_back({1, 1, 0, {0, 1, -1, 2}, {1, 0, -1, 2}, {1, 0, -1}, {}, {}});
  F.push_back({1, 2, 0, {0, 1, -1, 2}, {1, 0, -1, 2}, {1, 0, -1}, {}, {}});
  F.push_back({1, 3, 0, {0, 1, -1, 2}, {1, 0, -1, 2}, {1, 0, -1}, {}, {}});
  F.push_back({2, 2, 0, {0, 1, -1, 2}, {1, 0, -1, 2}, {1, 0, -1, 3}, {}, {}});
  F.push_back({2, 3, 0, T, T, T, {}, {}});
  F.push_back({2, 4, 0, T, {1, 0, -1}, {1, 0, -1}, {}, {}});
  F.push_back({1, 2, 1, {0, 1, -1, 2}, {1, 0, -1}, {1, 0, -1}, {1, 2}, {0, 1, -1}});
  F.push_back({2, 2, 1, T, {1, 0, -1}, T, {0, 1, -1}, {0, 1, 2}});
  F.push_back({2, 3, 1, T, {1, 0}, {0, 1}, {0, 1, -1}, {0, 1}});
  F.push_back({3, 2, 2, {0, 1, -1}, {1}, {0, 1}, {0, 1}, {0, 1}});
  if (thorough) {
    F.push_back({2, 5, 0, T, {1, -1}, T, {}, {}});
    F.push_back({3, 4, 0, T, {1, 0}, {0, 1, -1}, {}, {}});
    F.push_back({2, 3, 1, {0, 1, -1, 2}, {1, 0, -1}, T, {0, 1, -1}, {0, 1, -1}});
    F.push_back({3, 3, 1, T, {1, 0}, {0, 1}, T, {1}});
    F.push_back({2, 3, 0, {0, 1, -1, 2, -2}, {1, 0, -1, 3}, {1, 0, -1, 2}, {}, {}});
  }
  return F;
}
inline LPClass classify(const Prob &P, bool margins = true) {
  FM G, A; FV c, h, b; for (long i = 0; i < P.m; i++) { FV r; for (long j = 0; j < P.n; j++) r.push_back(fr(P.g(i, j))); G.push_back(r); h.push_back(fr(P.h[i])); }
  for (long i = 0; i < P.p; i++) { FV r; for (long j = 0; j < P.n; j++) r.push_back(fr(P.a(i, j))); A.push_back(r); b.push_back(fr(P.b[i])); }
  for (double v : P.c) c.push_back(fr(v)); return classify(c, G, h, A, b, margins);
}
}
