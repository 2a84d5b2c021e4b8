// C18: every assignment of kinds (boolean / integer / continuous) to the variables x every order of the two index lists.
#include "bb.hpp"
using namespace vf;
void vf::explore(Run &R) {
  struct Fam { int n, rows; std::vector<double> a, h, c; bool cone; };
  std::vector<Fam> F = {
    {2, 1, {1, -1, 2, -3}, {1.5, -0.5, 0.5}, {1, -1, 2}, false},
    {3, 1, {1, -1, 2}, {1.5, -0.5}, {1, -2}, false},
    {3, 2, {1, -2}, {1.5, -0.5}, {-1}, false},
    {4, 1, {1, -2}, {1.5}, {-1}, false},
    {3, 0, {}, {}, {1, -1, 2}, true}};
  if (R.thorough) { F.push_back({3, 1, {1, -1, 2}, {1.5, -0.5}, {1, -1, -2}, false}); F.push_back({3, 2, {1, -2}, {1.5, -0.5}, {-1, 2}, false}); F.push_back({4, 1, {1, -2}, {1.5}, {-1, 2}, false}); F.push_back({3, 2, {1, -1, 2}, {1.5, -0.5}, {1, -1}, false}); F.push_back({4, 1, {1, -1, 2}, {1.5, -0.5}, {1, -1}, false}); F.push_back({5, 1, {1, -2}, {1.5}, {1, -1}, false}); }
  for (auto &f : F) {
    std::vector<int> radix; for (int i = 0; i < f.rows * f.n; i++) radix.push_back(f.a.size()); for (int i = 0; i < f.rows; i++) radix.push_back(f.h.size()); for (int i = 0; i < f.n; i++) radix.push_back(f.c.size());
    std::vector<int> kr(f.n, 3);
    for (Odo o(radix); !o.done; o.next()) for (Odo k(kr); !k.done; k.next()) {
      std::vector<idxint> bl, il; for (int i = 0; i < f.n; i++) { if (k.d[i] == 0) bl.push_back(i); if (k.d[i] == 1) il.push_back(i); }
      if (!R.want()) { if (R.stopped) return; continue; }
      BProb B; Prob &P = B.P; P.n = f.n; size_t q = 0;
      for (int r = 0; r < f.rows; r++) for (int j = 0; j < f.n; j++) P.G.push_back(f.a[o.d[q++]]);
      for (int r = 0; r < f.rows; r++) P.h.push_back(f.h[o.d[q++]]);
      for (int j = 0; j < f.n; j++) P.c.push_back(f.c[o.d[q++]]);
      for (int j = 0; j < f.n; j++) for (int s = 1; s >= -1; s -= 2) { std::vector<double> g(f.n, 0); g[j] = s; P.G.insert(P.G.end(), g.begin(), g.end()); P.h.push_back(s > 0 ? 2.25 - 0.5 * j : 1.5 - 0.25 * j); }
      P.l = P.h.size(); if (f.cone) { P.q = {f.n + 1}; std::vector<double> g(f.n, 0); P.G.insert(P.G.end(), g.begin(), g.end()); P.h.push_back(1.75); for (int j = 0; j < f.n; j++) { auto u = g; u[j] = -1; P.G.insert(P.G.end(), u.begin(), u.end()); P.h.push_back(-0.25 * j); } }
      P.m = P.h.size();
      B.bl = bl; B.il = il; for (auto v : il) B.lo.push_back(-3), B.hi.push_back(3);
      BRef r = brute(B);
      do { do { B.bl = bl; B.il = il;
        BSol S = bsolve(B); R.evals++; R.alive(); std::string e = bjudge(B, r, S);
        if (e.empty() && S.code >= 10) R.soft("search given up", B.str());
        if (e.empty() && !env::heap_error.empty()) e = env::heap_error;
        R.outcome(bbname(S.code));
        bool sorted = std::is_sorted(bl.begin(), bl.end()) && std::is_sorted(il.begin(), il.end()) && (bl.empty() || il.empty() || bl.back() < il.front()); if (!sorted) R.nontriv(B.hash());
        if (!e.empty()) { R.fail(e + "  " + B.str()); if (R.stopped) return; }
      } while (std::next_permutation(il.begin(), il.end())); } while (std::next_permutation(bl.begin(), bl.end()));
      R.sample(B.str());
    }
  }
}
