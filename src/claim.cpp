// Every member of data families without any regularity: degenerate, redundant, rank deficient, infeasible ...
// MODE 1: C01 answers OPTIMAL / OPTIMAL_INACC.   MODE 2: C03 answers PINF / DINF (and INACC).
#include "conefam.hpp"
using namespace vf;
#ifndef MODE
#define MODE 1
#endif
typedef std::vector<double> V;
struct Fam { Shape S; V g, h, c, a, b; };
static std::vector<Fam> fams(bool th) {
  V T{0, 1, -1}, Z{0, 1}, D{0, 1, -1, 3}, N{};
  std::vector<Fam> F = {
    {{0, {1}, 0, 1, 0}, D, D, D, N, N}, {{0, {2}, 0, 1, 0}, D, D, D, N, N}, {{0, {3}, 0, 1, 0}, D, D, T, N, N}, {{1, {2}, 0, 1, 0}, D, D, T, N, N},
    {{0, {2}, 0, 2, 0}, D, D, T, N, N}, {{0, {3}, 0, 2, 0}, T, T, T, N, N}, {{1, {2}, 0, 2, 0}, T, T, T, N, N}, {{0, {2, 1}, 0, 1, 0}, T, D, T, N, N}, {{0, {4}, 0, 1, 0}, T, T, T, N, N}, {{1, {3}, 0, 1, 0}, T, T, T, N, N}, {{0, {2, 2}, 0, 1, 0}, T, T, T, N, N}, {{2, {2}, 0, 1, 0}, T, T, T, N, N},
    {{0, {2}, 0, 2, 1}, T, T, T, T, {0, 1}}, {{0, {3}, 0, 1, 1}, T, T, T, {1, 2}, T}, {{0, {3}, 0, 2, 1}, T, {0, 1}, Z, {1, -1, 0}, {1}},
    {{0, {}, 1, 1, 0}, D, D, T, N, N}, {{0, {}, 1, 2, 0}, T, T, T, N, N}, {{1, {}, 1, 1, 0}, T, T, T, N, N}, {{0, {1}, 1, 1, 0}, T, T, T, N, N}, {{0, {}, 1, 1, 1}, T, D, T, {1, 2}, T}, {{0, {}, 1, 2, 1}, T, Z, Z, T, {0, 1}},
    {{0, {2}, 1, 1, 0}, T, Z, T, N, N}, {{0, {}, 2, 1, 0}, T, Z, T, N, N},
    {{0, {}, 0, 2, 1}, N, N, T, T, T}, {{0, {}, 0, 2, 2}, N, N, T, T, T}, {{2, {}, 0, 1, 1}, T, D, T, T, T}};
  if (th) for (auto f : std::vector<Fam>{{{0, {3}, 0, 2, 1}, T, T, T, {1, -1, 0}, {0, 1}}, {{1, {3}, 0, 2, 0}, T, {0, 1}, T, N, N}, {{0, {2, 2}, 0, 2, 0}, T, {0, 1}, Z, N, N}, {{0, {4}, 0, 2, 0}, T, {0, 1}, Z, N, N}, {{0, {}, 1, 2, 1}, T, T, T, T, {0, 1}}, {{1, {}, 1, 2, 0}, T, {0, 1}, T, N, N}, {{1, {3}, 0, 1, 0}, D, D, T, N, N}, {{0, {3}, 0, 2, 0}, D, T, T, N, N}, {{0, {}, 1, 2, 0}, D, T, T, N, N}}) F.push_back(f);
  return F;
}
void vf::explore(Run &R) {
  for (auto &f : fams(R.thorough)) {
    const Shape &S = f.S; int m = S.m();
    std::vector<int> rad; auto add = [&](int k, const V &v) { for (int i = 0; i < k; i++) rad.push_back(v.size()); };
    add(m * S.n, f.g); add(m, f.h); add(S.n, f.c); add(S.p * S.n, f.a); add(S.p, f.b);
    for (Odo o(rad); !o.done; o.next()) {
      if (!R.want()) { if (R.stopped) return; continue; }
      Prob P = shell(S); int k = 0; for (auto &x : P.G) x = f.g[o.d[k++]]; for (auto &x : P.h) x = f.h[o.d[k++]]; for (auto &x : P.c) x = f.c[o.d[k++]]; for (auto &x : P.A) x = f.a[o.d[k++]]; for (auto &x : P.b) x = f.b[o.d[k++]];
      Sol s = solve_fresh(P); R.evals++; std::string cls = S.nex ? "exp " : S.q.size() ? "soc " : "lp "; R.outcome(cls + codename(s.code));
      bool mine = s.code == 0 || s.code == 10; if (MODE == 2) mine = s.code > 0 && s.code != 10;
      if (!mine) { if (s.code < 0 && s.code > -4) R.notes["honest no-answer"]++; std::string e = s.code > -8 && s.code <= 12 && std::string(codename(s.code)) != "?" && s.code != -7 ? "" : fmt("unexpected exit code %ld", s.code); if (!e.empty()) { R.fail(e + "  " + P.str()); return; } continue; }
      if (s.info.iter > 0) R.nontriv(P.hash());
      R.sample(std::string(codename(s.code)) + " it " + std::to_string((long)s.info.iter) + ": " + P.str());
      std::string e = check_claim(P, s); if (!e.empty()) { R.fail(e + "  " + P.str()); return; }
    }
  }
}
