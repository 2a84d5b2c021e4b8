// MODE 1: C04 strictly feasible primal and dual (second-order cones)  -> must be solved
// MODE 2: C05 the same with exponential cones
// MODE 3: C28 strongly infeasible / unbounded conic problems           -> must be recognised
#include "conefam.hpp"
using namespace vf;
#ifndef MODE
#define MODE 1
#endif
static std::vector<Shape> shapes(bool th) {
  std::vector<Shape> v;
#if MODE == 1
  v = {{0, {1}, 0, 1, 0}, {0, {2}, 0, 1, 0}, {0, {3}, 0, 1, 0}, {0, {3}, 0, 2, 0}, {1, {3}, 0, 1, 0}, {2, {2}, 0, 2, 0}, {1, {3}, 0, 2, 0}, {0, {2, 2}, 0, 2, 0}, {0, {4}, 0, 2, 0}, {0, {3}, 0, 2, 1}, {1, {3}, 0, 2, 1}, {0, {3}, 0, 3, 1}, {0, {1, 3}, 0, 2, 0}, {0, {3, 2}, 0, 1, 0}, {2, {3, 2}, 0, 1, 1}, {0, {5}, 0, 1, 0}};
  if (th) for (auto s : std::vector<Shape>{{0, {3, 2}, 0, 2, 0}, {0, {5}, 0, 2, 0}, {2, {3}, 0, 2, 1}, {0, {2, 1, 2}, 0, 2, 1}, {0, {4}, 0, 3, 1}, {0, {3, 3}, 0, 1, 0}}) v.push_back(s);
#elif MODE == 2
  v = {{0, {}, 1, 1, 0}, {0, {}, 1, 2, 0}, {1, {}, 1, 1, 0}, {1, {}, 1, 2, 0}, {0, {2}, 1, 1, 0}, {1, {3}, 1, 1, 0}, {0, {}, 2, 1, 0}, {0, {}, 1, 2, 1}, {0, {}, 1, 3, 1}};
  if (th) for (auto s : std::vector<Shape>{{1, {}, 1, 2, 1}, {0, {2}, 1, 2, 0}, {1, {}, 2, 1, 0}, {0, {3}, 1, 1, 1}, {0, {}, 1, 3, 0}}) v.push_back(s);
#else
  v = {{1, {2}, 0, 1, 0}, {1, {3}, 0, 1, 0}, {1, {2}, 0, 2, 0}, {1, {3}, 0, 2, 0}, {1, {2, 2}, 0, 1, 0}, {1, {3}, 0, 2, 1}, {1, {}, 1, 1, 0}, {1, {}, 1, 2, 0}, {1, {2}, 1, 1, 0}, {1, {}, 2, 1, 0}};
  if (th) for (auto s : std::vector<Shape>{{1, {2, 2}, 0, 2, 0}, {1, {4}, 0, 2, 0}, {2, {3}, 0, 2, 1}, {2, {}, 1, 2, 0}, {1, {}, 1, 2, 1}, {1, {3}, 1, 1, 0}}) v.push_back(s);
#endif
  return v;
}
static void run(Run &R, const Shape &S, const Prob &P, int expect, const char *what) {
  Sol s = solve_fresh(P); R.evals++; R.outcome(std::string(what) + (S.nex ? " exp" : " soc") + " -> " + codename(s.code));
  if (s.info.iter > 1) R.nontriv(P.hash());
  R.sample(std::string(what) + " -> " + codename(s.code) + " it " + std::to_string(s.info.iter) + ": " + P.str());
  std::string e = check_claim(P, s); if (!e.empty()) { R.fail(e + "  " + P.str()); return; }
  if (s.code == expect) return;
  bool soft = s.code == expect + 10 || s.code == -1 || s.code == -2;   // an honest, weaker answer
  if (!soft) R.fail(fmt("%s but exit code %s  ", what, codename(s.code)) + P.str());
  else R.soft("not solved to full accuracy", fmt("%s but exit code %s  ", what, codename(s.code)) + P.str());
}
void vf::explore(Run &R) {
  for (auto &S : shapes(R.thorough)) {
    int m = S.m(), free_rows = MODE == 3 ? m - 1 : m, na = S.p ? 4 : 1;
    bool big = pow(3, free_rows * S.n) > 20000;
    for (Odo o(std::vector<int>(free_rows * S.n, 3)); !o.done; o.next()) for (int ak = 0; ak < na; ak++)
#if MODE != 3
      for (int si = 0; si < 3; si++) for (int zi = 0; zi < 3; zi++) {
        if (big && !R.thorough && si + zi > 1) continue;
        if (!R.want()) { if (R.stopped) return; continue; }
        static const double ge[3] = {0, 1, -1};
        Prob P = shell(S); for (int k = 0; k < free_rows * S.n; k++) P.G[k] = ge[o.d[k]];
        if (S.p) { auto a = arow(S.n, ak); std::copy(a.begin(), a.end(), P.A.begin()); }
        if (!full_rank(P)) { R.notes["skipped: rank deficient"]++; continue; }
        std::vector<double> x0(S.n, 0); x0[0] = 1; if (S.n > 1) x0[1] = -0.5; if (S.n > 2) x0[2] = 2; std::vector<double> y0(S.p, 0.5);
        set_hb(P, x0, interior(S, si, false)); set_c(P, interior(S, zi, true), y0);
        run(R, S, P, 0, "strictly feasible pair");
      }
#else
      for (int kind = 0; kind < 2; kind++) for (int zi = 0; zi < 2; zi++) for (int si = 0; si < 2; si++) {
        if (big && !R.thorough && si) continue;
        if (!R.want()) { if (R.stopped) return; continue; }
        static const double ge[3] = {0, 1, -1};
        Prob P = shell(S); for (int k = 0; k < free_rows * S.n; k++) P.G[S.n + k] = ge[o.d[k]];
        if (S.p) { auto a = arow(S.n, ak); std::copy(a.begin(), a.end(), P.A.begin()); }
        std::vector<double> z0 = interior(S, zi, true), y0(S.p, 0.5), x1(S.n, 0); x1[0] = 1; if (S.n > 1) x1[1] = -0.5;
        if (kind == 0) { // row 0 makes G'z0 + A'y0 = 0;  h'z0 + b'y0 = -1
          for (int j = 0; j < S.n; j++) { double t = 0; for (int i = 1; i < m; i++) t += P.g(i, j) * z0[i]; for (int i = 0; i < S.p; i++) t += P.a(i, j) * y0[i]; P.G[j] = -t / z0[0]; }
          if (!full_rank(P)) { R.notes["skipped: rank deficient"]++; continue; }
          std::vector<double> s1 = interior(S, si, false); set_hb(P, x1, s1); double t = 0; for (int i = 0; i < m; i++) t += P.h[i] * z0[i]; for (int i = 0; i < S.p; i++) t += P.b[i] * y0[i]; P.h[0] -= (t + 1) / z0[0];
          set_c(P, interior(S, 1 - zi, true), std::vector<double>(S.p, -1));
          run(R, S, P, 1, "strongly infeasible, dual strictly feasible");
        } else { // last column makes -G x0 = s0 in the interior, A x0 = 0, c'x0 = -1
          std::vector<double> s0 = interior(S, zi, false), x0(S.n, 1); int J = S.n - 1;
          for (int j = 0; j < S.n; j++) P.G[j] = j == 0 && S.n > 1 ? 1 : 0;
          for (int i = 0; i < m; i++) { double t = -s0[i]; for (int j = 0; j < J; j++) t -= P.g(i, j); P.G[i * S.n + J] = t; }
          for (int i = 0; i < S.p; i++) { double t = 0; for (int j = 0; j < J; j++) t -= P.a(i, j); P.A[i * S.n + J] = t; }
          if (!full_rank(P)) { R.notes["skipped: rank deficient"]++; continue; }
          set_hb(P, x1, interior(S, si, false)); for (int j = 0; j < J; j++) P.c[j] = j % 2 ? -1 : 1; P.c[J] = -1; for (int j = 0; j < J; j++) P.c[J] -= P.c[j];
          run(R, S, P, 2, "strongly unbounded, primal strictly feasible");
        }
      }
#endif
  }
}
