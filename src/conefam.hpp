// Conic problem families: every G over a small alphabet, for a list of cone shapes.
#pragma once
#include "prob.hpp"
namespace vf {
struct Shape { int l; std::vector<idxint> q; int nex, n, p; int m() const { int t = l + 3 * nex; for (auto x : q) t += x; return t; } };
inline std::string shape_str(const Shape &s) { return fmt("n=%d p=%d l=%d q=%s nex=%d", s.n, s.p, s.l, vs(s.q).c_str(), s.nex); }
// interior points of the cone (dual=false) or its dual; which = 0..2, 0 is the most central
inline std::vector<double> interior(const Shape &S, int which, bool dual) {
  std::vector<double> v; static const double lp[3] = {1, 0.125, 8};
  for (int i = 0; i < S.l; i++) v.push_back(lp[(which + (which ? i : 0)) % 3]);
  for (auto qs : S.q) { double h = which == 0 ? 1 : which == 1 ? 2 : 0.5; v.push_back(h); for (int j = 1; j < qs; j++) v.push_back(which == 0 ? 0 : (j == 1 ? (dual ? 0.75 : -0.75) * h : (which == 2 ? 0.25 * h : 0))); }
  static const double e[3][3] = {{-1, 1, 1}, {0, 2, 1}, {-2, 0.5, 0.75}}, d[3][3] = {{-1, 1, 1}, {-0.5, 2, 0.5}, {-2, 1, 0}};
  for (int i = 0; i < S.nex; i++) for (int j = 0; j < 3; j++) v.push_back(dual ? d[which][j] : e[which][j]);
  return v;
}
inline int drank(std::vector<std::vector<double>> M) { int r = 0; if (M.empty()) return 0; int n = M[0].size(); for (int j = 0; j < n && r < (int)M.size(); j++) { int k = r; for (int i = r; i < (int)M.size(); i++) if (fabs(M[i][j]) > fabs(M[k][j])) k = i; if (fabs(M[k][j]) < 1e-9) continue; std::swap(M[k], M[r]); for (int i = r + 1; i < (int)M.size(); i++) { double f = M[i][j] / M[r][j]; for (int t = j; t < n; t++) M[i][t] -= f * M[r][t]; } r++; } return r; }
inline bool full_rank(const Prob &P) {
  std::vector<std::vector<double>> A, GA; for (long i = 0; i < P.p; i++) A.push_back(std::vector<double>(P.A.begin() + i * P.n, P.A.begin() + (i + 1) * P.n));
  GA = A; for (long i = 0; i < P.m; i++) GA.push_back(std::vector<double>(P.G.begin() + i * P.n, P.G.begin() + (i + 1) * P.n));
  return drank(A) == P.p && drank(GA) == P.n;
}
inline Prob shell(const Shape &S) { Prob P; P.n = S.n; P.m = S.m(); P.p = S.p; P.l = S.l; P.q = S.q; P.nex = S.nex; P.G.assign(P.m * P.n, 0); P.A.assign(P.p * P.n, 0); P.c.assign(P.n, 0); P.h.assign(P.m, 0); P.b.assign(P.p, 0); return P; }
// h = G x0 + s0, b = A x0, c = -(G'z0 + A'y0)
inline void set_hb(Prob &P, const std::vector<double> &x0, const std::vector<double> &s0) { for (long i = 0; i < P.m; i++) { P.h[i] = s0[i]; for (long j = 0; j < P.n; j++) P.h[i] += P.g(i, j) * x0[j]; } for (long i = 0; i < P.p; i++) { P.b[i] = 0; for (long j = 0; j < P.n; j++) P.b[i] += P.a(i, j) * x0[j]; } }
inline void set_c(Prob &P, const std::vector<double> &z0, const std::vector<double> &y0) { for (long j = 0; j < P.n; j++) { P.c[j] = 0; for (long i = 0; i < P.m; i++) P.c[j] -= P.g(i, j) * z0[i]; for (long i = 0; i < P.p; i++) P.c[j] -= P.a(i, j) * y0[i]; } }
inline std::vector<double> arow(int n, int k) { static const double t[4][3] = {{1, 1, 1}, {1, -1, 0}, {0, 1, 2}, {2, 0, 1}}; return std::vector<double>(t[k % 4], t[k % 4] + n); }
}
