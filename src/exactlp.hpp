// Exact reference for tiny LPs: rational two-phase simplex with Bland's rule.
#pragma once
#include <vector>
#include <cstdlib>
namespace vf {
typedef __int128 i128;
struct Fr { long long n = 0, d = 1;
  static long long g(long long a, long long b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { long long t = a % b; a = b; b = t; } return a ? a : 1; }
  static Fr mk(i128 n, i128 d) { if (d < 0) n = -n, d = -d; i128 a = n < 0 ? -n : n, b = d; while (b) { i128 t = a % b; a = b; b = t; } if (a) n /= a, d /= a; if (n > (i128)4e18 || n < -(i128)4e18 || d > (i128)4e18) abort(); Fr r; r.n = (long long)n; r.d = (long long)d; return r; }
  Fr(long long v = 0) : n(v), d(1) {}
  Fr operator+(Fr o) const { return mk((i128)n * o.d + (i128)o.n * d, (i128)d * o.d); }
  Fr operator-(Fr o) const { return mk((i128)n * o.d - (i128)o.n * d, (i128)d * o.d); }
  Fr operator*(Fr o) const { return mk((i128)n * o.n, (i128)d * o.d); }
  Fr operator/(Fr o) const { return mk((i128)n * o.d, (i128)d * o.n); }
  bool operator<(Fr o) const { return (i128)n * o.d < (i128)o.n * d; }
  bool operator==(Fr o) const { return n == o.n && d == o.d; }
  double val() const { return (double)n / (double)d; }
};
// doubles with few binary digits convert exactly
inline Fr fr(double v) { long long d = 1; while (v != (double)(long long)v && d < (1ll << 30)) v *= 2, d *= 2; if (v != (double)(long long)v) abort(); return Fr::mk((long long)v, d); }
typedef std::vector<Fr> FV; typedef std::vector<FV> FM;
struct LPRes { int status = 0; Fr val; FV x; };   // 0 optimal, 1 infeasible, 2 unbounded
// min c'x  s.t. G x <= h, A x = b, x free
inline LPRes exact_lp(const FV &c, const FM &G, const FV &h, const FM &A, const FV &b) {
  int n = c.size(), m = G.size(), p = A.size(), R = m + p, V = 2 * n + m, C = V + R;   // columns: x+ x- s art
  FM T(R, FV(C + 1)); std::vector<int> B(R);
  for (int i = 0; i < R; i++) {
    for (int j = 0; j < n; j++) { Fr v = i < m ? G[i][j] : A[i - m][j]; T[i][j] = v; T[i][n + j] = Fr(0) - v; }
    if (i < m) T[i][2 * n + i] = 1;
    T[i][C] = i < m ? h[i] : b[i - m];
    if (T[i][C] < Fr(0)) for (int j = 0; j <= C; j++) T[i][j] = Fr(0) - T[i][j];
    T[i][V + i] = 1; B[i] = V + i;
    if (i < m && T[i][2 * n + i] == Fr(1)) B[i] = 2 * n + i;
  }
  auto pivot = [&](int r, int k) { Fr d = T[r][k]; for (auto &v : T[r]) v = v / d; for (int i = 0; i < R; i++) if (i != r && T[i][k].n) { Fr f = T[i][k]; for (int j = 0; j <= C; j++) if (T[r][j].n) T[i][j] = T[i][j] - f * T[r][j]; } B[r] = k; };
  auto run = [&](const FV &cost, int ncol) -> int {
    while (true) {
      int k = -1; for (int j = 0; j < ncol && k < 0; j++) { Fr z = cost[j]; for (int i = 0; i < R; i++) if (cost[B[i]].n && T[i][j].n) z = z - cost[B[i]] * T[i][j]; if (z < Fr(0)) k = j; }
      if (k < 0) return 0;
      int r = -1; Fr best; for (int i = 0; i < R; i++) if (Fr(0) < T[i][k]) { Fr q = T[i][C] / T[i][k]; if (r < 0 || q < best || (q == best && B[i] < B[r])) r = i, best = q; }
      if (r < 0) return 2;
      pivot(r, k);
    }
  };
  FV c1(C), c2(C); for (int i = 0; i < R; i++) c1[V + i] = 1; for (int j = 0; j < n; j++) c2[j] = c[j], c2[n + j] = Fr(0) - c[j];
  LPRes res; run(c1, C);
  Fr inf; for (int i = 0; i < R; i++) if (B[i] >= V) inf = inf + T[i][C];
  if (!(inf == Fr(0))) { res.status = 1; return res; }
  for (int i = 0; i < R; i++) if (B[i] >= V) for (int j = 0; j < V; j++) if (T[i][j].n) { pivot(i, j); break; }
  res.status = run(c2, V); if (res.status) return res;
  res.x.assign(n, Fr(0)); for (int i = 0; i < R; i++) { if (B[i] < n) res.x[B[i]] = res.x[B[i]] + T[i][C]; else if (B[i] < 2 * n) res.x[B[i] - n] = res.x[B[i] - n] - T[i][C]; }
  for (int j = 0; j < n; j++) res.val = res.val + c[j] * res.x[j];
  return res;
}
inline int rank(FM M) { int r = 0; if (M.empty()) return 0; int n = M[0].size(); for (int j = 0; j < n && r < (int)M.size(); j++) { int k = -1; for (int i = r; i < (int)M.size(); i++) if (M[i][j].n) { k = i; break; } if (k < 0) continue; std::swap(M[k], M[r]); for (int i = r + 1; i < (int)M.size(); i++) if (M[i][j].n) { Fr f = M[i][j] / M[r][j]; for (int t = j; t < n; t++) M[i][t] = M[i][t] - f * M[r][t]; } r++; } return r; }
// full classification of the pair (P),(D)
struct LPClass { int status; double val; double tp, td; int rankGA, rankA; bool primal_feas, dual_feas; };   // tp,td: largest uniform slack (capped at 1)
inline LPClass classify(const FV &c, const FM &G, const FV &h, const FM &A, const FV &b, bool margins = true) {
  LPClass k{}; int n = c.size(), m = G.size(), p = A.size();
  LPRes r = exact_lp(c, G, h, A, b); k.status = r.status; k.val = r.status == 0 ? r.val.val() : 0; k.primal_feas = r.status != 1;
  FM GA = G; for (auto &a : A) GA.push_back(a); k.rankGA = rank(GA); k.rankA = rank(A);
  if (!margins) return k;
  { FM G2 = G; FV h2 = h, c2(n + 1); for (auto &g : G2) g.push_back(1); G2.push_back(FV(n + 1)); G2.back()[n] = 1; h2.push_back(1); FM A2 = A; for (auto &a : A2) a.push_back(0); c2[n] = -1;
    LPRes t = exact_lp(c2, G2, h2, A2, b); k.tp = t.status == 0 ? -t.val.val() : -1; }
  { // variables z (m), y (p), t:  -z_i + t <= 0, t <= 1, G'z + A'y = -c
    int N = m + p + 1; FM G2, A2; FV h2, b2, c2(N); for (int i = 0; i < m; i++) { FV g(N); g[i] = -1; g[N - 1] = 1; G2.push_back(g); h2.push_back(0); } { FV g(N); g[N - 1] = 1; G2.push_back(g); h2.push_back(1); }
    for (int j = 0; j < n; j++) { FV a(N); for (int i = 0; i < m; i++) a[i] = G[i][j]; for (int i = 0; i < p; i++) a[m + i] = A[i][j]; A2.push_back(a); b2.push_back(Fr(0) - c[j]); } c2[N - 1] = -1;
    LPRes t = exact_lp(c2, G2, h2, A2, b2); k.td = t.status == 0 ? -t.val.val() : -1; k.dual_feas = t.status == 0 && !(k.td < 0); }
  return k;
}
}
