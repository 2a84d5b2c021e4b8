// C20: sparse LDL' factorisation with dynamic regularisation and the triangular solves, against dense extended-precision arithmetic.
#include "prob.hpp"
extern "C" {
#include "ldl.h"
}
using namespace vf;
typedef std::vector<double> V; typedef std::vector<LDL_int> I; typedef std::vector<ld> L;
static const double SENT = 4321.25; static const LDL_int IS = -55;
struct Fx { int n; I Ap, Ai, Lp, Parent, Lnz, Flag, Li, Pattern, Sign; V Ax, Lx, D, Y; };
static std::string symbolic(Fx &f, const std::vector<char> &pat, Run &R) {
  int n = f.n; f.Lp.assign(n + 2, IS); f.Parent.assign(n + 1, IS); f.Lnz.assign(n + 1, IS); f.Flag.assign(n + 1, IS); I Ap0 = f.Ap, Ai0 = f.Ai; LDL_symbolic2(n, f.Ap.data(), f.Ai.data(), f.Lp.data(), f.Parent.data(), f.Lnz.data(), f.Flag.data()); R.transitions++;
  if (f.Lp[n + 1] != IS || f.Parent[n] != IS || f.Lnz[n] != IS || f.Flag[n] != IS || f.Ap != Ap0 || f.Ai != Ai0) return "symbolic analysis wrote outside its results";
  // fill by elimination
  std::vector<unsigned> a(n, 0); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (pat[i * n + j]) a[i] |= 1u << j; LDL_int tot = 0;
  for (int k = 0; k < n; k++) { if (f.Lp[k] != tot) return fmt("column pointer %d of L is %ld, should be %ld", k, (long)f.Lp[k], (long)tot); int c = __builtin_popcount(a[k]); if (f.Lnz[k] != c) return fmt("column %d of L announced with %ld entries, has %d", k, (long)f.Lnz[k], c); int par = a[k] ? __builtin_ctz(a[k]) : -1; if (f.Parent[k] != par) return fmt("parent of %d is %ld, should be %d", k, (long)f.Parent[k], par); if (par >= 0) a[par] |= a[k] & ~(1u << par); tot += c; }
  if (f.Lp[n] != tot) return "number of entries of L wrong"; return "";
}
static std::string numeric(Fx &f, const V &K, double eps, double delta, bool qd, Run &R) {   // K dense, symmetric
  int n = f.n; LDL_int lnz = f.Lp[n]; f.Li.assign(lnz + 1, IS); f.Lx.assign(lnz + 1, SENT); f.D.assign(n + 1, SENT); f.Y.assign(n + 1, SENT); f.Pattern.assign(n + 1, IS); f.Flag.assign(n + 1, IS); f.Lnz.assign(n + 1, IS); I Lp0 = f.Lp, Pa0 = f.Parent; V Ax0 = f.Ax;
  LDL_int st = LDL_numeric2(n, f.Ap.data(), f.Ai.data(), f.Ax.data(), f.Lp.data(), f.Parent.data(), f.Sign.data(), eps, delta, f.Lnz.data(), f.Li.data(), f.Lx.data(), f.D.data(), f.Y.data(), f.Pattern.data(), f.Flag.data()); R.evals++;
  if (st != n) return fmt("factorisation returns %ld", (long)st); if (f.Lp != Lp0 || f.Parent != Pa0 || f.Ax != Ax0) return "factorisation changed its input"; if (f.Li[lnz] != IS || f.Lx[lnz] != SENT || f.D[n] != SENT || f.Y[n] != SENT || f.Pattern[n] != IS || f.Flag[n] != IS || f.Lnz[n] != IS) return "factorisation wrote outside its results";
  L Ld(n * n, 0); for (int j = 0; j < n; j++) { Ld[j * n + j] = 1; if (f.Lnz[j] != f.Lp[j + 1] - f.Lp[j]) return "column of L not filled"; for (LDL_int p = f.Lp[j]; p < f.Lp[j + 1]; p++) { LDL_int i = f.Li[p]; if (i <= j || i >= n || (p > f.Lp[j] && i <= f.Li[p - 1])) return "row indices of L wrong"; Ld[i * n + j] = f.Lx[p]; } }
  int reg = 0; for (int k = 0; k < n; k++) { double D = f.D[k]; if (!std::isfinite(D) || !(f.Sign[k] * D > 0)) return fmt("pivot %d is %g, its sign should be %ld", k, D, (long)f.Sign[k]);
    for (int i = k; i < n; i++) { ld t = 0, mag = 0; for (int j = 0; j < k; j++) { ld q = Ld[i * n + j] * f.D[j] * Ld[k * n + j]; t += q; mag += fabsl(q); } ld own = Ld[i * n + k] * D, v = t + own; ld tol = 2e-15L * n * (mag + fabsl(own) + fabsl((ld)K[i * n + k]));
      if (i > k) { if (!(fabsl(v - K[i * n + k]) <= tol)) return fmt("L D L' differs from the matrix at (%d,%d): %.15Lg instead of %.15g", i, k, v, K[i * n + k]); continue; }
      ld raw = (ld)K[k * n + k] - t; bool isreg = D == f.Sign[k] * delta; if (fabsl(v - K[k * n + k]) <= tol && !(f.Sign[k] * raw <= eps - tol)) { continue; }       // exact pivot, not below the threshold
      if (isreg) { reg++; if (!(f.Sign[k] * raw <= eps + tol)) return fmt("pivot %d regularised although it is %.9Lg", k, raw); continue; }
      return fmt("pivot %d is %.12g, should be %.12Lg", k, D, f.Sign[k] * raw <= eps ? (ld)f.Sign[k] * delta : raw); } }
  if (qd && reg) return "a pivot of a quasi-definite matrix was regularised"; R.outcome(reg ? fmt("%d pivots regularised", reg) : "no regularisation");
  // solves, by backward error
  for (int v = 0; v < 3; v++) { V b(n + 1, SENT), x; for (int i = 0; i < n; i++) b[i] = v == 0 ? 1 : v == 1 ? (i % 2 ? -3 : 2 + i) : (i == n / 2); V b0 = b;
    x = b; LDL_lsolve(n, x.data(), f.Lp.data(), f.Li.data(), f.Lx.data()); for (int i = 0; i < n; i++) { ld t = 0, mag = 0; for (int j = 0; j <= i; j++) { t += Ld[i * n + j] * x[j]; mag += fabsl(Ld[i * n + j] * x[j]); } if (!(fabsl(t - b[i]) <= 1e-15L * n * (mag + fabsl((ld)b[i])))) return fmt("forward solve: row %d gives %.15Lg, should be %.15g", i, t, b[i]); } if (x[n] != SENT) return "forward solve wrote outside";
    V y(n + 1, SENT); LDL_lsolve2(n, b.data(), f.Lp.data(), f.Li.data(), f.Lx.data(), y.data()); if (b != b0) return "forward solve changed the right-hand side"; for (int i = 0; i < n; i++) { ld t = 0, mag = 0; for (int j = 0; j <= i; j++) { t += Ld[i * n + j] * y[j]; mag += fabsl(Ld[i * n + j] * y[j]); } if (!(fabsl(t - b[i]) <= 1e-15L * n * (mag + fabsl((ld)b[i])))) return fmt("forward solve into a new vector: row %d gives %.15Lg, should be %.15g", i, t, b[i]); } if (y[n] != SENT) return "forward solve wrote outside";
    x = b; LDL_dsolve(n, x.data(), f.D.data()); for (int i = 0; i < n; i++) if (!(fabsl((ld)x[i] * f.D[i] - b[i]) <= 1e-15L * fabsl((ld)b[i]))) return "diagonal solve wrong"; if (x[n] != SENT) return "diagonal solve wrote outside";
    x = b; LDL_ltsolve(n, x.data(), f.Lp.data(), f.Li.data(), f.Lx.data()); for (int i = 0; i < n; i++) { ld t = 0, mag = 0; for (int j = i; j < n; j++) { t += Ld[j * n + i] * x[j]; mag += fabsl(Ld[j * n + i] * x[j]); } if (!(fabsl(t - b[i]) <= 1e-15L * n * (mag + fabsl((ld)b[i])))) return fmt("backward solve: row %d gives %.15Lg, should be %.15g", i, t, b[i]); } if (x[n] != SENT) return "backward solve wrote outside"; R.transitions += 4; }
  return "";
}
void vf::explore(Run &R) {
  int T = R.thorough; static const double off[4] = {0, 1, -2, 0.5};
  // quasi-definite: every pattern with values, every sign vector; also with unsorted columns
  for (int n = 0; n <= 5; n++) { int no = n * (n - 1) / 2, na = n <= 3 ? 4 : n == 4 ? (T ? 4 : 3) : (T ? 3 : 2); Odo o(std::vector<int>(no, na)); bool once = true; while (!o.done && once) { bool run = R.want(); if (R.stopped) return; std::string e;
      for (int c = 0; c < 64 && !o.done; c++, o.next()) { if (run && e.empty()) { bool any = false; for (int v : o.d) any |= v;
          for (int sg = 0; sg < 1 << n && e.empty(); sg++) for (int form = 0; form < 2 && e.empty(); form++) { V K(n * n, 0); std::vector<char> pat(n * n, 0); int b = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, b++) if (o.d[b]) { K[i * n + j] = K[j * n + i] = off[o.d[b]]; pat[i * n + j] = 1; }
            Fx f; f.n = n; f.Sign.resize(n); for (int i = 0; i < n; i++) { f.Sign[i] = sg >> i & 1 ? 1 : -1; double d = 0.75; for (int j = 0; j < n; j++) if (j != i && (sg >> j & 1) == (sg >> i & 1)) d += fabs(K[i * n + j]); K[i * n + i] = f.Sign[i] * d; }
            f.Ap.push_back(0); for (int j = 0; j < n; j++) { for (int q = 0; q <= j; q++) { int i = form ? j - q : q; if (i == j || pat[i * n + j]) { f.Ai.push_back(i); f.Ax.push_back(K[i * n + j]); } } f.Ap.push_back(f.Ai.size()); } f.Ai.push_back(IS); f.Ax.push_back(SENT);
            e = symbolic(f, pat, R); if (e.empty()) e = numeric(f, K, 1e-13, 2e-7, true, R); if (any) R.nontriv(hmix(hmix(c, sg), hmix(R.mycase, n))); if (!e.empty()) e += "  quasi-definite K=" + vs(K) + " sign=" + vs(std::vector<long>(f.Sign.begin(), f.Sign.end())); } }
        if (no == 0) { once = false; break; } }
      if (run) { R.outcome(fmt("quasi-definite order %d", n)); if (!e.empty()) { R.fail(e); if (R.stopped) return; } } } }
  // any symmetric values with any signs: regularisation acts exactly on pivots of the wrong sign or too small; diagonal entries may be missing
  static const double dg[6] = {0, 1, -2, 1e-14, -1e-14, 5e-13}; static const double ed[3][2] = {{1e-13, 2e-7}, {1e-13, 7e-8}, {0.6, 1.5}};
  for (int n = 1; n <= (T ? 4 : 3); n++) { int no = n * (n - 1) / 2, na = n == 4 ? 2 : 4, nd = n == 4 ? 4 : 6; std::vector<int> rad(no, na); for (int i = 0; i < n; i++) rad.push_back(nd); Odo o(rad); while (!o.done) { bool run = R.want(); if (R.stopped) return; std::string e;
      for (int c = 0; c < 64 && !o.done; c++, o.next()) { if (!run || !e.empty()) continue; 
        for (int sg = 0; sg < 1 << n && e.empty(); sg++) for (int miss = 0; miss < 2 && e.empty(); miss++) for (auto &x : ed) { V K(n * n, 0); std::vector<char> pat(n * n, 0); int b = 0; bool mz = false; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, b++) if (o.d[b]) { K[i * n + j] = K[j * n + i] = off[o.d[b]]; pat[i * n + j] = 1; }
            Fx f; f.n = n; f.Sign.resize(n); for (int i = 0; i < n; i++) { f.Sign[i] = sg >> i & 1 ? 1 : -1; K[i * n + i] = dg[o.d[no + i]]; mz |= K[i * n + i] == 0; } if (miss && !mz) break;
            f.Ap.push_back(0); for (int j = 0; j < n; j++) { for (int i = 0; i <= j; i++) if (i == j ? !(miss && K[i * n + i] == 0) : pat[i * n + j]) { f.Ai.push_back(i); f.Ax.push_back(K[i * n + j]); } f.Ap.push_back(f.Ai.size()); } f.Ai.push_back(IS); f.Ax.push_back(SENT);
            e = symbolic(f, pat, R); if (e.empty()) e = numeric(f, K, x[0], x[1], false, R); R.nontriv(hmix(hmix(c, sg), hmix(R.mycase, 70 + n + 10 * miss))); if (!e.empty()) { e += "  K=" + vs(K) + " sign=" + vs(std::vector<long>(f.Sign.begin(), f.Sign.end())) + fmt(" eps=%g delta=%g", x[0], x[1]); break; } } }
      if (run) { R.outcome(fmt("any values order %d", n)); if (!e.empty()) { R.fail(e); if (R.stopped) return; } } } }
}
