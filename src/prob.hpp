// Problems, the ECOS wrapper, and independent certificate checks on the user's original data.
#pragma once
#include "vf.hpp"
extern "C" {
#include "ecos.h"
}
#undef MAX
#undef MIN
namespace vf {
typedef long double ld;
struct Prob {
  long n = 0, m = 0, p = 0, l = 0, nex = 0; std::vector<idxint> q;
  std::vector<double> G, A, c, h, b;                  // row-major dense
  double g(long i, long j) const { return G[i * n + j]; }
  double a(long i, long j) const { return A[i * n + j]; }
  std::string str() const {
    std::ostringstream o; o.precision(17);
    o << "n=" << n << " m=" << m << " p=" << p << " l=" << l << " q=" << vs(q) << " nex=" << nex << " G=" << vs(G) << " A=" << vs(A) << " c=" << vs(c) << " h=" << vs(h) << " b=" << vs(b);
    return o.str();
  }
  uint64_t hash() const { uint64_t x = 77; for (auto *v : {&G, &A, &c, &h, &b}) { x = hmix(x, v->size()); for (double d : *v) x = hdbl(x, d); } x = hmix(x, l); for (auto i : q) x = hmix(x, i); return hmix(x, nex * 1000 + n); }
};
struct CCS { std::vector<double> pr; std::vector<idxint> jc, ir; };
// keepzero: also store the zero entries explicitly
inline CCS ccs(const std::vector<double> &D, long rows, long cols, bool keepzero = false) {
  CCS r; r.pr.reserve(rows * cols + 1); r.ir.reserve(rows * cols + 1); r.jc.push_back(0);
  for (long j = 0; j < cols; j++) { for (long i = 0; i < rows; i++) { double v = D[i * cols + j]; if (v != 0 || keepzero) { r.pr.push_back(v); r.ir.push_back(i); } } r.jc.push_back((idxint)r.pr.size()); }
  return r;
}
// the arrays a user owns and hands to the solver
struct Data {
  CCS G, A; std::vector<double> c, h, b; std::vector<idxint> q; long n, m, p, l, nex;
  Data(const Prob &P, bool keepzero = false) : G(ccs(P.G, P.m, P.n, keepzero)), A(ccs(P.A, P.p, P.n, keepzero)), c(P.c), h(P.h), b(P.b), q(P.q), n(P.n), m(P.m), p(P.p), l(P.l), nex(P.nex) { c.reserve(c.size() + 1); h.reserve(h.size() + 1); b.reserve(b.size() + 1); q.reserve(q.size() + 1); }
};
struct Sol { long code = 99; std::vector<double> x, y, z, s; stats info; double tau = 0, kap = 0; };
inline pwork *setup(Data &D, bool quiet = true) {
  pwork *w = ECOS_setup(D.n, D.m, D.p, D.l, (idxint)D.q.size(), D.q.empty() ? nullptr : D.q.data(), D.nex, D.G.pr.data(), D.G.jc.data(), D.G.ir.data(),
                        D.p ? D.A.pr.data() : nullptr, D.p ? D.A.jc.data() : nullptr, D.p ? D.A.ir.data() : nullptr, D.c.data(), D.h.data(), D.p ? D.b.data() : nullptr);
  if (w && quiet) w->stgs->verbose = 0;
  return w;
}
inline Sol grab(pwork *w, long code) {
  Sol S; S.code = code; S.x.assign(w->x, w->x + w->n); S.y.assign(w->y, w->y + w->p); S.z.assign(w->z, w->z + w->m); S.s.assign(w->s, w->s + w->m); S.info = *w->info; S.tau = w->tau; S.kap = w->kap; return S;
}
inline Sol solve_fresh(const Prob &P, std::function<void(pwork *)> tune = nullptr) {
  Data D(P); pwork *w = setup(D); if (!w) { Sol S; S.code = -99; return S; }
  if (tune) tune(w);
  long code = ECOS_solve(w); Sol S = grab(w, code); ECOS_cleanup(w, 0); return S;
}
inline bool finite(const std::vector<double> &v) { for (double d : v) if (!std::isfinite(d)) return false; return true; }
inline double nrm(const std::vector<double> &v) { ld t = 0; for (double d : v) t += (ld)d * d; return sqrtl(t); }
// exponential cone, ECOS ordering (x,y,z): closure of { z>0, y >= z exp(x/z) }
inline bool in_exp(ld x, ld y, ld z) { if (z < 0 || y < 0) return false; if (z == 0) return x <= 0; return z * expl(x / z) <= y; }
inline bool in_expd(ld u, ld v, ld w) { if (u > 0 || v < 0) return false; if (u == 0) return w >= 0; if (v == 0) return false; return w >= u - u * logl(-u / v); }
// distance-like margin: v + t*e in K ?  (e a fixed interior direction of every cone block)
inline bool in_cone(const Prob &P, const std::vector<double> &v, ld t, bool dual) {
  long k = 0; for (; k < P.l; k++) if (!((ld)v[k] + t >= 0)) return false;
  for (auto qs : P.q) { ld r = 0; for (long j = 1; j < qs; j++) r += (ld)v[k + j] * v[k + j]; if (!((ld)v[k] + t >= sqrtl(r))) return false; k += qs; }
  for (long e = 0; e < P.nex; e++, k += 3) if (!(dual ? in_expd((ld)v[k] - t, (ld)v[k + 1] + t, (ld)v[k + 2] + t) : in_exp((ld)v[k] - t, (ld)v[k + 1] + t, (ld)v[k + 2] + t))) return false;
  return true;
}
// residuals on the user's data.  tau=1: optimality; tau=0: certificates (homogeneous)
struct Resid { ld eq = 0, ineq = 0, dual = 0, cx = 0, by = 0, hz = 0, sz = 0; };
inline Resid resid(const Prob &P, const Sol &S, int tau) {
  Resid r; for (long i = 0; i < P.p; i++) { ld t = -(ld)tau * P.b[i]; for (long j = 0; j < P.n; j++) t += (ld)P.a(i, j) * S.x[j]; r.eq = std::max(r.eq, fabsl(t)); r.by += (ld)P.b[i] * S.y[i]; }
  for (long i = 0; i < P.m; i++) { ld t = (ld)S.s[i] - (ld)tau * P.h[i]; for (long j = 0; j < P.n; j++) t += (ld)P.g(i, j) * S.x[j]; r.ineq = std::max(r.ineq, fabsl(t)); r.hz += (ld)P.h[i] * S.z[i]; r.sz += (ld)S.s[i] * S.z[i]; }
  for (long j = 0; j < P.n; j++) { ld t = (ld)tau * P.c[j]; for (long i = 0; i < P.m; i++) t += (ld)P.g(i, j) * S.z[i]; for (long i = 0; i < P.p; i++) t += (ld)P.a(i, j) * S.y[i]; r.dual = std::max(r.dual, fabsl(t)); r.cx += (ld)P.c[j] * S.x[j]; }
  return r;
}
inline double maxabs(const std::vector<double> &v) { double r = 0; for (double d : v) r = std::max(r, fabs(d)); return r; }
inline const char *codename(long c) { switch (c) { case 0: return "OPTIMAL"; case 1: return "PINF"; case 2: return "DINF"; case 10: return "OPTIMAL_INACC"; case 11: return "PINF_INACC"; case 12: return "DINF_INACC"; case -1: return "MAXIT"; case -2: return "NUMERICS"; case -3: return "OUTCONE"; case -4: return "SIGINT"; case -7: return "FATAL"; default: return "?"; } }
// Empty string: the claim made by the exit code is justified on the user's data.
// Independent of the solver's own residuals.  feas: feasibility tolerance for full precision.
inline std::string check_claim(const Prob &P, const Sol &S, double feas = 1e-6, double gaptol = 1e-6, double loose = 3e-3) {
  long code = S.code; bool inacc = code >= 10; double f = inacc ? loose : feas, gt = inacc ? loose : gaptol;
  if (!finite(S.x) || !finite(S.y) || !finite(S.z) || !finite(S.s)) { if (code < 0) return ""; return fmt("%s reported but the returned point is not finite", codename(code)); }
  if (code == 0 || code == 10) {
    Resid r = resid(P, S, 1);
    ld sp = 1 + maxabs(P.h) + maxabs(P.b) + nrm(S.x) + nrm(S.s), sd = 1 + maxabs(P.c) + nrm(S.y) + nrm(S.z);
    if (!(r.eq <= f * sp)) return fmt("%s reported but Ax=b is violated by %.3Lg", codename(code), r.eq);
    if (!(r.ineq <= f * sp)) return fmt("%s reported but Gx+s=h is violated by %.3Lg", codename(code), r.ineq);
    if (!in_cone(P, S.s, f * 1e-1 * (1 + nrm(S.s)), false)) return fmt("%s reported but s is outside the cone", codename(code));
    if (!in_cone(P, S.z, f * 1e-1 * (1 + nrm(S.z)), true)) return fmt("%s reported but z is outside the dual cone", codename(code));
    if (!(r.dual <= f * sd)) return fmt("%s reported but dual feasibility is violated by %.3Lg", codename(code), r.dual);
    ld gap = fabsl(r.cx + r.by + r.hz), scale = 1 + fabsl(r.cx) + f / gt * (nrm(S.x) + nrm(S.z) + nrm(S.y)) * 0.1L;
    if (!(gap <= gt * scale)) return fmt("%s reported but the duality gap is %.3Lg (primal %.9Lg, dual %.9Lg)", codename(code), gap, r.cx, -r.by - r.hz);
  } else if (code == 1 || code == 11) {
    Resid r = resid(P, S, 0); ld o = -(r.by + r.hz), sd = nrm(S.y) + nrm(S.z);
    if (!(o > 0)) return fmt("%s reported but b'y+h'z = %.3Lg is not negative", codename(code), -o);
    if (!(r.dual <= f * 10 * sd)) return fmt("%s reported but A'y+G'z = %.3Lg (norm of the multipliers %.3Lg)", codename(code), r.dual, sd);
    if (!in_cone(P, S.z, f * 0.1 * nrm(S.z), true)) return fmt("%s reported but z is outside the dual cone", codename(code));
  } else if (code == 2 || code == 12) {
    Resid r = resid(P, S, 0); ld sp = nrm(S.x) + nrm(S.s);
    if (!(r.cx < 0)) return fmt("%s reported but c'x = %.3Lg is not negative", codename(code), r.cx);
    if (!(r.eq <= f * 10 * sp) || !(r.ineq <= f * 10 * sp)) return fmt("%s reported but the ray violates Ax=0 by %.3Lg, Gx+s=0 by %.3Lg (norm %.3Lg)", codename(code), r.eq, r.ineq, sp);
    if (!in_cone(P, S.s, f * 0.1 * nrm(S.s), false)) return fmt("%s reported but the ray's slack is outside the cone", codename(code));
  } else if (code != -1 && code != -2 && code != -3 && code != -4 && code != -7) return fmt("undocumented exit code %ld", code);
  return "";
}
}
