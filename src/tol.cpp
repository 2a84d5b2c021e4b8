// C29: the tolerances asked for are the tolerances delivered, and the solver stops at the first iterate that meets them.
// Every iterate of every solve is observed (at the call that factors its linear system, i.e. when the solver has decided to go on).
#include "figs.hpp"
using namespace vf;
struct Tol { double feas, abs, rel, feas2, abs2, rel2; bool set = true; };   // set = false: the caller sets nothing, these are the documented defaults
static struct { bool on = false; pwork *w = nullptr; const Prob *P = nullptr; long n = 0, passed = -1; int cl = 0; Fig f; Tol t; bool skip1 = false; std::string what; } X;
// sgn > 0: clearly meets the tolerances; sgn < 0: meets them up to rounding
static bool lt(ld v, ld e, double tol, int sgn) { return sgn > 0 ? v * (1 + 1e-6L) + e < tol : v * (1 - 1e-6L) - e < tol; }
static bool relok(const Fig &f, double rel, int sgn) {
  ld ge = 1e-13L * f.agap, ce = 1e-12L * f.acx, de = 1e-12L * f.ad;
  auto q = [&](ld den) { return lt(f.gap / (den / f.tau), ge / (den / f.tau), rel, sgn); };
  if (sgn > 0) { if (f.cx < -ce) return q(-f.cx); if (f.cx > ce && f.d > de) return q(f.d); return false; }
  return (f.cx <= ce && q(fabsl(f.cx) + ce)) || (f.cx >= -ce && f.d >= -de && q(fabsl(f.d) + de));
}
static bool opt(const Fig &f, double feas, double abs, double rel, int sgn) {
  ld ce = 1e-12L * f.acx, de = 1e-12L * f.ad; if (sgn > 0 && !(-f.cx > ce || f.d > -abs + de)) return false; if (sgn < 0 && !(-f.cx >= -ce || f.d >= -abs - de)) return false;
  return lt(f.pres, f.pe, feas, sgn) && lt(f.dres, f.de, feas, sgn) && (lt(f.gap, 1e-13L * f.agap, abs, sgn) || relok(f, rel, sgn));
}
static bool pinf(const Fig &f, double feas, double rel, int sgn) { ld de = 1e-12L * f.ad; if (sgn > 0 ? !(f.d * (1 - 1e-9L) - de > rel * f.nyz) || !(f.tau < f.kap) : !(f.d * (1 + 1e-9L) + de > rel * f.nyz)) return false; return lt(f.pinf, f.pie, feas, sgn); }
static bool dinf(const Fig &f, double feas, double rel, int sgn) { ld ce = 1e-12L * f.acx; if (sgn > 0 ? !(-f.cx * (1 - 1e-9L) - ce > rel * f.nx) || !(f.tau < f.kap) : !(-f.cx * (1 + 1e-9L) + ce > rel * f.nx)) return false; return lt(f.dinf, f.die, feas, sgn); }
static L vec(const double *v, long n) { return L(v, v + n); }
extern "C" idxint kkt_factor(kkt *, pfloat, pfloat);
extern "C" idxint hook_kkt_factor(kkt *K, pfloat eps, pfloat delta) {
  if (X.on) { if (X.skip1) X.skip1 = false; else if (X.passed < 0) { pwork *w = X.w; Fig f = figures(*X.P, w->xequil, w->Aequil, w->Gequil, vec(w->x, w->n), vec(w->y, w->p), vec(w->z, w->m), vec(w->s, w->m), w->tau, w->kap); X.n++;
      if (f.ok) { const char *c = opt(f, X.t.feas, X.t.abs, X.t.rel, 1) ? "OPTIMAL" : dinf(f, X.t.feas, X.t.rel, 1) ? "DINF" : pinf(f, X.t.feas, X.t.rel, 1) ? "PINF" : nullptr; if (c) { X.passed = X.n - 1; X.what = c; X.f = f; } } } }
  return kkt_factor(K, eps, delta);
}
static std::string figs(const Fig &f) { return fmt("(pres %.3Lg dres %.3Lg gap %.3Lg cost %.6Lg dual %.6Lg pinfres %.3Lg dinfres %.3Lg tau %.3g kap %.3g)", f.pres, f.dres, f.gap, f.cx / f.tau, f.d / f.tau, f.pinf, f.dinf, f.tau, f.kap); }
static std::string one(Run &R, const Prob &P, const Tol &t, long maxit, long &iters) {
  Data D(P); pwork *w = setup(D); if (!w) return "setup refused"; if (t.set) { w->stgs->feastol = t.feas; w->stgs->abstol = t.abs; w->stgs->reltol = t.rel; w->stgs->feastol_inacc = t.feas2; w->stgs->abstol_inacc = t.abs2; w->stgs->reltol_inacc = t.rel2; } if (maxit >= 0) w->stgs->maxit = maxit;
  X.on = true; X.w = w; X.P = &P; X.n = 0; X.passed = -1; X.t = t; X.skip1 = P.nex == 0; long code = ECOS_solve(w); X.on = false; Sol s = grab(w, code); iters = s.info.iter;
  std::vector<double> xe(w->xequil, w->xequil + w->n), Ae(w->Aequil, w->Aequil + w->p), Ge(w->Gequil, w->Gequil + w->m); ECOS_cleanup(w, 0); R.evals++; R.transitions += X.n; R.outcome(codename(code)); if (X.n > 1) R.nontriv(hmix(P.hash(), hdbl(hdbl(hdbl(maxit, t.feas), t.abs), t.rel)));
  if (X.passed >= 0) return fmt("iterate %ld meets the tolerances for %s ", X.passed, X.what.c_str()) + figs(X.f) + fmt(" but the solver went on and answered %s", codename(code));
  auto sc = [&](const std::vector<double> &v, const std::vector<double> &e, int pw) { L r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = (pw > 0 ? (ld)v[i] * e[i] : (ld)v[i] / e[i]) * s.tau; return r; };
  Fig f = figures(P, xe.data(), Ae.data(), Ge.data(), sc(s.x, xe, 1), sc(s.y, Ae, 1), sc(s.z, Ge, 1), sc(s.s, Ge, -1), s.tau, s.kap); if (!f.ok) return code >= 0 ? std::string(codename(code)) + fmt(" with a point that is not finite (tau %g kap %g) iter %ld", s.tau, s.kap, (long)s.info.iter) + vs(s.x) + vs(s.y) + vs(s.z) + vs(s.s) : "";
  bool in = code >= 10; double F = in ? t.feas2 : t.feas, A = in ? t.abs2 : t.abs, Rl = in ? t.rel2 : t.rel;
  if (code % 10 == 0 && code >= 0 && !opt(f, F, A, Rl, -1)) return std::string(codename(code)) + " but the returned point does not meet the tolerances " + figs(f);
  if (code >= 0 && code % 10 == 1 && !pinf(f, std::max(F, t.feas), t.rel, -1)) return std::string(codename(code)) + " but the certificate does not meet the tolerance " + figs(f);
  if (code >= 0 && code % 10 == 2 && !dinf(f, F, t.rel, -1)) return std::string(codename(code)) + " but the ray does not meet the tolerance " + figs(f);
  if (code == -1 || code == -2 || code == -3) { const char *c = opt(f, t.feas2, t.abs2, t.rel2, 1) ? "OPTIMAL" : dinf(f, t.feas2, t.rel, 1) ? "DINF" : pinf(f, t.feas2, t.rel, 1) ? "PINF" : nullptr; if (c) return std::string(codename(code)) + " but the returned point meets the reduced tolerances for " + c + " " + figs(f); }
  return "";
}
void vf::explore(Run &R) {
  std::vector<Tol> T; static const double fv[] = {1e-2, 1e-5, 1e-8, 1e-10}, av[] = {1, 1e-4, 1e-8, 1e-11}, rv[] = {1e-1, 1e-4, 1e-8, 1e-11};
  for (double f : fv) for (double a : av) for (double r : rv) T.push_back({f, a, r, std::max(1e-4, f), std::max(5e-5, a), std::max(5e-5, r)});
  for (double f : {1e-1, 1e-6}) for (double a : {1.0, 1e-7}) for (double r : {1e-1, 1e-7}) T.push_back({1e-8, 1e-8, 1e-8, f, a, r});
  T.push_back({1e-8, 1e-8, 1e-8, 1e-4, 5e-5, 5e-5, false});
  each_base(R.thorough ? 1 : 0, [&](auto mk, int kind) {
    if (!R.want()) return !R.stopped; Prob P = mk(); size_t k = 0;
    for (auto &t : T) { k++; if (kind && !R.thorough && t.set && (k * 7 + R.caseno) % 2) continue; long it = 0, i2; std::string e = one(R, P, t, -1, it); long K = std::min(it, 14L);
      for (long mi = 0; e.empty() && mi < K; mi++) { if (kind && !R.thorough && t.set && (mi + k) % 2) continue; e = one(R, P, t, mi, i2); if (!e.empty()) e = fmt("limit %ld: ", mi) + e; }
      R.alive(); if (!e.empty()) { R.fail(e + fmt("  tolerances%s feas %g abs %g rel %g reduced %g %g %g  ", t.set ? "" : " (defaults)", t.feas, t.abs, t.rel, t.feas2, t.abs2, t.rel2) + P.str()); return !R.stopped; } }
    R.sample(P.str()); return true; });
}
