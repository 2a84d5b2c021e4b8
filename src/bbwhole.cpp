// C35: the answer to a mixed-integer program is one whole solution: point, slack, multipliers, statistics.
#include "bb.hpp"
using namespace vf;
static std::string whole(const BProb &B, ecos_bb_pwork *w, const std::vector<double> &c, const std::vector<double> &h) {
  const Prob &P = B.P; pwork *e = w->ecos_prob; long nb = B.bl.size(), ni = B.il.size(), o = 2 * (nb + ni), m = P.m + o; if (e->m != m || e->n != P.n || e->p != P.p) return fmt("relaxation has %ld rows", (long)e->m);
  std::vector<double> x(w->x, w->x + P.n), y(w->y, w->y + P.p), z(w->z, w->z + m), s(w->s, w->s + m); for (auto *v : {&x, &y, &z, &s}) if (!finite(*v)) return "the returned solution is not finite";
  auto var = [&](long k) { return k < nb ? B.bl[k] : B.il[k - nb]; };
  // the slack: of the caller's rows, and of whole bounds on the integer variables
  ld sx = 1 + maxabs(x); std::vector<ld> hn(m); for (long k = 0; k < nb + ni; k++) for (int u = 0; u < 2; u++) { ld v = (u ? 1 : -1) * (ld)x[var(k)] + s[2 * k + u], r = roundl(v); hn[2 * k + u] = r; if (fabsl(v - r) > 1e-6L * (1 + fabsl(v)) + 2e-5L) return fmt("slack %.9g of bound %d of integer variable %ld (value %.9g) belongs to no whole bound", s[2 * k + u], u, (long)var(k), x[var(k)]); if (k < nb && (r < -1 || r > 1)) return fmt("bound %Lg on a boolean variable", r); if (s[2 * k + u] < -1e-6 || z[2 * k + u] < -1e-6) return "negative slack or multiplier of a bound"; }
  for (long i = 0; i < P.m; i++) { ld t = (ld)s[o + i] - h[i], a = sx + fabs(h[i]); for (long j = 0; j < P.n; j++) t += (ld)P.g(i, j) * x[j], a += fabsl((ld)P.g(i, j) * x[j]); hn[o + i] = h[i]; if (!(fabsl(t) <= 1e-5L * a)) return fmt("slack of row %ld is off by %.3Lg", i, t); }
  for (long i = 0; i < P.p; i++) { ld t = -(ld)P.b[i]; for (long j = 0; j < P.n; j++) t += (ld)P.a(i, j) * x[j]; if (!(fabsl(t) <= 1e-5L * (sx + fabs(P.b[i])))) return fmt("equality row %ld is off by %.3Lg", i, t); }
  std::vector<double> so(s.begin() + o, s.end()), zo(z.begin() + o, z.end()); if (!in_cone(P, so, 1e-6 * (1 + nrm(so)), false)) return "the slack is outside the cone"; if (!in_cone(P, zo, 1e-6 * (1 + nrm(zo)), true)) return "the multipliers are outside the dual cone";
  // the multipliers prove that nothing within those bounds costs less
  ld sz = 1 + maxabs(c) + nrm(y) + nrm(z); for (long j = 0; j < P.n; j++) { ld t = c[j]; for (long i = 0; i < P.m; i++) t += (ld)P.g(i, j) * zo[i]; for (long i = 0; i < P.p; i++) t += (ld)P.a(i, j) * y[i]; for (long k = 0; k < nb + ni; k++) if (var(k) == j) t += (ld)z[2 * k + 1] - z[2 * k]; if (!(fabsl(t) <= 1e-5L * sz)) return fmt("dual equation of variable %ld is off by %.3Lg", j, t); }
  ld cx = 0, d = 0, g = 0, ad = 0, acx = 0; for (long j = 0; j < P.n; j++) cx += (ld)c[j] * x[j], acx += fabsl((ld)c[j] * x[j]); for (long i = 0; i < P.p; i++) d -= (ld)P.b[i] * y[i], ad += fabsl((ld)P.b[i] * y[i]); for (long i = 0; i < m; i++) d -= hn[i] * z[i], ad += fabsl(hn[i] * z[i]), g += (ld)s[i] * z[i];
  if (!(fabsl(g) <= 2e-5L * (1 + fabsl(cx)))) return fmt("slack and multipliers are not complementary: %.3Lg", g); if (!(fabsl(cx - d) <= 3e-5L * (1 + fabsl(cx) + nrm(x) + nrm(z)))) return fmt("the multipliers prove %.9Lg, the point costs %.9Lg", d, cx);
  const stats &I = *w->info; if (!(fabsl(I.pcost - cx) <= 1e-8L * (1 + acx))) return fmt("pcost %.12g, the point costs %.12Lg", I.pcost, cx); if (!(fabsl(I.dcost - d) <= 2e-5L * (1 + ad))) return fmt("dcost %.12g, the multipliers give %.12Lg", I.dcost, d); if (!(fabsl(I.gap - g * w->tau * w->tau) <= 1e-6L * (1e-3L + fabsl(I.gap)))) return fmt("gap %.9g, the point has %.9Lg", I.gap, g * w->tau * w->tau);
  if (!(w->tau > 0) || !(fabs(I.kapovert - w->kap / w->tau) <= 1e-9 * fabs(I.kapovert) + 1e-300)) return fmt("kappa/tau %.9g, not %.9g/%.9g", I.kapovert, w->kap, w->tau);
  if (!(fabs(w->global_U - (double)cx) <= 1e-7 * (1 + (double)acx))) return fmt("upper bound %.12g, the point costs %.12Lg", w->global_U, cx);
  for (long j = 0; j < P.n; j++) if (e->x[j] != w->x[j]) return "the relaxation's workspace holds another point"; for (long i = 0; i < P.p; i++) if (e->y[i] != w->y[i]) return "the relaxation's workspace holds other multipliers"; for (long i = 0; i < m; i++) if (e->z[i] != w->z[i] || e->s[i] != w->s[i]) return "the relaxation's workspace holds another slack or other multipliers";
  if (e->tau != w->tau || e->kap != w->kap || e->info->pcost != I.pcost || e->info->dcost != I.dcost || e->info->gap != I.gap || e->info->pres != I.pres || e->info->dres != I.dres || e->info->iter != I.iter) return "the relaxation's workspace holds other statistics";
  return "";
}
static long draws; static int draw() { return (int)((draws++ * 1103515245ull + 12345) / 65536 % RAND_MAX); }
void vf::explore(Run &R) {
  for (int level = -1; level <= (R.thorough ? 1 : 0); level++) if (!each_mip(level, [&](auto mk, const char *kind) {
    if (!R.want()) return !R.stopped; BProb B = mk(); std::string e; if (level == 1 ? B.hash() % 24 : level == 0 && !R.thorough ? B.hash() % 4 : 0) return true; std::vector<int> ST = level < 0 ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, (int)(1 + R.mycase % 4)};
    for (int strat : ST) for (int sel = 0; sel < 3 && e.empty(); sel++) { if (level >= 0 && (sel + strat + R.mycase) % 3) continue;
      long full = 1; for (long maxit = -1; e.empty() && maxit <= (maxit < 0 ? 0 : std::min(full, level < 0 ? 8L : 3L)); maxit++) { if (maxit == 0) continue;
        BData D(B); ecos_bb_pwork *w = bsetup(D); if (!w) { e = "setup refused"; break; } w->stgs->branching_strategy = (enum BRANCHING_STRATEGY)strat; w->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)sel; w->stgs->maxit = maxit > 0 ? maxit : strat == 4 ? 400 : 4000; draws = 0; env::rand_hook = draw;
        std::vector<double> c = B.P.c, h = B.P.h; int rounds = maxit < 0 ? 3 : 1; if (maxit == 2) rounds = 2;
        for (int r = 0; r < rounds && e.empty(); r++) { if (r == 1) { c[0] = -c[0] + 0.25; updateDataEntry_c(w, 0, c[0]); } if (r == 2) { h[B.P.l ? B.P.l - 1 : 0] += 0.5; updateDataEntry_h(w, B.P.l ? B.P.l - 1 : 0, h[B.P.l ? B.P.l - 1 : 0]); }
          long code = ECOS_BB_solve(w); R.evals++; R.transitions += w->iter + 1; if (maxit < 0 && r == 0) full = w->iter + 1; R.outcome(fmt("%s: %s", kind, bbname(code)));
          if (code == 0 || code == 10 || (code == -4 && w->global_U < 1e300)) { R.nontriv(hmix(B.hash(), ((maxit + 1) * 20 + strat * 4 + sel) * 3 + r)); e = whole(B, w, c, h); if (!e.empty()) e = fmt("%s, limit %ld strategy %d selection %d solve %d: ", bbname(code), maxit, strat, sel, r + 1) + e; } }
        ECOS_BB_cleanup(w, 0); } if (!e.empty()) break; }
    R.alive(); if (!e.empty()) { R.fail(e + "  " + B.str()); } else R.sample(B.str()); return !R.stopped; })) return;
}
