// C24: equilibration against a dense extended-precision reference of Ruiz's iteration; inverse; data updates; mapping back of solutions.
#include "prob.hpp"
extern "C" void backscale(pwork *);
using namespace vf;
typedef std::vector<double> V; typedef std::vector<ld> L;
struct Fac { L x, a, g; bool amb = false; };
static Fac ruiz(const Prob &P, int iters) {
  long n = P.n, m = P.m, p = P.p; Fac F; F.x.assign(n, 1); F.a.assign(p, 1); F.g.assign(m, 1); L G(P.G.begin(), P.G.end()), A(P.A.begin(), P.A.end());
  for (int it = 0; it < iters; it++) { L cx(n, 0), ra(p, 0), rg(m, 0); for (long j = 0; j < n; j++) { for (long i = 0; i < p; i++) { cx[j] = std::max(cx[j], fabsl(A[i * n + j])); ra[i] = std::max(ra[i], fabsl(A[i * n + j])); } for (long i = 0; i < m; i++) { cx[j] = std::max(cx[j], fabsl(G[i * n + j])); rg[i] = std::max(rg[i], fabsl(G[i * n + j])); } }
    long k = P.l; auto grp = [&](long q) { ld t = 0; for (long i = 0; i < q; i++) t += rg[k + i]; for (long i = 0; i < q; i++) rg[k + i] = t; k += q; }; for (auto q : P.q) grp(q); for (int e = 0; e < P.nex; e++) grp(3);
    auto rt = [&](L &v) { for (auto &x : v) { if (fabsl(x - 1e-6L) < 1e-14L) F.amb = true; x = x < 1e-6L ? 1 : sqrtl(x); } }; rt(cx); rt(ra); rt(rg);
    for (long j = 0; j < n; j++) { for (long i = 0; i < p; i++) A[i * n + j] /= ra[i] * cx[j]; for (long i = 0; i < m; i++) G[i * n + j] /= rg[i] * cx[j]; F.x[j] *= cx[j]; } for (long i = 0; i < p; i++) F.a[i] *= ra[i]; for (long i = 0; i < m; i++) F.g[i] *= rg[i]; }
  return F;
}
static bool eq(double a, ld b, ld t = 1e-13L) { return fabsl(a - b) <= t * fabsl(b); }
static std::string scaled(pwork *w, const Prob &P, const Data &D0, bool keepzero) {   // the workspace holds the scaled data of P
  Fac F = ruiz(P, 3); if (F.amb) return "?"; std::string e;
  for (long j = 0; j < P.n; j++) { if (!(w->xequil[j] > 0) || !std::isfinite(w->xequil[j])) return fmt("column factor %ld is %g", j, w->xequil[j]); if (!eq(w->xequil[j], F.x[j])) e = fmt("column factor %ld is %.15g, should be %.15Lg", j, w->xequil[j], F.x[j]); }
  for (long i = 0; i < P.p; i++) if (!(w->Aequil[i] > 0) || !eq(w->Aequil[i], F.a[i])) e = fmt("factor of equality row %ld is %.15g, should be %.15Lg", i, w->Aequil[i], F.a[i]);
  for (long i = 0; i < P.m; i++) if (!(w->Gequil[i] > 0) || !eq(w->Gequil[i], F.g[i])) e = fmt("factor of row %ld is %.15g, should be %.15Lg", i, w->Gequil[i], F.g[i]);
  long k = P.l; auto grp = [&](long q) { for (long i = 1; i < q; i++) if (w->Gequil[k + i] != w->Gequil[k]) e = "rows of one cone have different factors"; k += q; }; for (auto q : P.q) grp(q); for (int x = 0; x < P.nex; x++) grp(3);
  if (!e.empty()) return e;
  auto mat = [&](spmat *s, const CCS &c, const double *r, const char *nm) { if (!s) return; for (long j = 0; j < P.n; j++) for (long q = c.jc[j]; q < c.jc[j + 1]; q++) { if (s->jc[j] != c.jc[j] || s->ir[q] != c.ir[q]) e = "scaling changed the pattern"; ld ref = (ld)c.pr[q] / ((ld)r[c.ir[q]] * w->xequil[j]); if (!eq(s->pr[q], ref)) e = fmt("scaled entry (%ld,%ld) of %s is %.15g, should be %.15Lg", (long)c.ir[q], j, nm, s->pr[q], ref); } };
  mat(w->G, D0.G, w->Gequil, "G"); mat(w->A, D0.A, w->Aequil, "A");
  for (long i = 0; i < P.m; i++) if (!eq(w->h[i], (ld)P.h[i] / w->Gequil[i])) e = fmt("scaled h[%ld] is %.15g", i, w->h[i]); for (long i = 0; i < P.p; i++) if (!eq(w->b[i], (ld)P.b[i] / w->Aequil[i])) e = fmt("scaled b[%ld] is %.15g", i, w->b[i]);
  return e;
}
static std::string restored(const Data &D, const Data &D0) { auto cmp = [](const V &a, const V &b) { for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false; return true; }; if (!cmp(D.G.pr, D0.G.pr)) return "G not restored: " + vs(D.G.pr); if (!cmp(D.A.pr, D0.A.pr)) return "A not restored: " + vs(D.A.pr); if (!cmp(D.h, D0.h)) return "h not restored: " + vs(D.h); if (!cmp(D.b, D0.b)) return "b not restored: " + vs(D.b); if (!cmp(D.c, D0.c)) return "c not restored"; if (D.G.jc != D0.G.jc || D.G.ir != D0.G.ir || D.A.jc != D0.A.jc || D.A.ir != D0.A.ir) return "pattern changed"; return ""; }
void vf::explore(Run &R) {
  int T = R.thorough; struct Sh { int n, p, l; std::vector<idxint> q; int nex; int na; };
  std::vector<Sh> S = {{1, 0, 1, {}, 0, 8}, {1, 1, 2, {}, 0, 8}, {2, 0, 1, {}, 0, 8}, {2, 0, 2, {}, 0, 8}, {2, 1, 1, {}, 0, 8}, {1, 0, 0, {2}, 0, 8}, {2, 0, 0, {2}, 0, 8}, {2, 0, 1, {2}, 0, 5}, {1, 0, 0, {}, 1, 8}, {2, 0, 0, {}, 1, 5}, {2, 1, 0, {2}, 0, 5}, {1, 0, 1, {2}, 1, 5}, {1, 0, 0, {1, 2}, 0, 8}, {1, 0, 0, {}, 2, 4}, {1, 1, 0, {3}, 0, 8}, {2, 2, 2, {}, 0, 4}, {3, 0, 2, {}, 0, 5}, {1, 0, 2, {2, 2}, 0, 4}};
  if (T) for (auto &x : std::vector<Sh>{{2, 2, 2, {}, 0, 5}, {2, 0, 1, {2}, 0, 8}, {3, 1, 2, {}, 0, 4}, {2, 0, 0, {}, 1, 8}, {1, 0, 1, {2}, 1, 8}, {1, 0, 0, {}, 2, 8}, {2, 0, 2, {2}, 0, 5}, {3, 0, 0, {3}, 0, 5}, {1, 1, 1, {2}, 1, 6}, {2, 0, 0, {2, 2}, 0, 5}}) S.push_back(x);
  static const double al[8] = {0, 1, -1e4, 2e-3, 7e-9, -3e7, 1.5e-6, -0.25};
  for (auto &s : S) { Prob P; P.n = s.n; P.p = s.p; P.l = s.l; P.q = s.q; P.nex = s.nex; P.m = s.l + 3 * s.nex; for (auto q : s.q) P.m += q; P.G.resize(P.m * P.n); P.A.resize(P.p * P.n); P.h.resize(P.m); P.b.resize(P.p); P.c.resize(P.n); for (long i = 0; i < P.m; i++) P.h[i] = 1 + 3 * i; for (long i = 0; i < P.p; i++) P.b[i] = -2 + i * 5; for (long i = 0; i < P.n; i++) P.c[i] = 1 - 2 * i;
    int N = P.G.size() + P.A.size(); Odo o(std::vector<int>(N, s.na));
    while (!o.done) { bool run = R.want(); if (R.stopped) return; std::string e;
      for (int c = 0; c < 64 && !o.done; c++, o.next()) { if (!run || !e.empty()) continue; bool diff = false; for (int i = 0; i < N; i++) { double v = al[o.d[i]]; (i < (int)P.G.size() ? P.G[i] : P.A[i - P.G.size()]) = v; if (v != 0 && fabs(v) != 1) diff = true; }
        for (int kz = 0; kz < 2 && e.empty(); kz++) { bool hz = false; for (int i = 0; i < N; i++) hz |= o.d[i] == 0; if (kz && !hz) continue; if (!kz && std::all_of(P.G.begin(), P.G.end(), [](double v) { return v == 0; })) { /* G without entries is still given as a matrix */ }
          Data D(P, kz), D0(P, kz); R.evals++; env::reset(); pwork *w = setup(D); if (!w) { e = "setup failed"; break; }
          e = scaled(w, P, D0, kz); if (e == "?") { R.outcome("threshold too close to call"); e = ""; ECOS_cleanup(w, 0); continue; }
          // a point of the scaled problem, mapped back
          if (e.empty()) { V x(P.n), y(P.p), z(P.m), t(P.m); w->tau = 0.7; for (long j = 0; j < P.n; j++) { w->x[j] = x[j] = 1.5 - j; w->c[j] /= w->xequil[j]; } for (long i = 0; i < P.p; i++) w->y[i] = y[i] = 2 - 3 * i; for (long i = 0; i < P.m; i++) { w->z[i] = z[i] = 1 + i; w->s[i] = t[i] = 2.5 - i; } V gx(P.m, 0);
            for (long j = 0; j < P.n; j++) for (long q = D.G.jc[j]; q < D.G.jc[j + 1]; q++) { gx[D.G.ir[q]] += D.G.pr[q] * x[j]; } V sg(w->Gequil, w->Gequil + P.m); backscale(w); R.transitions++;
            for (long j = 0; j < P.n; j++) if (!eq(w->x[j], (ld)x[j] / (w->xequil[j] * 0.7L))) e = "x not mapped back"; for (long i = 0; i < P.p; i++) if (!eq(w->y[i], (ld)y[i] / (w->Aequil[i] * 0.7L))) e = "y not mapped back"; for (long i = 0; i < P.m; i++) { if (!eq(w->z[i], (ld)z[i] / (sg[i] * 0.7L))) e = "z not mapped back"; if (!eq(w->s[i], (ld)t[i] * sg[i] / 0.7L)) e = "s not mapped back"; }
            // residuals of the two problems correspond: (G x + s) scales with the row factor
            for (long i = 0; i < P.m && e.empty(); i++) { ld v = w->s[i], mag = fabsl((ld)w->s[i]); for (long j = 0; j < P.n; j++) for (long q = D0.G.jc[j]; q < D0.G.jc[j + 1]; q++) if (D0.G.ir[q] == i) { v += (ld)D0.G.pr[q] * w->x[j]; mag += fabsl((ld)D0.G.pr[q] * w->x[j]); } ld ref = ((ld)gx[i] + t[i]) * sg[i] / 0.7L; if (fabsl(v - ref) > 1e-12L * mag + 1e-14L * sg[i] * 10) e = "the residual of a constraint row does not correspond to the scaled one"; } }
          // second data set with the same pattern (entries permuted and rescaled), then back
          if (e.empty() && kz == 0) { Prob Q = P; for (auto &v : Q.G) v *= v > 0 ? 30 : -0.01; for (auto &v : Q.A) v *= 200; for (auto &v : Q.h) v += 0.5; Data E(Q), E0(Q); ECOS_updateData(w, E.G.pr.data(), P.p ? E.A.pr.data() : nullptr, E.c.data(), E.h.data(), P.p ? E.b.data() : nullptr); R.transitions++;
            e = restored(D, D0); if (!e.empty()) e = "after the update of the data the old arrays: " + e; else { e = scaled(w, Q, E0, kz); if (e == "?") e = ""; if (!e.empty()) e = "after an update: " + e; }
            if (e.empty()) { ECOS_updateData(w, D.G.pr.data(), P.p ? D.A.pr.data() : nullptr, D.c.data(), D.h.data(), P.p ? D.b.data() : nullptr); e = restored(E, E0); if (e.empty()) { Prob P2 = P; P2.G.assign(P.G.size(), 0); for (long j = 0; j < P.n; j++) for (long q = D0.G.jc[j]; q < D0.G.jc[j + 1]; q++) P2.G[D0.G.ir[q] * P.n + j] = D0.G.pr[q]; e = scaled(w, P2, D0, kz); if (e == "?") e = ""; } if (!e.empty()) e = "after an update back: " + e; } }
          ECOS_cleanup(w, 0); R.transitions++; if (e.empty()) { e = restored(D, D0); if (!e.empty()) e = "after cleanup: " + e; } if (!env::heap_error.empty() && e.empty()) e = env::heap_error; }
        if (diff) R.nontriv(hmix(P.hash(), s.na)); if (!e.empty()) e += "  " + P.str(); }
      if (run) { R.outcome(fmt("n=%d p=%d l=%d q=%s nex=%d", s.n, s.p, s.l, vs(s.q).c_str(), s.nex)); R.sample(P.str()); if (!e.empty()) { R.fail(e); if (R.stopped) return; } } } }
}
