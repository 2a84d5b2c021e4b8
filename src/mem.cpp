// Life cycles of a workspace under a guarded heap.
// MODE 1: C09 no invalid access (also under ASAN/UBSAN), no leak, no dependence on the contents of fresh memory.
// MODE 2: C08 the caller's arrays: index arrays never written, values given back by cleanup and by updates, kept vectors intact.
#ifndef MODE
#define MODE 1
#endif
#include "zoo.hpp"
#include "conefam.hpp"
using namespace vf;
extern "C" { void *vf_malloc(size_t); void vf_free(void *); }
// the caller's arrays, each an exactly sized heap block with guards
template <class T> static T *arr(const std::vector<T> &v) { T *p = (T *)vf_malloc(v.size() * sizeof(T)); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
struct User { double *Gpr, *Apr, *c, *h, *b; idxint *Gjc, *Gir, *Ajc, *Air, *q; long n, m, p, l, nq, nex; CCS G0, A0; Prob P;
  User(const Prob &P, int nulls) : n(P.n), m(P.m), p(P.p), l(P.l), nq(P.q.size()), nex(P.nex), G0(ccs(P.G, P.m, P.n)), A0(ccs(P.A, P.p, P.n)), P(P) {
    bool noG = m == 0 && (nulls & 1), noA = p == 0 && (nulls & 2);
    Gpr = noG ? nullptr : arr(G0.pr); Gjc = noG ? nullptr : arr(G0.jc); Gir = noG ? nullptr : arr(G0.ir); Apr = noA ? nullptr : arr(A0.pr); Ajc = noA ? nullptr : arr(A0.jc); Air = noA ? nullptr : arr(A0.ir);
    c = arr(P.c); h = m ? arr(P.h) : nullptr; b = p ? arr(P.b) : nullptr; q = nq ? arr(P.q) : nullptr; }
  ~User() { for (void *x : {(void *)Gpr, (void *)Apr, (void *)c, (void *)h, (void *)b, (void *)Gjc, (void *)Gir, (void *)Ajc, (void *)Air, (void *)q}) vf_free(x); }
  pwork *setup() { return ECOS_setup(n, m, p, l, nq, q, nex, Gpr, Gjc, Gir, Apr, Ajc, Air, c, h, b); }
  bool index_same() { for (size_t i = 0; i < G0.jc.size(); i++) if (Gjc && Gjc[i] != G0.jc[i]) return false; for (size_t i = 0; i < G0.ir.size(); i++) if (Gir && Gir[i] != G0.ir[i]) return false; for (size_t i = 0; i < A0.jc.size(); i++) if (Ajc && Ajc[i] != A0.jc[i]) return false; for (size_t i = 0; i < A0.ir.size(); i++) if (Air && Air[i] != A0.ir[i]) return false; for (long i = 0; i < nq; i++) if (q[i] != P.q[i]) return false; return true; }
  std::string given_back() {
    auto cmp = [](const double *a, const std::vector<double> &b, const char *w) -> std::string { for (size_t i = 0; i < b.size(); i++) if (a && std::isfinite(b[i]) && fabs(b[i]) < 1e100 && !(fabs(a[i] - b[i]) <= 1e-11 * fabs(b[i]))) return fmt("after cleanup the caller's %s[%zu] is %.17g, was %.17g", w, i, a[i], b[i]); return ""; };
    std::string e; if (!index_same()) return "the caller's index arrays were changed";
    if (!(e = cmp(Gpr, G0.pr, "G")).empty() || !(e = cmp(Apr, A0.pr, "A")).empty() || !(e = cmp(c, P.c, "c")).empty() || !(e = cmp(h, P.h, "h")).empty() || !(e = cmp(b, P.b, "b")).empty()) return e; return ""; }
};
static void rec(std::vector<uint64_t> &o, const double *v, long n) { for (long i = 0; i < n; i++) { uint64_t u; double d = v[i]; if (d != d) d = NAN; memcpy(&u, &d, 8); o.push_back(u & ~(d != d ? 1ull << 63 : 0)); } }
struct Script { const char *name; int solves, keep, maxit, upd; double eps; };
static const Script SC[] = {{"setup, cleanup", 0, 0, 100, 0, -1}, {"setup, solve, cleanup", 1, 0, 100, 0, -1}, {"setup, solve, solve, cleanup keeping x", 2, 1, 100, 0, -1}, {"setup, solve, cleanup keeping x,y", 1, 2, 100, 0, -1}, {"setup, solve, cleanup keeping x,y,s", 1, 3, 100, 0, -1}, {"setup, solve, cleanup keeping x,y,s,z", 1, 4, 100, 0, -1}, {"setup, solve with maxit 0, cleanup", 1, 0, 0, 0, -1}, {"setup, solve with maxit 1, solve, cleanup", 2, 0, 1, 0, -1}, {"setup, update, solve, cleanup", 1, 0, 100, 1, -1}, {"setup, solve, entry updates, solve, cleanup", 2, 0, 100, 2, -1}, {"setup, solve without regularisation, cleanup", 1, 0, 100, 0, 0}, {"setup, update, update back, solve, cleanup", 1, 0, 100, 3, -1}, {"setup, solve, rewrite in place, update, solve, cleanup", 2, 0, 100, 4, -1}};
static const int NSC = sizeof SC / sizeof *SC;
// runs one life cycle; observations go to o
static std::string life(const Prob &P, int nulls, const Script &S, std::vector<uint64_t> &o, int verbose, bool hostile, std::string &codes) {
  std::string e; long base = env::live_blocks; codes.clear();
  { User U(P, nulls); User U2(P, nulls); long mine = env::live_blocks;
    pwork *w = U.setup(); if (!w) return "setup refused a valid problem";
    w->stgs->verbose = verbose; w->stgs->maxit = S.maxit; if (S.eps >= 0) w->stgs->eps = w->stgs->delta = S.eps;
    if (S.upd == 1) ECOS_updateData(w, U2.Gpr, U2.Apr, U2.c, U2.h, U2.b);
    if (S.upd == 3) { ECOS_updateData(w, U2.Gpr, U2.Apr, U2.c, U2.h, U2.b); if (MODE == 2 && !hostile) e = U.given_back(); if (!e.empty()) e = "(update) " + e; ECOS_updateData(w, U.Gpr, U.Apr, U.c, U.h, U.b); }
    for (int k = 0; k < S.solves && e.empty(); k++) {
      if (S.upd == 4 && k) { auto put = [](double *d, const std::vector<double> &v) { if (d) for (size_t i = 0; i < v.size(); i++) d[i] = v[i]; }; put(U.Gpr, U.G0.pr); put(U.Apr, U.A0.pr); put(U.c, P.c); put(U.h, P.h); put(U.b, P.b); ECOS_updateData(w, U.Gpr, U.Apr, U.c, U.h, U.b); }
      if (S.upd == 2 && k) { for (long i = 0; i < w->m; i++) ecos_updateDataEntry_h(w, i, P.h[i]); for (long i = 0; i < w->n; i++) ecos_updateDataEntry_c(w, i, P.c[i]); }
      long code = ECOS_solve(w); codes += std::string(" ") + codename(code); o.push_back(code); rec(o, w->x, w->n); rec(o, w->y, w->p); rec(o, w->z, w->m); rec(o, w->s, w->m); o.push_back(w->info->iter); double inf[] = {w->info->pcost, w->info->dcost, w->info->pres, w->info->dres, w->info->gap, w->info->relgap, w->info->mu, w->info->kapovert, (double)w->info->pinf, (double)w->info->dinf, w->info->pinfres, w->info->dinfres}; rec(o, inf, 12);
    }
    double *kept[4] = {w->x, w->y, w->s, w->z}; long sz[4] = {w->n, w->p, w->m, w->m}; std::vector<double> before[4]; for (int i = 0; i < S.keep; i++) before[i].assign(kept[i], kept[i] + sz[i]);
    ECOS_cleanup(w, S.keep);
    for (int i = 0; i < S.keep; i++) { if (sz[i] && memcmp(before[i].data(), kept[i], sz[i] * sizeof(double))) e = "a vector the caller kept was changed by cleanup"; vf_free(kept[i]); }
#if MODE == 2
    if (e.empty()) e = hostile ? (U.index_same() && U2.index_same() ? "" : "the caller's index arrays were changed") : U.given_back(); if (e.empty() && !hostile) e = U2.given_back();
#else
    e.clear();
    if (env::live_blocks != mine) e = fmt("%ld memory blocks leaked", env::live_blocks - mine);
    env::heap_check_all(); if (e.empty() && !env::heap_error.empty()) e = env::heap_error;
#endif
  }
  if (MODE == 1 && e.empty() && !env::heap_error.empty()) e = env::heap_error;
  if (MODE == 1 && e.empty() && env::live_blocks != base) e = "caller's blocks miscounted";
  return e;
}
void vf::explore(Run &R) {
  auto one = [&](const Prob &P, int nulls, bool hostile, const char *fam) {
    for (int sc = 0; sc < NSC; sc++) {
      if (hostile && SC[sc].keep > 1 && MODE == 1) continue;
      if (!R.want()) { if (R.stopped) return false; continue; }
      std::vector<uint64_t> o[3]; std::string codes, c2; static const int fills[3] = {0xFF, 0x00, 0x3E}; std::string e;
#if defined(VF_ASAN) || MODE == 2
      int nf = 1;
#else
      int nf = 3;
#endif
      for (int f = 0; f < nf && e.empty(); f++) { env::reset(); env::fill = fills[f]; e = life(P, nulls, SC[sc], o[f], f == 2 ? 1 : 0, hostile, c2); if (f == 0) codes = c2; R.evals++; R.alive(); if (e.empty() && f && o[f] != o[0]) e = fmt("the result depends on the contents of fresh memory (%s / %s)", codes.c_str(), c2.c_str()); }
      R.outcome(std::string(fam) + ":" + codes); if (codes.size()) R.nontriv(hmix(hmix(P.hash(), sc), nulls));
      R.sample(std::string(SC[sc].name) + " ->" + codes + ": " + P.str());
      if (!e.empty()) { R.fail(e + "  in: " + SC[sc].name + " (" + fam + ") " + P.str()); return false; }
    }
    return true;
  };
  for (auto &z : zoo()) for (int v = 0; v < 3; v++) if (!one(z.v[v], 3, false, "zoo") && R.stopped) return;
  // extreme shapes, sparse patterns with empty rows and columns, absent matrices
  std::vector<std::vector<idxint>> qs = {{}, {1}, {2}, {3}, {1, 2}, {2, 2}, {4}};
  for (int n = 0; n <= 3; n++) for (int p = 0; p <= 2; p++) for (int l = 0; l <= 2; l++) for (auto &q : qs) for (int nex = 0; nex <= 2; nex++) for (int pat = 0; pat < 6; pat++) for (int nulls = 0; nulls < 4; nulls++) {
    Shape S{l, q, nex, n, p}; if ((S.m() && (nulls & 1)) || (p && (nulls & 2))) continue;
    if (!R.thorough && (n + 2 * p + l + nex + pat + (int)q.size()) % 2 && n > 1) continue;
    Prob P = shell(S); for (size_t k = 0; k < P.G.size(); k++) P.G[k] = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (k % 3 == 0) : pat == 3 ? -(double)((k / (n ? n : 1)) == 0) : pat == 4 ? ((k % (n ? n : 1)) == 0) : (double)((k * 7 + 3) % 5) - 2;
    for (size_t k = 0; k < P.A.size(); k++) P.A[k] = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (k % 2) : (double)((k * 5 + 1) % 4) - 1;
    for (int i = 0; i < n; i++) P.c[i] = pat == 0 ? 0 : i - 0.5; for (int i = 0; i < P.m; i++) P.h[i] = pat == 4 ? 0 : (i % 3) - (pat == 3); for (int i = 0; i < p; i++) P.b[i] = i;
    if (!one(P, nulls, false, "shapes") && R.stopped) return;
  }
  // hostile numbers in one position
  static const double bad[] = {INFINITY, -INFINITY, NAN, 1e300, -1e300, 1e-300, 1e160, 1e-160, 5e-324, -0.0};
  for (auto &z : zoo()) { const Prob &B = z.v[0]; std::vector<std::pair<int, int>> pos; for (size_t i = 0; i < B.G.size(); i++) if (B.G[i]) pos.push_back({0, (int)i}); for (size_t i = 0; i < B.A.size(); i++) if (B.A[i]) pos.push_back({1, (int)i}); for (size_t i = 0; i < B.c.size(); i++) pos.push_back({2, (int)i}); for (size_t i = 0; i < B.h.size(); i++) pos.push_back({3, (int)i}); for (size_t i = 0; i < B.b.size(); i++) pos.push_back({4, (int)i});
    for (auto &ps : pos) for (double v : bad) { Prob P = B; std::vector<double> *t[5] = {&P.G, &P.A, &P.c, &P.h, &P.b}; (*t[ps.first])[ps.second] = v; if (!one(P, 3, true, "hostile numbers") && R.stopped) return; } }
#if MODE == 2   // every number in turn of an extreme but finite magnitude
  static const double big[] = {1e8, 1e-8, 1e14, 1e-14, 1e30, 1e-30, 1e60, 1e-60, 3};
  for (auto &z : zoo()) for (int v3 = 0; v3 < (R.thorough ? 3 : 1); v3++) { const Prob &B = z.v[v3]; for (int which = 0; which < 5; which++) for (size_t i = 0;; i++) { Prob P0 = B; std::vector<double> *t0[5] = {&P0.G, &P0.A, &P0.c, &P0.h, &P0.b}; if (i >= t0[which]->size()) break; if (which < 2 && !(*t0[which])[i]) continue; for (double v : big) { Prob P = B; std::vector<double> *t[5] = {&P.G, &P.A, &P.c, &P.h, &P.b}; (*t[which])[i] *= v; if (which > 1 && !(*t[which])[i]) (*t[which])[i] = v; if (!one(P, 3, false, "scaled numbers") && R.stopped) return; } } }
#endif
  // refused setups must not leak
  for (int dm = -2; dm <= 2; dm++) for (auto &z : zoo()) { if (!dm) continue; if (!R.want()) { if (R.stopped) return; continue; }
    User U(z.v[0], 3); long mine = env::live_blocks; if (U.m + dm < 0) continue; U.m += dm; pwork *w = U.setup(); U.m -= dm; R.evals++;
    if (w) { R.fail("setup accepted cone dimensions that do not add up to m"); return; } if (env::live_blocks != mine) { R.fail(fmt("a refused setup leaked %ld memory blocks  %s", env::live_blocks - mine, z.v[0].str().c_str())); return; } R.outcome("refused setup"); }
  // duplicate entries in a column (not a legal matrix): accepted or refused, but never a leak or bad access
  for (auto &z : zoo()) for (int which = 0; which < 2; which++) for (int col = 0; col < z.v[0].n; col++) { if (!R.want()) { if (R.stopped) return; continue; }
    User U(z.v[0], 3); CCS c = which ? U.A0 : U.G0; if ((which ? U.p : U.m) == 0 || c.jc[col + 1] == c.jc[col]) continue; long k = c.jc[col]; c.ir.insert(c.ir.begin() + k, c.ir[k]); c.pr.insert(c.pr.begin() + k, c.pr[k]); for (long j = col + 1; j <= U.n; j++) c.jc[j]++;
    double *pr = arr(c.pr); idxint *jc = arr(c.jc), *ir = arr(c.ir); long mine = env::live_blocks; R.evals++;
    pwork *w = which ? ECOS_setup(U.n, U.m, U.p, U.l, U.nq, U.q, U.nex, U.Gpr, U.Gjc, U.Gir, pr, jc, ir, U.c, U.h, U.b) : ECOS_setup(U.n, U.m, U.p, U.l, U.nq, U.q, U.nex, pr, jc, ir, U.Apr, U.Ajc, U.Air, U.c, U.h, U.b);
    R.outcome(w ? "duplicate entry accepted" : "duplicate entry refused"); if (w) { w->stgs->verbose = 0; ECOS_solve(w); ECOS_cleanup(w, 0); }
    bool idx = !memcmp(jc, c.jc.data(), c.jc.size() * sizeof(idxint)) && !memcmp(ir, c.ir.data(), c.ir.size() * sizeof(idxint)); bool val = true; for (size_t i = 0; i < c.pr.size(); i++) val &= fabs(pr[i] - c.pr[i]) <= 1e-11 * fabs(c.pr[i]);
    std::string e; if (env::live_blocks != mine) e = fmt("%ld memory blocks leaked", env::live_blocks - mine); else if (!env::heap_error.empty()) e = env::heap_error; else if (!idx || !val) e = "the caller's matrix was changed";
    vf_free(pr); vf_free(jc); vf_free(ir); if (!e.empty()) { R.fail(std::string("matrix with a duplicate entry (") + (w ? "accepted" : "refused") + "): " + e + fmt("  column %d of %s in ", col, which ? "A" : "G") + z.v[0].str()); return; } }
}
