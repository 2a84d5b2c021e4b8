// Life cycles of a mixed-integer workspace under a guarded heap.
// MODE 1 (C09): no invalid access, no leak, no dependence on fresh memory.  MODE 2 (C08): the caller's arrays.
#ifndef MODE
#define MODE 1
#endif
#include "bb.hpp"
using namespace vf;
extern "C" { void *vf_malloc(size_t); void vf_free(void *); }
template <class T> static T *arr(const std::vector<T> &v) { T *p = (T *)vf_malloc(v.size() * sizeof(T)); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
struct User { double *Gpr, *Apr, *c, *h, *b; idxint *Gjc, *Gir, *Ajc, *Air, *q, *bl, *il; long n, m, p, l, nq, nex; CCS G0, A0; BProb B;
  User(const BProb &B) : n(B.P.n), m(B.P.m), p(B.P.p), l(B.P.l), nq(B.P.q.size()), nex(B.P.nex), G0(ccs(B.P.G, B.P.m, B.P.n)), A0(ccs(B.P.A, B.P.p, B.P.n)), B(B) {
    Gpr = arr(G0.pr); Gjc = arr(G0.jc); Gir = arr(G0.ir); bool noA = p == 0; Apr = noA ? nullptr : arr(A0.pr); Ajc = noA ? nullptr : arr(A0.jc); Air = noA ? nullptr : arr(A0.ir);
    c = arr(B.P.c); h = arr(B.P.h); b = p ? arr(B.P.b) : nullptr; q = nq ? arr(B.P.q) : nullptr; bl = B.bl.empty() ? nullptr : arr(B.bl); il = B.il.empty() ? nullptr : arr(B.il); }
  ~User() { for (void *x : {(void *)Gpr, (void *)Apr, (void *)c, (void *)h, (void *)b, (void *)Gjc, (void *)Gir, (void *)Ajc, (void *)Air, (void *)q, (void *)bl, (void *)il}) vf_free(x); }
  ecos_bb_pwork *setup(settings_bb *st) { return ECOS_BB_setup(n, m, p, l, nq, q, nex, Gpr, Gjc, Gir, Apr, Ajc, Air, c, h, b, B.bl.size(), bl, B.il.size(), il, st); }
  std::string given_back(bool running = false) {
    auto same = [](const idxint *a, const std::vector<idxint> &b) { for (size_t i = 0; i < b.size(); i++) if (a && a[i] != b[i]) return false; return true; };
    if (!same(Gjc, G0.jc) || !same(Gir, G0.ir) || !same(Ajc, A0.jc) || !same(Air, A0.ir) || !same(q, B.P.q) || !same(bl, B.bl) || !same(il, B.il)) return "the caller's index arrays were changed";
    auto cmp = [](const double *a, const std::vector<double> &b, double tol, const char *w) -> std::string { for (size_t i = 0; i < b.size(); i++) if (a && !(fabs(a[i] - b[i]) <= tol * fabs(b[i]))) return fmt("the caller's %s[%zu] is %.17g, was %.17g", w, i, a[i], b[i]); return ""; };
    std::string e; if (!(e = cmp(Gpr, G0.pr, 0, "G")).empty() || !(e = cmp(h, B.P.h, 0, "h")).empty()) return e;
    if (!running) if (!(e = cmp(Apr, A0.pr, 1e-11, "A")).empty() || !(e = cmp(c, B.P.c, 1e-11, "c")).empty() || !(e = cmp(b, B.P.b, 1e-11, "b")).empty()) return "after cleanup " + e;
    return ""; }
};
static void rec(std::vector<uint64_t> &o, const double *v, long n) { for (long i = 0; i < n; i++) { uint64_t u; double d = v[i]; if (d != d) d = NAN; memcpy(&u, &d, 8); o.push_back(u & ~(d != d ? 1ull << 63 : 0)); } }
struct Script { const char *name; int solves, keep, maxit, strat, upd, relax; };   // maxit < 0: default settings (NULL); relax: iteration limit of the relaxations
static const Script SC[] = {{"setup, cleanup", 0, 0, -1, 0, 0, 0}, {"setup with default settings, solve, cleanup", 1, 0, -1, 0, 0, 0}, {"setup, solve twice, cleanup keeping x", 2, 1, 300, 3, 0, 0}, {"most infeasible, keeping x,y", 1, 2, 300, 0, 0, 0}, {"strong branching, keeping x,y,s", 1, 3, 300, 1, 0, 0}, {"pseudocost branching, keeping x,y,s,z", 1, 4, 300, 2, 0, 0}, {"random branching", 1, 0, 300, 4, 0, 0}, {"memory for 1 node", 2, 0, 1, 3, 0, 0}, {"memory for 2 nodes", 1, 0, 2, 3, 0, 0}, {"memory for 3 nodes, strong", 1, 0, 3, 1, 0, 0}, {"maxit 0", 2, 0, 0, 3, 0, 0}, {"memory for 4 nodes, limit raised after setup", 2, 0, 4, 3, 2, 0}, {"solve, entry updates, solve", 2, 0, 300, 3, 1, 0}, {"relaxations limited to 3 iterations", 1, 0, 30, 3, 0, 3}, {"relaxations limited to 0 iterations", 1, 0, 30, 0, 0, 1}};
static const int NSC = sizeof SC / sizeof *SC;
static long draws; static int draw() { return (int)((draws++ * 1103515245ull + 12345) / 65536 % RAND_MAX); }
static std::string life(const BProb &B, const Script &S, int sel, std::vector<uint64_t> &o, std::string &codes) {
  std::string e; long base = env::live_blocks; codes.clear(); draws = 0; env::rand_hook = draw;
  { User U(B); long mine = env::live_blocks;
    settings_bb st; memset(&st, 0, sizeof st); st.maxit = S.maxit; st.abs_tol_gap = MI_ABS_EPS; st.rel_tol_gap = MI_REL_EPS; st.integer_tol = MI_INT_TOL; st.reliable_eta = 1; st.branching_strategy = (enum BRANCHING_STRATEGY)S.strat; st.node_selection_method = (enum NODE_SELECTION_METHOD)sel; settings_bb keep_st = st;
    ecos_bb_pwork *w = U.setup(S.maxit < 0 ? nullptr : &st); if (!w) return "setup refused a valid problem";
    if (S.relax) w->ecos_stgs->maxit = S.relax == 1 ? 0 : S.relax; if (S.maxit < 0) w->stgs->verbose = 0; if (S.upd == 2) w->stgs->maxit = keep_st.maxit = 1000;
    for (int k = 0; k < S.solves && e.empty(); k++) {
      if (S.upd == 1 && k) { for (long i = 0; i < B.P.m; i++) updateDataEntry_h(w, i, B.P.h[i]); for (long i = 0; i < B.P.n; i++) updateDataEntry_c(w, i, B.P.c[i]); }
      long code = ECOS_BB_solve(w); codes += std::string(" ") + bbname(code); pwork *q = w->ecos_prob; o.push_back(code); o.push_back(w->iter); rec(o, w->x, q->n); rec(o, q->x, q->n); rec(o, q->y, q->p); rec(o, q->z, q->m); rec(o, q->s, q->m); double inf[] = {w->info->pcost, w->info->dcost, w->info->pres, w->info->dres, w->info->gap, w->global_L, w->global_U, q->info->pcost}; rec(o, inf, 8);
      if (MODE == 2) e = U.given_back(true);
    }
    double *kept[4] = {w->ecos_prob->x, w->ecos_prob->y, w->ecos_prob->s, w->ecos_prob->z}; long sz[4] = {w->ecos_prob->n, w->ecos_prob->p, w->ecos_prob->m, w->ecos_prob->m}; std::vector<double> before[4]; for (int i = 0; i < S.keep; i++) before[i].assign(kept[i], kept[i] + sz[i]);
    ECOS_BB_cleanup(w, S.keep);
    for (int i = 0; i < S.keep; i++) { if (sz[i] && memcmp(before[i].data(), kept[i], sz[i] * sizeof(double))) e = "a vector the caller kept was changed by cleanup"; vf_free(kept[i]); }
    if (MODE == 2) { if (e.empty()) e = U.given_back(); if (e.empty() && memcmp(&st, &keep_st, sizeof st)) e = "the caller's settings were changed"; }
    else { e.clear(); if (env::live_blocks != mine) e = fmt("%ld memory blocks leaked", env::live_blocks - mine); env::heap_check_all(); if (e.empty() && !env::heap_error.empty()) e = env::heap_error; }
  }
  env::rand_hook = nullptr;
  if (MODE == 1 && e.empty() && !env::heap_error.empty()) e = env::heap_error;
  if (MODE == 1 && e.empty() && env::live_blocks != base) e = "caller's blocks miscounted";
  return e;
}
void vf::explore(Run &R) {
  auto one = [&](const BProb &B, const char *fam) {
    for (int sc = 0; sc < NSC; sc++) {
      if (!R.want()) { if (R.stopped) return false; continue; }
      std::vector<uint64_t> o[3]; std::string codes, c2, e; static const int fills[3] = {0xFF, 0x00, 0x3E};
#if defined(VF_ASAN) || MODE == 2
      int nf = 1;
#else
      int nf = 3;
#endif
      for (int f = 0; f < nf && e.empty(); f++) { env::reset(); env::fill = fills[f]; e = life(B, SC[sc], R.mycase % 3, o[f], c2); if (f == 0) codes = c2; R.evals++; R.alive(); if (e.empty() && f && o[f] != o[0]) e = fmt("the result depends on the contents of fresh memory (%s / %s)", codes.c_str(), c2.c_str()); }
      R.outcome(std::string(fam) + ":" + codes); if (codes.size()) R.nontriv(hmix(B.hash(), sc)); R.sample(std::string(SC[sc].name) + " ->" + codes + ": " + B.str());
      if (!e.empty()) { R.fail(e + "  in: " + SC[sc].name + " (" + fam + ") " + B.str()); if (R.stopped) return false; }
    }
    return true;
  };
#ifdef VF_ASAN
  const int dens = 13;
#else
  const int dens = 7;
#endif
  // extreme shapes: no rows at all, no equality rows, empty columns, no integer variables, all integer, lists in reverse order
  std::vector<std::vector<idxint>> qs = {{}, {1}, {3}};
  for (int n = 1; n <= 3; n++) for (int p = 0; p <= 1; p++) for (int l = 0; l <= 2; l++) for (auto &q : qs) for (int nex = 0; nex <= 1; nex++) for (int pat = 0; pat < 4; pat++) for (Odo k(std::vector<int>(n, 3)); !k.done; k.next()) {
    if (!R.thorough && (l + 2 * pat + 3 * nex + 5 * (int)q.size() + k.d[0] + p) % dens) continue;
    BProb B; Prob &P = B.P; P.n = n; P.p = p; P.l = l; P.q = q; P.nex = nex; P.m = l + 3 * nex; for (auto x : q) P.m += x;
    P.G.assign(P.m * n, 0); P.h.assign(P.m, 0); P.A.assign(p * n, 0); P.b.assign(p, 0); P.c.assign(n, 0);
    for (size_t i = 0; i < P.G.size(); i++) P.G[i] = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? (double)((i * 7 + 3) % 5) - 2 : (i % 3 == 0);
    for (size_t i = 0; i < P.A.size(); i++) P.A[i] = pat == 0 ? 0 : 1; for (int i = 0; i < n; i++) P.c[i] = pat == 0 ? 0 : i % 2 ? 1.5 : -1; for (int i = 0; i < P.m; i++) P.h[i] = (i % 3) + 0.5 - (pat == 2); for (int i = 0; i < p; i++) P.b[i] = pat == 1 ? 1 : 0.5 * pat;
    for (int i = n - 1; i >= 0; i--) { if (k.d[i] == 0) B.bl.push_back(i); if (k.d[i] == 1) B.il.push_back(i), B.lo.push_back(0), B.hi.push_back(0); }
    if (!one(B, "shapes") && R.stopped) return;
  }
  long cnt = 0; if (!each_mip(-1, [&](auto mk, const char *kind) { cnt++; if (!R.thorough && cnt % (2 * dens + 1)) return true; return one(mk(), kind) || !R.stopped; })) return;
  // refused setups
  for (int dm = -1; dm <= 1; dm++) for (int def = 0; def < 2; def++) { if (!dm) continue; if (!R.want()) { if (R.stopped) return; continue; } std::string e;
    each_mip(-1, [&](auto mk, const char *) { BProb B = mk(); User U(B); long mine = env::live_blocks; if (U.l + dm < 0) return true; U.l += dm; settings_bb st; memset(&st, 0, sizeof st); st.maxit = 10; ecos_bb_pwork *w = U.setup(def ? nullptr : &st); R.evals++; U.l -= dm;
      if (w) { e = "setup accepted cone dimensions that do not add up"; return false; } if (env::live_blocks != mine) { e = fmt("a refused setup leaked %ld memory blocks", env::live_blocks - mine); return false; } if (MODE == 2) e = U.given_back(); return e.empty(); });
    R.outcome("refused setup"); if (!e.empty()) { R.fail(e); if (R.stopped) return; } }
}
