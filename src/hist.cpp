// C06: every sequence of workspace operations (solve, limited solve, interrupted solve, data updates of every kind)
// ends with a solve whose answer must be the answer of a fresh workspace for the data now in force.
#include "zoo.hpp"
#include <map>
#include <memory>
using namespace vf;
// SIGINT after a given number of basic blocks of the library
static uint64_t fire_at; static bool fired;
static void fire() { if (!fired && env::points >= fire_at) { fired = true; env::point_hook = nullptr; env::deliver_sigint(); } }
enum { SOLVE, LIMIT0, LIMIT3, SIGINT_EARLY, SIGINT_LATE, UPD_NEW, UPD_INPLACE, SET_H, SET_C, NOPS };
static const char *opn[] = {"solve", "solve with maxit 0", "solve with maxit 3", "solve interrupted at start", "solve interrupted half-way", "update to new arrays", "update in place", "update h entries", "update c entries"};
struct Ref { Sol s; uint64_t pts; };
static std::map<std::vector<int>, Ref> cache;    // (instance, G/A/b variant, c variant, h variant, maxit) -> fresh result
static Prob combine(const Zoo &z, int g, int c, int h) { Prob P = z.v[g]; P.c = z.v[c].c; P.h = z.v[h].h; return P; }
static Ref &ref(int zi, const Zoo &z, int g, int c, int h, int maxit) {
  auto k = std::vector<int>{zi, g, c, h, maxit}; auto it = cache.find(k); if (it != cache.end()) return it->second;
  Prob P = combine(z, g, c, h); uint64_t p0 = env::points; Sol s = solve_fresh(P, [&](pwork *w) { w->stgs->maxit = maxit; p0 = env::points; }); return cache[k] = {s, env::points - p0};
}
static std::string same(const Sol &a, const Sol &b, bool exact = true) {   // a: after a history, b: fresh
  if (a.code != b.code) return fmt("exit code %s, a fresh workspace gives %s", codename(a.code), codename(b.code));
  if (std::abs((long)a.info.iter - (long)b.info.iter) > (exact ? 1 : 6)) return fmt("%ld iterations, a fresh workspace takes %ld", (long)a.info.iter, (long)b.info.iter);
  if (a.code == 0) {
    if (!(fabs(a.info.pcost - b.info.pcost) <= 1e-6 * (1 + fabs(b.info.pcost)))) return fmt("primal cost %.12g, a fresh workspace gives %.12g", a.info.pcost, b.info.pcost);
    for (size_t i = 0; i < a.x.size(); i++) if (!(fabs(a.x[i] - b.x[i]) <= 1e-4 * (1 + fabs(b.x[i])))) return fmt("x[%zu]=%.12g, a fresh workspace gives %.12g", i, a.x[i], b.x[i]);
  }
  // (with exponential cones, intermediate iterates depend on accept/reject decisions that the rounding of the scaling can turn around)
  if (a.code < 0 && exact) for (size_t i = 0; i < a.x.size(); i++) if (!(fabs(a.x[i] - b.x[i]) <= 1e-4 * (1 + fabs(b.x[i]))) && !(std::isnan(a.x[i]) && std::isnan(b.x[i]))) return fmt("x[%zu]=%.12g after the iteration limit, a fresh workspace gives %.12g", i, a.x[i], b.x[i]);
  return "";
}
static uint64_t wstate(pwork *w, int g, int c, int h) {   // what later operations can depend on: data, iterate, flags
  uint64_t k = hmix(g * 9 + c * 3 + h, w->n); auto add = [&](const double *p, long n) { for (long i = 0; i < n; i++) k = hdbl(k, p[i]); };
  add(w->G->pr, w->G->nnz); if (w->A) add(w->A->pr, w->A->nnz); add(w->c, w->n); add(w->h, w->m); if (w->p) add(w->b, w->p); add(w->x, w->n); add(w->s, w->m); add(w->z, w->m); add(w->y, w->p); add(w->best_x, w->n); return hmix(k, w->stgs->maxit);
}
void vf::explore(Run &R) {
  int depth = R.thorough ? 6 : 5;     // operations before the final solve
  auto &Z = zoo();
  for (size_t zi = 0; zi < Z.size(); zi++) {
    const Zoo &z = Z[zi];
    for (Odo o(std::vector<int>(depth - 1, NOPS)); !o.done; o.next()) for (int last = 0; last < NOPS; last++) {
      if (!R.want()) { if (R.stopped) return; continue; }
      std::vector<int> ops = o.d; ops.push_back(last); ops.push_back(SOLVE);
      std::unique_ptr<Data> slot[3]; for (int i = 0; i < 3; i++) slot[i].reset(new Data(z.v[i]));
      int content[3] = {0, 1, 2};            // which variant's G/A/b each slot holds (as the user sees it)
      int cur = 0, vg = 0, vc = 0, vh = 0;
      long blocks = env::live_blocks;
      pwork *w = setup(*slot[0]); if (!w) { R.fail(std::string(z.name) + ": setup failed"); return; }
      std::string trace = z.name; std::string e;
      for (int op : ops) {
        trace += std::string("; ") + opn[op]; R.transitions++;
        int maxit = op == LIMIT0 ? 0 : op == LIMIT3 ? 3 : 100;
        if (op == UPD_NEW) {                  // next slot, untouched since it was last in use
          int nx = (cur + 1) % 3; Data &D = *slot[nx]; 
          int ng = content[nx];               // the slot's c and h are those of the variant it holds (rewritten below)
          D.c = z.v[ng].c; D.h = z.v[ng].h;   // c/h entries may have been changed through the entry updates: give the slot consistent values
          Data &old = *slot[cur]; Prob want = combine(z, vg, vc, vh);
          ECOS_updateData(w, D.G.pr.data(), D.p ? D.A.pr.data() : nullptr, D.c.data(), D.h.data(), D.p ? D.b.data() : nullptr);
          Data exp(want); auto cmp = [&](const std::vector<double> &a, const std::vector<double> &b, const char *what) { for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= 1e-9 * (1 + fabs(b[i])))) e = fmt("array %s that the update replaced is not given back with the caller's values: entry %zu is %.12g, should be %.12g", what, i, a[i], b[i]); };
          cmp(old.G.pr, exp.G.pr, "G"); cmp(old.A.pr, exp.A.pr, "A"); cmp(old.h, exp.h, "h"); cmp(old.b, exp.b, "b"); cmp(old.c, exp.c, "c");
          cur = nx; vg = vc = vh = ng;
        } else if (op == UPD_INPLACE) {       // the caller overwrites the arrays in use and announces it
          int ng = (vg + 1) % 3; Data fresh(z.v[ng]); Data &D = *slot[cur];
          std::copy(fresh.G.pr.begin(), fresh.G.pr.end(), D.G.pr.begin()); std::copy(fresh.A.pr.begin(), fresh.A.pr.end(), D.A.pr.begin()); std::copy(fresh.c.begin(), fresh.c.end(), D.c.begin()); std::copy(fresh.h.begin(), fresh.h.end(), D.h.begin()); std::copy(fresh.b.begin(), fresh.b.end(), D.b.begin());
          ECOS_updateData(w, D.G.pr.data(), D.p ? D.A.pr.data() : nullptr, D.c.data(), D.h.data(), D.p ? D.b.data() : nullptr);
          content[cur] = ng; vg = vc = vh = ng;
        } else if (op == SET_H) { vh = (vh + 1) % 3; for (long i = 0; i < w->m; i++) ecos_updateDataEntry_h(w, i, z.v[vh].h[i]);
        } else if (op == SET_C) { vc = (vc + 1) % 3; for (long i = 0; i < w->n; i++) ecos_updateDataEntry_c(w, i, z.v[vc].c[i]);
        } else {
          Ref &r = ref(zi, z, vg, vc, vh, maxit);
          Prob P = combine(z, vg, vc, vh); w->stgs->maxit = maxit; fired = true;
          if (op == SIGINT_EARLY || op == SIGINT_LATE) { fired = false; fire_at = env::points + (op == SIGINT_EARLY ? r.pts / 20 : r.pts / 2) + 1; env::point_hook = fire; }
          long code = ECOS_solve(w); env::point_hook = nullptr; Sol s = grab(w, code); w->stgs->maxit = 100; R.evals++;
          R.outcome(std::string(opn[op]) + " -> " + codename(code));
          if (op == SIGINT_EARLY || op == SIGINT_LATE) { if (code == -4) { if (!finite(s.x)) e = "interrupted solve left a point that is not finite"; } else { e = check_claim(P, s, 1e-5, 1e-5); if (e.empty() && code < 0) e = fmt("interrupted solve returned %s", codename(code)); } }
          else { e = same(s, r.s, !P.nex); if (e.empty() && code >= 0 && op == SOLVE) e = check_claim(P, s, 1e-5, 1e-5); }
        }
        if (!e.empty()) break;
        R.state(wstate(w, vg, vc, vh));
      }
      Prob P = combine(z, vg, vc, vh);
      if (!e.empty()) { R.fail(e + "  after: " + trace + "  data now: " + P.str()); ECOS_cleanup(w, 0); return; }
      Data exp(P); ECOS_cleanup(w, 0); Data &D = *slot[cur];
      auto cmp = [&](const std::vector<double> &a, const std::vector<double> &b, const char *what) { for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= 1e-9 * (1 + fabs(b[i])))) e = fmt("after cleanup the caller's %s[%zu] is %.12g, should be %.12g", what, i, a[i], b[i]); };
      cmp(D.G.pr, exp.G.pr, "G"); cmp(D.A.pr, exp.A.pr, "A"); cmp(D.h, exp.h, "h"); cmp(D.b, exp.b, "b"); cmp(D.c, exp.c, "c");
      if (env::live_blocks != blocks) e = fmt("%ld memory blocks leaked", env::live_blocks - blocks);
      if (!env::heap_error.empty()) e = env::heap_error;
      if (!e.empty()) { R.fail(e + "  after: " + trace); return; }
      R.sample(trace);
    }
  }
}
