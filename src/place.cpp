// Updates of single entries with every value that could be confused with a stored one, and whole updates with every relative
// placement of old and new arrays.  MODE 1 (C06): the next solve answers like a fresh workspace.  MODE 2 (C08): arrays are given back.
#include "zoo.hpp"
using namespace vf;
#ifndef MODE
#define MODE 1
#endif
static std::string same(const Sol &a, const Sol &b, bool exact) {
  if (a.code != b.code) return fmt("exit code %s, a fresh workspace gives %s", codename(a.code), codename(b.code));
  if (std::abs((long)a.info.iter - (long)b.info.iter) > (exact ? 1 : 6)) return fmt("%ld iterations, a fresh workspace takes %ld", (long)a.info.iter, (long)b.info.iter);
  if (a.code == 0) { if (!(fabs(a.info.pcost - b.info.pcost) <= 1e-6 * (1 + fabs(b.info.pcost)))) return fmt("primal cost %.12g, a fresh workspace gives %.12g", a.info.pcost, b.info.pcost);
    for (size_t i = 0; i < a.x.size(); i++) if (!(fabs(a.x[i] - b.x[i]) <= 1e-4 * (1 + fabs(b.x[i])))) return fmt("x[%zu]=%.12g, a fresh workspace gives %.12g", i, a.x[i], b.x[i]); }
  return "";
}
static std::string back(const double *a, const std::vector<double> &b, const char *what) { for (size_t i = 0; i < b.size(); i++) if (!(fabs(a[i] - b[i]) <= 1e-11 * fabs(b[i]))) return fmt("the caller's %s[%zu] is %.17g, should be %.17g", what, i, a[i], b[i]); return ""; }
enum { STORED, OTHER, SAME, ZERO, NEG, VARIANT, ONE, NKIND }; static const char *kn[] = {"the stored number", "the number stored next to it", "its old value", "0", "minus its old value", "the value of the next variant", "1"};
void vf::explore(Run &R) {
  auto &Z = zoo();
  for (size_t zi = 0; zi < Z.size(); zi++) for (int v = 0; v < 3; v++) {
    const Zoo &z = Z[zi]; const Prob &P0 = z.v[v]; int N = P0.m + P0.n;
    // two entry updates (of the same or different entries), before or after a first solve
    for (int pre = 0; pre < 2; pre++) for (int e1 = 0; e1 < N; e1++) for (int k1 = 0; k1 < NKIND; k1++) {
      if (!R.want()) { if (R.stopped) return; continue; }
      std::string e; int step = R.thorough ? 1 : 2;
      for (int e2 = (e1 + k1) % step; e2 < N && e.empty(); e2 += step) for (int k2 = 0; k2 < NKIND && e.empty(); k2++) {
        if (MODE == 2 && k2 != (e2 + k1) % NKIND) continue;
        env::reset(); Prob P = P0; Data D(P); pwork *w = setup(D); if (!w) { R.fail("setup failed"); return; } if (pre) ECOS_solve(w);
        std::string tr; auto put = [&](int i, int k) {
          bool h = i < P.m; int j = h ? i : i - P.m; long n = h ? P.m : P.n; double *st = h ? w->h : w->c; auto &cur = h ? P.h : P.c; const auto &nx = h ? z.v[(v + 1) % 3].h : z.v[(v + 1) % 3].c;
          double val = k == STORED ? st[j] : k == OTHER ? st[(j + 1) % n] : k == SAME ? cur[j] : k == ZERO ? 0 : k == NEG ? -cur[j] : k == VARIANT ? nx[j] : 1;
          tr += fmt("; %s[%d] set to %s (%.12g)", h ? "h" : "c", j, kn[k], val); if (h) ecos_updateDataEntry_h(w, j, val); else ecos_updateDataEntry_c(w, j, val); cur[j] = val; R.transitions++; };
        put(e1, k1); put(e2, k2);
        if (MODE == 1) { Sol s = grab(w, ECOS_solve(w)); Sol f = solve_fresh(P); R.evals++; e = same(s, f, !P0.nex); R.outcome(std::string("entry updates -> ") + codename(s.code)); R.nontriv(hmix(P.hash(), pre)); R.state(hmix(P.hash(), hmix(pre, f.code))); }
        else { ECOS_solve(w); R.evals++; R.nontriv(hmix(P.hash(), pre)); R.outcome("entry updates"); }
        ECOS_cleanup(w, 0); if (e.empty() && MODE == 2) for (auto &r : {back(D.G.pr.data(), Data(P0).G.pr, "G"), back(D.A.pr.data(), Data(P0).A.pr, "A"), back(D.h.data(), P.h, "h"), back(D.c.data(), P.c, "c"), back(D.b.data(), P.b, "b")}) if (!r.empty()) e = r;
        R.alive(); if (!e.empty()) e += "  after: " + std::string(z.name) + (pre ? "; setup; solve" : "; setup") + tr + "  data now: " + P.str();
      }
      if (!e.empty()) R.fail(e); else R.sample(fmt("%s variant %d: entry %d set to %s, then each other", z.name, v, e1, kn[k1]));
    }
    // whole update; each of the five new arrays somewhere else, right after or right before the old one, or the other half of a gap of one number
    for (int pre = 0; pre < 2; pre++) for (Odo o({5, 5, 5, 5, 5}); !o.done; o.next()) {
      if (!R.want()) { if (R.stopped) return; continue; }
      env::reset(); const Prob &Q0 = z.v[(v + 1) % 3]; Data a(P0), b(Q0); std::vector<double> buf[5]; double *old_[5], *new_[5]; std::vector<double> *av[5] = {&a.G.pr, &a.A.pr, &a.c, &a.h, &a.b}, *bv[5] = {&b.G.pr, &b.A.pr, &b.c, &b.h, &b.b};
      for (int k = 0; k < 5; k++) { size_t n = av[k]->size(), m = bv[k]->size(); buf[k].assign(n + m + 66, 777.5); bool first = o.d[k] == 0 || o.d[k] == 1 || o.d[k] == 3; size_t gap = o.d[k] == 0 ? 64 : o.d[k] >= 3 ? 1 : 0; old_[k] = buf[k].data() + (first ? 1 : 1 + m + gap); new_[k] = buf[k].data() + (first ? 1 + n + gap : 1); std::copy(av[k]->begin(), av[k]->end(), old_[k]); std::copy(bv[k]->begin(), bv[k]->end(), new_[k]); }
      bool skip = false; for (int k = 0; k < 5; k++) if (!av[k]->size() && o.d[k]) skip = true; if (skip) continue;
      pwork *w = ECOS_setup(a.n, a.m, a.p, a.l, (idxint)a.q.size(), a.q.empty() ? nullptr : a.q.data(), a.nex, old_[0], a.G.jc.data(), a.G.ir.data(), a.p ? old_[1] : nullptr, a.p ? a.A.jc.data() : nullptr, a.p ? a.A.ir.data() : nullptr, old_[2], old_[3], a.p ? old_[4] : nullptr);
      if (!w) { R.fail("setup failed"); return; } w->stgs->verbose = 0; if (pre) ECOS_solve(w); std::string e;
      ECOS_updateData(w, new_[0], a.p ? new_[1] : nullptr, new_[2], new_[3], a.p ? new_[4] : nullptr); R.transitions++;
      if (MODE == 2) for (int k = 0; k < 5; k++) { static const char *nm[] = {"G", "A", "c", "h", "b"}; std::string r = back(old_[k], *av[k], nm[k]); if (!r.empty()) e = "array replaced by an update: " + r; }
      Sol s = grab(w, ECOS_solve(w)); R.evals++; if (MODE == 1) { Sol f = solve_fresh(Q0); e = same(s, f, !P0.nex); } ECOS_cleanup(w, 0);
      if (MODE == 2 && e.empty()) for (int k = 0; k < 5; k++) { static const char *nm[] = {"G", "A", "c", "h", "b"}; std::string r = back(old_[k], *av[k], nm[k]); if (r.empty()) r = back(new_[k], *bv[k], nm[k]); if (!r.empty()) e = "after cleanup " + r; }
      if (e.empty() && MODE == 2) for (int k = 0; k < 5; k++) for (size_t i = 0; i < buf[k].size(); i++) { const double *p = &buf[k][i]; bool in = (p >= old_[k] && p < old_[k] + av[k]->size()) || (p >= new_[k] && p < new_[k] + bv[k]->size()); if (!in && *p != 777.5) e = "a number beside the caller's arrays was changed"; }
      R.outcome(std::string("whole update -> ") + codename(s.code)); R.nontriv(hmix(hmix(P0.hash(), pre), o.d[0] + 5 * (o.d[1] + 5 * (o.d[2] + 5 * (o.d[3] + 5 * o.d[4]))))); R.state(hmix(P0.hash(), s.code));
      if (!e.empty()) R.fail(fmt("%s variant %d, new arrays placed [G A c h b]=%s (0 elsewhere, 1 right after, 2 right before, 3 one number after, 4 one number before the old one): ", z.name, v, vs(o.d).c_str()) + e); else R.sample(fmt("%s variant %d placements %s", z.name, v, vs(o.d).c_str()));
    }
  }
}
