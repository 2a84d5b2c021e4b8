// C30: the numerical settings (step factor, regularisation, refinement, line search) change the route, not the verdict or the optimum.
#include "base.hpp"
using namespace vf;
struct Set { const char *n; void (*f)(settings *, double); std::vector<double> v; };
static std::vector<Set> sets = {
  {"gamma", [](settings *s, double v) { s->gamma = v; }, {0.8, 0.9, 0.95, 0.98, 0.995}},
  {"delta", [](settings *s, double v) { s->delta = v; }, {1e-9, 1e-8, 5e-8, 5e-7, 1e-6}},
  {"eps", [](settings *s, double v) { s->eps = v; }, {1e-15, 1e-14, 1e-12, 1e-11}},
  {"nitref", [](settings *s, double v) { s->nitref = (idxint)v; }, {1, 3, 5, 12, 30}},
  {"max_bk_iter", [](settings *s, double v) { s->max_bk_iter = (idxint)v; }, {30, 60, 120, 300}},
  {"bk_scale", [](settings *s, double v) { s->bk_scale = v; }, {0.5, 0.65, 0.9, 0.95}},
  {"centrality", [](settings *s, double v) { s->centrality = v; }, {0.5, 0.8, 2, 10}},
  {"maxit", [](settings *s, double v) { s->maxit = (idxint)v; }, {60, 101, 1000}},
};
static int cls(long c) { return c == 0 || c == 10 ? 0 : c == 1 || c == 11 ? 1 : c == 2 || c == 12 ? 2 : 3; }
void vf::explore(Run &R) {
  each_base(R.thorough ? 2 : 1, [&](auto mk, int kind) {
    if (!R.want()) return !R.stopped; Prob P = mk(); Sol a = solve_fresh(P); R.evals++; std::string e = check_claim(P, a); if (!e.empty()) { R.fail("default settings: " + e + "  " + P.str()); return !R.stopped; }
    ld ca = resid(P, a, 1).cx;
    auto one = [&](const std::string &what, std::function<void(pwork *)> f) {
      Sol b = solve_fresh(P, f); R.evals++; R.transitions++; if (b.info.iter > 0) R.nontriv(hmix(P.hash(), std::hash<std::string>()(what))); std::string e = check_claim(P, b);
      int x = cls(a.code), y = cls(b.code); R.outcome(fmt("%s kind %d: %s", what.substr(0, what.find('=')).c_str(), kind, x == y ? "same verdict" : y == 3 ? "no answer" : x == 3 ? "answer where the default gives none" : "other verdict"));
      if (e.empty() && x < 3 && y < 3 && x != y && a.code < 10 && b.code < 10 && kind < 2) e = fmt("verdict %s, with default settings %s", codename(b.code), codename(a.code));
      if (e.empty() && kind < 2 && x == 0 && y == 0 && a.code == 0 && b.code == 0) { ld cb = resid(P, b, 1).cx; if (!(fabsl(ca - cb) <= 2e-6L * (1 + fabsl(ca) + nrm(a.x)))) e = fmt("cost %.10Lg, with default settings %.10Lg", cb, ca); }
      bool sl = what[0] == 's';   // the short line searches
      if (e.empty() && sl && !(b.tau > 0 && b.kap >= 0)) e = fmt("%s with tau %.9g, kappa %.9g", codename(b.code), b.tau, b.kap);
      if (e.empty() && sl && finite(b.s) && finite(b.z) && !(in_cone(P, b.s, 1e-9L * nrm(b.s), false) && in_cone(P, b.z, 1e-9L * nrm(b.z), true))) e = fmt("%s, the line search has let the iterate leave the cones: s=%s z=%s", codename(b.code), vs(b.s).c_str(), vs(b.z).c_str());
      if (e.empty() && kind == 1 && a.code == 0 && b.code != 0 && !sl) R.soft("no full answer to a strictly feasible problem", what + " " + codename(b.code) + "  " + P.str());
      if (!e.empty()) { R.fail(e + "  " + what + "  " + P.str()); return false; } return true; };
    int k = 0; for (auto &S : sets) { if (!P.nex && (!strcmp(S.n, "max_bk_iter") || !strcmp(S.n, "bk_scale") || !strcmp(S.n, "centrality"))) continue; for (double v : S.v) { k++; if (kind == 2 && !R.thorough && (k + R.caseno) % 3) continue; auto f = S.f; if (!one(fmt("%s=%g", S.n, v), [f, v](pwork *w) { f(w->stgs, v); })) return !R.stopped; } }
    // pairs of settings for the data problems
    if (!kind) for (size_t i = 0; i < sets.size(); i++) for (size_t j = i + 1; j < sets.size(); j++) for (double v : {sets[i].v.front(), sets[i].v.back()}) for (double u : {sets[j].v.front(), sets[j].v.back()}) { auto f = sets[i].f, g = sets[j].f; if (!one(fmt("%s+%s=%g,%g", sets[i].n, sets[j].n, v, u), [f, g, v, u](pwork *w) { f(w->stgs, v); g(w->stgs, u); })) return !R.stopped; }
    // little regularisation and refinement: the step can overshoot, and what is returned still has to keep its promise
    if (kind == 2) for (double g : {0.9, 0.995}) for (double d : {1e-12, 1e-10}) for (int nr : {0, 1}) if (!one(fmt("gamma+delta+nitref=%g,%g,%d", g, d, nr), [=](pwork *w) { w->stgs->gamma = g; w->stgs->delta = d; w->stgs->nitref = nr; })) return !R.stopped;
    // line searches that run out of steps: the solver has to notice
    if (P.nex) for (int bk : {1, 2, 4, 8, 15}) for (double sc : {0.8, 0.95, 0.99}) if (!one(fmt("short line search=%d,%g", bk, sc), [=](pwork *w) { w->stgs->max_bk_iter = bk; w->stgs->bk_scale = sc; })) return !R.stopped;
    R.alive(); R.sample(P.str()); return true; });
}
