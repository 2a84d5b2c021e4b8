// C02: verdict and optimal value of every tiny LP against an exact rational reference.
#include "lpfam.hpp"
using namespace vf;
void vf::explore(Run &R) {
  for (auto &L : lp_families(R.thorough)) each_lp(L, [&](auto mk) {
    if (!R.want()) return !R.stopped;
    Prob P = mk(); LPClass k = classify(P);
    Sol S = solve_fresh(P); R.evals++;
    bool slater = k.tp > 0.05 && k.td > 0.05 && k.rankGA == P.n && k.rankA == P.p;
    std::string cls = k.status == 0 ? (slater ? "solvable,strict" : "solvable,degenerate") : k.status == 1 ? (k.dual_feas ? "infeasible" : "infeasible,dual-infeasible") : "unbounded";
    if (k.status != 0 && (k.rankGA < P.n || k.rankA < P.p)) cls += ",rank-deficient";
    R.outcome(cls + " -> " + codename(S.code)); if (S.info.iter > 0) R.nontriv(P.hash()); R.sample(cls + " -> " + codename(S.code) + " in " + std::to_string(S.info.iter) + " it: " + P.str());
    double scale = 1 + fabs(k.val);
    std::string e;
    if (S.code == 0 || S.code == 10) {
      if (k.status != 0) e = fmt("%s reported for an LP that is %s", codename(S.code), k.status == 1 ? "infeasible" : "unbounded");
      else if (!(fabs(S.info.pcost - k.val) <= (S.code ? 3e-3 : 1e-5) * scale)) e = fmt("%s with cost %.12g, exact optimum %.12g", codename(S.code), S.info.pcost, k.val);
    }
    // an infeasibility verdict is wrong when the LP is feasible with room to spare (a feasible set without
    // interior becomes empty under an arbitrarily small perturbation of the data)
    if ((S.code == 1 || S.code == 11) && k.tp > 0.05 && k.rankA == P.p) e = fmt("%s reported for a strictly feasible LP", codename(S.code));
    if ((S.code == 2 || S.code == 12) && k.td > 0.05 && k.rankGA == P.n) e = fmt("%s reported although the dual is feasible (the LP is not unbounded)", codename(S.code));
    auto honest = [&](int want) { return S.code == want + 10 || S.code == -1 || S.code == -2; };   // a weaker but not a false answer
    auto weak = [&](int want, std::string m) { if (S.code == want) return; if (honest(want)) R.soft("not solved to full accuracy", m + "  " + P.str()); else e = m; };
    if (e.empty() && slater && S.code != 0) weak(0, fmt("strictly feasible primal and dual (optimum %.9g) but exit code %s", k.val, codename(S.code)));
    if (e.empty() && k.status == 1 && k.td > 0.05 && k.rankGA == P.n && k.rankA == P.p && S.code != 1) weak(1, fmt("infeasible LP with a strictly feasible dual but exit code %s", codename(S.code)));
    if (e.empty() && k.status == 2 && k.tp > 0.05 && k.rankGA == P.n && k.rankA == P.p && S.code != 2) weak(2, fmt("unbounded LP with a strictly feasible primal but exit code %s", codename(S.code)));
    if (!e.empty()) R.fail(e + "  " + P.str());
    return true;
  });
}
