// C14: every member of the mixed-integer families against enumeration of all integer points.
#include "bb.hpp"
using namespace vf;
void vf::explore(Run &R) {
  each_mip(R.thorough ? 1 : 0, [&](auto mk, const char *kind) {
    if (!R.want()) return !R.stopped;
    BProb B = mk(); BRef r = brute(B); BSol S = bsolve(B); R.evals++;
    R.outcome(std::string(kind) + (r.status == 0 ? " feasible" : r.status == 1 ? " infeasible" : r.status == 2 ? " unbounded" : " (no certified reference)") + " -> " + bbname(S.code));
    R.notes["nodes"] += S.iter + 1; if (S.iter > 0) R.nontriv(B.hash());
    std::string e = bjudge(B, r, S);
    if (e.empty() && S.code >= 10) R.soft("search given up", fmt("%s after %ld nodes  ", bbname(S.code), S.iter) + B.str());
    if (!e.empty()) { R.outcome("BAD " + e.substr(0, 34)); R.fail(e + "  " + B.str()); }
    R.sample(fmt("%s -> %s, %ld nodes, cost %.6g (true %.6g) ", kind, bbname(S.code), S.iter + 1, S.code == 0 ? cost(B.P, S.x) : 0, r.val) + B.str());
    return true;
  });
}
