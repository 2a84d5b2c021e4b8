// MODE 1 (C15): every branching strategy x node selection x every sequence of random draws up to a depth.
// MODE 2 (C16): every node limit from 1 to beyond the full tree.
#include "bb.hpp"
using namespace vf;
static const char *sname[] = {"most infeasible", "strong", "pseudocost", "reliability(6)", "random", "reliability(0)", "reliability(1)"}, *nname[] = {"breadth first", "dive lower", "dive upper"};
static settings_bb cfg(int strat, int sel) { settings_bb s; memset(&s, 0, sizeof s); s.maxit = 300; s.verbose = 0; s.abs_tol_gap = MI_ABS_EPS; s.rel_tol_gap = MI_REL_EPS; s.integer_tol = MI_INT_TOL; s.reliable_eta = strat == 5 ? 0 : strat == 6 ? 1 : 6; s.branching_strategy = (enum BRANCHING_STRATEGY)(strat > 4 ? 3 : strat); s.node_selection_method = (enum NODE_SELECTION_METHOD)sel; return s; }
// the tree of random choices: `pre` is replayed, later draws take alternative 0 (up to the depth) and then rotate
static std::vector<int> pre; static size_t ndraw; static int alts; static size_t depth;
static int draw() {
  size_t k = ndraw++; int v = k < pre.size() ? pre[k] : k < depth ? 0 : (int)(k % alts);
  if (alts == 2) return v ? RAND_MAX : 0;
  long b = RAND_MAX / 6; long r = b * v + b / 2; while (r % 6 != v) r++; return (int)r;      // value v of 6: determines rand()%2, rand()%3 and the bucket of a scaled draw
}
void vf::explore(Run &R) {
  for (int pass = 0; pass < (MODE == 2 && R.thorough ? 2 : 1); pass++) each_mip(pass - 1, [&](auto mk, const char *kind) {
    if (!R.want()) return !R.stopped;
    BProb B = mk(); BRef r = brute(B); int nv = B.bl.size() + B.il.size();
    alts = nv <= 2 ? 2 : 6; depth = nv <= 1 ? 0 : nv == 2 ? (R.thorough ? 10 : 7) : (R.thorough ? 5 : 3);
    for (int strat = 0; strat < 7; strat++) for (int sel = 0; sel < 3; sel++) {
      if (MODE == 2 && (strat == 5 || strat == 6)) continue; if (pass && (strat != 3 || sel != 1)) continue;
      pre.clear(); std::string e; size_t seen = 0; long full = 0;
      for (long lim = MODE == 2 ? -1 : 300;; ) {
        settings_bb st = cfg(strat, sel); if (MODE == 2) st.maxit = lim < 0 ? 1000 : lim;
        env::rand_hook = draw; ndraw = 0; BSol S = bsolve(B, nullptr, &st); env::rand_hook = nullptr; R.evals++; R.transitions += S.iter + 1; R.alive();
        e = bjudge(B, r, S);
        if (e.empty() && !env::heap_error.empty()) e = env::heap_error;
        if (MODE == 1) { if (e.empty() && S.code >= 10) R.soft("search given up", std::string(sname[strat]) + ", " + nname[sel] + fmt(": %s after %ld nodes  ", bbname(S.code), S.iter) + B.str()); R.state(hmix(hmix(B.hash(), strat * 3 + sel), S.digest)); }
        else if (e.empty()) {
          if (lim > 0 && S.iter > lim - 1) e = fmt("%ld nodes although the limit is %ld", S.iter + 1, lim);
          double eps = bslack(B) + 1e-6 + 1.1e-3 * fabs(r.val);
          if (r.status == 0 && !(S.L <= r.val + eps)) e = fmt("lower bound %.9g, the true optimum is %.9g", S.L, r.val);
          if (r.status == 0 && !(S.U >= r.val - eps)) e = fmt("upper bound %.9g, the true optimum is %.9g", S.U, r.val);
          if (S.code == 11 && std::isfinite(S.U)) e = "LIMIT_NO_SOLUTION although a solution is known";
          if (lim >= 0 && S.iter < full && S.code >= 10) R.nontriv(hmix(B.hash(), lim * 64 + strat * 3 + sel));
        }
        R.outcome(std::string(kind) + (MODE == 2 ? (lim >= 0 ? " limited" : " unlimited") : "") + " -> " + bbname(S.code));
        if (!e.empty()) { R.fail(std::string(sname[strat]) + ", " + nname[sel] + (MODE == 2 ? fmt(", node limit %ld: ", lim >= 0 ? lim : 1000) : ", draws " + vs(pre) + ": ") + e + "  " + B.str()); break; }
        if (MODE == 2) { if (lim < 0) full = S.iter; if (lim > full + 2 || lim > (R.thorough ? 250 : 24)) break; lim++; continue; }
        // next sequence of draws
        size_t len = std::min(depth, ndraw); pre.resize(std::max(pre.size(), len), 0); pre.resize(len); seen = std::max(seen, ndraw);
        int k = (int)len - 1; while (k >= 0 && pre[k] == alts - 1) k--; if (k < 0) break; pre[k]++; pre.resize(k + 1);
      }
      if (seen > depth) R.notes["runs with more draws than the depth"]++;
      if (!e.empty() && R.stopped) return false;
    }
    R.sample(std::string(kind) + " " + B.str());
    return true;
  });
}
