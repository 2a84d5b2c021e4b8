// C32: the gaps and the integer tolerance asked of branch and bound are those delivered, and the search stops as soon as they are met.
#include "bb.hpp"
#include <array>
using namespace vf;
// the optimum over all points whose integer variables are within t of an integer (linear rows only)
static BRef brute_tol(const BProb &B, double t) {
  const Prob &P = B.P; BRef r; std::vector<int> radix; std::vector<idxint> vars; std::vector<int> lo;
  for (auto v : B.bl) radix.push_back(2), vars.push_back(v), lo.push_back(0);
  for (size_t i = 0; i < B.il.size(); i++) radix.push_back(B.hi[i] - B.lo[i] + 3), vars.push_back(B.il[i]), lo.push_back(B.lo[i] - 1);
  for (Odo o(radix); !o.done; o.next()) {
    FM G, A; FV c, h, b; for (long j = 0; j < P.n; j++) c.push_back(fr(P.c[j]));
    for (long i = 0; i < P.m; i++) { FV g; for (long j = 0; j < P.n; j++) g.push_back(fr(P.g(i, j))); G.push_back(g); h.push_back(fr(P.h[i])); }
    for (long i = 0; i < P.p; i++) { FV g; for (long j = 0; j < P.n; j++) g.push_back(fr(P.a(i, j))); A.push_back(g); b.push_back(fr(P.b[i])); }
    for (size_t k = 0; k < vars.size(); k++) { double x = lo[k] + o.d[k]; FV g(P.n, fr(0)); double up = x + t, dn = x - t; if (k < B.bl.size()) { if (up > 1) up = 1; if (dn < 0) dn = 0; } g[vars[k]] = fr(1); G.push_back(g); h.push_back(fr(up)); g[vars[k]] = fr(-1); G.push_back(g); h.push_back(fr(-dn)); }
    LPRes l = exact_lp(c, G, h, A, b); if (l.status == 1) continue; if (l.status == 2) { r.status = 2; return r; }
    r.npts++; if (r.status == 1 || l.val.val() < r.val) { r.status = 0; r.val = l.val.val(); } }
  return r; }
void vf::explore(Run &R) {
  for (int level = -1; level <= (R.thorough ? 0 : -1); level++) {
  std::vector<double> AG = {0, 1e-6, 0.3, 2}, RG = {0, 1e-3, 0.2, 0.9}, IT = {1e-6, 1e-4, 0.0625, 0.3125};
  if (R.thorough) { if (level < 0) AG = {0, 1e-6, 0.05, 0.3, 1, 2}, RG = {0, 1e-3, 0.05, 0.2, 0.9}, IT = {1e-6, 1e-4, 0.0078125, 0.0625, 0.1875, 0.3125}; else AG = {0, 0.3}, RG = {1e-3, 0.2}, IT = {1e-4, 0.0625}; }
  auto body = [&](auto mk, const char *kind) {
    if (!R.want()) return !R.stopped;
    BProb B = mk(); BRef r = brute(B); if (r.status < 0) { R.outcome("no certified reference"); return !R.stopped; }
    bool lin = B.P.l == B.P.m; double eps = bslack(B);
    for (double t : IT) { BRef rt = r; if (t > 2e-4 && lin) rt = brute_tol(B, t);
      // t = 1e-4 once more with nothing set by the caller: the documented defaults
      std::vector<std::array<double, 3>> GR; for (double ag : AG) for (double rg : RG) GR.push_back({ag, rg, 1}); if (t == 1e-4) GR.push_back({1e-6, 1e-3, 0});
      for (auto &gr : GR) { double ag = gr[0], rg = gr[1]; bool set = gr[2] > 0; int strat = (R.caseno + (int)(ag * 10) + (int)(rg * 10)) % 4, sel = (R.caseno / 4 + (int)(ag * 10)) % 3;
        auto tune = [&](ecos_bb_pwork *w) { if (!set) return; w->stgs->abs_tol_gap = ag; w->stgs->rel_tol_gap = rg; w->stgs->integer_tol = t; w->stgs->branching_strategy = (enum BRANCHING_STRATEGY)strat; w->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)sel; };
        BSol S = bsolve(B, tune); R.evals++; R.notes["nodes"] += S.iter + 1; if (S.iter > 0) R.nontriv(hmix(B.hash(), hdbl(1, t) ^ hdbl(2, ag) ^ hdbl(3, rg)));
        R.outcome(fmt("%s integer_tol %g: %s", kind, t, bbname(S.code)));
        std::string e; static const char *st[] = {"feasible", "infeasible", "unbounded"};
        auto closed = [&](const BSol &s, double k) { return s.U - s.L <= ag + k * (1 + fabs(s.L)) || fabs(s.U / s.L - 1) <= rg + k; };
        if (S.code == 0 || S.code == 10) {
          if (rt.status == 1 && (lin || t <= 2e-4)) e = fmt("%s reported but no point is integral to the tolerance", bbname(S.code));
          if (e.empty() && r.status == 2 && S.code == 0) e = "OPTIMAL reported but the problem is unbounded";
          auto near = [&](idxint v, bool b) { double q = std::round(S.x[v]); if (b) q = S.x[v] > 0.5 ? 1 : 0; return fabs(S.x[v] - q) <= t + 2e-5; };
          if (e.empty()) for (auto v : B.bl) if (!near(v, true)) e = fmt("boolean variable %ld is %.9g", (long)v, S.x[v]);
          if (e.empty()) for (auto v : B.il) if (!near(v, false)) e = fmt("integer variable %ld is %.9g", (long)v, S.x[v]);
          if (e.empty()) { BProb C = B; C.bl.clear(); C.il.clear(); e = bpoint(C, S.x); }
          double v = cost(B.P, S.x);
          if (e.empty() && (lin || t <= 2e-4) && rt.status == 0 && !(v >= rt.val - eps)) e = fmt("cost %.9g, no point integral to the tolerance costs less than %.9g", v, rt.val);
          if (e.empty() && !(fabs(v - S.U) <= eps)) e = fmt("upper bound %.9g, the returned point costs %.9g", S.U, v);
          if (e.empty() && r.status == 0 && !(std::min(S.L, S.U) <= r.val + eps)) e = fmt("lower bound %.9g, upper bound %.9g, the true optimum is %.9g", S.L, S.U, r.val);
          if (e.empty() && S.code == 0 && r.status == 0) { double lim = std::max(ag, rg * fabs(S.L)); if (!(v <= r.val + lim + eps)) e = fmt("OPTIMAL with cost %.9g, the true optimum is %.9g", v, r.val); }
          if (e.empty() && S.code == 0 && !closed(S, 1e-9)) e = fmt("OPTIMAL with bounds %.12g, %.12g", S.L, S.U);
        } else if (S.code == 1) { if (r.status != 1) e = fmt("INFEASIBLE reported but the problem is %s", st[r.status]); }
        else if (S.code == 2) { if (r.status != 2) e = fmt("UNBOUNDED reported but the problem is %s", st[r.status]); }
        else if (S.code != 11) e = fmt("code %ld", S.code);
        // no node was spent after the gap had closed: the same search one node shorter has not closed it
        if (e.empty() && S.iter > 0 && S.code != 2) { long K = S.iter; BSol Q = bsolve(B, [&](ecos_bb_pwork *w) { tune(w); w->stgs->maxit = K; }); R.evals++;
          if (Q.iter == K - 1 && closed(Q, -1e-9) && Q.U < 1e300) e = fmt("the gap was closed after %ld nodes (bounds %.12g, %.12g), but the search went on to %ld", Q.iter + 1, Q.L, Q.U, S.iter + 1);
          else if (Q.iter == K - 1 && (Q.code == 0 || Q.code == 1) && r.status == 0) e = fmt("limit %ld: %s, without the limit %ld nodes are needed", K, bbname(Q.code), S.iter + 1); }
        if (e.empty() && S.code >= 10) R.soft("search given up", fmt("%s after %ld nodes  ", bbname(S.code), S.iter) + B.str());
        if (!e.empty()) { R.outcome("BAD " + e.substr(0, 34)); R.fail(e + fmt("  abs_tol_gap=%g rel_tol_gap=%g integer_tol=%g strategy=%d selection=%d  ", ag, rg, t, strat, sel) + B.str()); return !R.stopped; } } }
    R.alive(); R.sample(B.str()); return true; };
  if (!each_mip(level, body)) return;
  if (level < 0) { // programs on which the gaps of the default settings decide: a dear variable beside a knapsack, cheap knapsacks; values just off the integers
    static const double sc[3] = {1, 0.0009765625, 0.0625}, big[3] = {0, 64, -40}, ka[3] = {1, 2, 3}, kb[3] = {2, 3, -1}, kc[3] = {1.25, 1.5, 2.75}, df[5] = {0.00048828125, 0.0009765625, 0.00390625, 0.03125, 0.1875};
    for (Odo o({3, 3, 3, 3, 4, 2}); !o.done; o.next()) { auto mk = [&] { BProb B; Prob &P = B.P; double a = ka[o.d[2]], b = kb[o.d[3]]; P.n = 3; P.l = P.m = 7; P.G = {a, b, 0, 1, 0, 0, -1, 0, 0, 0, 1, 0, 0, -1, 0, 0, 0, 1, 0, 0, -1}; P.h = {o.d[4] + 0.5, 2.5, 1.25, 2.25, 1.5, 3.25, -1.5}; P.c = {-sc[o.d[0]], -kc[(o.d[2] + o.d[3]) % 3] * sc[o.d[0]], big[o.d[1]]}; if (o.d[5]) B.il = {0, 1, 2}, B.lo = {-2, -2, 1}, B.hi = {3, 3, 4}; else B.il = {0, 2}, B.lo = {-2, 1}, B.hi = {3, 4}; return B; };
      if (!body(mk, "close call")) return; }
    for (Odo o({4, 3, 2, 2, 2}); !o.done; o.next()) { auto mk = [&] { BProb B; Prob &P = B.P; static const double dd[4] = {0.00048828125, 0.000244140625, 0.001953125, 0.03125}; double k = o.d[2] ? 2 : 1; P.n = 2; P.l = P.m = 5; P.G = {-k, k, 1, 0, -1, 0, 0, 1, 0, -1}; P.h = {(o.d[1] - 1 + dd[o.d[0]]) * k, 2.25, 1.5, 2.25, 1.5}; P.c = {o.d[3] ? 2. : 1., o.d[3] ? -2. : -1.}; if (o.d[4]) B.bl = {0, 1}; else B.il = {0, 1}, B.lo = {-2, -2}, B.hi = {3, 3}; return B; };
      if (!body(mk, "narrow gap")) return; }
    for (Odo o({5, 2, 3, 2}); !o.done; o.next()) { auto mk = [&] { BProb B; Prob &P = B.P; double d = df[o.d[0]], sg = o.d[1] ? -1 : 1; P.n = 2; P.l = P.m = 4; P.G = {-1, 0, 1, 0, 0.5, -1, 0, 1}; P.h = {o.d[1] ? 0 : -d, o.d[1] ? 1 - d : 1, -0.25, 3}; P.c = {sg * kc[o.d[2]], 1}; if (o.d[3]) B.bl = {0}; else B.il = {0}, B.lo = {0}, B.hi = {1}; return B; };
      if (!body(mk, "just off an integer")) return; } }
  }
}
