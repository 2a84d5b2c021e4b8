// C27: SIGINT during ECOS_BB_solve. Delivery at every basic block around the hand-over of the signal disposition
// (where relaxations start and end), at every basic block of the search between relaxations, and on a grid inside the relaxations.
#include "bb.hpp"
using namespace vf;
static uint64_t at, pdel; static int where_went; static int user_calls; static void user_handler(int) { user_calls++; }
static unsigned long long draws;
static void hook() { if (env::points == at) { env::point_hook = nullptr; pdel = env::points; where_went = env::deliver_sigint(); } }
static void dispose(int kind) { memset(&env::sigint_disp, 0, sizeof env::sigint_disp); env::sigint_disp.sa_handler = kind == 0 ? user_handler : kind == 1 ? SIG_IGN : SIG_DFL; env::sigint_disp.sa_flags = kind == 0 ? SA_NODEFER : 0; }
static bool disposed(int kind) { auto h = env::sigint_disp.sa_handler; return kind == 0 ? (h == user_handler && env::sigint_disp.sa_flags == SA_NODEFER) : kind == 1 ? h == SIG_IGN : h == SIG_DFL; }
static std::vector<uint64_t> flips; static bool lib_on; static uint64_t base;
static void watch() { bool on = !disposed(0); if (on != lib_on) { lib_on = on; flips.push_back(env::points - base); } }
static settings_bb cfg(int strat, int sel) { settings_bb s; memset(&s, 0, sizeof s); s.maxit = 300; s.abs_tol_gap = MI_ABS_EPS; s.rel_tol_gap = MI_REL_EPS; s.integer_tol = MI_INT_TOL; s.reliable_eta = 6; s.branching_strategy = (enum BRANCHING_STRATEGY)strat; s.node_selection_method = (enum NODE_SELECTION_METHOD)sel; return s; }
static std::string differs(const BSol &a, const BSol &b) { if (a.code != b.code) return fmt("%s instead of %s", bbname(a.code), bbname(b.code)); if (a.code == 0 && !(fabs(a.info.pcost - b.info.pcost) <= 1e-6 * (1 + fabs(b.info.pcost)))) return fmt("cost %.9g instead of %.9g", a.info.pcost, b.info.pcost); if (a.iter != b.iter) return fmt("%ld nodes instead of %ld", a.iter, b.iter); return ""; }
void vf::explore(Run &R) {
  struct Pr { const char *name; BProb B; }; std::vector<Pr> Z;
  auto mk = [&](const char *name, long n, long l, std::vector<idxint> q, long nex, std::vector<double> G, std::vector<double> c, std::vector<double> h, std::vector<idxint> bl, std::vector<idxint> il, int lo, int hi) { BProb B; Prob &P = B.P; P.n = n; P.l = l; P.q = q; P.nex = nex; P.m = h.size(); P.G = G; P.c = c; P.h = h; B.bl = bl; B.il = il; for (size_t k = 0; k < il.size(); k++) B.lo.push_back(lo), B.hi.push_back(hi); Z.push_back({name, B}); };
  mk("one integer", 1, 2, {}, 0, {1, -1}, {-1}, {1.6, 2.25}, {}, {0}, -3, 3);
  mk("two booleans", 2, 1, {}, 0, {2, 3}, {-1, -2}, {4.5}, {0, 1}, {}, 0, 0);
  mk("infeasible after branching", 2, 2, {}, 0, {2, 2, -2, -2}, {-1, -2}, {1.25, -0.75}, {0, 1}, {}, 0, 0);
  mk("bool, int, rounding finds nothing", 2, 4, {}, 0, {0, 1, 0, -1, 2, 3, -2, -1}, {-1, -1}, {2.5, 1.5, 3.5, -0.5}, {0}, {1}, -3, 3);
  mk("infeasible root", 1, 2, {}, 0, {1, -1}, {1}, {-0.5, -0.75}, {0}, {}, 0, 0);
  mk("unbounded", 2, 1, {}, 0, {1, -1}, {1, -1}, {0.5}, {0}, {}, 0, 0);
  mk("disc", 2, 0, {3}, 0, {0, 0, -1, 0, 0, -1}, {-2, -1}, {1.6, -0.5, -0.25}, {}, {0, 1}, -4, 4);
  mk("exponential", 1, 2, {}, 1, {1, -1, -1, 0, 0}, {-1}, {2.25, 1.5, 0, 3.5, 1}, {}, {0}, -1, 2);
  static const int CF[8][3] = {{0, 1, 40}, {3, 1, 40}, {0, 1, 2}, {1, 0, 40}, {2, 2, 40}, {4, 1, 40}, {3, 1, 2}, {4, 2, 1}};   // strategy, selection, node limit
  for (size_t zi = 0; zi < Z.size(); zi++) for (int cf = 0; cf < (R.thorough ? 8 : 3); cf++) for (int kind = 0; kind < 3; kind++) {
    const BProb &B = Z[zi].B; BRef br = brute(B); settings_bb st = cfg(CF[cf][0], CF[cf][1]); st.maxit = CF[cf][2];
    auto rnd = [] { return (int)((draws++ * 1103515245ull + 12345) / 65536 % RAND_MAX); };
    env::reset(); env::rand_hook = rnd; dispose(0); uint64_t np; BSol ref;
    { BData D(B); ecos_bb_pwork *w = bsetup(D, &st); base = env::points; flips.clear(); lib_on = false; env::point_hook = watch; draws = 0; long code = ECOS_BB_solve(w); env::point_hook = nullptr; ref = bgrab(w, code); np = env::points - base; ECOS_BB_cleanup(w, 0); }
    // longest stretch with the library's handler installed: one relaxation
    uint64_t longest = 0; for (size_t i = 0; i + 1 < flips.size(); i += 2) longest = std::max(longest, flips[i + 1] - flips[i]);
    std::vector<uint64_t> pts; uint64_t near = R.thorough ? 400 : 20, step = kind ? 2003 : R.thorough ? 23 : 401; size_t fi = 0;
    for (uint64_t N = 1; N <= np + 1; N++) {
      while (fi + 1 < flips.size() && flips[fi + 1] <= N) fi++;
      uint64_t d0 = flips.empty() ? 0 : N > flips[fi] ? N - flips[fi] : flips[fi] - N, d1 = fi + 1 < flips.size() ? flips[fi + 1] - N : 1u << 30;
      bool between = flips.empty() || N < flips[0] || fi % 2 == 1;      // the user's handler is installed: code of the search itself
      if (N % step == 0 || N > np || (!kind && (d0 <= near || d1 <= near || between))) pts.push_back(N);
    }
    for (uint64_t N : pts) {
      if (!R.want()) { if (R.stopped) return; continue; }
      env::rand_hook = rnd; dispose(kind); user_calls = 0; where_went = -1; pdel = 0;
      BData D(B); ecos_bb_pwork *w = bsetup(D, &st); uint64_t p0 = env::points; at = p0 + N; env::point_hook = hook; draws = 0;
      long code = ECOS_BB_solve(w); env::point_hook = nullptr; uint64_t after = env::points - pdel; BSol s = bgrab(w, code); R.evals++; R.transitions++;
      bool caught = where_went == env::D_CALLED && user_calls == 0; std::string e;
      if (!disposed(kind)) e = "the disposition of SIGINT is not what it was before the solve";
      else if (caught) {
        R.nontrivial++;
        if (after > 2 * longest + 2000) e = fmt("kept going for %llu basic blocks, one relaxation takes at most %llu", (unsigned long long)after, (unsigned long long)longest);
        else if (!finite(s.x)) e = fmt("exit code %s with a point that is not finite", bbname(code));
        else if (code == -4) { if (std::isfinite(s.U)) { e = bpoint(B, s.x); if (e.empty() && br.status == 0 && cost(B.P, s.x) < br.val - bslack(B)) e = "a point better than the optimum"; if (e.empty() && fabs(cost(B.P, s.x) - s.U) > 1e-3 * (1 + fabs(s.U)) + bslack(B)) e = fmt("upper bound %.9g, the returned point costs %.9g", s.U, cost(B.P, s.x)); } if (e.empty() && br.status == 0 && s.L > br.val + bslack(B) + 1e-6 + 1.1e-3 * fabs(br.val)) e = fmt("lower bound %.9g above the optimum %.9g", s.L, br.val); }
        else if (code < 0) e = fmt("undocumented code %ld", code);
        else e = bjudge(B, br, s);
      } else e = differs(s, ref);
      R.outcome(std::string(caught ? "library handler -> " : "handler of the caller -> ") + bbname(code));
      if (caught) R.state(hmix(hmix(B.hash() + cf, code), s.digest));
      if (e.empty()) { draws = 0; BSol t = bgrab(w, ECOS_BB_solve(w)); e = differs(t, ref); if (!e.empty()) e = "the solve after an interrupted one: " + e; else if (!disposed(kind)) e = "disposition of SIGINT not restored by the next solve"; }
      ECOS_BB_cleanup(w, 0); if (e.empty() && !env::heap_error.empty()) e = env::heap_error;
      if (!e.empty()) { R.fail(fmt("SIGINT at basic block %llu of %llu (%s): ", (unsigned long long)N, (unsigned long long)np, kind == 0 ? "user handler" : kind == 1 ? "ignored" : "default") + e + "  " + Z[zi].name + fmt(" strategy %d/%d node limit %d ", CF[cf][0], CF[cf][1], CF[cf][2]) + B.str()); if (R.stopped) return; }
      R.sample(fmt("%s: SIGINT at block %llu of %llu -> %s after %ld nodes", Z[zi].name, (unsigned long long)N, (unsigned long long)np, bbname(code), s.iter));
    }
  }
}
