// C17: every sequence of operations (solve, solve cut short by a node limit or by SIGINT, single-entry updates of c and h,
// change of branching strategy / node selection / node limit) on one mixed-integer workspace ends with a solve that must
// give the answer of a fresh workspace for the data and settings now in force.
#include "bb.hpp"
#include <memory>
using namespace vf;
static uint64_t fire_at; static bool fired;
static void fire() { if (!fired && env::points >= fire_at) { fired = true; env::point_hook = nullptr; env::deliver_sigint(); } }
enum { SOLVE, LIMIT, SIGINT_HALF, SET_H, SET_C, STRATEGY, GROW, NOPS };
static const char *opn[] = {"solve", "solve with 2 nodes", "solve interrupted half-way", "update h entries", "update c entries", "next branching strategy and node selection", "node limit raised to 5000"};
struct Mip { std::string name; long nodes; BProb v[3]; };   // v[i]: same matrices and kinds; i-th variant of c and h
static std::vector<Mip> zoo_mip() {
  std::vector<Mip> Z;
  auto mk = [&](const char *name, long nodes, long n, long l, std::vector<idxint> q, long nex, std::vector<double> G, std::vector<std::vector<double>> c, std::vector<std::vector<double>> h, std::vector<idxint> bl, std::vector<idxint> il, int lo, int hi, std::vector<double> A = {}, std::vector<double> b = {}) {
    Mip m; m.name = name; m.nodes = nodes;
    for (int i = 0; i < 3; i++) { BProb &B = m.v[i]; Prob &P = B.P; P.n = n; P.l = l; P.q = q; P.nex = nex; P.m = G.size() / n; P.G = G; P.c = c[i]; P.h = h[i]; P.p = b.size(); P.A = A; P.b = b; B.bl = bl; B.il = il; for (size_t k = 0; k < il.size(); k++) B.lo.push_back(lo), B.hi.push_back(hi); }
    Z.push_back(m); };
  mk("knapsack", 1000, 3, 1, {}, 0, {2, 3, 2}, {{-3, -4, -2}, {-1, -2, -2}, {2, -1, -3}}, {{4.5}, {2.5}, {-0.5}}, {0, 1, 2}, {}, 0, 0);
  mk("integer box", 1000, 2, 6, {}, 0, {1, 0, -1, 0, 0, 1, 0, -1, 2, 3, 3, -2}, {{-1, -1}, {1, -2}, {-2, 1}}, {{2.5, 1.5, 2.5, 1.5, 5.5, 4.5}, {1.5, 1.5, 2.5, 0.5, -0.5, 3.5}, {0.9, -0.1, 2.5, 1.5, 5.5, 4.5}}, {}, {0, 1}, -3, 3);
  mk("bool and int, lists crossed", 1000, 2, 4, {}, 0, {1, 0, -1, 0, 2, 3, -1, -2}, {{-1, -1}, {1, -2}, {-2, 3}}, {{2.5, 1.5, 3.5, 1.5}, {1.5, 1.5, 1.5, 2.5}, {2.5, 1.5, 0.5, -0.5}}, {1}, {0}, -3, 3);
  mk("mixed, continuous column between", 1000, 3, 6, {}, 0, {0, 1, 0, 0, -1, 0, 1, 1, 2, -1, 2, 1, 0, 0, 1, 0, 0, -1}, {{-1, -2, -1}, {2, -1, -1}, {-1, 1, 2}}, {{2, 1, 3.25, 1.75, 2.5, 1.5}, {1, 1, 1.25, 2.25, 1.5, 1.5}, {1, 0, 0.25, 0.75, 2.5, 0.5}}, {0}, {2}, -3, 3);
  mk("equality", 1000, 3, 2, {}, 0, {0, 0, 1, 0, 0, -1}, {{1, 2, 1}, {-1, 1, 1}, {2, -3, 1}}, {{4, 4}, {1, 2}, {0.5, 4}}, {0, 1}, {}, 0, 0, {1, -2, 1}, {0.5});
  mk("disc", 1000, 2, 0, {3}, 0, {0, 0, -1, 0, 0, -1}, {{-2, -1}, {1, -1}, {-1, 3}}, {{2.3, -0.5, -0.25}, {1.2, 0.5, 0.25}, {0.4, -0.5, -0.5}}, {}, {0, 1}, -4, 4);
  mk("exponential", 1000, 2, 4, {}, 1, {1, 0, -1, 0, 0, 1, 0, -1, -1, 0, 0, -1, 0, 0}, {{-1, 1}, {1, 1}, {-2, 1}}, {{2.25, 1.5, 2.25, 1.5, 0, 1.3, 1}, {1.25, 1.5, 2.25, 1.5, -0.7, 0.5, 1}, {2.25, -0.5, 0.25, 1.5, 0.5, 0.5, 1}}, {}, {0, 1}, -1, 2);
  mk("knapsack, memory for 4 nodes", 4, 3, 2, {}, 0, {2, 3, 2, -1, 2, -2}, {{-3, -4, -2}, {-1, -2, -2}, {2, -1, -3}}, {{4.5, 0.5}, {2.5, 1.5}, {3.5, -0.5}}, {0, 1, 2}, {}, 0, 0);
  mk("unbounded or bounded", 1000, 2, 2, {}, 0, {-1, -1, 1, -1}, {{-1, 1}, {1, -1}, {1, 1}}, {{1.5, -0.5}, {0.5, 0.5}, {-0.5, -0.25}}, {0}, {}, 0, 0);
  return Z;
}
static long draws; static int draw() { return (int)((draws++ * 1103515245ull + 12345) / 65536 % RAND_MAX); }   // random branching: a fixed sequence, restarted at each solve
static const int CFG[5][2] = {{3, 1}, {0, 2}, {2, 0}, {1, 1}, {4, 2}};
struct Key { int z, c, h, cfg; bool operator<(const Key &o) const { return std::tie(z, c, h, cfg) < std::tie(o.z, o.c, o.h, o.cfg); } };
struct Ref { BSol s; BRef r; uint64_t pts; };
static std::map<Key, Ref> cache;
static BProb combine(const Mip &m, int c, int h) { BProb B = m.v[0]; B.P.c = m.v[c].P.c; B.P.h = m.v[h].P.h; return B; }
static settings_bb base_cfg(long nodes) { settings_bb s; memset(&s, 0, sizeof s); s.maxit = nodes; s.abs_tol_gap = MI_ABS_EPS; s.rel_tol_gap = MI_REL_EPS; s.integer_tol = MI_INT_TOL; s.reliable_eta = 6; s.branching_strategy = (enum BRANCHING_STRATEGY)CFG[0][0]; s.node_selection_method = (enum NODE_SELECTION_METHOD)CFG[0][1]; return s; }
static void set_cfg(ecos_bb_pwork *w, int k) { w->stgs->branching_strategy = (enum BRANCHING_STRATEGY)CFG[k][0]; w->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)CFG[k][1]; }
static Ref &ref(int zi, const Mip &m, int c, int h, int cfg) {
  Key k{zi, c, h, cfg}; auto it = cache.find(k); if (it != cache.end()) return it->second;
  BProb B = combine(m, c, h); settings_bb st = base_cfg(m.nodes); uint64_t p0 = 0; Ref r; draws = 0; r.s = bsolve(B, [&](ecos_bb_pwork *w) { set_cfg(w, cfg); p0 = env::points; }, &st); r.pts = env::points - p0; r.r = brute(B); return cache[k] = r;
}
void vf::explore(Run &R) {
  int depth = R.thorough ? 5 : 4;
  auto Z = zoo_mip(); 
  for (size_t zi = 0; zi < Z.size(); zi++) { const Mip &m = Z[zi];
    for (Odo o(std::vector<int>(depth, NOPS)); !o.done; o.next()) {
      if (!R.want()) { if (R.stopped) return; continue; } env::rand_hook = draw;
      std::vector<int> ops = o.d; ops.push_back(SOLVE);
      int vc = 0, vh = 0, cfg = 0; long maxit = m.nodes;
      BData D(m.v[0]), D0(m.v[0]); long blocks = env::live_blocks; settings_bb st = base_cfg(m.nodes);
      ecos_bb_pwork *w = bsetup(D, &st); if (!w) { R.fail(m.name + ": setup failed"); return; }
      std::string trace = m.name, e;
      for (int op : ops) {
        trace += std::string("; ") + opn[op]; R.transitions++;
        if (op == SET_H) { vh = (vh + 1) % 3; for (long i = 0; i < D.m; i++) updateDataEntry_h(w, i, m.v[vh].P.h[i]); }
        else if (op == SET_C) { vc = (vc + 1) % 3; for (long i = 0; i < D.n; i++) updateDataEntry_c(w, i, m.v[vc].P.c[i]); }
        else if (op == STRATEGY) { cfg = (cfg + 1) % 5; set_cfg(w, cfg); }
        else if (op == GROW) { maxit = 5000; w->stgs->maxit = 5000; }
        else {
          Ref &r = ref(zi, m, vc, vh, cfg); BProb B = combine(m, vc, vh);
          if (op == LIMIT) w->stgs->maxit = 2; fired = true;
          if (op == SIGINT_HALF) { fired = false; fire_at = env::points + r.pts / 2 + 1; env::point_hook = fire; }
          draws = 0; long code = ECOS_BB_solve(w); env::point_hook = nullptr; BSol s = bgrab(w, code); w->stgs->maxit = maxit; R.evals++;
          R.outcome(std::string(opn[op]) + " -> " + bbname(code));
          if (!(op == SIGINT_HALF && code == -4)) e = bjudge(B, r.r, s);
          if (e.empty() && op == SOLVE && code != r.s.code) e = fmt("%s, a fresh workspace gives %s", bbname(code), bbname(r.s.code));
          if (e.empty() && op == SOLVE && (code == 0) && !(fabs(s.info.pcost - r.s.info.pcost) <= bslack(B) + 1.1e-3 * fabs(r.s.info.pcost))) e = fmt("cost %.9g, a fresh workspace gives %.9g", s.info.pcost, r.s.info.pcost);
          if (e.empty() && env::sigaction_calls && env::sigint_disp.sa_handler != SIG_DFL) e = "SIGINT disposition not restored";
          if (e.empty()) R.state(hmix(hmix(hmix(zi * 81 + vc * 27 + vh * 9 + cfg, s.digest), (long)std::llround(1e4 * (std::isfinite(s.U) ? s.U : 77))), maxit));
        }
        if (e.empty() && !env::heap_error.empty()) e = env::heap_error;
        if (!e.empty()) break;
      }
      BProb B = combine(m, vc, vh);
      if (!e.empty()) { R.fail(e + "  after: " + trace + "  data now: " + B.str()); if (env::heap_error.empty()) ECOS_BB_cleanup(w, 0); if (R.stopped) return; continue; }
      ECOS_BB_cleanup(w, 0);
      D0.c = m.v[vc].P.c;    // single-entry updates of c go to the caller's array; G and h were copied
      auto cmp = [&](const std::vector<double> &a, const std::vector<double> &b, double tol, const char *what) { for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= tol * (1 + fabs(b[i])))) e = fmt("after cleanup the caller's %s[%zu] is %.12g, should be %.12g", what, i, a[i], b[i]); };
      cmp(D.G.pr, D0.G.pr, 0, "G"); cmp(D.h, D0.h, 0, "h"); cmp(D.A.pr, D0.A.pr, 1e-9, "A"); cmp(D.b, D0.b, 1e-9, "b"); cmp(D.c, D0.c, 1e-9, "c");
      if (D.G.ir != D0.G.ir || D.G.jc != D0.G.jc || D.A.ir != D0.A.ir || D.A.jc != D0.A.jc || D.q != D0.q || D.bl != D0.bl || D.il != D0.il) e = "an index array of the caller was changed";
      if (env::live_blocks != blocks) e = fmt("%ld memory blocks leaked", env::live_blocks - blocks);
      if (!env::heap_error.empty()) e = env::heap_error;
      if (!e.empty()) { R.fail(e + "  after: " + trace); if (R.stopped) return; continue; }
      R.sample(trace);
    } }
}
