// C34: what is printed is what was computed.  Every line is judged at the moment it is written.
#include "figs.hpp"
#include "bb.hpp"
#include "zoo.hpp"
using namespace vf;
extern "C" { idxint kkt_factor(kkt *, pfloat, pfloat); idxint kkt_solve(kkt *, spmat *, spmat *, pfloat *, pfloat *, pfloat *, pfloat *, idxint, idxint, idxint, cone *, idxint, idxint); }
typedef std::vector<ld> L;
static L vec(const double *v, long n) { return L(v, v + n); }
// a figure as printed: its value, and what the display leaves open
struct Num { std::string t; double v = 0, ulp = 0; bool ok = false; };
static Num num(const std::string &t) {
  Num n; n.t = t; char *e; n.v = strtod(t.c_str(), &e); if (e == t.c_str() || *e) return n; n.ok = true; if (!std::isfinite(n.v)) return n;
  size_t x = t.find_first_of("eE"), d = t.find('.'); int dec = d == std::string::npos ? 0 : (int)((x == std::string::npos ? t.size() : x) - d - 1), ex = x == std::string::npos ? 0 : atoi(t.c_str() + x + 1); n.ulp = 0.5001 * pow(10, ex - dec); return n;
}
static std::string same(const char *what, const Num &n, ld v, ld slack = 0) {
  if (std::isnan((double)slack)) return ""; if (!n.ok) return std::string(what) + ": '" + n.t + "' is not a number"; if (std::isnan((double)v)) return std::isnan(n.v) ? "" : fmt("%s printed as %s, it is not a number", what, n.t.c_str());
  if (std::isinf((double)v)) return n.v == (double)v ? "" : fmt("%s printed as %s, it is %Lg", what, n.t.c_str(), v);
  return fabsl(n.v - v) <= n.ulp + slack + 1e-12L * fabsl(v) + 1e-320L ? "" : fmt("%s printed as %s, it is %.9Lg", what, n.t.c_str(), v);
}
struct Row { long it; std::vector<Num> f; };
static struct { bool on = false; pwork *w = nullptr; ecos_bb_pwork *b = nullptr; const Prob *P = nullptr; std::string buf, text, err; std::vector<Row> rows; std::vector<long> refs; long header = 0, factor = 0, solve = 0, fkind = 0, fat = -1; L px, pdx; double ptau = 0; } X;
static void row(const std::vector<std::string> &t) {
  Row r; r.it = atol(t[0].c_str()); std::vector<Num> rest; for (size_t i = 1; i < t.size(); i++) r.f.push_back(num(t[i])); pwork *w = X.w; std::string e; auto ck = [&](const std::string &s) { if (e.empty()) e = s; };
  if (r.it != (long)X.rows.size()) ck(fmt("line %ld of the table is numbered %ld", (long)X.rows.size(), r.it)); if (r.it == 0 && X.header == 0) ck("no headings above the table");
  if (r.f.size() < 11) { ck("line of the table too short"); } else {
    const stats &I = *w->info; ck(same("iteration", num(t[0]), I.iter));
    Fig f = figures(*X.P, w->xequil, w->Aequil, w->Gequil, vec(w->x, w->n), vec(w->y, w->p), vec(w->z, w->m), vec(w->s, w->m), w->tau, w->kap);
    for (auto v : {std::make_pair(w->x, w->n), std::make_pair(w->y, w->p), std::make_pair(w->z, w->m), std::make_pair(w->s, w->m)}) for (long i = 0; i < v.second; i++) if (!(fabs(v.first[i]) < 1e120)) f.ok = false; // double arithmetic overflows
    if (f.ok) { ld D = w->C->lpc->p + w->C->nsoc + 3 * w->C->nexc; ck(same("pcost", r.f[0], f.cx / f.tau, 1e-12L * f.acx / f.tau)); ck(same("dcost", r.f[1], f.d / f.tau, 1e-12L * f.ad / f.tau)); ck(same("gap", r.f[2], f.gap, 1e-12L * f.agap)); ck(same("pres", r.f[3], f.pres, f.pe + 1e-6L * f.pres)); ck(same("dres", r.f[4], f.dres, f.de + 1e-6L * f.dres)); ck(same("k/t", r.f[5], (ld)w->kap / w->tau)); ck(same("mu", r.f[6], (f.gap + (ld)w->kap * w->tau) / (D + 1), 1e-12L * f.agap)); }
    if (r.it == 0) while (X.refs.size() < 2) X.refs.push_back(0); // exponential cones: no system is solved for the first point
    size_t nr = X.refs.size();
    if (r.it == 0) { if (nr != 2) ck(fmt("%zu systems solved before the first line", nr)); else { ck(same("refinements of the 1st system", r.f[9], X.refs[0])); ck(same("refinements of the 2nd system", r.f[10], X.refs[1])); } }
    else { ck(same("step", r.f[7], I.step)); ck(same("sigma", r.f[8], I.sigma)); if (r.f.size() < 12) ck("refinement counts missing"); else if (nr == 3) for (int i = 0; i < 3; i++) ck(same("refinements", r.f[9 + i], X.refs[i])); else ck(fmt("%zu systems solved between two lines", nr));
      ld big = 0; long at = -1; for (long j = 0; j < w->n; j++) if (fabsl(w->KKT->dx2[j]) > big) big = fabsl(w->KKT->dx2[j]), at = j; if (at >= 0 && big > 1e-6L * fabsl(X.px[at]) && std::isfinite(w->x[at]) && std::isfinite((double)big)) ck(same("step (as seen in x)", r.f[7], (w->x[at] - X.px[at]) / (ld)w->KKT->dx2[at], 1e-8L));
      // line-search counts, when there are any
      if (X.w->C->nexc && r.f.size() >= 15) { std::vector<Num> &q = r.f; size_t k = q.size(); ck(same("backtracking (combined)", q[k - 1], I.cob + I.cb + I.pb + I.db)); } }
    X.px = vec(w->x, w->n); }
  X.refs.clear(); X.rows.push_back(r); if (X.err.empty()) X.err = e;
}
static void hook(const char *s, size_t n) {
  if (!X.on) return;
  for (size_t i = 0; i < n; i++) { char c = s[i]; if (c == '\b') { X.buf.clear(); continue; } X.text += c; if (c != '\n') { X.buf += c; continue; }
    std::vector<std::string> t; std::istringstream is(X.buf); std::string u; while (is >> u) t.push_back(u); X.buf.clear(); if (t.empty()) continue;
    if (t.size() > 3 && t[0].find_first_not_of("0123456789") == std::string::npos && num(t[1]).ok) { if (X.b) { Row r; r.it = atol(t[0].c_str()); for (size_t k = 1; k < t.size(); k++) r.f.push_back(num(t[k])); std::string e = same("lower bound", r.f[0], X.b->global_L); if (e.empty()) e = same("upper bound", r.f[1], X.b->global_U); if (e.empty()) e = same("gap", r.f[2], (ld)X.b->global_U - X.b->global_L); if (e.empty()) e = same("node", num(t[0]), X.b->iter); if (e.empty() && !X.header) e = "no headings above the table"; if (X.err.empty()) X.err = e; X.rows.push_back(r); }
      else { std::vector<std::string> v; for (auto &q : t) if (q != "|") v.push_back(q); row(v); } }
    else if (t[0] == "It" || t[0] == "Iter") X.header++, X.rows.clear(); }
}
extern "C" idxint hook_kkt_factor(kkt *K, pfloat eps, pfloat delta) {
  long at = X.factor++; if (X.on && X.fat == at) { if (X.fkind == 1) return KKT_PROBLEM; if (X.fkind == 2) env::deliver_sigint(); }
  return kkt_factor(K, eps, delta);
}
extern "C" idxint hook_kkt_solve(kkt *K, spmat *A, spmat *G, pfloat *Pb, pfloat *dx, pfloat *dy, pfloat *dz, idxint n, idxint p, idxint m, cone *C, idxint isinit, idxint nit) {
  idxint r = kkt_solve(K, A, G, Pb, dx, dy, dz, n, p, m, C, isinit, nit); long at = X.solve++;
  if (X.on) { X.refs.push_back(r); if (X.fat == at && X.fkind >= 3) { double f = X.fkind == 3 ? -1 : X.fkind == 4 ? 1e7 : X.fkind == 5 ? NAN : 0; if (X.fkind == 6) for (int i = 0; i < m; i++) dz[i] = 1e300; else { for (int i = 0; i < n; i++) dx[i] *= f; for (int i = 0; i < m; i++) dz[i] *= f; } } }
  return r;
}
static long count(const std::string &t, const char *w) { long c = 0; for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1)) c++; return c; }
static Num after(const std::string &t, const char *w, size_t from = 0) { size_t i = t.find(w, from); if (i == std::string::npos) return Num(); i += strlen(w); size_t j = i; while (j < t.size() && !strchr(" ,)\n", t[j])) j++; return num(t.substr(i, j - i)); }
static std::string judge(const Sol &s) {
  if (!X.err.empty()) return X.err; const std::string &t = X.text; const stats &I = s.info;
  struct V { const char *w; long kind; }; static const V vs_[] = {{"OPTIMAL", 0}, {"PRIMAL INFEASIBLE", 1}, {"UNBOUNDED", 2}, {"RAN OUT OF ITERATIONS", -1}, {"NUMERICAL PROBLEMS", -2}, {"INTERRUPTED", -4}, {"aborting", -7}};
  long want = s.code >= 10 ? s.code - 10 : s.code == -3 ? -2 : s.code; long n = 0; std::string seen; for (auto &v : vs_) { long c = count(t, v.w); n += c; if (c) { seen = v.w; if (v.kind != want) return fmt("answered %s, printed \"%s\"", codename(s.code), v.w); } }
  if (want == -7 ? n < 1 : n != 1) return fmt("answered %s, %ld verdicts printed", codename(s.code), n); bool close = count(t, "Close to") > 0; if (close != (s.code >= 10)) return fmt("answered %s, printed \"%s%s\"", codename(s.code), close ? "Close to " : "", seen.c_str());
  if (s.code == -7) { return ""; }
  std::string e; size_t at = t.find(seen); Num f = after(t, "feastol=", at); ld res = std::max((ld)I.pres, (ld)I.dres); bool nan = std::isnan(I.pres) || std::isnan(I.dres); // then there is no larger one of the two
  if (s.code % 10 == 1) e = same("verdict: residual", f, I.pinfres); else if (s.code >= 0 && s.code % 10 == 2) e = same("verdict: residual", f, I.dinfres); else { if (!nan) e = same("verdict: feasibility", f, res); if (e.empty()) e = same("verdict: relative gap", after(t, "reltol=", at), I.relgap); if (e.empty()) e = same("verdict: gap", after(t, "abstol=", at), I.gap); }
  if (!e.empty()) return e;
  if (X.rows.empty()) return "no line of the table was printed"; long k = X.rows.back().it; size_t rb = t.find("recovering best iterate ("); if (rb != std::string::npos) { Num q = after(t, "recovering best iterate ("); if (!q.ok) return "recovered iterate not named"; k = (long)q.v; if (k < 0 || k >= (long)X.rows.size()) return fmt("recovered iterate %ld was never shown", k); }
  if (I.iter != X.rows.back().it) return fmt("the table ends at iteration %ld, %ld are reported", X.rows.back().it, (long)I.iter);
  const Row &r = X.rows[k]; ld v[] = {I.pcost, I.dcost, I.gap, I.pres, I.dres, I.kapovert, I.mu}; static const char *nm[] = {"pcost", "dcost", "gap", "pres", "dres", "k/t", "mu"}; for (int i = 0; i < 7; i++) { e = same(nm[i], r.f[i], v[i]); if (!e.empty()) return fmt("iterate %ld was shown with another ", k) + e; }
  e = same("runtime", after(t, "Runtime: "), I.tsetup + I.tsolve); if (!e.empty()) return e; return "";
}
static std::string one(Run &R, Data &D, pwork *w, const Prob &P, bool verbose, long fkind, long fat, Sol &s) {
  w->stgs->verbose = verbose; X.buf.clear(); X.text.clear(); X.err.clear(); X.rows.clear(); X.refs.clear(); X.header = X.factor = X.solve = 0; X.fkind = fkind; X.fat = fat; X.w = w; X.P = &P; X.b = nullptr; long p0 = env::printed; X.on = true; env::out_hook = hook; env::clock_ns += 123456; long code = ECOS_solve(w); X.on = false; s = grab(w, code); R.evals++; R.transitions += X.factor;
  if (!verbose) return env::printed != p0 ? "something was printed although output is off" : "";
  R.nontriv(hmix(hmix(P.hash(), fkind * 1000 + fat), w->stgs->maxit)); R.outcome(fmt("%s after %s", codename(code), fkind == 0 ? "nothing unusual" : fkind == 1 ? "a failed factorisation" : fkind == 2 ? "an interrupt" : "a spoilt direction")); std::string how = X.text.find("recovering") != std::string::npos ? X.text.substr(0, X.text.find("recovering")) : ""; if (how.size()) { size_t q = how.rfind('\n'); R.outcome("message: " + how.substr(q + 1)); }
  std::string e = judge(s); if (!e.empty() && getenv("VF_TEXT")) fprintf(stderr, "%s\n", X.text.c_str()); return e;
}
void vf::explore(Run &R) {
  each_base(R.thorough ? 1 : 0, [&](auto mk, int kind) {
    if (!R.want()) return !R.stopped; Prob P = mk(); std::string e; Sol s; long iters = 0, facs = 0, sols = 0;
    auto fresh = [&](bool verbose, long fkind, long fat, long maxit, bool again, const char *what) {
      if (!e.empty()) return; Data D(P); long p0 = env::printed; pwork *w = setup(D, false); if (!w) { e = "setup refused"; return; } if (env::printed != p0) e = "setup prints"; if (maxit >= 0) w->stgs->maxit = maxit;
      if (e.empty()) e = one(R, D, w, P, verbose, fkind, fat, s); if (e.empty() && again) { e = one(R, D, w, P, !verbose, 0, -1, s); if (e.empty()) e = one(R, D, w, P, true, 0, -1, s); }
      p0 = env::printed; ECOS_cleanup(w, 0); if (e.empty() && env::printed != p0) e = "cleanup prints"; if (!e.empty()) e = fmt("%s, fault %ld at %ld, limit %ld: ", what, fkind, fat, maxit) + e; R.alive(); };
    bool full = kind == 0 || (R.thorough && R.mycase % 16 == 0); fresh(true, 0, -1, -1, true, "plain"); iters = s.info.iter; facs = X.factor; sols = X.solve; if (full || R.mycase % 2 == 0) fresh(false, 0, -1, -1, true, "silent first");
    for (long k = 0; k <= std::min(iters, full ? 30L : R.thorough ? 4L : 8L); k++) fresh(true, 0, -1, k, k == 1, "iteration limit");
    if (full || R.mycase % (R.thorough ? 6 : 3) == 0) { for (long a = 0; a < facs; a++) for (int f = 1; f <= 2; f++) fresh(true, f, a, -1, false, f == 1 ? "factorisation fails" : "interrupted");
      for (long a = 0; a < facs; a++) for (long k = std::max(0L, a - 1); k <= a + 1; k++) for (int f = 1; f <= 2; f++) fresh(true, f, a, k, false, f == 1 ? "factorisation fails at the limit" : "interrupted at the limit");
      if (full) for (long a = 2; a < std::min(sols, R.thorough ? 60L : 14L); a++) for (long k = 1; k <= std::min(iters, R.thorough ? 30L : 6L); k++) for (int f = 3; f <= 7; f++) fresh(true, f, a, k, false, "direction spoilt, then the limit");
      for (long a = 2; a < std::min(sols, full ? 60L : 14L); a++) for (int f = 3; f <= 7; f++) fresh(true, f, a, -1, false, "direction spoilt"); }
    if (!e.empty()) R.fail(e + "  " + P.str()); else R.sample(P.str()); return !R.stopped; });
  // data that are not numbers
  for (auto &z : zoo()) for (int which = 0; which < 4; which++) for (int v = 0; v < 3; v++) { if (!R.want()) { if (R.stopped) return; continue; }
    Prob P = z.v[0]; double bad = v == 0 ? NAN : v == 1 ? INFINITY : -INFINITY; auto *a = which == 0 ? &P.c : which == 1 ? &P.h : which == 2 ? &P.b : &P.G; if (a->empty()) continue; for (auto &x : *a) if (x != 0) { x = bad; break; }
    Data D(P); pwork *w = setup(D, false); if (!w) continue; Sol s; std::string e = one(R, D, w, P, true, 0, -1, s); ECOS_cleanup(w, 0); if (!e.empty()) R.fail("data that are not numbers: " + e + "  " + P.str()); }
  // branch and bound
  for (int level = -1; level <= (R.thorough ? 0 : -1); level++) if (!each_mip(level, [&](auto mk, const char *kind) {
    if (!R.want()) return !R.stopped; BProb B = mk(); std::string e; long full = 0;
    for (long maxit = -1; e.empty() && maxit <= (maxit < 0 ? 0 : std::min(full, 8L)); maxit++) for (int strat = 0; e.empty() && strat < 4; strat++) { if (maxit == 0) continue;
      BData D(B); ecos_bb_pwork *w = bsetup(D); if (!w) { e = "setup refused"; break; } w->stgs->branching_strategy = (enum BRANCHING_STRATEGY)strat; w->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)((strat + R.caseno) % 3); if (maxit > 0) w->stgs->maxit = maxit;
      for (int round = 0; round < 2 && e.empty(); round++) { bool on = round != (strat & 1);
        w->stgs->verbose = on; X.buf.clear(); X.text.clear(); X.err.clear(); X.rows.clear(); X.refs.clear(); X.header = 0; X.fat = -1; X.w = nullptr; X.b = w; long p0 = env::printed; X.on = true; env::out_hook = hook; long code = ECOS_BB_solve(w); X.on = false; R.evals++; R.transitions += w->iter + 1; if (maxit < 0) full = std::max(full, (long)w->iter);
        if (!on) { if (env::printed != p0) e = "something was printed although output is off"; continue; }
        R.outcome(fmt("%s: %s", kind, bbname(code))); R.nontriv(hmix(B.hash(), maxit * 10 + strat)); e = X.err; if (!e.empty() || code == 2 || code == 12) continue;
        if (X.header < 1 || X.header > 2) e = fmt("%ld headings", X.header); /* two: the relaxation is unbounded, a feasible point is looked for */ else if ((long)X.rows.size() != w->iter + 1) e = fmt("%zu lines for %ld nodes", X.rows.size(), (long)w->iter + 1);
        for (size_t k = 0; k < X.rows.size() && e.empty(); k++) if (X.rows[k].it != (long)k) e = fmt("line %zu is numbered %ld", k, X.rows[k].it);
        if (e.empty()) { e = same("final lower bound", X.rows.back().f[0], w->global_L); if (e.empty()) e = same("final upper bound", X.rows.back().f[1], w->global_U); }
        if (e.empty() && (count(X.text, "OPTIMAL") || count(X.text, "Runtime"))) e = "the relaxations print although only the search was asked to";
        if (!e.empty()) e = fmt("limit %ld strategy %d: ", maxit, strat) + e; }
      ECOS_BB_cleanup(w, 0); }
    R.alive(); if (!e.empty()) R.fail(e + "  " + B.str()); else R.sample(B.str()); return !R.stopped; })) return;
}
