// Mixed-integer problems: wrapper around ECOS_BB, and a brute-force reference.
#pragma once
#include "lpfam.hpp"
extern "C" {
#include "ecos_bb.h"
}
#undef MAX
#undef MIN
namespace vf {
struct BProb { Prob P; std::vector<idxint> bl, il; std::vector<int> lo, hi;   // lo/hi: range of the variables in il (implied by rows of the problem)
  std::string str() const { return "bool=" + vs(bl) + " int=" + vs(il) + " " + P.str(); }
  uint64_t hash() const { uint64_t h = P.hash(); for (auto i : bl) h = hmix(h, i + 7); for (auto i : il) h = hmix(h, i + 77); return h; } };
struct BSol { long code = 99, iter = -1; std::vector<double> x; double L = 0, U = 0; stats info; uint64_t digest = 0; };
inline const char *bbname(long c) { switch (c) { case 0: return "OPTIMAL"; case 1: return "INFEASIBLE"; case 2: return "UNBOUNDED"; case 10: return "LIMIT_FEASIBLE"; case 11: return "LIMIT_NO_SOLUTION"; case 12: return "LIMIT_UNBOUNDED"; case -4: return "SIGINT"; case -99: return "(no workspace)"; default: return "?"; } }
struct BData : Data { std::vector<idxint> bl, il; BData(const BProb &B) : Data(B.P), bl(B.bl), il(B.il) { bl.reserve(bl.size() + 1); il.reserve(il.size() + 1); } };
inline ecos_bb_pwork *bsetup(BData &D, settings_bb *st = nullptr) {
  ecos_bb_pwork *w = ECOS_BB_setup(D.n, D.m, D.p, D.l, (idxint)D.q.size(), D.q.empty() ? nullptr : D.q.data(), D.nex, D.G.pr.data(), D.G.jc.data(), D.G.ir.data(),
    D.p ? D.A.pr.data() : nullptr, D.p ? D.A.jc.data() : nullptr, D.p ? D.A.ir.data() : nullptr, D.c.data(), D.h.data(), D.p ? D.b.data() : nullptr,
    D.bl.size(), D.bl.empty() ? nullptr : D.bl.data(), D.il.size(), D.il.empty() ? nullptr : D.il.data(), st);
  if (w) w->stgs->verbose = 0;
  return w;
}
inline BSol bgrab(ecos_bb_pwork *w, long code) {
  BSol S; S.code = code; S.iter = w->iter; long n = w->ecos_prob->n; S.x.assign(w->x, w->x + n); S.L = w->global_L; S.U = w->global_U; S.info = *w->info;
  uint64_t h = hmix(code, w->iter); for (long i = 0; i <= w->iter; i++) h = hmix(hmix(h, w->nodes[i].status), w->nodes[i].split_idx); S.digest = h; return S;
}
inline BSol bsolve(const BProb &B, std::function<void(ecos_bb_pwork *)> tune = nullptr, settings_bb *st = nullptr) {
  BData D(B); ecos_bb_pwork *w = bsetup(D, st); if (!w) { BSol S; S.code = -99; return S; }
  if (tune) tune(w);
  long code = ECOS_BB_solve(w); BSol S = bgrab(w, code); ECOS_BB_cleanup(w, 0); return S;
}
// ---- reference: every integer assignment, the continuous part by exact LP (or, for conic rows, only pure integer problems)
struct BRef { int status = 1; double val = 0; std::vector<double> x; long npts = 0; };   // 0 optimal 1 infeasible 2 unbounded
inline BRef brute(const BProb &B) {
  const Prob &P = B.P; BRef r; std::vector<int> radix; std::vector<idxint> vars; std::vector<int> lo;
  for (auto v : B.bl) radix.push_back(2), vars.push_back(v), lo.push_back(0);
  for (size_t i = 0; i < B.il.size(); i++) radix.push_back(B.hi[i] - B.lo[i] + 1), vars.push_back(B.il[i]), lo.push_back(B.lo[i]);
  std::vector<long> cont; for (long j = 0; j < P.n; j++) if (std::find(vars.begin(), vars.end(), j) == vars.end()) cont.push_back(j);
  for (Odo o(radix); !o.done; o.next()) {
    std::vector<double> x(P.n, 0); for (size_t k = 0; k < vars.size(); k++) x[vars[k]] = lo[k] + o.d[k];
    double base = 0; for (long j = 0; j < P.n; j++) base += P.c[j] * x[j];
    bool ok; double val = base;
    if (cont.empty()) {
      std::vector<double> s(P.m); for (long i = 0; i < P.m; i++) { s[i] = P.h[i]; for (long j = 0; j < P.n; j++) s[i] -= P.g(i, j) * x[j]; }
      ok = in_cone(P, s, 1e-12, false); for (long i = 0; i < P.p; i++) { double t = -P.b[i]; for (long j = 0; j < P.n; j++) t += P.a(i, j) * x[j]; if (fabs(t) > 1e-12) ok = false; }
    } else {
      if (P.l != P.m) {   // conic: the problem in the continuous variables alone, solved by the conic solver and certified
        Prob Q = P; Q.n = cont.size(); Q.G.clear(); Q.A.clear(); Q.c.clear();
        for (long i = 0; i < P.m; i++) for (long j = 0; j < P.n; j++) if (std::find(cont.begin(), cont.end(), j) == cont.end()) Q.h[i] -= P.g(i, j) * x[j]; else Q.G.push_back(P.g(i, j));
        for (long i = 0; i < P.p; i++) for (long j = 0; j < P.n; j++) if (std::find(cont.begin(), cont.end(), j) == cont.end()) Q.b[i] -= P.a(i, j) * x[j]; else Q.A.push_back(P.a(i, j));
        for (long j : cont) Q.c.push_back(P.c[j]);
        Sol s = solve_fresh(Q); if (s.code < 0 || s.code > 2 || !check_claim(Q, s).empty()) { r.status = -1; return r; }
        if (s.code == 2) { r.status = 2; return r; }
        ok = s.code == 0; if (ok) { val += s.info.pcost; for (size_t k = 0; k < cont.size(); k++) x[cont[k]] = s.x[k]; }
        if (ok) { r.npts++; if (r.status == 1 || val < r.val) { r.status = 0; r.val = val; r.x = x; } }
        continue;
      }
      FM G, A; FV c, h, b; for (long i = 0; i < P.m; i++) { FV g; double t = P.h[i]; for (long j = 0; j < P.n; j++) t -= P.g(i, j) * x[j]; for (long j : cont) g.push_back(fr(P.g(i, j))); G.push_back(g); h.push_back(fr(t)); }
      for (long i = 0; i < P.p; i++) { FV g; double t = P.b[i]; for (long j = 0; j < P.n; j++) t -= P.a(i, j) * x[j]; for (long j : cont) g.push_back(fr(P.a(i, j))); A.push_back(g); b.push_back(fr(t)); }
      for (long j : cont) c.push_back(fr(P.c[j]));
      LPRes l = exact_lp(c, G, h, A, b); ok = l.status != 1;
      if (l.status == 2) { r.status = 2; return r; }
      if (ok) { val += l.val.val(); for (size_t k = 0; k < cont.size(); k++) x[cont[k]] = l.x[k].val(); }
    }
    if (!ok) continue;
    r.npts++;
    if (r.status == 1 || val < r.val) { r.status = 0; r.val = val; r.x = x; }
  }
  return r;
}
// Is the returned point what OPTIMAL (or a feasible partial answer) promises?
inline std::string bpoint(const BProb &B, const std::vector<double> &x, double tol = 5e-4) {
  const Prob &P = B.P; if (!finite(x)) return "the returned point is not finite";
  for (auto v : B.bl) if (!(fabs(x[v] - 0) <= 2e-4 || fabs(x[v] - 1) <= 2e-4)) return fmt("boolean variable %ld is %.9g", (long)v, x[v]);
  for (auto v : B.il) if (!(fabs(x[v] - std::round(x[v])) <= 2e-4)) return fmt("integer variable %ld is %.9g", (long)v, x[v]);
  std::vector<double> s(P.m); for (long i = 0; i < P.m; i++) { s[i] = P.h[i]; for (long j = 0; j < P.n; j++) s[i] -= P.g(i, j) * x[j]; }
  double sc = 1 + maxabs(x);
  if (!in_cone(P, s, tol * sc, false)) return "the returned point violates Gx <= h: slack " + vs(s);
  for (long i = 0; i < P.p; i++) { double t = -P.b[i]; for (long j = 0; j < P.n; j++) t += P.a(i, j) * x[j]; if (!(fabs(t) <= tol * sc)) return fmt("the returned point violates Ax=b by %.3g", t); }
  return "";
}
inline double cost(const Prob &P, const std::vector<double> &x) { double t = 0; for (long j = 0; j < P.n; j++) t += P.c[j] * x[j]; return t; }
inline double bslack(const BProb &B) { double t = 0; for (double v : B.P.c) t += fabs(v); return 5e-4 * (1 + t); }
// verdict against the reference; empty: nothing false is claimed (a search that gave up is not false)
inline std::string bjudge(const BProb &B, const BRef &r, const BSol &S) {
  double eps = bslack(B), gap = 1e-6 + 1.1e-3 * fabs(r.val);
  static const char *st[] = {"feasible", "infeasible", "unbounded"};
  if (r.status < 0) return "";   // the reference could not be certified
  if (S.code == 0 || S.code == 10) {
    if (r.status != 0) { if (S.code == 10 && r.status == 2) return bpoint(B, S.x); return fmt("%s reported but the problem is %s", bbname(S.code), st[r.status]); }
    std::string e = bpoint(B, S.x); if (!e.empty()) return std::string(bbname(S.code)) + " reported but " + e + " x=" + vs(S.x);
    double v = cost(B.P, S.x);
    if (!(v >= r.val - eps)) return fmt("%s with cost %.9g, the true optimum is %.9g", bbname(S.code), v, r.val);
    if (S.code == 0 && !(v <= r.val + gap + eps)) return fmt("OPTIMAL with cost %.9g at %s, the true optimum is %.9g", v, vs(S.x).c_str(), r.val);
    if (!(fabs(v - S.info.pcost) <= 1e-3 * (1 + fabs(v)) + eps)) return fmt("reported cost %.9g, the returned point costs %.9g", S.info.pcost, v);
    return "";
  }
  if (S.code == 1) return r.status == 1 ? "" : fmt("INFEASIBLE reported but the problem is %s%s", st[r.status], r.status == 0 ? ("; e.g. x=" + vs(r.x)).c_str() : "");
  if (S.code == 2) return r.status == 2 ? "" : fmt("UNBOUNDED reported but the problem is %s", st[r.status]);
  if (S.code == 11) return "";
  if (S.code == 12) return r.status == 2 ? "" : fmt("LIMIT_UNBOUNDED after %ld nodes", S.iter);
  return fmt("undocumented code %ld", S.code);
}
// ---- families
// level -1: few (for checks that vary something else), 0: quick, 1: thorough
template <class Fn> bool each_mip(int level, Fn f) {
  bool thorough = level > 0;
  auto box = [](Prob &P, long v, double lo, double hi) { std::vector<double> g(P.n, 0); g[v] = 1; P.G.insert(P.G.end(), g.begin(), g.end()); P.h.push_back(hi); g[v] = -1; P.G.insert(P.G.end(), g.begin(), g.end()); P.h.push_back(-lo); P.m += 2; P.l += 2; };
  struct Fam { LPFam L; int nb, ni; bool boxc; };   // variables: bools first, then ints, then continuous
  std::vector<Fam> F = {
    {{1, 1, 0, {1, -1, 2, 3}, {0.5, -0.5, 1.5, 0, 1, -1}, {1, -1, 0}, {}, {}}, 1, 0, false},
    {{1, 2, 0, {1, -1, 2, -3}, {0.5, -0.5, 1.5, 2.5, -1.5}, {1, -1, 0}, {}, {}}, 0, 1, true},
    {{2, 2, 0, {0, 1, -1, 2, 3}, {1.5, 0.5, -0.5}, {1, -1, -2}, {}, {}}, 2, 0, false},
    {{2, 1, 1, {0, 1, -1, 2}, {1, -0.5}, {1, -1, -3}, {1, -1, 2}, {0, 1, 0.5}}, 2, 0, false},
    {{3, 1, 0, {0, 1, -1, 2, -3}, {1.5, 0.5, -0.5, -1.5}, {1, -1, -2}, {}, {}}, 3, 0, false},
    {{2, 1, 0, {0, 1, -1, 2, -3}, {1.5, 0.5, -0.5, 1}, {1, -1, 2, 0}, {}, {}}, 0, 2, true},
    {{2, 2, 0, {1, -1, 2, -3}, {1.5, -0.5}, {1, -1, 2}, {}, {}}, 0, 2, true},
    {{2, 2, 0, {1, -1, 2, 0}, {1.5, -0.5, 0}, {1, -1, -2}, {}, {}}, 1, 1, true},
    {{2, 2, 0, {1, -1, 2, 0}, {1.5, -0.5, 0}, {1, -1}, {}, {}}, 1, 0, true},      // one boolean, one boxed continuous variable
    {{2, 2, 0, {1, -1, 2, 0}, {1.5, -0.5}, {1, -1, 0}, {}, {}}, 1, 0, false},     // continuous part unbounded or not
    {{3, 1, 0, {1, -1, 2, 0}, {1.5, -0.5}, {1, -1}, {}, {}}, 1, 1, true},
    {{2, 1, 1, {1, -1, 2}, {1.5, -0.5}, {1, -1}, {1, 2, -1}, {0.5, 1}}, 1, 0, true},
    {{3, 2, 0, {0, 1, -1, 2}, {1.5, -0.5}, {1, -1}, {}, {}}, 3, 0, false},
    {{3, 1, 0, {1, -1, 2, -3, 0}, {1.5, 0.5}, {1, -1, 2}, {}, {}}, 0, 3, true},
    {{3, 2, 0, {1, -1, 2}, {1.5, -0.5}, {1, -1}, {}, {}}, 1, 1, true},
  };
  if (level < 0) F = {
    {{3, 1, 0, {1, -1, 2}, {1.5, 0.5}, {-1, -2}, {}, {}}, 3, 0, false},
    {{2, 1, 0, {1, 2, -3}, {1.5, 0.5}, {1, -1}, {}, {}}, 0, 2, true},
    {{2, 2, 0, {1, -1, 2}, {1.5, -0.5}, {-1, 1}, {}, {}}, 1, 1, true},
    {{2, 2, 0, {1, -1, 2}, {1.5, -0.5}, {-1}, {}, {}}, 2, 0, false},
    {{3, 1, 0, {1, 2}, {1.5, -0.5}, {1, -1}, {}, {}}, 1, 1, true},
    {{2, 1, 0, {1, 2}, {1.5}, {1, -1, 0}, {}, {}}, 1, 0, false}};
  if (thorough) for (auto &x : std::vector<Fam>{
    {{3, 2, 0, {0, 1, -1, 2}, {1.5, -0.5, 0.5}, {1, -1, -2}, {}, {}}, 3, 0, false},
    {{3, 2, 0, {0, 1, -1}, {1.5, -0.5}, {1, -1}, {}, {}}, 0, 3, true},
    {{3, 2, 0, {0, 1, -1}, {1.5, -0.5}, {1, -1}, {}, {}}, 0, 2, true},
    {{4, 1, 0, {1, -1, 2}, {1.5, -0.5}, {1, -1}, {}, {}}, 2, 1, true},
    {{4, 1, 0, {0, 1, -1, 2}, {1.5, 0.5, -0.5}, {1, -1, -2}, {}, {}}, 4, 0, false},
    {{2, 3, 0, {1, -1, 2, -3}, {1.5, -0.5}, {1, -1}, {}, {}}, 0, 2, true}}) F.push_back(x);
  for (auto &m : F) { bool go = true;
    each_lp(m.L, [&](auto mkl) {
      auto mk = [&] { BProb B; B.P = mkl(); for (int i = 0; i < m.nb; i++) B.bl.push_back(i);
        for (int i = 0; i < m.ni; i++) { B.il.push_back(m.nb + i); box(B.P, m.nb + i, -1.5, 2.25); B.lo.push_back(-1); B.hi.push_back(2); }
        if (m.boxc) for (int i = m.nb + m.ni; i < m.L.n; i++) box(B.P, i, -1, 2.5);
        return B; };
      return go = f(mk, m.nb + m.ni == m.L.n ? "integer LP" : "mixed LP"); });
    if (!go) return false; }
  // rows that miss integer points narrowly, with integer variables whose bounds come from the rows only
  if (level >= 0) { static const double co[6] = {1, -1, 2, -2, 3, 0}, dl[3] = {1e-3, 1e-2, 0.0625}, r2[6][2] = {{1, 1}, {-1, 2}, {2, -1}, {-2, 3}, {0, 1}, {3, 2}}, c2[4][2] = {{1, -1.5}, {-1, -0.5}, {0, -0.5}, {-1, 1.5}};
    for (int kind = 0; kind < 2; kind++) for (Odo o(thorough ? std::vector<int>{6, 6, 3, 5, 6, 5, 4} : kind ? std::vector<int>{5, 5, 2, 4, 3, 3, 2} : std::vector<int>{6, 5, 2, 5, 6, 3, 3}); !o.done; o.next()) {
      auto mk = [&] { BProb B; B.P.n = 2; B.P.m = B.P.l = 6; double d = o.d[2] ? dl[o.d[2]] : 0.0009765625; if (o.d[2] == 1) d = 0.0078125;
        B.P.c = {c2[o.d[6]][0], c2[o.d[6]][1]}; B.P.G = {co[o.d[0]], co[o.d[1]], r2[o.d[4]][0], r2[o.d[4]][1], 1, 0, -1, 0, 0, 1, 0, -1}; B.P.h = {o.d[3] - 2 - d, o.d[5] - 1 - d, 3.5, 3.5, 3.5, 3.5};
        if (kind) B.bl = {1}, B.il = {0}; else B.il = {0, 1};
        for (size_t i = 0; i < B.il.size(); i++) B.lo.push_back(-3), B.hi.push_back(3);
        return B; };
      if (!f(mk, "narrow miss")) return false; } }
  // integer variables that appear in no inequality, only in the cost and the equalities
  static const double ea[4] = {1, -1, 2, 0.5}, eb[5] = {1, -1, 2, 3, -2}, ed[6] = {0.5, -1.25, 2.5, 1, 0, -0.5}, ec[5] = {1, -1, 0, 0.25, -2};
  for (int kind = 0; kind < 5; kind++) for (Odo o(level < 0 ? std::vector<int>{2, 3, 3, 2, 2} : thorough ? std::vector<int>{4, 5, 6, 5, 5} : std::vector<int>{3, 5, 5, 3, 3}); !o.done; o.next()) {
    auto mk = [&] { BProb B; bool three = kind == 2 || kind == 4; B.P.n = three ? 3 : 2; B.P.p = 1; B.P.c = {ec[o.d[3]], ec[o.d[4]]}; B.P.A = {ea[o.d[0]], eb[o.d[1]]}; B.P.b = {ed[o.d[2]]}; if (three) B.P.c.push_back(0.375), B.P.A.push_back(0.5);
      box(B.P, 0, -1.5, 2.25); if (three) box(B.P, 2, kind == 4 ? 0 : -0.25, 1); auto iv = [&](int v, int lo, int hi) { B.il.push_back(v); B.lo.push_back(lo); B.hi.push_back(hi); };
      if (kind == 0) iv(1, -8, 8); else if (kind == 1) B.bl = {1}; else if (kind == 2) iv(1, -8, 8); else if (kind == 3) B.bl = {0}, iv(1, -8, 8); else B.bl = {1}, iv(2, 0, 1);
      return B; };
    if (!f(mk, "variable in no inequality")) return false; }
  // second-order cone: || M (x - a) || <= r - d'x, integer x in a disc
  static const double cs[4] = {1, -1, 2, -3}, as[4] = {0, 0.5, 0.25, -0.5}, rs[3] = {0.3, 1.1, 1.6}, ms[3] = {1, 2, -1};
  for (int kind = 0; kind < 3; kind++) for (Odo o(level < 0 ? std::vector<int>{2, 2, 1, 3, 3, 2, 1} : std::vector<int>{4, 4, 4, 4, 3, 3, 3}); !o.done; o.next()) {
    auto mk = [&] { BProb B; B.P.n = 2; B.P.q = {3}; if (kind == 2) { B.P.l = 0; B.P.m = 3; } else { B.P.l = 0; B.P.m = 3; }
      double a0 = as[o.d[2]], a1 = as[o.d[3]], r = rs[o.d[4]], m00 = ms[o.d[5]], m01 = ms[o.d[6]] == 2 ? 0.5 : 0;
      B.P.c = {cs[o.d[0]], cs[o.d[1]]}; B.P.G = {0, 0, -m00, -m01, 0, -1}; B.P.h = {r * fabs(m00), -(m00 * a0 + m01 * a1), -a1};
      if (kind == 0) B.bl = {0, 1}; else if (kind == 1) { B.il = {0, 1}; } else { B.bl = {0}; B.il = {1}; }
      for (size_t i = 0; i < B.il.size(); i++) B.lo.push_back(-7), B.hi.push_back(7);
      return B; };
    if (!f(mk, "SOC")) return false; }
  // exponential cone: exp(x0*k + a) <= x1*g + d with booleans/integers
  for (int kind = 0; kind < 2; kind++) for (Odo o(level < 0 ? std::vector<int>{2, 2, 2, 2, 2} : std::vector<int>{4, 4, 3, 3, 3}); !o.done; o.next()) {
    static const double ks[3] = {1, -1, 0.5}, a2[3] = {0, 0.5, -0.7}, ds[3] = {0.5, 1.3, 3.1};
    auto mk = [&] { BProb B; B.P.n = 2; B.P.nex = 1; B.P.m = 7; B.P.l = 4; B.P.c = {cs[o.d[0]], cs[o.d[1]]};
      B.P.G = {1, 0, -1, 0, 0, 1, 0, -1, -ks[o.d[2]], 0, 0, -1, 0, 0}; B.P.h = {2.25, 1.5, 2.25, 1.5, a2[o.d[3]], ds[o.d[4]], 1};
      if (kind == 0) B.bl = {0, 1}; else { B.il = {0, 1}; B.lo = {-1, -1}; B.hi = {2, 2}; } return B; };
    if (!f(mk, "exp")) return false; }
  // mixed conic: integer least squares (epigraph variable), and exp of an integer combination under a continuous variable
  for (int kind = 0; kind < 3; kind++) for (Odo o(level < 0 ? std::vector<int>{3, 2, 2, 2, 2, 1} : std::vector<int>{4, 4, 3, 3, 3, 2}); !o.done; o.next()) {
    auto mk = [&] { BProb B; B.P.n = 3; B.P.q = {3}; B.P.m = 4; B.P.l = 1; B.P.c = {(double)(o.d[2] - 1) * 0.5, (double)(o.d[3] - 1) * 0.25, 1};
      B.P.G = {0, 0, 1, 0, 0, -1, -ms[o.d[4]], o.d[5] ? -0.5 : 0.0, 0, 0, -1, 0}; B.P.h = {3.7, 0, -as[o.d[0]] * 3, -as[o.d[1]] * 3 - 0.2};
      if (kind == 0) B.bl = {0, 1}; else if (kind == 1) B.il = {0, 1}; else { B.il = {0}; B.bl = {1}; }
      for (size_t i = 0; i < B.il.size(); i++) B.lo.push_back(-9), B.hi.push_back(9);
      return B; };
    if (!f(mk, "mixed SOC")) return false; }
  for (int kind = 0; kind < 2; kind++) for (Odo o(level < 0 ? std::vector<int>{2, 2, 2, 2} : std::vector<int>{4, 4, 3, 3}); !o.done; o.next()) {
    static const double ks[4] = {1, -1, 0.5, 2}, a2[3] = {0, 0.5, -0.7};
    auto mk = [&] { BProb B; B.P.n = 3; B.P.nex = 1; B.P.m = 8; B.P.l = 5; B.P.c = {cs[o.d[0]], a2[o.d[3]], 1};
      B.P.G = {1, 0, 0, -1, 0, 0, 0, 1, 0, 0, -1, 0, 1, 2, 0, -ks[o.d[1]], -1, 0, 0, 0, -1, 0, 0, 0}; B.P.h = {2.25, 1.5, 1.25, 1.5, 2.3, a2[o.d[2]], 0, 1};
      if (kind == 0) B.bl = {0, 1}; else { B.il = {0, 1}; B.lo = {-1, -1}; B.hi = {2, 1}; } return B; };
    if (!f(mk, "mixed exp")) return false; }
  return true;
}
}
