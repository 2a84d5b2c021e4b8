// C13: equivalent descriptions of one problem.
#include "base.hpp"
using namespace vf;
struct Re { Prob P; double f = 1; std::string what; int zeros = 0; unsigned zmask = 0; int order = 0; bool nulls = false; };
static long solve_desc(const Re &r, Sol &s) {
  const Prob &P = r.P; CCS G = ccs(P.G, P.m, P.n), A = ccs(P.A, P.p, P.n);
  if (r.zeros) { // store the zero entries selected by the mask explicitly
    int z = 0; auto build = [&](const std::vector<double> &D, long rows) { CCS c; c.jc.push_back(0); for (long j = 0; j < P.n; j++) { for (long i = 0; i < rows; i++) { double v = D[i * P.n + j]; bool keep = v != 0; if (!keep) { keep = r.zmask >> (z % 31) & 1; z++; } if (keep) c.pr.push_back(v), c.ir.push_back(i); } c.jc.push_back(c.pr.size()); } return c; };
    G = build(P.G, P.m); A = build(P.A, P.p); }
  if (r.order) for (CCS *c : {&G, &A}) for (long j = 0; j < P.n; j++) { long a = c->jc[j], b = c->jc[j + 1]; if (b - a < 2) continue; auto doit = [&](auto v) { if (r.order == 1) std::reverse(v + a, v + b); else if (r.order == 2) std::rotate(v + a, v + a + 1, v + b); else std::swap(v[a], v[b - 1]); }; doit(c->pr.begin()); doit(c->ir.begin()); }
  G.pr.reserve(G.pr.size() + 1); G.ir.reserve(G.ir.size() + 1); A.pr.reserve(A.pr.size() + 1); A.ir.reserve(A.ir.size() + 1);
  std::vector<double> c = P.c, h = P.h, b = P.b; std::vector<idxint> q = P.q; h.reserve(h.size() + 1); b.reserve(b.size() + 1); q.reserve(q.size() + 1);
  bool nA = P.p == 0 && r.nulls, nG = P.m == 0 && r.nulls;
  pwork *w = ECOS_setup(P.n, P.m, P.p, P.l, q.size(), q.empty() && r.nulls ? nullptr : q.data(), P.nex, nG ? nullptr : G.pr.data(), nG ? nullptr : G.jc.data(), nG ? nullptr : G.ir.data(), nA ? nullptr : A.pr.data(), nA ? nullptr : A.jc.data(), nA ? nullptr : A.ir.data(), c.data(), nG ? nullptr : h.data(), nA ? nullptr : b.data());
  if (!w) return s.code = -99; w->stgs->verbose = 0; long code = ECOS_solve(w); s = grab(w, code); ECOS_cleanup(w, 0); return code;
}
static Prob permcols(const Prob &P, const std::vector<int> &pm) { Prob Q = P; for (long j = 0; j < P.n; j++) { Q.c[j] = P.c[pm[j]]; for (long i = 0; i < P.m; i++) Q.G[i * P.n + j] = P.G[i * P.n + pm[j]]; for (long i = 0; i < P.p; i++) Q.A[i * P.n + j] = P.A[i * P.n + pm[j]]; } return Q; }
static Prob permrows(const Prob &P, const std::vector<int> &pm) { Prob Q = P; for (long i = 0; i < P.m; i++) { Q.h[i] = P.h[pm[i]]; for (long j = 0; j < P.n; j++) Q.G[i * P.n + j] = P.G[pm[i] * P.n + j]; } return Q; }
static void rewritings(const Prob &P, std::vector<Re> &out) {
  auto add = [&](const Prob &Q, const std::string &w, double f = 1) { Re r; r.P = Q; r.f = f; r.what = w; out.push_back(r); };
  std::vector<int> id(P.n); for (long i = 0; i < P.n; i++) id[i] = i; auto pm = id; while (std::next_permutation(pm.begin(), pm.end())) add(permcols(P, pm), "variables reordered " + vs(pm));
  std::vector<int> rid(P.m); for (long i = 0; i < P.m; i++) rid[i] = i;
  { auto r = rid; int k = 0; while (std::next_permutation(r.begin(), r.begin() + P.l) && k++ < 23) add(permrows(P, r), "linear rows reordered " + vs(r)); }
  { std::vector<int> ep(P.p); for (long i = 0; i < P.p; i++) ep[i] = i; while (std::next_permutation(ep.begin(), ep.end())) { Prob Q = P; for (long i = 0; i < P.p; i++) { Q.b[i] = P.b[ep[i]]; for (long j = 0; j < P.n; j++) Q.A[i * P.n + j] = P.A[ep[i] * P.n + j]; } add(Q, "equality rows reordered"); } }
  long s0 = P.l; for (auto qs : P.q) { auto r = rid; while (std::next_permutation(r.begin() + s0 + 1, r.begin() + s0 + qs)) add(permrows(P, r), "rows inside a cone reordered " + vs(r)); s0 += qs; }
  if (P.q.size() > 1) { std::vector<int> o(P.q.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; while (std::next_permutation(o.begin(), o.end())) { std::vector<int> r(rid.begin(), rid.begin() + P.l); Prob B = P; B.q.clear(); for (int k : o) { long st = P.l; for (int t = 0; t < k; t++) st += P.q[t]; for (long t = 0; t < P.q[k]; t++) r.push_back(st + t); B.q.push_back(P.q[k]); } for (long t = P.m - 3 * P.nex; t < P.m; t++) r.push_back(t); Prob Q = permrows(B, r); add(Q, "cones reordered " + vs(o)); } }
  if (P.nex > 1) { auto r = rid; for (long t = 0; t < 3; t++) std::swap(r[P.m - 6 + t], r[P.m - 3 + t]); add(permrows(P, r), "exponential cones reordered"); }
  for (double f : {0.25, 3.0, 16.0}) {
    for (long i = 0; i < P.l; i++) { Prob Q = P; Q.h[i] *= f; for (long j = 0; j < P.n; j++) Q.G[i * P.n + j] *= f; add(Q, fmt("linear row %ld scaled by %g", i, f)); }
    for (long i = 0; i < P.p; i++) for (double g : {f, -f}) { Prob Q = P; Q.b[i] *= g; for (long j = 0; j < P.n; j++) Q.A[i * P.n + j] *= g; add(Q, fmt("equality row %ld scaled by %g", i, g)); }
    s0 = P.l; for (auto qs : P.q) { Prob Q = P; for (long i = s0; i < s0 + qs; i++) { Q.h[i] *= f; for (long j = 0; j < P.n; j++) Q.G[i * P.n + j] *= f; } add(Q, fmt("cone at row %ld scaled by %g", s0, f)); s0 += qs; }
    for (long e = 0; e < P.nex; e++) { Prob Q = P; for (long i = P.m - 3 * P.nex + 3 * e, k = 0; k < 3; i++, k++) { Q.h[i] *= f; for (long j = 0; j < P.n; j++) Q.G[i * P.n + j] *= f; } add(Q, fmt("exponential cone %ld scaled by %g", e, f)); }
    { Prob Q = P; for (auto &x : Q.c) x *= f; add(Q, fmt("cost scaled by %g", f), f); }
    for (long j = 0; j < P.n; j++) for (double g : {f, -f}) { Prob Q = P; Q.c[j] *= g; for (long i = 0; i < P.m; i++) Q.G[i * P.n + j] *= g; for (long i = 0; i < P.p; i++) Q.A[i * P.n + j] *= g; add(Q, fmt("variable %ld measured in units of %g", j, g)); }
  }
  // cone of dimension 1 or an additional trivially redundant description
  { Prob Q = P; if (P.l > 0) { Q.l--; Q.q.insert(Q.q.begin(), 1); add(Q, "last linear row written as a second-order cone of dimension 1"); } }
  { Prob Q = P; if (P.p == 0) { Re r; r.P = P; r.nulls = true; r.what = "absent instead of empty matrices"; out.push_back(r); } }
  for (int k = 1; k <= 3; k++) for (int z = 0; z < 2; z++) { Re r; r.P = P; r.order = k; r.zeros = z; r.zmask = 0x7fffffffu; r.what = std::string("entries inside the columns ") + (k == 1 ? "reversed" : k == 2 ? "rotated" : "first and last swapped") + (z ? ", zeros stored" : ""); out.push_back(r); }
  int nz = 0; for (double v : P.G) nz += v == 0; for (double v : P.A) nz += v == 0;
  if (nz) { std::vector<unsigned> masks = {0x7fffffffu}; if (nz <= 4) { for (unsigned k = 1; k + 1 < 1u << nz; k++) masks.push_back(k); } else for (int k = 0; k < std::min(nz, 31); k++) masks.push_back(1u << k);
    for (unsigned k : masks) { Re r; r.P = P; r.zeros = 1; r.zmask = k; r.what = fmt("zero entries stored explicitly (mask %x)", k); out.push_back(r); } }
}
void vf::explore(Run &R) {
  each_base(R.thorough ? 2 : 1, [&](auto mk, int kind) {
    if (kind == 2) return true;   // without regularity the verdict may legitimately depend on rounding
    if (!R.want()) return !R.stopped;
    Prob P = mk(); if (!full_rank(P)) { R.notes["skipped: rank deficient"]++; return true; } Re base; base.P = P; Sol ref; solve_desc(base, ref); std::vector<Re> rs; rewritings(P, rs); R.outcome(std::string("base ") + codename(ref.code));
    for (auto &r : rs) {
      Sol s; solve_desc(r, s); R.evals++; R.alive(); R.nontriv(hmix(hmix(r.P.hash(), r.zmask * 8 + r.order), P.hash())); R.transitions++;
      std::string e; if (s.code == -99) e = "setup refused"; else { e = check_claim(r.P, s); if (e.empty() && s.code != ref.code) { bool weak = (s.code == ref.code + 10 || s.code + 10 == ref.code || s.code == -1 || s.code == -2 || ref.code < 0); if (weak) R.soft("accuracy differs between descriptions", r.what + fmt(": %s instead of %s  ", codename(s.code), codename(ref.code)) + P.str()); else e = fmt("%s instead of %s", codename(s.code), codename(ref.code)); }
        if (e.empty() && s.code == 0 && ref.code == 0 && !(fabs(s.info.pcost - r.f * ref.info.pcost) <= 1e-6 * std::max(1.0, r.f) * (1 + fabs(r.f * ref.info.pcost) + 0.1 * nrm(s.x)))) e = fmt("optimal value %.12g instead of %.12g", s.info.pcost, r.f * ref.info.pcost); }
      if (!e.empty()) { R.fail(r.what + ": " + e + "  " + P.str()); return false; } R.sample(r.what + fmt(": %s both times  ", codename(s.code)) + P.str());
    }
    return !R.stopped;
  });
}
