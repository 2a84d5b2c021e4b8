// C33: large structured problems whose answer follows from a small one.
#ifndef MODE
#define MODE 1
#endif
#include "base.hpp"
#include "bb.hpp"
#include "env.hpp"
using namespace vf;
struct Big { Prob P; double f = 1; std::string what; };
// a problem given block by block, put together in the order the solver wants
struct Row { std::vector<std::pair<long, double>> a; double r = 0; };
struct Sp { long n = 0; std::vector<double> c; std::vector<Row> eq, lin; std::vector<std::vector<Row>> soc, exc; };
static Sp sparse(const Prob &P) {
  Sp S; S.n = P.n; S.c = P.c; auto row = [&](const std::vector<double> &M, long i, double r) { Row R; R.r = r; for (long j = 0; j < P.n; j++) if (M[i * P.n + j] != 0) R.a.push_back({j, M[i * P.n + j]}); return R; };
  for (long i = 0; i < P.p; i++) S.eq.push_back(row(P.A, i, P.b[i]));
  long k = 0; for (; k < P.l; k++) S.lin.push_back(row(P.G, k, P.h[k]));
  for (auto q : P.q) { S.soc.push_back({}); for (long i = 0; i < q; i++, k++) S.soc.back().push_back(row(P.G, k, P.h[k])); }
  for (long e = 0; e < P.nex; e++) { S.exc.push_back({}); for (int i = 0; i < 3; i++, k++) S.exc.back().push_back(row(P.G, k, P.h[k])); }
  return S;
}
static Prob dense(const Sp &S) {
  Prob P; P.n = S.n; P.p = S.eq.size(); P.l = S.lin.size(); P.nex = S.exc.size(); P.m = P.l + 3 * P.nex; for (auto &q : S.soc) { P.q.push_back(q.size()); P.m += q.size(); }
  P.c = S.c; P.G.assign(P.m * P.n, 0); P.A.assign(P.p * P.n, 0); P.h.resize(P.m); P.b.resize(P.p); long k = 0;
  auto put = [&](std::vector<double> &M, std::vector<double> &v, long i, const Row &R) { for (auto &e : R.a) M[i * P.n + e.first] += e.second; v[i] = R.r; };
  for (long i = 0; i < P.p; i++) put(P.A, P.b, i, S.eq[i]);
  for (auto &r : S.lin) put(P.G, P.h, k++, r); for (auto &q : S.soc) for (auto &r : q) put(P.G, P.h, k++, r); for (auto &q : S.exc) for (auto &r : q) put(P.G, P.h, k++, r);
  return P;
}
template <class F> static void each_row(Sp &S, F f) { for (auto &r : S.eq) f(r); for (auto &r : S.lin) f(r); for (auto &q : S.soc) for (auto &r : q) f(r); for (auto &q : S.exc) for (auto &r : q) f(r); }
// T k: put B beside A; way 0: block after block, 1: the variables and constraints of B first
static Sp beside(const Sp &A, const Sp &B, int way) {
  if (way) return beside(B, A, 0);
  Sp S = A, T = B; each_row(T, [&](Row &r) { for (auto &e : r.a) e.first += A.n; }); S.n += B.n; auto app = [](auto &u, const auto &v) { u.insert(u.end(), v.begin(), v.end()); };
  app(S.c, T.c); app(S.eq, T.eq); app(S.lin, T.lin); app(S.soc, T.soc); app(S.exc, T.exc); return S;
}
static Sp renumber(Sp S, const std::vector<long> &to) { each_row(S, [&](Row &r) { for (auto &e : r.a) e.first = to[e.first]; }); auto c = S.c; for (long j = 0; j < S.n; j++) c[to[j]] = S.c[j]; S.c = c; return S; }
static const int NT = 9;
static const char *tname[NT] = {"copies side by side", "copies interleaved", "rows of the second-order cones repeated, each scaled so that the norm is kept", "second-order cones padded with zero rows", "every variable replaced by a chain of equal ones", "linear rows repeated in multiples", "dense row added that does not bind", "dense column added for a variable fixed to zero", "cost moved to a chain of equal variables"};
// the transformed problem, or nothing where it does not apply; f is multiplied by the factor on the optimal value
static bool apply(Sp &S, int t, int k, const std::vector<double> &x, double &f, std::vector<double> &xn) {
  xn = x; long n0 = S.n;
  switch (t) {
  case 0: case 1: { Sp B = S; auto x1 = x; for (int i = 1; i < k; i++) { S = beside(S, B, 0); xn.insert(xn.end(), x1.begin(), x1.end()); } f *= k;
    if (t == 1) { std::vector<long> to(S.n); std::vector<double> xx(S.n); for (int i = 0; i < k; i++) for (long j = 0; j < n0; j++) { to[i * n0 + j] = j * k + i; if (xn.size()) xx[j * k + i] = xn[i * n0 + j]; } S = renumber(S, to); if (xn.size()) xn = xx; } return true; }
  case 2: if (S.soc.empty()) return false; for (auto &q : S.soc) { std::vector<Row> r; r.push_back(q[0]); for (size_t i = 1; i < q.size(); i++) for (int j = 0; j < k; j++) { Row R = q[i]; double g = 1 / sqrt((double)k); for (auto &e : R.a) e.second *= g; R.r *= g; r.push_back(R); } q = r; } return true;
  case 3: if (S.soc.empty()) return false; for (auto &q : S.soc) for (int j = 0; j < k; j++) q.insert(q.begin() + 1 + (j * 7) % q.size(), Row()); return true;
  case 4: { std::vector<long> last(n0); for (long j = 0; j < n0; j++) { last[j] = j; for (int i = 0; i < k; i++) { Row r; r.a = {{last[j], 1.0}, {S.n, -1.0}}; S.eq.push_back(r); last[j] = S.n++; S.c.push_back(0); if (x.size()) xn.push_back(x[j]); } }
    for (auto &r : S.lin) for (auto &e : r.a) e.first = last[e.first]; for (long j = 0; j < n0; j++) std::swap(S.c[j], S.c[last[j]]); return true; }
  case 5: { if (S.lin.empty()) return false; auto L = S.lin; for (int i = 1; i < k; i++) for (Row r : L) { for (auto &e : r.a) e.second *= 1 + i % 3; r.r *= 1 + i % 3; S.lin.push_back(r); } return true; }
  case 6: { if (x.empty()) return false; for (int i = 0; i < k; i++) { Row r; r.r = 10; for (long j = 0; j < S.n; j++) { double v = (i + j) % 3 == 1 ? -1 : 1; r.a.push_back({j, v}); r.r += v * x[j]; } S.lin.insert(S.lin.begin() + (i % 2 ? 0 : S.lin.size()), r); } return true; }
  case 7: { for (int i = 0; i < k; i++) { long v = S.n++; S.c.push_back(0); if (x.size()) xn.push_back(0); each_row(S, [&](Row &r) { if (r.a.size()) r.a.push_back({v, i % 2 ? -1.0 : 1.0}); }); Row e; e.a = {{v, 1.0}}; S.eq.push_back(e); } return true; }
  case 8: { long v = S.n; S.n += k; Row e; double cv = 0; for (long j = 0; j < n0; j++) { e.a.push_back({j, -S.c[j]}); if (x.size()) cv += S.c[j] * x[j]; S.c[j] = 0; } e.a.push_back({v, 1.0}); S.eq.push_back(e); S.c.resize(S.n, 0); S.c[S.n - 1] = 1; if (x.size()) xn.resize(S.n, cv);
    for (long i = v; i + 1 < S.n; i++) { Row r; r.a = {{i, 1.0}, {i + 1, -1.0}}; S.eq.push_back(r); } return true; }
  }
  return false;
}

// ---- programs of any size whose answer is known by another way of computing it
// arcs of a w x h grid: right, down, and every third node also back up
static std::vector<std::pair<int, int>> grid(int w, int h) { std::vector<std::pair<int, int>> a; for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) { int v = j * w + i; if (i + 1 < w) a.push_back({v, v + 1}); if (j + 1 < h) a.push_back({v, v + w}); if (j > 0 && v % 3 == 1) a.push_back({v, v - w}); } return a; }
static int pat(int a, int b, int c, int i) { return 1 + (a * i + b * (i / 2) + c * (i * i % 7)) % 9; }
// shortest path from the first to the last node as a flow problem; cut: the arcs into the last node are left out
static Sp path(int w, int h, int a, int b, int c, bool cut, double &val) {
  auto arcs = grid(w, h); int N = w * h; std::vector<std::pair<int, int>> use; for (auto e : arcs) if (!cut || e.second != N - 1) use.push_back(e);
  Sp S; S.n = use.size(); std::vector<double> d(N, 1e9); d[0] = 0; for (size_t k = 0; k < use.size(); k++) S.c.push_back(pat(a, b, c, k));
  for (int it = 0; it < N; it++) for (size_t k = 0; k < use.size(); k++) d[use[k].second] = std::min(d[use[k].second], d[use[k].first] + S.c[k]); val = d[N - 1];
  for (int v = 0; v < N; v++) { if (cut ? v == 0 : v == N / 2) continue; Row r; r.r = v == 0 ? 1 : v == N - 1 ? -1 : 0; for (size_t k = 0; k < use.size(); k++) { if (use[k].first == v) r.a.push_back({(long)k, 1.0}); if (use[k].second == v) r.a.push_back({(long)k, -1.0}); } S.eq.push_back(r); }
  for (long k = 0; k < S.n; k++) { Row r; r.a = {{k, -1.0}}; S.lin.push_back(r); } return S;
}
// largest flow between the same nodes, capacities by the pattern
static Sp flow(int w, int h, int a, int b, int c, double &val) {
  auto arcs = grid(w, h); int N = w * h; Sp S; S.n = arcs.size(); S.c.assign(S.n, 0); std::vector<std::vector<int>> cap(N, std::vector<int>(N, 0)); int f = 0;
  for (size_t k = 0; k < arcs.size(); k++) { int u = pat(a, b, c, k); cap[arcs[k].first][arcs[k].second] += u; if (arcs[k].first == 0) S.c[k] = -1; if (arcs[k].second == 0) S.c[k] = 1; Row r; r.a = {{(long)k, 1.0}}; r.r = u; S.lin.push_back(r); r.a[0].second = -1; r.r = 0; S.lin.push_back(r); }
  for (;;) { std::vector<int> from(N, -1), q = {0}; from[0] = 0; for (size_t i = 0; i < q.size(); i++) for (int v = 0; v < N; v++) if (from[v] < 0 && cap[q[i]][v] > 0) from[v] = q[i], q.push_back(v); if (from[N - 1] < 0) break; int t = 1e9; for (int v = N - 1; v; v = from[v]) t = std::min(t, cap[from[v]][v]); for (int v = N - 1; v; v = from[v]) cap[from[v]][v] -= t, cap[v][from[v]] += t; f += t; }
  for (int v = 1; v < N - 1; v++) { Row r; for (size_t k = 0; k < arcs.size(); k++) { if (arcs[k].first == v) r.a.push_back({(long)k, 1.0}); if (arcs[k].second == v) r.a.push_back({(long)k, -1.0}); } S.eq.push_back(r); }
  val = -f; return S;
}
// distance of a point to a hyperplane, in n dimensions, cone of n+1 rows
static Sp distance(int n, int a, int b, int c, double &val) {
  Sp S; S.n = n + 1; S.c.assign(n + 1, 0); S.c[n] = 1; Row e; double ax = 0, aa = 0; std::vector<Row> q(1); q[0].a = {{n, -1.0}};
  for (long j = 0; j < n; j++) { double g = j % 3 ? 1 : -2, t = pat(a, b, c, j); e.a.push_back({j, g}); ax += g * t; aa += g * g; Row r; r.a = {{j, -1.0}}; r.r = -t; q.push_back(r); } e.r = ax + 3 + a; val = (3 + a) / sqrt(aa); S.eq.push_back(e); S.soc.push_back(q); return S;
}
// shortest way through k points in the plane between two fixed ones
static Sp chain(int k, int a, int b, int c, double &val) {
  Sp S; S.n = 3 * k + 1; S.c.assign(S.n, 0); double ex = 1 + a, ey = b - 2 * c; val = sqrt(ex * ex + ey * ey); for (int i = 0; i <= k; i++) { long t = 2 * k + i; S.c[t] = 1; std::vector<Row> q(3); q[0].a = {{t, -1.0}}; for (int d = 0; d < 2; d++) { Row &r = q[1 + d]; if (i < k) r.a.push_back({2 * i + d, -1.0}); else r.r = d ? ey : ex; if (i) r.a.push_back({2 * (i - 1) + d, 1.0}); } S.soc.push_back(q); } return S;
}
// entropy: min c'x + sum x log x over the simplex
static Sp entropy(int n, int a, int b, int c, double &val) {
  Sp S; S.n = 2 * n; S.c.assign(S.n, 1); double z = 0; Row e; e.r = 1; for (long i = 0; i < n; i++) { double ci = 0.5 * pat(a, b, c, i) - 1; S.c[i] = ci; z += exp(-ci); e.a.push_back({i, 1.0}); std::vector<Row> q(3); q[0].a = {{n + i, 1.0}}; q[1].r = 1; q[2].a = {{i, -1.0}}; S.exc.push_back(q); } S.eq.push_back(e); val = -log(z); return S;
}
// geometric: min of sum exp(a_i x) (one variable, both signs), value from bisection on the derivative
static Sp sumexp(int n, int a, int b, int c, double &val) {
  Sp S; S.n = n + 1; S.c.assign(S.n, 1); S.c[0] = 0; std::vector<double> al(n), be(n); for (long i = 0; i < n; i++) { al[i] = (i % 2 ? -0.25 : 0.25) * pat(a, b, c, i); be[i] = 0.5 * pat(c, a, b, i) - 2; std::vector<Row> q(3); q[0].a = {{0, -al[i]}}; q[0].r = be[i]; q[1].a = {{1 + i, -1.0}}; q[2].r = 1; S.exc.push_back(q); }
  double lo = -50, hi = 50; for (int it = 0; it < 200; it++) { double x = (lo + hi) / 2, d = 0; for (int i = 0; i < n; i++) d += al[i] * exp(al[i] * x + be[i]); (d > 0 ? hi : lo) = x; } val = 0; for (int i = 0; i < n; i++) val += exp(al[i] * lo + be[i]); return S;
}
// knapsack with n boolean (or, up to 3 of each, integer) items; the best value by dynamic programming
static BProb knapsack(int n, int a, int b, int c, bool general, double &val) {
  int W = 0; std::vector<int> wt(n), v(n); for (int i = 0; i < n; i++) wt[i] = 1 + pat(a, b, c, i), v[i] = 1 + pat(b, c, a, i + 1), W += wt[i] * (general ? 3 : 1); W = W * (2 + a % 3) / 6;
  std::vector<int> best(W + 1, 0); for (int i = 0; i < n; i++) for (int r = 0; r < (general ? 3 : 1); r++) for (int k = W; k >= wt[i]; k--) best[k] = std::max(best[k], best[k - wt[i]] + v[i]); val = -best[W];
  Sp S; S.n = n; Row r; r.r = W; for (long i = 0; i < n; i++) { S.c.push_back(-v[i]); r.a.push_back({i, (double)wt[i]}); } S.lin.push_back(r); BProb B; for (long i = 0; i < n; i++) { if (general) { Row u; u.a = {{i, 1.0}}; u.r = 3; S.lin.push_back(u); u.a = {{i, -1.0}}; u.r = 0; S.lin.push_back(u); B.il.push_back(i); B.lo.push_back(0); B.hi.push_back(3); } else B.bl.push_back(i); } B.P = dense(S); return B;
}
static long draws; static int draw() { return (int)((draws++ * 1103515245ull + 12345) / 65536 % RAND_MAX); }
void vf::explore(Run &R) {
  // (transformation, size) alone and in pairs
  std::vector<std::vector<std::pair<int, int>>> seqs; std::vector<int> ks = MODE == 2 ? std::vector<int>{5} : R.thorough ? std::vector<int>{1, 2, 3, 7, 20, 60, 150, 300} : std::vector<int>{2, 7, 50, 150};
  for (int t = 0; t < NT; t++) for (int k : ks) seqs.push_back({{t, k}});
  for (int t = 0; t < NT; t++) for (int u = 0; u < NT; u++) for (int k : R.thorough ? std::vector<int>{3, 11} : std::vector<int>{4}) seqs.push_back({{t, k}, {u, k + 1}});
  std::vector<std::vector<std::pair<int, int>>> deep; if (R.thorough) for (int t = 0; t < NT; t++) for (int u = 0; u < NT; u++) for (int v = 0; v < NT; v++) deep.push_back({{t, 2}, {u, 3}, {v, 2}}); // threes, on the data problems
  auto judge = [&](const Prob &P, const Prob &base, long want, double val, double f, const std::string &what) {
    Sol s = solve_fresh(P); R.evals++; R.transitions++; R.alive(); R.nontriv(P.hash()); std::string e;
    if (s.code == -99) e = "setup refused"; else { e = check_claim(P, s, 1e-6, 4e-6);
      if (e.empty() && s.code != want) { if (s.code == -2 && base.nex && what.find(tname[5]) != std::string::npos && R.known("repeated-rows-beside-exponential-cone")) return true; else if (s.code == want + 10 || (s.code == -2 && P.nex)) R.soft("accuracy differs with the size", what + fmt(": %s instead of %s  ", codename(s.code), codename(want)) + base.str()); else e = fmt("%s instead of %s", codename(s.code), codename(want)); }
      else { if (e.empty() && want == 0 && !(fabs(s.info.pcost - f * val) <= 2e-6 * std::max(1.0, f) * (1 + fabs(val) + 0.1 * nrm(s.x)))) e = fmt("optimal value %.12g instead of %.12g", s.info.pcost, f * val); } }
    R.outcome(what.substr(0, what.find('=')) + (s.code == want ? "" : s.code == want + 10 ? " INACC" : " no answer"));
    if (!e.empty()) R.fail(what + ": " + e + "  " + base.str()); else R.sample(what + fmt(": %s, n=%ld m=%ld  ", codename(s.code), P.n, P.m) + base.str());
    return e.empty();
  };
  each_base(R.thorough ? 1 : 0, [&](auto mk, int kind) {
    if (kind == 2) return true;
    if (!R.want()) return !R.stopped;
    Prob P = mk(); if (!full_rank(P)) { R.notes["skipped: rank deficient"]++; return true; } Sol ref = solve_fresh(P); if (ref.code < 0 || ref.code > 2) { R.notes["skipped: base not answered"]++; return true; }
    std::vector<double> x = ref.code == 0 ? ref.x : std::vector<double>();
    for (auto *list : {&seqs, &deep}) for (auto &q : *list) { if (list == &deep && kind) break; Sp S = sparse(P); double f = 1; std::string what; bool ok = true; std::vector<double> xc = x, xn; for (auto &tk : q) { if (!apply(S, tk.first, tk.second, xc, f, xn)) { ok = false; break; } xc = xn; what += (what.empty() ? "" : ", then ") + std::string(tname[tk.first]) + fmt(" k=%d", tk.second); }
      if (!ok) continue; if (S.n * (double)(S.eq.size() + S.lin.size() + S.soc.size() + S.exc.size()) > 4e6) continue;
      if (!judge(dense(S), P, ref.code, ref.info.pcost, f, what)) return false; }
    // one bad block among many good ones
    if (ref.code != 0) for (auto &z : zoo()) { const Prob &Z = z.v[0]; Sol g = solve_fresh(Z); if (g.code != 0) continue; Sp S; bool first = true; int k = R.thorough ? 9 : 4; for (int at = 0; at < 2; at++) { S = Sp(); first = true; for (int i = 0; i < k; i++) { const Prob &B = i == (at ? k - 1 : 1) ? P : Z; S = first ? sparse(B) : beside(S, sparse(B), 0); first = false; }
        if (!judge(dense(S), P, ref.code, 0, 1, fmt("block %d of =%d blocks, the others are ", at ? k - 1 : 1, k) + Z.str())) return false; } }
    return !R.stopped;
  });
  if (R.stopped) return;
  // programs with an answer known by another way
  int top = R.thorough ? 5 : 3; std::vector<int> ns = MODE == 2 ? std::vector<int>{4, 9} : R.thorough ? std::vector<int>{1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233} : std::vector<int>{1, 2, 4, 9, 20, 45, 90, 140};
  for (Odo o({top, top, top}); !o.done; o.next()) { int a = o.d[0], b = o.d[1], c = o.d[2]; double val;
    for (int w = 2; w <= (MODE == 2 ? 3 : R.thorough ? 9 : 6); w++) for (int h = 1; h <= w; h++) for (int t = 0; t < 3; t++) { if (h == 1 && t == 2) continue; if (!R.want()) { if (R.stopped) return; continue; } Sp S = t < 2 ? path(w, h, a, b, c, t, val) : flow(w, h, a, b, c, val); if (S.eq.empty()) continue; Prob P = dense(S); judge(P, P, t == 1 ? 1 : 0, val, 1, fmt("%s on a grid=%dx%d", t == 0 ? "shortest path" : t == 1 ? "path to a node that cannot be reached" : "largest flow", w, h)); if (R.stopped) return; }
    for (int n : ns) for (int t = 0; t < 4; t++) { if (n == 1 && t == 3) continue; if (!R.want()) { if (R.stopped) return; continue; } Sp S = t == 0 ? distance(n, a, b, c, val) : t == 1 ? chain(n, a, b, c, val) : t == 2 ? entropy(n, a, b, c, val) : sumexp(n, a, b, c, val); Prob P = dense(S); static const char *tn[4] = {"distance to a hyperplane", "polygon between two points", "largest entropy", "sum of exponentials"}; judge(P, P, 0, val, 1, fmt("%s n=%d", tn[t], n)); if (R.stopped) return; }
    for (int n = 1; n <= (MODE == 2 ? 3 : R.thorough ? 12 : 9); n++) for (int g = 0; g < 2; g++) { if (g && n > 5) continue; if (!R.want()) { if (R.stopped) return; continue; } BProb B = knapsack(n, a, b, c, g, val); for (int strat = 0; strat < 5; strat++) for (int dive = 0; dive < 3; dive++) { if ((strat * 3 + dive + n) % (R.thorough ? 2 : 5)) continue;
        settings_bb st; memset(&st, 0, sizeof st); st.maxit = 3000; st.abs_tol_gap = MI_ABS_EPS; st.rel_tol_gap = MI_REL_EPS; st.integer_tol = MI_INT_TOL; st.reliable_eta = 6; st.branching_strategy = (enum BRANCHING_STRATEGY)strat; st.node_selection_method = (enum NODE_SELECTION_METHOD)dive; draws = 0; env::rand_hook = draw; BSol s = bsolve(B, nullptr, &st); R.evals++; R.transitions++; R.alive(); R.nontriv(hmix(B.hash(), strat * 3 + dive)); std::string e; R.outcome("knapsack");
        if (s.code != 0) e = fmt("%s instead of OPTIMAL", bbname(s.code)); else { double wsum = 0, cx = 0; for (int i = 0; i < n; i++) { double r = std::round(s.x[i]); if (fabs(r - s.x[i]) > 1e-4) e = "not integral " + vs(s.x); wsum += B.P.G[i] * r; cx += B.P.c[i] * r; } if (e.empty() && wsum > B.P.h[0]) e = "too heavy " + vs(s.x); if (e.empty() && !(cx <= val + 1e-6 + 1e-3 * fabs(val) * (1 + 1e-6))) e = fmt("value %g instead of %g", cx, val); }
        if (!e.empty()) R.fail(fmt("knapsack n=%d %s strategy %d selection %d: ", n, g ? "integer" : "boolean", strat, dive) + e + "  " + B.str()); if (R.stopped) return; } } }
}
