// C19: approximate minimum degree ordering: every small pattern, every storage form, all control settings, malformed input, minimal workspace.
#include "prob.hpp"
extern "C" {
#include "amd.h"
#ifdef DLONG
void amd_l1(long, const long *, const long *, long *, long *, long *, long, long *, double *, double *); size_t amd_l_aat(long, const long *, const long *, long *, long *, double *);
#define ORDER amd_l_order
#define VALID amd_l_valid
#define ONE amd_l1
#define AAT amd_l_aat
#define DEFAULTS amd_l_defaults
typedef long Int;
#else
void amd_1(int, const int *, const int *, int *, int *, int *, int, int *, double *, double *); size_t amd_aat(int, const int *, const int *, int *, int *, double *);
#define ORDER amd_order
#define VALID amd_valid
#define ONE amd_1
#define AAT amd_aat
#define DEFAULTS amd_defaults
typedef int Int;
#endif
}
using namespace vf;
typedef std::vector<Int> I; typedef uint64_t u64;
static const Int SENT = -99;
struct Graph { int n; std::vector<u64> adj; };   // symmetric, no diagonal
// true elimination: nonzeros of L below the diagonal for the order P, largest column including the diagonal, multiply-subtracts of LDL'
static void eliminate(const Graph &g, const Int *P, double &lnz, double &dmax, double &ms) { auto a = g.adj; u64 left = g.n == 64 ? ~0ull : (1ull << g.n) - 1; lnz = ms = 0; dmax = g.n ? 1 : 0; for (int k = 0; k < g.n; k++) { int p = P[k]; u64 nb = a[p] & left & ~(1ull << p); int d = __builtin_popcountll(nb); lnz += d; ms += d * (d + 1) / 2.0; dmax = std::max(dmax, (double)d + 1); for (u64 t = nb; t; t &= t - 1) { int i = __builtin_ctzll(t); a[i] |= nb; a[i] &= ~(1ull << i); } left &= ~(1ull << p); } }
static bool forest(const Graph &g) { std::vector<int> f(g.n); for (int i = 0; i < g.n; i++) f[i] = i; auto find = [&](int x) { while (f[x] != x) x = f[x]; return x; }; for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) if (g.adj[i] >> j & 1) { int a = find(i), b = find(j); if (a == b) return false; f[a] = b; } return true; }
struct Ctl { bool null; double dense, aggr; };
static std::string order(const Graph &g, I Ap, I Ai, int expect, const Ctl &c, bool info, Run &R, double nzdiag, double sym) {
  int n = g.n; double C[AMD_CONTROL]; DEFAULTS(C); if (!c.null) { C[AMD_DENSE] = c.dense; C[AMD_AGGRESSIVE] = c.aggr; } double F[AMD_INFO + 1]; for (auto &x : F) x = -7; I P(n + 1, SENT), Ap0 = Ap, Ai0 = Ai; long nz = Ap[n]; Ai.reserve(1);
  env::reset(); long st = ORDER(n, Ap.data(), Ai.data() ? Ai.data() : (Int *)"", P.data(), c.null ? nullptr : C, info ? F : nullptr); R.evals++;
  if (st != expect) return fmt("status %ld, should be %d", st, expect); if (Ap != Ap0 || Ai != Ai0) return "input changed"; if (P[n] != SENT) return "wrote beyond the permutation"; if (F[AMD_INFO] != -7) return "wrote beyond the statistics"; if (!env::heap_error.empty()) return env::heap_error; if (env::live_blocks) return "memory not released";
  u64 seen = 0; for (int k = 0; k < n; k++) { if (P[k] < 0 || P[k] >= n || (seen >> P[k] & 1)) return "not a permutation: " + vs(std::vector<long>(P.begin(), P.begin() + n)); seen |= 1ull << P[k]; }
  double lnz, dmax, ms; eliminate(g, P.data(), lnz, dmax, ms); double edges = 0; for (auto a : g.adj) edges += __builtin_popcountll(a);
  if (forest(g) && lnz != edges / 2 && (c.null || c.dense < 0 || n <= 16)) return fmt("an ordering with fill (%g instead of %g) for a forest", lnz, edges / 2);
  if (info && !n) return F[AMD_STATUS] == st && F[AMD_N] == 0 ? "" : "statistics of the empty matrix wrong";
  if (info) { if (F[AMD_STATUS] != st || F[AMD_N] != n || (n && expect == AMD_OK && F[AMD_NZ] != nz) || (n && !(F[AMD_NZ] <= nz))) return "status, size or entry count in the statistics wrong"; if (F[AMD_NZ_A_PLUS_AT] != edges) return fmt("statistics: %g entries in A+A', should be %g", F[AMD_NZ_A_PLUS_AT], edges); if (nzdiag >= 0 && F[AMD_NZDIAG] != nzdiag) return fmt("statistics: %g diagonal entries, should be %g", F[AMD_NZDIAG], nzdiag); if (sym >= 0 && fabs(F[AMD_SYMMETRY] - sym) > 1e-12) return fmt("statistics: symmetry %g, should be %g", F[AMD_SYMMETRY], sym);
    if (n) { if (!(F[AMD_LNZ] >= lnz)) return fmt("statistics: %g entries in L, the factor has %g", F[AMD_LNZ], lnz); if (!(F[AMD_NDIV] >= lnz)) return fmt("statistics: %g divisions, %g are needed", F[AMD_NDIV], lnz); if (!(F[AMD_DMAX] >= dmax)) return fmt("statistics: largest column %g, is %g", F[AMD_DMAX], dmax); if (!(F[AMD_NMULTSUBS_LDL] >= ms)) return fmt("statistics: %g multiply-subtracts, %g are needed", F[AMD_NMULTSUBS_LDL], ms); if (!(F[AMD_NMULTSUBS_LU] >= F[AMD_NMULTSUBS_LDL])) return "statistics: LU cheaper than LDL'";
      if (!(F[AMD_LNZ] <= n * (n - 1) / 2.0) && F[AMD_NDENSE] == 0) return fmt("statistics: %g entries in L, more than a full factor", F[AMD_LNZ]); } }
  R.transitions++; return "";
}
// form 0: both triangles, 1: upper, 2: lower, 3: upper with diagonal, 4: both with diagonal, columns in descending order, 5: upper with every entry twice
static std::string sym(const Graph &g, int form, const Ctl &c, bool info, Run &R) {
  int n = g.n; I Ap(1, 0), Ai; bool jum = false; double nd = 0, both = 0, off = 0; for (int j = 0; j < n; j++) { I col; for (int i = 0; i < n; i++) { bool e = g.adj[j] >> i & 1; bool in = i == j ? (form == 3 || form == 4) : e && (form == 0 || form == 4 ? true : form == 2 ? i > j : i < j); if (in) { col.push_back(i); nd += i == j; if (i != j) { off++; if (form == 0 || form == 4) both++; } if (form == 5) col.push_back(i); } } if (form == 4) std::reverse(col.begin(), col.end()); for (size_t k = 1; k < col.size(); k++) if (col[k] <= col[k - 1]) jum = true; Ai.insert(Ai.end(), col.begin(), col.end()); Ap.push_back(Ai.size()); }
  std::string e = order(g, Ap, Ai, jum ? AMD_OK_BUT_JUMBLED : AMD_OK, c, info, R, nd, off ? both / off : 1); if (!e.empty()) return e + fmt("  order %d form %d control %d/%g/%g Ap=%s Ai=%s", n, form, c.null, c.dense, c.aggr, vs(std::vector<long>(Ap.begin(), Ap.end())).c_str(), vs(std::vector<long>(Ai.begin(), Ai.end())).c_str());
  if (n && !jum) { // the smallest workspace allowed: garbage collections
    I Len(n), P(n), Pinv(n); size_t nzaat = AAT(n, Ap.data(), Ai.data(), Len.data(), P.data(), nullptr); Int slen = nzaat + 7 * n; I S(slen + 1, SENT); double C[AMD_CONTROL], F[AMD_INFO]; for (auto &x : F) x = 0; DEFAULTS(C); if (!c.null) { C[AMD_DENSE] = c.dense; C[AMD_AGGRESSIVE] = c.aggr; } ONE(n, Ap.data(), Ai.data(), P.data(), Pinv.data(), Len.data(), slen, S.data(), C, F); R.transitions++; if (S[slen] != SENT) return "wrote beyond the workspace";
    u64 seen = 0; for (int k = 0; k < n; k++) { if (P[k] < 0 || P[k] >= n || (seen >> P[k] & 1)) return "smallest workspace: not a permutation"; seen |= 1ull << P[k]; } double lnz, dmax, ms; eliminate(g, P.data(), lnz, dmax, ms); if (F[AMD_LNZ] < lnz) return "smallest workspace: too few entries of L announced"; R.outcome(F[AMD_NCMPA] > 0 ? "with garbage collection" : "without garbage collection"); }
  return "";
}
void vf::explore(Run &R) {
  int T = R.thorough; Ctl ctl[6] = {{true, 0, 0}, {false, 10, 1}, {false, 10, 0}, {false, -1, 1}, {false, 0, 1}, {false, 0, 0}};
  // all undirected graphs
  for (int n = 0; n <= 7; n++) { long NP = 1L << (n * (n - 1) / 2); for (long b = 0; b < NP; b += 256) { if (!R.want()) { if (R.stopped) return; continue; } std::string e;
      for (long pat = b; pat < std::min(NP, b + 256) && e.empty(); pat++) { Graph g{n, std::vector<u64>(n, 0)}; int bit = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (pat >> bit++ & 1) { g.adj[i] |= 1ull << j; g.adj[j] |= 1ull << i; } if (pat) R.nontriv(hmix(pat, n));
        for (int form = 0; form < 6 && e.empty(); form++) for (int c = 0; c < 6 && e.empty(); c++) { if (n == 7 && !T && (form % 3 || c > 1)) continue; e = sym(g, form, ctl[c], c != 1, R); } }
      R.outcome(fmt("graphs of order %d", n)); if (!e.empty()) { R.fail(e); if (R.stopped) return; } } }
  // all directed patterns with diagonal
  for (int n = 1; n <= 4; n++) { long NP = 1L << (n * n); for (long b = 0; b < NP; b += 256) { if (!R.want()) { if (R.stopped) return; continue; } std::string e;
      for (long pat = b; pat < std::min(NP, b + 256) && e.empty(); pat++) { Graph g{n, std::vector<u64>(n, 0)}; I Ap(1, 0), Ai; double nd = 0, off = 0, both = 0; for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) if (pat >> (i * n + j) & 1) { Ai.push_back(i); if (i == j) nd++; else { g.adj[i] |= 1ull << j; g.adj[j] |= 1ull << i; off++; both += pat >> (j * n + i) & 1; } } Ap.push_back(Ai.size()); }
        for (int c = 0; c < 6 && e.empty(); c += n == 4 ? 3 : 1) e = order(g, Ap, Ai, AMD_OK, ctl[c], true, R, nd, off ? both / off : 1); if (pat) R.nontriv(hmix(pat, 50 + n)); if (!e.empty()) e += fmt("  directed pattern %lx of order %d", pat, n); }
      R.outcome(fmt("directed patterns of order %d", n)); if (!e.empty()) { R.fail(e); if (R.stopped) return; } } }
  // dense rows: k rows connected to everything on top of a base graph, with and without the dense-row rule
  for (int n = 15; n <= (T ? 60 : 30); n++) for (int base = 0; base < 5; base++) for (int k = 0; k <= n; k++) for (int far = 0; far < 3; far++) { if (!R.want()) { if (R.stopped) return; continue; } Graph g{n, std::vector<u64>(n, 0)}; auto edge = [&](int i, int j) { if (i != j && i >= 0 && j >= 0 && i < n && j < n) { g.adj[i] |= 1ull << j; g.adj[j] |= 1ull << i; } };
      for (int i = 0; i < n; i++) { if (base == 1) edge(i, i + 1); if (base == 2) { edge(i, i + 1); edge(i, (i + 3) % n); } if (base == 3) for (int j = i / 4 * 4; j < i; j++) edge(i, j); if (base == 4) edge(i, (i * 2 + 1)); } for (int d = 0; d < k; d++) { int r = far == 0 ? d : far == 1 ? n - 1 - d : (d * 7 + 3) % n; for (int j = 0; j < n; j++) if (far != 2 || j % 5) edge(r, j); }
      std::string e; for (int form = 0; form < 6 && e.empty(); form++) for (int c = 0; c < 6 && e.empty(); c++) e = sym(g, form, ctl[c], true, R); R.nontriv(hmix(hmix(n, base), hmix(k, far))); R.outcome("dense rows"); if (!e.empty()) { R.fail(e + fmt(" base %d k %d far %d", base, k, far)); if (R.stopped) return; } }
  // malformed input: all column pointers and row indices in a small range
  for (int n = 0; n <= (T ? 3 : 2); n++) { int len = n + 1, nzmax = 3; Odo o(std::vector<int>(len + nzmax, 5)); while (!o.done) { bool run = R.want(); if (R.stopped) return; std::string e;
      for (int cnt = 0; cnt < 1000 && !o.done; cnt++, o.next()) { if (!run || !e.empty()) continue; I Ap(len), Ai(nzmax), P(n + 1, SENT); for (int i = 0; i < len; i++) Ap[i] = o.d[i] - 1; for (int i = 0; i < nzmax; i++) Ai[i] = o.d[len + i] - 1; bool ok = n == 0 || (Ap[0] == 0 && Ap[n] >= 0), jum = false; if (n) for (int i = 0; i < len && ok; i++) if (Ap[i] < 0 || Ap[i] > nzmax) { /* outside the array: legal only to the validation */ }
        if (n && ok) for (int j = 0; j < n && ok; j++) { if (Ap[j] > Ap[j + 1]) ok = false; } if (n && ok && Ap[n] > nzmax) continue; // would have to read beyond the array
        if (n && !ok) { bool oob = false; for (int i = 0; i <= n; i++) if (Ap[i] > nzmax) oob = true; if (oob && Ap[0] == 0 && Ap[n] >= 0) continue; }
        if (n && ok) for (int j = 0; j < n; j++) { Int last = -1; for (Int p = Ap[j]; p < Ap[j + 1]; p++) { if (Ai[p] < 0 || Ai[p] >= n) ok = false; if (Ai[p] <= last) jum = true; last = Ai[p]; } }
        double F[AMD_INFO]; env::reset(); long st = ORDER(n, Ap.data(), Ai.data(), P.data(), nullptr, F); R.evals++; int want = n == 0 ? AMD_OK : !ok ? AMD_INVALID : jum ? AMD_OK_BUT_JUMBLED : AMD_OK; R.outcome(want == AMD_INVALID ? "malformed" : "well formed");
        if (st != want || F[AMD_STATUS] != want) e = fmt("status %ld (statistics %g), should be %d", st, F[AMD_STATUS], want); else if (want == AMD_INVALID) { for (auto x : P) if (x != SENT) e = "wrote a permutation for malformed input"; if (n) R.nontriv(hmix(R.mycase, cnt)); }
        if (n && VALID(n, n, Ap.data(), Ai.data()) != want) e = "validation disagrees"; if (env::live_blocks) e = "memory not released"; if (P[n] != SENT) e = "wrote beyond the permutation"; if (!e.empty()) e += "  Ap=" + vs(std::vector<long>(Ap.begin(), Ap.end())) + " Ai=" + vs(std::vector<long>(Ai.begin(), Ai.end())); }
      if (run && !e.empty()) { R.fail(e); if (R.stopped) return; } } }
  if (R.want()) { Int Ap[2] = {0, 1}, Ai[1] = {0}, P[1]; double F[AMD_INFO]; std::string e; if (ORDER(-1, Ap, Ai, P, nullptr, F) != AMD_INVALID) e = "negative order accepted"; if (ORDER(1, nullptr, Ai, P, nullptr, F) != AMD_INVALID || ORDER(1, Ap, nullptr, P, nullptr, F) != AMD_INVALID || ORDER(1, Ap, Ai, nullptr, nullptr, F) != AMD_INVALID) e = "missing arrays accepted"; if (VALID(1, 1, nullptr, Ai) != AMD_INVALID || VALID(1, 1, Ap, nullptr) != AMD_INVALID || VALID(-1, 1, Ap, Ai) != AMD_INVALID) e = "validation accepts missing arrays"; R.evals++; if (!e.empty()) R.fail(e); }
}
