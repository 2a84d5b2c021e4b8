// C23: sparse matrix and vector primitives against the dense definitions.  All values are small integers or powers of two, so that every
// result is exact in any order of summation.
#include "prob.hpp"
using namespace vf;
extern "C" {
#include "splamm.h"
#include "spla.h"
void vf_free(void *); void spla_cumsum(idxint *, idxint *, idxint); void pinv(idxint, idxint *, idxint *);
}
typedef std::vector<double> V; typedef std::vector<idxint> I;
static const double SENT = -12345.5; static const idxint IS = -77;
struct M { long m, n; V d; double at(long i, long j) const { return d[i * n + j]; } };
struct SP { V pr; I jc, ir; spmat *s; SP(const M &A, int form) {      // form 1: zeros stored too, form 2: rows of each column in descending order
    jc.push_back(0); for (long j = 0; j < A.n; j++) { for (long q = 0; q < A.m; q++) { long i = form == 2 ? A.m - 1 - q : q; if (A.at(i, j) != 0 || form == 1) { pr.push_back(A.at(i, j)); ir.push_back(i); } } jc.push_back(pr.size()); }
    long nz = pr.size(); pr.resize(nz + 2, SENT); ir.resize(nz + 2, IS); s = ecoscreateSparseMatrix(A.m, A.n, nz, jc.data(), ir.data(), pr.data()); } ~SP() { vf_free(s); } };
static V dense(spmat *s, std::string &e) { V d(s->m * s->n, 0); if (s->jc[0] != 0 || s->jc[s->n] != s->nnz) { e = "column pointers do not start at 0 and end at the number of entries"; return d; } std::vector<char> seen(s->m * s->n, 0);
  for (long j = 0; j < s->n; j++) { if (s->jc[j] > s->jc[j + 1]) { e = "column pointers decrease"; return d; } for (long k = s->jc[j]; k < s->jc[j + 1]; k++) { if (k < 0 || k >= s->nnz || s->ir[k] < 0 || s->ir[k] >= s->m) { e = "row index out of range"; return d; } if (seen[s->ir[k] * s->n + j]++) e = "entry stored twice"; d[s->ir[k] * s->n + j] += s->pr[k]; } } return d; }
static std::string one(const M &A, int form, Run &R) {
  SP a(A, form); std::string e; long nnz = a.s->nnz; V pr0 = a.pr; I jc0 = a.jc, ir0 = a.ir;
  { I map(nnz + 2, IS); spmat *T = transposeSparseMatrix(a.s, map.data()); R.transitions++; if (!T) return "no transpose"; if (T->m != A.n || T->n != A.m || T->nnz != nnz) e = "transpose has the wrong size"; else { V d = dense(T, e); for (long i = 0; i < A.m && e.empty(); i++) for (long j = 0; j < A.n; j++) if (d[j * A.m + i] != A.at(i, j)) { e = fmt("transpose: entry (%ld,%ld) is %g, should be %g", j, i, d[j * A.m + i], A.at(i, j)); break; }
      for (long j = 0; j < T->n && e.empty(); j++) for (long k = T->jc[j] + 1; k < T->jc[j + 1]; k++) if (T->ir[k] <= T->ir[k - 1]) e = "rows of the transpose are not in ascending order";
      std::vector<char> used(nnz, 0); for (long j = 0; j < A.n && e.empty(); j++) for (long k = a.jc[j]; k < a.jc[j + 1]; k++) { long q = map[k]; if (q < 0 || q >= nnz || used[q]++) { e = "map to the transpose is not a permutation"; break; } if (T->ir[q] != j || T->pr[q] != a.pr[k] || !(T->jc[a.ir[k]] <= q && q < T->jc[a.ir[k] + 1])) { e = "map to the transpose points to another entry"; break; } }
      if (map[nnz] != IS) e = "map written beyond its end"; freeSparseMatrix(T); } if (!e.empty()) return e; }
  { spmat *B = copySparseMatrix(a.s); if (B->m != A.m || B->n != A.n || B->nnz != nnz || B->pr == a.s->pr || B->jc == a.s->jc || B->ir == a.s->ir) e = "copy has the wrong size or shares memory"; else for (long k = 0; k < nnz; k++) if (B->pr[k] != a.pr[k] || B->ir[k] != a.ir[k]) e = "copy differs"; for (long j = 0; j <= A.n && e.empty(); j++) if (B->jc[j] != a.jc[j]) e = "copy has other column pointers"; freeSparseMatrix(B); if (!e.empty()) return e; }
  for (int xv = 0; xv < 2; xv++) for (int nv = 0; nv < 2; nv++) for (int sg = -1; sg <= 1; sg += 2) {
    V x(A.n + 1), y(A.m + 1, SENT), ref(A.m); for (long j = 0; j < A.n; j++) x[j] = xv ? (j == 1 ? 0 : 3 - 2 * j) : j + 1; for (long i = 0; i < A.m; i++) { if (!nv) y[i] = 8 * (i + 1); ref[i] = nv ? 0 : y[i]; for (long j = 0; j < A.n; j++) ref[i] += sg * A.at(i, j) * x[j]; } V x0 = x;
    sparseMV(a.s, x.data(), y.data(), sg, nv); R.transitions++; for (long i = 0; i < A.m; i++) if (y[i] != ref[i]) e = fmt("product y %s A*x (new=%d): component %ld is %g, should be %g", sg > 0 ? "+" : "-", nv, i, y[i], ref[i]); if (y[A.m] != SENT || x != x0) e = "product wrote outside its result"; if (!e.empty()) return e;
    if (sg > 0) { V x(A.m + 1), y(A.n + 1, SENT); for (long i = 0; i < A.m; i++) x[i] = xv ? (i == 0 ? 0 : 5 - 3 * i) : i + 1; V y0 = y; if (!nv) for (long j = 0; j < A.n; j++) y0[j] = y[j] = 16 * (j + 1); V x0 = x;
      for (int skip = 0; skip < 2; skip++) { y = y0; sparseMtVm(a.s, x.data(), y.data(), nv, skip); R.transitions++; for (long j = 0; j < A.n; j++) { double r = nv ? 0 : y0[j]; for (long i = 0; i < A.m; i++) if (!(skip && i == j)) r -= A.at(i, j) * x[i]; if (y[j] != r) e = fmt("product y - A'*x (new=%d, skip diagonal=%d): component %ld is %g, should be %g", nv, skip, j, y[j], r); } if (y[A.n] != SENT || x != x0) e = "transposed product wrote outside its result"; if (!e.empty()) return e; } } }
  env::heap_check_all(); if (!env::heap_error.empty()) return env::heap_error; if (a.pr != pr0 || a.jc != jc0 || a.ir != ir0) return "an operation changed the matrix"; return e;
}
void vf::explore(Run &R) {
  int T = R.thorough; std::vector<double> al3 = {0, 1, -2}, al2 = {0, 3}, al4 = {0, 1, -2, 0.5};
  struct Sh { int m, n; std::vector<double> *al; }; std::vector<Sh> shs; for (int m = 0; m <= 4; m++) for (int n = 0; n <= 4; n++) { auto *al = m * n <= 6 ? &al4 : m * n <= 9 ? &al3 : &al2; shs.push_back({m, n, al}); } if (T) { shs.push_back({3, 4, &al3}); shs.push_back({4, 3, &al3}); shs.push_back({3, 3, &al4}); shs.push_back({2, 5, &al3}); shs.push_back({5, 2, &al3}); shs.push_back({1, 6, &al4}); shs.push_back({6, 1, &al4}); }
  for (auto &s : shs) { Odo o(std::vector<int>(s.m * s.n, s.al->size())); long blk = 0; M A{s.m, s.n, V(s.m * s.n)};
    while (!o.done) { bool run = R.want(); if (R.stopped) return; std::string e;
      for (int c = 0; c < 256 && !o.done; c++, o.next()) { if (!run || !e.empty()) continue; bool nz = false; for (size_t i = 0; i < o.d.size(); i++) { A.d[i] = (*s.al)[o.d[i]]; nz |= A.d[i] != 0; }
        for (int form = 0; form < 3 && e.empty(); form++) { R.evals++; e = one(A, form, R); if (!e.empty()) e += fmt("  %dx%d form %d %s", s.m, s.n, form, vs(A.d).c_str()); } if (nz) R.nontriv(hmix(blk * 256 + c, s.m * 10 + s.n + 100 * s.al->size())); if (s.m * s.n == 0) break; }
      blk++; if (run) { R.outcome(fmt("%dx%d", s.m, s.n)); R.sample(fmt("%dx%d up to ", s.m, s.n) + vs(A.d)); if (!e.empty()) { R.fail(e); if (R.stopped) return; } } if (s.m * s.n == 0) break; } }
  // symmetric permutation: all patterns of the upper triangle (plus, optionally, stored lower entries that have to be ignored) x all permutations
  for (int n = 0; n <= (T ? 6 : 5); n++) { int nu = n * (n + 1) / 2; std::vector<I> perms; { I p(n); for (int i = 0; i < n; i++) p[i] = i; do perms.push_back(p); while (std::next_permutation(p.begin(), p.end())); }
    long NP = 1L << nu; long dg = 0; for (int y = 0; n == 6 && y < n; y++) dg |= 1L << (y * (y + 1) / 2 + y);   // order 6: full diagonal only
    for (long b0 = 0; b0 < NP; b0 += 512) { if (!R.want()) { if (R.stopped) return; continue; } std::string e;
      for (long pat = b0; pat < std::min(NP, b0 + 512) && e.empty(); pat++) for (int low = 0; low < (n <= 4 ? 2 : 1) && e.empty(); low++) { if ((pat & dg) != dg) continue; V pr; I jc(1, 0), ir; std::vector<std::pair<int, int>> pos; int bit = 0; int nup = 0;
        for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) { bool in = i <= j ? (pat >> bit++) & 1 : low && (i + j + pat) % 2; if (in) { pr.push_back(1 + i + 10 * j); ir.push_back(i); pos.push_back({i, j}); nup += i <= j; } } jc.push_back(pr.size()); } long nz = pr.size(); pr.push_back(SENT); ir.push_back(IS);
        spmat *A = ecoscreateSparseMatrix(n, n, nz, jc.data(), ir.data(), pr.data());
        for (size_t pi = 0; pi < perms.size() && e.empty(); pi++) { R.evals++; I Pinv(n + 1, IS); I P = perms[pi]; ::pinv(n, P.data(), Pinv.data()); for (int i = 0; i < n; i++) if (Pinv[P[i]] != i) e = "inverse permutation wrong"; if (Pinv[n] != IS) e = "inverse permutation wrote beyond its end";
          for (int withmap = 0; withmap < 2 && e.empty(); withmap++) { spmat *C = newSparseMatrix(n, n, nup); I PK(nz + 1, IS); permuteSparseSymmetricMatrix(A, Pinv.data(), C, withmap ? PK.data() : nullptr); R.transitions++; V d = dense(C, e); if (!e.empty()) break;
            for (int i = 0; i < n && e.empty(); i++) for (int j = 0; j < n; j++) { int a = P[i], b = P[j]; int x = std::min(a, b), y = std::max(a, b); bool has = i <= j && (pat >> (y * (y + 1) / 2 + x)) & 1; double ref = has ? 1 + x + 10 * y : 0; if (d[i * n + j] != ref) { e = fmt("permuted matrix: entry (%d,%d) is %g, should be %g", i, j, d[i * n + j], ref); break; } }
            if (withmap && e.empty()) { std::vector<char> used(nup, 0); for (long k = 0; k < nz; k++) { if (pos[k].first > pos[k].second) continue; long q = PK[k]; if (q < 0 || q >= nup || used[q]++ || C->pr[q] != pr[k]) { e = "map of the permutation points to another entry"; break; } } if (PK[nz] != IS) e = "map written beyond its end"; }
            freeSparseMatrix(C); } if (!e.empty()) e += "  permutation " + vs(P); }
        if (pat) R.nontriv(hmix(pat * 2 + low, 1000 + n)); vf_free(A); if (!e.empty()) e += fmt("  order %d pattern %lx low %d", n, pat, low); }
      R.outcome(fmt("symmetric order %d", n)); if (!e.empty()) { R.fail(e); if (R.stopped) return; } } }
  // vectors
  V al = {0, 1, -1, 3, -4, 1e-3, -1e200}; for (int n = 0; n <= (T ? 6 : 4); n++) for (Odo o(std::vector<int>(n, 5)); !o.done; o.next()) { if (!R.want()) { if (R.stopped) return; continue; } std::string e; V x(n + 1, SENT), y(n + 1, SENT); double ni = 0, n2 = 0; for (int i = 0; i < n; i++) { x[i] = al[o.d[i]]; ni = std::max(ni, fabs(x[i])); n2 += x[i] * x[i]; } R.evals++;
    if (norminf(x.data(), n) != ni) e = fmt("infinity norm %g, should be %g", norminf(x.data(), n), ni); if (!(fabs(norm2(x.data(), n) - sqrt(n2)) <= 1e-15 * sqrt(n2))) e = "2-norm wrong";
    for (int b = 0; b < 5 && e.empty(); b++) { double dot = 0; for (int i = 0; i < n; i++) { y[i] = al[(o.d[i] + b * (i + 1)) % 5]; dot += x[i] * y[i]; } if (eddot(n, x.data(), y.data()) != dot) e = "inner product wrong"; V z = y; vadd(n, x.data(), z.data()); for (int i = 0; i < n; i++) if (z[i] != x[i] + y[i]) e = "vector sum wrong"; if (z[n] != SENT) e = "vector sum wrote beyond its end"; for (double a : {0.0, 1.0, -2.0, 0.5}) { z = y; vsubscale(n, a, x.data(), z.data()); R.transitions++; for (int i = 0; i < n; i++) if (z[i] != y[i] - a * x[i]) e = "scaled difference wrong"; if (z[n] != SENT) e = "scaled difference wrote beyond its end"; } }
    I w(n + 1, IS), p(n + 1, IS), w0; for (int i = 0; i < n; i++) w[i] = o.d[i]; w0 = w; spla_cumsum(p.data(), w.data(), n); long s = 0; for (int i = 0; i < n; i++) { if (p[i] != s || w[i] != s) e = "cumulative sum wrong"; s += w0[i]; } if (p[n] != IS || w[n] != IS) e = "cumulative sum wrote beyond its end";
    if (ni) R.nontriv(hmix(R.mycase, 9)); R.outcome("vectors"); if (!e.empty()) { R.fail(e + "  x=" + vs(x)); if (R.stopped) return; } }
}
