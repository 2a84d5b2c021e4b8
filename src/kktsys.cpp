// C26: the linear systems of every iteration of every solve.  The references of the solver to kkt_factor and kkt_solve are redirected
// to the hooks below; each call is checked against the system defined by the data, the iterate and the cones (long double, dense).
#include "base.hpp"
using namespace vf;
extern "C" { idxint kkt_factor(kkt *, pfloat, pfloat); idxint kkt_solve(kkt *, spmat *, spmat *, pfloat *, pfloat *, pfloat *, pfloat *, idxint, idxint, idxint, cone *, idxint, idxint); void updateSettings_unused(void); }
typedef std::vector<double> V; typedef std::vector<ld> L; typedef std::vector<L> M;
static M mat(int r, int c) { return M(r, L(c, 0)); }
static ld ninf(const L &v) { ld t = 0; for (ld x : v) t = std::max(t, fabsl(x)); return t; }
static ld maxm(const M &a) { ld t = 0; for (auto &r : a) t = std::max(t, ninf(r)); return t; }
static L mul(const M &a, const L &x) { L r(a.size(), 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < x.size(); j++) r[i] += a[i][j] * x[j]; return r; }
static L mulT(const M &a, const L &x, size_t n) { L r(n, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < n; j++) r[j] += a[i][j] * x[i]; return r; }
static ld dot(const L &a, const L &b) { ld t = 0; for (size_t i = 0; i < a.size(); i++) t += a[i] * b[i]; return t; }
struct Meas { std::map<std::string, double> mx; void dump() { if (getenv("VF_MEAS")) for (auto &k : mx) fprintf(stderr, "MEAS %s %.3g\n", k.first.c_str(), k.second); } void operator()(const char *k, double v) { double &m = mx[k]; if (!(v <= m)) m = v; } };
struct It { L x, y, z, s; ld tau, kap, mu; };
struct Ctx {
  pwork *w = nullptr; bool active = false, init = false, have = false, blk = false; int nfac = 0, nsol = 0, fac = 0, sol = 0, skipped = 0; std::string err; Meas meas;
  long n, p, m, l, N; std::vector<long> q; long nex; std::vector<long> off;   // off: expanded index of cone row i
  M A, G; L b, c, h; M W2, W; std::vector<char> good;   // good[cone row]: its block is well enough conditioned to compare with
  It it; L rx, ry, rz; ld rt; L d1x, d1y, d1z, d2x, d2y, d2z, dzaff; ld dtauaff, dkapaff, sigma; bool full = false; ld cond = 1, lin1 = 0, lin2 = 0;
  void bad(const std::string &m) { if (err.empty()) err = fmt("iteration %ld: ", (long)w->info->iter) + m; }
} X;
#define DS ((ld)DELTASTAT)
static M dense(spmat *S) { M r; if (!S) return r; r = mat(S->m, S->n); for (idxint j = 0; j < S->n; j++) for (idxint k = S->jc[j]; k < S->jc[j + 1]; k++) r[S->ir[k]][j] += S->pr[k]; return r; }
static L vec(const double *v, long n) { return v ? L(v, v + n) : L(n, 0); }
static void hess(const ld *z, ld H[3][3], ld g[3], ld &amp) {   // -log(w-u-u*log(-v/u)) - log(-u) - log(v)
  ld u = z[0], v = z[1], w = z[2], l = logl(v) - logl(-u), r = w - u - u * l; amp = (fabsl(w) + fabsl(u) * (1 + fabsl(l))) / r;
  ld dr[3] = {-l, -u / v, 1}, d2[3][3] = {{1 / u, -1 / v, 0}, {-1 / v, u / (v * v), 0}, {0, 0, 0}};
  for (int i = 0; i < 3; i++) { g[i] = -dr[i] / r; for (int j = 0; j < 3; j++) H[i][j] = dr[i] * dr[j] / (r * r) - d2[i][j] / r; }
  g[0] -= 1 / u; H[0][0] += 1 / (u * u); g[1] -= 1 / v; H[1][1] += 1 / (v * v);
}
static void begin(pwork *w, const Prob &P) {
  X.w = w; X.active = true; X.nfac = X.nsol = 0; X.have = X.full = false; X.err.clear(); X.n = w->n; X.p = w->p; X.m = w->m; X.l = w->C->lpc->p; X.nex = w->C->nexc; X.q.clear(); X.off.clear();
  long k = w->n + w->p; for (long i = 0; i < X.l; i++) X.off.push_back(k++); for (idxint i = 0; i < w->C->nsoc; i++) { X.q.push_back(w->C->soc[i].p); for (long j = 0; j < X.q.back(); j++) X.off.push_back(k++); k += 2; } for (long i = 0; i < 3 * X.nex; i++) X.off.push_back(k++); X.N = k;
}
static void grab_data() {   // the scaled data as they are when the first system is assembled (C24 decides that they are the right ones)
  pwork *w = X.w; X.A = dense(w->p ? w->A : nullptr); X.G = dense(w->G); X.b = vec(w->b, w->p); X.c = vec(w->c, w->n); X.h = vec(w->h, w->m);
}
static It snap() { pwork *w = X.w; It t; t.x = vec(w->x, X.n); t.y = vec(w->y, X.p); t.z = vec(w->z, X.m); t.s = vec(w->s, X.m); t.tau = w->tau; t.kap = w->kap; long D = X.l + X.q.size() + 3 * X.nex; t.mu = (dot(t.s, t.z) + t.kap * t.tau) / (D + 1); return t; }
static void residuals(const It &t, L &rx, L &ry, L &rz, ld &rt) {
  rx = mulT(X.G, t.z, X.n); if (X.p) { L a = mulT(X.A, t.y, X.n); for (long i = 0; i < X.n; i++) rx[i] += a[i]; } for (long i = 0; i < X.n; i++) rx[i] = -rx[i] - t.tau * X.c[i];
  ry = X.p ? mul(X.A, t.x) : L(); for (long i = 0; i < X.p; i++) ry[i] -= t.tau * X.b[i]; rz = mul(X.G, t.x); for (long i = 0; i < X.m; i++) rz[i] += t.s[i] - t.tau * X.h[i]; rt = t.kap + dot(X.c, t.x) + dot(X.b, t.y) + dot(X.h, t.z);
}
// W and W^2 of the Nesterov-Todd scaling (exponential cones: mu * Hessian of the dual barrier), from s and z alone
static void scaling(const It &t) {
  X.W2 = mat(X.m, X.m); X.W = mat(X.m, X.m); X.good.assign(X.m, 1); long k = 0; X.cond = 1;
  if (X.init) { for (long i = 0; i < X.m; i++) X.W2[i][i] = X.W[i][i] = 1; return; }
  for (; k < X.l; k++) { if (!(t.s[k] > 0 && t.z[k] > 2e-13L)) X.cond = -1; X.W2[k][k] = t.s[k] / t.z[k]; X.W[k][k] = sqrtl(X.W2[k][k]); }
  for (long p : X.q) { ld rs = t.s[k] * t.s[k], rz = t.z[k] * t.z[k], sz = t.s[k] * t.z[k]; for (long i = 1; i < p; i++) { rs -= t.s[k + i] * t.s[k + i]; rz -= t.z[k + i] * t.z[k + i]; sz += t.s[k + i] * t.z[k + i]; }
    ld cs = rs / (t.s[k] * t.s[k]), cz = rz / (t.z[k] * t.z[k]); X.cond = X.cond < 0 ? -1.0L : std::min(X.cond, t.s[k] > 0 && t.z[k] > 0 ? std::min(cs, cz) : -1.0L); if (!(X.cond == X.cond)) X.cond = -1; rs = sqrtl(rs); rz = sqrtl(rz); ld eta2 = rs / rz, eta = sqrtl(eta2), gam = sqrtl((1 + sz / (rs * rz)) / 2); L wb(p); wb[0] = (t.s[k] / rs + t.z[k] / rz) / (2 * gam); for (long i = 1; i < p; i++) wb[i] = (t.s[k + i] / rs - t.z[k + i] / rz) / (2 * gam);
    for (long i = 0; i < p; i++) for (long j = 0; j < p; j++) { X.W2[k + i][k + j] = eta2 * (2 * wb[i] * wb[j] + (i == j ? (i ? 1 : -1) : 0)); X.W[k + i][k + j] = eta * (!i || !j ? wb[i + j] : (i == j) + wb[i] * wb[j] / (1 + wb[0])); }
    if (!(cs > 1e-13L && cz > 1e-13L && t.s[k] > 0 && t.z[k] > 0)) for (long i = 0; i < p; i++) X.good[k + i] = 0; k += p; }
  for (long e = 0; e < X.nex; e++, k += 3) { ld H[3][3], g[3], amp; hess(&t.z[k], H, g, amp); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) X.W2[k + i][k + j] = t.mu * H[i][j]; X.cond = X.cond < 0 ? -1.0L : amp > 0 ? std::min(X.cond, 1 / amp) : -1.0L; if (!(amp < 1e7L)) for (int i = 0; i < 3; i++) X.good[k + i] = 0; }
}
static void check_matrix(kkt *K) {
  long N = X.N; if (K->PKPt->n != N || K->PKPt->m != N) { X.bad(fmt("KKT matrix has dimension %ld, expected %ld", (long)K->PKPt->n, N)); return; }
  std::vector<long> inv(N, -1); for (long i = 0; i < N; i++) { long t = K->Pinv[i]; if (t < 0 || t >= N || inv[t] >= 0) { X.bad("Pinv is not a permutation"); return; } inv[t] = i; } for (long i = 0; i < N; i++) if (K->P[K->Pinv[i]] != i) { X.bad("P and Pinv are not inverse"); return; }
  M k = mat(N, N); std::vector<std::vector<char>> seen(N, std::vector<char>(N, 0)); spmat *S = K->PKPt;
  for (long c = 0; c < N; c++) for (idxint t = S->jc[c]; t < S->jc[c + 1]; t++) { long r = S->ir[t]; if (r < 0 || r > c) { X.bad("entry below the diagonal of the permuted KKT matrix"); return; } if (seen[r][c]) { X.bad("duplicate entry in the KKT matrix"); return; } seen[r][c] = 1; k[inv[r]][inv[c]] = k[inv[c]][inv[r]] = S->pr[t]; }
  // signs given to the factorisation: +1 for the first n and for the second auxiliary variable of each second-order cone, -1 otherwise
  std::vector<int> blk(N, -1), row(N, -1); for (long i = 0; i < X.m; i++) row[X.off[i]] = i; long o = X.l; long cb = 0; std::vector<int> cone(X.m); for (long i = 0; i < X.l; i++) cone[i] = cb++; { long t = X.l; for (long p : X.q) { for (long i = 0; i < p; i++) cone[t++] = cb; cb++; } for (long e = 0; e < X.nex; e++) { for (int i = 0; i < 3; i++) cone[t++] = cb; cb++; } }
  long n = X.n, p = X.p; auto what = [&](long i) { return i < n ? fmt("x%ld", i) : i < n + p ? fmt("y%ld", i - n) : row[i] >= 0 ? fmt("z%d", row[i]) : std::string("auxiliary"); };
  for (long i = 0; i < N; i++) for (long j = 0; j <= i; j++) { ld e = 0; bool cmp = true, diag = i == j;
    if (i < n) e = diag ? DS : 0; else if (i < n + p) e = j < n ? X.A[i - n][j] : diag ? -DS : 0; else if (row[i] >= 0) { if (j < n) e = X.G[row[i]][j]; else if (j < n + p) e = 0; else if (row[j] >= 0 && cone[row[i]] != cone[row[j]]) e = 0; else cmp = false; } else if (j < n + p) e = 0; else cmp = false;
    if (cmp && !(fabsl(k[i][j] - e) <= (diag ? DS * 1e-6L : 1e-15L * fabsl(e)))) { X.bad(fmt("KKT matrix entry (%s,%s) is %.17Lg, should be %.17Lg", what(i).c_str(), what(j).c_str(), k[i][j], e)); return; } }
  if (!(X.cond > 0)) return; long r = 0; auto cmpblk = [&](const M &B, long r, long sz, ld scale, const char *kind) { for (long i = 0; i < sz; i++) for (long j = 0; j < sz; j++) { ld d = fabsl(B[i][j] + X.W2[r + i][r + j]); ld tol = X.init ? 4 * DS : scale; X.meas((std::string("matrix ") + kind).c_str(), d / tol); if (!(d <= tol)) { X.bad(fmt("KKT matrix: entry (%ld,%ld) of the block of the %s cone at row %ld is %.15Lg, should be %.15Lg (tolerance %.3Lg)", i, j, kind, r, B[i][j], -X.W2[r + i][r + j], tol)); return false; } } return true; };
  for (; r < X.l; r++) { long i = X.off[r]; M B = mat(1, 1); B[0][0] = k[i][i] + (X.init ? 0 : DS); if (!cmpblk(B, r, 1, 1e-13L * (X.W2[r][r] + DS), "linear")) return; }
  for (long q : X.q) { long o = X.off[r], v = o + q, u = v + 1; ld d = X.init ? 0 : DS, vv = k[v][v], uu = k[u][u] - d, vu = k[v][u], det = vv * uu - vu * vu; M B = mat(q, q); ld big = 0; for (long i = 0; i < q; i++) for (long j = 0; j < q; j++) { ld a = k[o + i][v], b = k[o + i][u], cc = k[o + j][v], dd = k[o + j][u]; B[i][j] = k[o + i][o + j] + (i == j ? d : 0) - (uu * a * cc - vu * (a * dd + b * cc) + vv * b * dd) / det; big = std::max(big, std::max(fabsl(b * dd / uu), fabsl(X.W2[r + i][r + j]))); }
    for (long j = n + p; j < N; j++) if ((j < o || j > u) && (k[v][j] != 0 || k[u][j] != 0)) { X.bad("auxiliary variable of a second-order cone is coupled to another cone"); return; }
    ld cs = 1; if (X.good[r] && !cmpblk(B, r, q, 1e-12L * (big + DS) / X.cond, "second-order")) return; r += q; }
  for (long e = 0; e < X.nex; e++, r += 3) { M B = mat(3, 3); ld big = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { B[i][j] = k[X.off[r + i]][X.off[r + j]] + (i == j ? DS : 0); big = std::max(big, fabsl(X.W2[r + i][r + j])); } if (X.good[r] && !cmpblk(B, r, 3, 1e-12L * (big + DS) / X.cond, "exponential")) return; }
  for (long i = 0; i < N; i++) { int want = i < n ? 1 : -1; { long rr = X.l; for (long q : X.q) { if (i == X.off[rr] + q + 1) want = 1; rr += q; } } if (K->Sign[K->Pinv[i]] != want) { X.bad(fmt("sign of %s for the dynamic regularisation is %ld", what(i).c_str(), (long)K->Sign[K->Pinv[i]])); return; } }
}
static L jprod(const L &a, const L &b) { L r(X.m, 0); long k = 0; for (; k < X.l; k++) r[k] = a[k] * b[k]; for (long p : X.q) { for (long i = 0; i < p; i++) r[k] += a[k + i] * b[k + i]; for (long i = 1; i < p; i++) r[k + i] = a[k] * b[k + i] + b[k] * a[k + i]; k += p; } return r; }
// x with lambda o x = y
static L jdiv(const L &a, const L &y) { L r(X.m, 0); long k = 0; for (; k < X.l; k++) r[k] = y[k] / a[k]; for (long p : X.q) { ld rho = a[k] * a[k], z = 0; for (long i = 1; i < p; i++) { rho -= a[k + i] * a[k + i]; z += a[k + i] * y[k + i]; } ld t = (a[k] * y[k] - z) / rho; r[k] = t; for (long i = 1; i < p; i++) r[k + i] = (y[k + i] - t * a[k + i]) / a[k]; k += p; } return r; }
static L lam() { return mul(X.W, X.it.z); }     // symmetric cones: lambda = W z
// what the third right-hand side is, for the cone part
static L rhs3() {
  ld om = 1 - X.sigma, sm = X.sigma * X.it.mu; L la = lam(), wz = mul(X.W, X.dzaff), sb(X.m, 0); for (long i = 0; i < X.m; i++) sb[i] = -wz[i] - la[i]; L d = jprod(la, la), d2 = jprod(sb, wz); long k = 0; for (long i = 0; i < X.m; i++) d[i] += d2[i]; for (; k < X.l; k++) d[k] -= sm; for (long p : X.q) { d[k] -= sm; k += p; }
  L t = mul(X.W, jdiv(la, d)); for (long e = 0; e < X.nex; e++, k += 3) { ld H[3][3], g[3], amp; hess(&X.it.z[k], H, g, amp); for (int i = 0; i < 3; i++) t[k + i] = X.it.s[k + i] + sm * g[i]; } for (long i = 0; i < X.m; i++) t[i] -= om * X.rz[i]; return t;
}
static void check_step() {   // the step that led from X.it to the present iterate
  It t = snap(); L rx, ry, rz; ld rt; residuals(t, rx, ry, rz, rt); ld a = X.w->info->step, f = 1 - a * (1 - X.sigma);
  ld sx = X.it.tau * ninf(X.c) + maxm(X.G) * ninf(X.it.z) + (X.p ? maxm(X.A) * ninf(X.it.y) : 0), sp = ninf(X.it.s) + X.it.tau * (ninf(X.h) + ninf(X.b)) + (maxm(X.G) + maxm(X.A)) * ninf(X.it.x);
  L dx(X.n), dy(X.p), dz(X.m); for (long i = 0; i < X.n; i++) dx[i] = t.x[i] - X.it.x[i]; for (long i = 0; i < X.p; i++) dy[i] = t.y[i] - X.it.y[i]; for (long i = 0; i < X.m; i++) dz[i] = t.z[i] - X.it.z[i];
  auto cmp = [&](const L &now, const L &before, ld tol, const char *nm) { for (size_t i = 0; i < now.size(); i++) { ld d = fabsl(now[i] - f * before[i]); X.meas(nm, d / tol); if (!(d <= tol)) { X.bad(fmt("after a step of %.6Lg with centering %.6Lg the %s residual %zu is %.9Lg instead of %.9Lg (before %.9Lg, tolerance %.2Lg)", a, X.sigma, nm, i, now[i], f * before[i], before[i], tol)); return; } } };
  // the residual left by the linear solves is what a step may be off by
  ld dt = fabsl(t.tau - X.it.tau), lin = a * X.lin2 + dt * X.lin1, T = 1e-12L; cmp(rx, X.rx, 2 * lin + T * sx, "dual"); cmp(ry, X.ry, 2 * lin + T * sp, "equality"); if (X.cond > 0) cmp(rz, X.rz, 2 * lin + 10 * T * sp / X.cond, "cone");
  auto dab = [](const L &u, const L &v) { ld r = 0; for (size_t i = 0; i < u.size(); i++) r += fabsl(u[i] * v[i]); return r; }; ld mag = X.it.kap + dab(X.c, X.it.x) + dab(X.b, X.it.y) + dab(X.h, X.it.z) + dt * (dab(X.c, X.d1x) + dab(X.b, X.d1y) + dab(X.h, X.d1z)) + a * (dab(X.c, X.d2x) + dab(X.b, X.d2y) + dab(X.h, X.d2z)) + X.it.kap / X.it.tau * dt;
  cmp(L{rt}, L{X.rt}, 1e-12L * mag, "gap");
}
extern "C" idxint hook_kkt_factor(kkt *K, pfloat eps, pfloat delta) {
  if (!X.active) return kkt_factor(K, eps, delta);
  if (!X.nfac) grab_data();
  X.fac++; X.init = X.nex == 0 && X.nfac == 0; X.nfac++; X.nsol = 0;
  if (X.err.empty()) {
    if (!X.init && X.full) check_step();
    X.it = snap(); X.full = false; residuals(X.it, X.rx, X.ry, X.rz, X.rt); scaling(X.it); check_matrix(K);
    if (eps != X.w->stgs->eps || delta != X.w->stgs->delta) X.bad("factorisation called with other regularisation parameters than the settings");
  }
  return kkt_factor(K, eps, delta);
}
extern "C" idxint hook_kkt_solve(kkt *K, spmat *A, spmat *G, pfloat *Pb, pfloat *dx, pfloat *dy, pfloat *dz, idxint n, idxint p, idxint m, cone *C, idxint isinit, idxint nitref) {
  if (!X.active || !X.err.empty()) return kkt_solve(K, A, G, Pb, dx, dy, dz, n, p, m, C, isinit, nitref);
  X.sol++; int kind = X.nsol++; long N = X.N; pwork *w = X.w; L rhs(N, 0); for (long i = 0; i < N; i++) rhs[i] = Pb[K->Pinv[i]];
  L bx(rhs.begin(), rhs.begin() + n), by(rhs.begin() + n, rhs.begin() + n + p), bz(m); for (long i = 0; i < m; i++) { bz[i] = rhs[X.off[i]]; rhs[X.off[i]] = 0; } for (long i = n + p; i < N; i++) if (rhs[i] != 0) X.bad("auxiliary variables have a right-hand side");
  if (!!isinit != X.init) X.bad("isinit does not tell whether this is the initial system"); if (nitref != w->stgs->nitref) X.bad("number of refinement steps is not the one of the settings");
  L ex(n, 0), ey(p, 0), ez(m, 0); ld tx = 0, ty = 0, tz = 0; bool zgood = true; ld gG = maxm(X.G), gA = X.p ? maxm(X.A) : 0; ld sx = X.it.tau * ninf(X.c) + gG * ninf(X.it.z) + gA * ninf(X.it.y), sp = ninf(X.it.s) + X.it.tau * (ninf(X.h) + ninf(X.b)) + (gG + gA) * ninf(X.it.x);
  if (X.init) { if (kind == 0) { ey = X.b; ez = X.h; } else for (long i = 0; i < n; i++) ex[i] = -X.c[i]; }
  else if (kind == 0) { for (long i = 0; i < n; i++) ex[i] = -X.c[i]; ey = X.b; ez = X.h; }
  else if (kind == 1) { ex = X.rx; for (long i = 0; i < p; i++) ey[i] = -X.ry[i]; for (long i = 0; i < m; i++) ez[i] = X.it.s[i] - X.rz[i]; tx = 1e-13L * sx; ty = tz = 1e-13L * sp; }
  else { ld aff = w->info->step_aff, om = 1 - aff, sg = om * om * om; sg = std::min(std::max(sg, (ld)SIGMAMIN), (ld)SIGMAMAX); X.sigma = w->info->sigma; if (!(fabsl(sg - X.sigma) <= 1e-12L)) X.bad(fmt("centering parameter %.12Lg does not follow from the affine step %.12Lg", X.sigma, aff));
    for (long i = 0; i < n; i++) ex[i] = (1 - X.sigma) * X.rx[i]; for (long i = 0; i < p; i++) ey[i] = -(1 - X.sigma) * X.ry[i]; ez = rhs3(); ld wn = maxm(X.W); tx = 1e-13L * sx; ty = 1e-13L * sp; tz = 1e-13L * sp + 5e-8L * (wn * wn * ninf(X.dzaff) + ninf(X.it.s) + ninf(ez)) / X.cond; for (char g : X.good) zgood &= g; }
  auto cmp = [&](const L &a, const L &e, ld t, const char *nm) { for (size_t i = 0; i < a.size(); i++) { ld tol = t + 1e-14L * fabsl(e[i]); ld d = fabsl(a[i] - e[i]); X.meas(fmt("rhs %d %s", kind, nm).c_str(), d / (tol + 1e-300L)); if (!(d <= tol)) { X.bad(fmt("right-hand side %d, %s part, entry %zu is %.15Lg, should be %.15Lg (tolerance %.2Lg)", kind + 1, nm, i, a[i], e[i], tol)); return; } } };
  if (kind > 2 || (X.init && kind > 1)) X.bad("more linear systems than expected"); cmp(bx, ex, tx, "x"); cmp(by, ey, ty, "y"); if (zgood && X.cond > 0) cmp(bz, ez, tz, "z");
  ld base = -1; idxint r = 0;
  for (int pass = nitref > 0 ? 0 : 1; pass < 2; pass++) {   // first without refinement, then as asked
  idxint steps = pass ? nitref : 0; V before(Pb, Pb + N); r = kkt_solve(K, A, G, Pb, dx, dy, dz, n, p, m, C, isinit, steps); if (memcmp(before.data(), Pb, N * sizeof(double))) X.bad("kkt_solve changed its right-hand side");
  if (r < 0 || r > nitref) X.bad(fmt("kkt_solve reports %ld refinement steps", (long)r));
  L vx = vec(dx, n), vy = vec(dy, p), vz = vec(dz, m); M W2 = X.W2; if (!X.init) { long k = X.l; for (long i = 0; i < X.l; i++) W2[i][i] = C->lpc->v[i]; for (size_t q = 0; q < X.q.size(); q++) { socone &S = C->soc[q]; for (long i = 0; i < X.q[q]; i++) for (long j = 0; j < X.q[q]; j++) { ld wi = i ? S.q[i - 1] : S.a, wj = j ? S.q[j - 1] : S.a; W2[k + i][k + j] = S.eta_square * (2 * wi * wj + (i == j ? (i ? 1 : -1) : 0)); } k += X.q[q]; } for (long e = 0; e < X.nex; e++, k += 3) { double *v = C->expc[e].v; static const int ix[3][3] = {{0, 1, 3}, {1, 2, 4}, {3, 4, 5}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) W2[k + i][k + j] = v[ix[i][j]]; } }
  L r1 = mulT(X.G, vz, n), r2 = X.p ? mul(X.A, vx) : L(), r3 = mul(X.G, vx), wz = mul(W2, vz); if (X.p) { L a = mulT(X.A, vy, n); for (long i = 0; i < n; i++) r1[i] += a[i]; }
  for (long i = 0; i < n; i++) r1[i] = bx[i] - r1[i] - DS * vx[i]; for (long i = 0; i < p; i++) r2[i] = by[i] - r2[i] + DS * vy[i]; for (long i = 0; i < m; i++) r3[i] = bz[i] - r3[i] + wz[i] + DS * vz[i];
  { ld t = 0; for (long i = 0; i < n; i++) t = std::max(t, fabsl(r1[i] + DS * vx[i])); for (long i = 0; i < p; i++) t = std::max(t, fabsl(r2[i] - DS * vy[i])); for (long i = 0; i < m; i++) t = std::max(t, fabsl(r3[i] - DS * vz[i])); (kind == 0 ? X.lin1 : X.lin2) = t; }
  ld nb = 1 + std::max(std::max(ninf(bx), ninf(by)), ninf(bz)), e = std::max(ninf(r1), ninf(r2)); { long k = X.l; std::vector<char> last(m, 0); for (long q : X.q) { k += q; last[k - 1] = 1; } for (long i = 0; i < m; i++) { ld d = fabsl(r3[i]); if (last[i]) d = std::max(0.0L, d - 2 * DS * fabsl(vz[i])); e = std::max(e, d); } }
  ld kn = std::max(std::max(gG, gA), maxm(W2)) * std::max(std::max(ninf(vx), ninf(vy)), ninf(vz));
  ld raw = kind == 0 ? X.lin1 : X.lin2, dirn = std::max(std::max(ninf(vx), ninf(vy)), ninf(vz)), tol = 3 * DS * dirn + 1e-11L * (nb + kn) / X.cond; if (pass && !(X.cond > 1e-5L)) X.skipped++; if (X.cond > 1e-5L) X.meas(fmt("accuracy %d", kind).c_str(), raw / tol);
  if (pass && nitref >= 2 && X.cond > 1e-5L && !(raw <= tol)) X.bad(fmt("linear system %d is solved with a residual of %.3Lg (x %.3Lg, y %.3Lg, z %.3Lg), tolerance %.3Lg, after %ld refinement steps, cond %.3Lg |K||x| %.3Lg", kind + 1, raw, ninf(r1), ninf(r2), ninf(r3), tol, (long)r, X.cond, kn));
  if (pass && base >= 0 && X.cond > 1e-5L && !(e <= base * 1.01L + 3 * DS * dirn + 1e-12L * (nb + kn))) X.bad(fmt("refinement made the solution of system %d worse: residual %.3Lg, without refinement %.3Lg (cond %.3Lg)", kind + 1, e, base, X.cond));
  if (!pass) { base = e; continue; }
  if (kind == 0) { X.d1x = vx; X.d1y = vy; X.d1z = vz; } else if (kind == 1 && !X.init) {
    ld den = X.it.kap / X.it.tau - dot(X.c, X.d1x) - dot(X.b, X.d1y) - dot(X.h, X.d1z); X.dtauaff = (X.rt - X.it.kap + dot(X.c, vx) + dot(X.b, vy) + dot(X.h, vz)) / den; X.dkapaff = -X.it.kap - X.it.kap / X.it.tau * X.dtauaff; X.dzaff = vz; for (long i = 0; i < m; i++) X.dzaff[i] += X.dtauaff * X.d1z[i]; }
  else if (kind == 2) { X.full = true; X.d2x = vx; X.d2y = vy; X.d2z = vz; }
  }
  return r;
}
static bool one(Run &R, const Prob &P, int nitref, double gamma) {
  Data D(P); pwork *w = setup(D); if (!w) { R.outcome("setup refused"); return true; }
  w->stgs->nitref = nitref; w->stgs->gamma = gamma; X.fac = X.sol = 0; begin(w, P); long code = ECOS_solve(w); X.active = false; std::string e = X.err; R.evals++; R.transitions += X.sol; if (X.sol > 2) R.nontriv(hmix(P.hash(), nitref * 100 + (int)(gamma * 1000))); R.outcome(codename(code)); ECOS_cleanup(w, 0);
  if (X.sol == 0 && code != -7) R.notes["no linear system observed"]++; R.notes["systems beyond the conditioning limit"] += X.skipped; X.skipped = 0;
  R.sample(fmt("%s, %d factorisations, %d solves: ", codename(code), X.fac, X.sol) + P.str());
  if (!e.empty()) R.fail(e + fmt("  nitref=%d gamma=%g ", nitref, gamma) + P.str());
  return !R.stopped;
}
void vf::explore(Run &R) {
  // larger shapes: several cones of each kind, wider cones, equality rows
  std::vector<Shape> big = {{2, {4, 3}, 0, 3, 1}, {0, {6}, 0, 3, 1}, {1, {1, 5}, 1, 3, 1}, {0, {}, 3, 3, 1}, {3, {2, 5}, 2, 4, 2}, {0, {3, 3, 3}, 0, 4, 0}, {6, {}, 0, 4, 2}, {0, {9}, 0, 5, 2}};
  for (auto &S : big) for (int pat = 0; pat < (R.thorough ? 512 : 96); pat++) for (int is = 0; is < 3; is++) for (int iz = 0; iz < 3; iz++) {
    if (!R.want()) { if (R.stopped) return; continue; }
    static const double tab[8] = {0, 1, -1, 0, 2, 0, -0.5, 1}; Prob P = shell(S); for (long i = 0; i < P.m; i++) for (long j = 0; j < P.n; j++) P.G[i * P.n + j] = tab[(i * 3 + j * 5 + (pat % 8) * (i + 1) * (j + 1) + (pat / 8) * (i * i + j) + pat / 64) % 8]; for (int i = 0; i < S.p; i++) for (int j = 0; j < S.n; j++) P.A[i * S.n + j] = tab[(i * 5 + j * 3 + 1 + pat) % 8] + (i == j);
    std::vector<double> x0(S.n, 0.5), y0(S.p, 0.5); x0[0] = 1; set_hb(P, x0, interior(S, is, false)); set_c(P, interior(S, iz, true), y0);
    if (!one(R, P, (pat + is) % 3 == 2 ? 4 : 9, 0.99)) return; }
  each_base(R.thorough ? 2 : 1, [&](auto mk, int kind) {
    if (!R.want()) return !R.stopped;
    return one(R, mk(), 9, 0.99) && (kind || (one(R, mk(), 9, 0.5) && one(R, mk(), 2, 0.99) && one(R, mk(), 0, 0.9))); });
  if (getenv("VF_MEAS")) X.meas.dump();
}
