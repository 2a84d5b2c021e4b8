// C12: the statistics are statements about the returned point.  Also the clock.
#include "base.hpp"
using namespace vf;
static long long jumps[64]; static int njump; static long long c0; static long long hookclk() { long long d = env::clock_calls <= njump ? jumps[env::clock_calls - 1] : 0; return env::clock_ns += d; }
static std::string near(const char *w, ld got, ld want, ld scale, double rel = 1e-9) { if (got != got && want != want) return ""; if (std::isinf((double)got) && std::isinf((double)want)) return ""; if (!(fabsl(got - want) <= rel * scale)) return fmt("%s is reported as %.12Lg, the returned point gives %.12Lg", w, got, want); return ""; }
static std::string check(const Prob &P, const Sol &s, const std::vector<double> &xe, const std::vector<double> &Ae, const std::vector<double> &Ge) {
  std::string e; const stats &I = s.info; bool fin = finite(s.x) && finite(s.y) && finite(s.z) && finite(s.s); if (!fin || !(s.tau > 0) || s.tau < 1e-140) return "";
  if (s.code == -7) return "";
  ld cx = 0, acx = 1e-300L, d = 0, ad = 1e-300L, g = 0; for (long j = 0; j < P.n; j++) cx += (ld)P.c[j] * s.x[j], acx += fabsl((ld)P.c[j] * s.x[j]); for (long i = 0; i < P.m; i++) d -= (ld)P.h[i] * s.z[i], ad += fabsl((ld)P.h[i] * s.z[i]), g += (ld)s.s[i] * s.z[i]; for (long i = 0; i < P.p; i++) d -= (ld)P.b[i] * s.y[i], ad += fabsl((ld)P.b[i] * s.y[i]);
  if (!(e = near("pcost", I.pcost, cx, acx)).empty() || !(e = near("dcost", I.dcost, d, ad)).empty()) return e;
  ld ag = 0; for (long i = 0; i < P.m; i++) ag += fabsl((ld)s.s[i] * s.z[i]); if (!(e = near("gap", I.gap, g * s.tau * s.tau, ag * s.tau * s.tau + 1e-300L)).empty()) return e;
  if (I.pcost < 0 || I.dcost > 0) { ld want = I.gap / (I.pcost < 0 ? -(ld)I.pcost : (ld)I.dcost); if (!(e = near("relgap", I.relgap, want, fabsl(want) + 1e-300L)).empty()) return e; }
  // residuals in the solver's own scaling
  auto sc = [&](const std::vector<double> &v, const std::vector<double> &w, int pw) { std::vector<double> r(v); for (size_t i = 0; i < r.size(); i++) r[i] = pw > 0 ? v[i] * w[i] : v[i] / w[i]; return r; };
  ld t = s.tau; std::vector<double> X = sc(s.x, xe, 1), Y = sc(s.y, Ae, 1), Z = sc(s.z, Ge, 1), S = sc(s.s, Ge, -1); for (auto *v : {&X, &Y, &Z, &S}) for (auto &x : *v) x *= s.tau;
  ld ry = 0, rz = 0, rx = 0, ay = 0, az = 0, ax = 0, hx = 0, hy = 0, hz = 0, resx = 0, resy = 0, resz = 0;
  for (long i = 0; i < P.p; i++) { ld a = 0, b = P.b[i] / (ld)Ae[i], aa = fabsl(b * t); for (long j = 0; j < P.n; j++) { ld q = (ld)P.a(i, j) / Ae[i] / xe[j] * X[j]; a += q; aa += fabsl(q); } hy += a * a; ry += (a - b * t) * (a - b * t); ay += aa * aa; resy += b * b; }
  for (long i = 0; i < P.m; i++) { ld a = S[i], b = P.h[i] / (ld)Ge[i], aa = fabsl(b * t) + fabsl(a); for (long j = 0; j < P.n; j++) { ld q = (ld)P.g(i, j) / Ge[i] / xe[j] * X[j]; a += q; aa += fabsl(q); } hz += a * a; rz += (a - b * t) * (a - b * t); az += aa * aa; resz += b * b; }
  for (long j = 0; j < P.n; j++) { ld a = 0, b = P.c[j] / (ld)xe[j], aa = fabsl(b * t); for (long i = 0; i < P.p; i++) { ld q = (ld)P.a(i, j) / Ae[i] / xe[j] * Y[i]; a += q; aa += fabsl(q); } for (long i = 0; i < P.m; i++) { ld q = (ld)P.g(i, j) / Ge[i] / xe[j] * Z[i]; a += q; aa += fabsl(q); } hx += a * a; rx += (a + b * t) * (a + b * t); ax += aa * aa; resx += b * b; }
  ld nx = nrm(X), ny = nrm(Y), nz = nrm(Z), ns = nrm(S), mx = std::max(1.0L, sqrtl(resx)), my = std::max(1.0L, sqrtl(resy)), mz = std::max(1.0L, sqrtl(resz));
  ld dy = std::max(my + nx, 1.0L), dz = std::max(mz + nx + ns, 1.0L), dx = std::max(mx + ny + nz, 1.0L);
  ld pres = std::max(sqrtl(ry) / dy, sqrtl(rz) / dz) / t, dres = sqrtl(rx) / dx / t;
  ld pe = (sqrtl(ay) / dy + sqrtl(az) / dz) / t, de = sqrtl(ax) / dx / t;
  if (!(fabsl(I.pres - pres) <= 1e-6L * pres + 1e-13L * pe)) return fmt("pres is reported as %.9g, the returned point gives %.9Lg", I.pres, pres);
  if (!(fabsl(I.dres - dres) <= 1e-6L * dres + 1e-13L * de)) return fmt("dres is reported as %.9g, the returned point gives %.9Lg", I.dres, dres);
  if (s.code == 1 || s.code == 11) { ld q = sqrtl(hx) / (ny + nz); if (!(I.pinfres <= 1e-4) || !(fabsl(I.pinfres - q) <= 1e-6L * q + 1e-13L * sqrtl(ax) / (ny + nz))) return fmt("pinfres is reported as %.9g, the returned certificate gives %.9Lg", I.pinfres, q); }
  if (s.code == 2 || s.code == 12) { ld q = std::max(sqrtl(hy) / nx, sqrtl(hz) / (nx + ns)); if (!(I.dinfres <= 1e-4) || !(fabsl(I.dinfres - q) <= 1e-6L * q + 1e-13L * (sqrtl(ay) / nx + sqrtl(az) / (nx + ns)))) return fmt("dinfres is reported as %.9g, the returned ray gives %.9Lg", I.dinfres, q); }
  bool pi = s.code == 1 || s.code == 11, di = s.code == 2 || s.code == 12;
  if (s.code >= 0 && ((bool)I.pinf != pi || (bool)I.dinf != di)) return fmt("exit code %s but pinf=%ld dinf=%ld", codename(s.code), (long)I.pinf, (long)I.dinf);
  if (!(e = near("kapovert", I.kapovert, s.kap / (ld)s.tau, fabsl(s.kap / (ld)s.tau) + 1e-300L)).empty()) return e;
  return "";
}
void vf::explore(Run &R) {
  // the clock: all jumps at the calls of setup and solve
  static const long long J[] = {0, 1, 999, 999999999, 1000000000, 1000000001, 86400000000000ll + 5, 999999000}; static const long long S0[] = {0, 999999999, 1000000000, 1700000000999999000ll};
  for (auto &z : zoo()) for (long long s0 : S0) for (long long j1 : J) for (long long j2 : J) for (long long jb : {0ll, 123456789ll}) {
    if (!R.want()) { if (R.stopped) return; continue; }
    env::clock_ns = s0; env::clock_hook = hookclk; env::clock_calls = 0; njump = 64; for (int i = 0; i < 64; i++) jumps[i] = 0; jumps[1] = j1; jumps[2] = jb; Data D(z.v[0]);
    pwork *w = setup(D); long c1 = env::clock_calls; for (int i = c1; i < 64; i++) jumps[i] = 0; jumps[c1] = jb; jumps[c1 + 1] = j2; long long t1 = env::clock_ns; ECOS_solve(w); long c2 = env::clock_calls; long long el = env::clock_ns - t1 - jb; Sol s = grab(w, 0); ECOS_cleanup(w, 0); env::clock_hook = nullptr; R.evals++; R.nontriv(hmix(hmix(j1 * 31 + jb, j2), s0 + z.v[0].hash()));
    std::string e; if (c2 - c1 >= 2 && !(fabs(s.info.tsolve - el * 1e-9) <= 1e-9 * el * 1e-9 + 1e-12)) e = fmt("tsolve is %.12g s, the solve took %.12g s by the clock", s.info.tsolve, el * 1e-9);
    long long e1 = t1 - s0; if (e.empty() && c1 == 2 && !(fabs(s.info.tsetup - j1 * 1e-9) <= 1e-9 * j1 * 1e-9 + 1e-12)) e = fmt("tsetup is %.12g s, the setup took %.12g s by the clock", s.info.tsetup, j1 * 1e-9);
    if (e.empty() && c1 > 2 && !(s.info.tsetup >= 0 && s.info.tsetup <= e1 * 1e-9 * 1.000001)) e = "tsetup is not within the elapsed time";
    R.outcome("clock"); if (!e.empty()) { R.fail(e + "  " + z.name); return; }
  }
  each_base(R.thorough ? 2 : 1, [&](auto mk, int kind) {
    if (!R.want()) return !R.stopped;
    Prob P = mk(); long it = 1000; std::string e;
    for (int pass = -1; pass < std::min(it + 1, 12L) && e.empty(); pass++) {   // unlimited, then every limit
      Data D(P); pwork *w = setup(D); if (!w) { e = "setup refused"; break; } if (pass >= 0) w->stgs->maxit = pass; long code = ECOS_solve(w); Sol s = grab(w, code);
      std::vector<double> xe(w->xequil, w->xequil + w->n), Ae(w->Aequil, w->Aequil + w->p), Ge(w->Gequil, w->Gequil + w->m); ECOS_cleanup(w, 0); R.evals++; R.alive();
      if (pass < 0) it = s.info.iter; if (s.info.iter > 0) R.nontriv(hmix(P.hash(), pass)); R.outcome(codename(code));
      e = check(P, s, xe, Ae, Ge); if (!e.empty()) e = fmt("%s after %ld iterations (limit %d): ", codename(code), (long)s.info.iter, pass) + e; else R.sample(fmt("%s, %ld iterations, limit %d: ", codename(code), (long)s.info.iter, pass) + P.str());
    }
    if (!e.empty()) R.fail(e + "  " + P.str()); return !R.stopped;
  });
}
