// C22: exponential cone functions against their definitions: derivatives by automatic differentiation of the documented barrier in
// extended precision, membership from the definition, conjugacy of the two barriers, the defining equation of the Wright omega function,
// and the centrality line search against a reference line search on the definitions.
#include "prob.hpp"
using namespace vf;
extern "C" {
void evalExpHessian(pfloat *, pfloat *, pfloat); void evalExpGradient(pfloat *, pfloat *); pfloat evalBarrierValue(pfloat *, pfloat *, idxint, idxint);
idxint evalExpPrimalFeas(pfloat *, idxint); idxint evalExpDualFeas(pfloat *, idxint); pfloat wrightOmega(pfloat); pfloat evalSymmetricBarrierValue(pfloat *, pfloat *, pfloat, pfloat, cone *, pfloat);
void scaleToAddExpcone(pfloat *, pfloat *, expcone *, idxint, idxint); pfloat expConeLineSearch(pwork *, pfloat, pfloat, idxint); void unitInitialization(cone *, pfloat *, pfloat *, pfloat);
}
typedef std::vector<double> V;
// second-order automatic differentiation in three variables
struct AD { ld v, g[3], h[3][3]; AD(ld c = 0) : v(c) { memset(g, 0, sizeof g); memset(h, 0, sizeof h); } };
static AD un(const AD &a, ld f, ld d, ld dd) { AD r(f); for (int i = 0; i < 3; i++) { r.g[i] = d * a.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = d * a.h[i][j] + dd * a.g[i] * a.g[j]; } return r; }
static AD lin(const AD &a, ld x, const AD &b, ld y) { AD r(x * a.v + y * b.v); for (int i = 0; i < 3; i++) { r.g[i] = x * a.g[i] + y * b.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = x * a.h[i][j] + y * b.h[i][j]; } return r; }
static AD mul(const AD &a, const AD &b) { AD r(a.v * b.v); for (int i = 0; i < 3; i++) { r.g[i] = a.v * b.g[i] + b.v * a.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = a.v * b.h[i][j] + b.v * a.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i]; } return r; }
static AD Log(const AD &a) { return un(a, logl(a.v), 1 / a.v, -1 / (a.v * a.v)); }
static AD dualBarrier(const double *z) {   // -log(w-u-u*log(-v/u)) - log(-u) - log(v)
  AD u(z[0]), v(z[1]), w(z[2]); u.g[0] = v.g[1] = w.g[2] = 1; AD mu_ = lin(u, -1, u, 0), l = lin(Log(v), 1, Log(mu_), -1), r = lin(lin(w, 1, u, -1), 1, mul(u, l), -1);
  return lin(lin(Log(r), -1, Log(mu_), -1), 1, Log(v), -1);
}
static ld dres(const double *z) { return (ld)z[2] - z[0] - z[0] * (logl((ld)z[1]) - logl(-(ld)z[0])); }      // > 0 inside the dual cone
static ld dmag(const double *z) { return fabsl((ld)z[2]) + fabsl((ld)z[0]) * (1 + fabsl(logl((ld)z[1]) - logl(-(ld)z[0]))); }
static ld pres(const double *s) { return (ld)s[2] * (logl((ld)s[1]) - logl((ld)s[2])) - s[0]; }
static ld pmag(const double *s) { return fabsl((ld)s[0]) + s[2] * fabsl(logl((ld)s[1]) - logl((ld)s[2])); }
static ld omega(ld z) { ld w = z > 1 ? z - logl(z) : 0.5L + z / 4; if (w < 1e-3L) w = 1e-3L; for (int i = 0; i < 60; i++) { ld f = w + logl(w) - z, n = w - f / (1 + 1 / w); if (n <= 0) n = w / 2; if (n == w) break; w = n; } return w; }
// barrier of the primal cone: the conjugate of the dual barrier, sup_z -s'z - f*(z), from its stationarity conditions
static ld primalBarrier(const double *s) {
  // stationarity: r = w-u-u*l = 1/s2, v = (1-u*s2)/s1, and one equation left for a = -u
  ld x = s[0], y = s[1], z = s[2];
  auto F = [&](ld a) { ld v = (1 + a * z) / y; return -z * (logl(v) - logl(a)) - 1 / a - x; };       // a = -u, increasing in a
  ld lo = 1e-12L, hi = 1e12L; while (F(lo) > 0) lo /= 1e6L; while (F(hi) < 0) hi *= 1e6L; for (int i = 0; i < 200; i++) { ld m = sqrtl(lo * hi); if (F(m) < 0) lo = m; else hi = m; }
  ld a = sqrtl(lo * hi), v = (1 + a * z) / y, l = logl(v) - logl(a), w = 1 / z - a - a * l;
  return -(-a * x + v * y + w * z) + logl(1 / z) + logl(a) + logl(v);
}
struct Lay { int l; std::vector<idxint> q; int nex; int sym() const { int t = l; for (auto x : q) t += x; return t; } int m() const { return sym() + 3 * nex; } };
static pwork *make(const Lay &L, Data *&D) { Prob P; P.n = 1; P.l = L.l; P.q = L.q; P.nex = L.nex; P.m = L.m(); P.G.assign(P.m, 1); P.h.assign(P.m, 1); P.c = {1}; D = new Data(P); return setup(*D); }
static bool near(double a, ld b, ld tol) { return fabsl(a - b) <= tol; }
// membership with a three-valued answer: 1 inside, 0 outside, -1 too close to call
static int tri(ld res, ld mag) { return res > 1e-10L * mag ? 1 : res < -1e-10L * mag ? 0 : -1; }
static int inP(const double *s) { if (s[1] < 0 || s[2] < 0) return 0; if (s[2] == 0) return -1; if (s[1] == 0) return 0; return tri(pres(s), pmag(s)); }
static int inD(const double *z) { if (z[0] > 0 || z[1] < 0) return 0; if (z[0] == 0) return -1; if (z[1] == 0) return 0; return tri(dres(z), dmag(z)); }
static int land(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
#define CASE() if (!R.want()) { if (R.stopped) return; continue; }
#define DONE(msg) if (!e.empty()) { R.fail(e + msg); if (R.stopped) return; }
void vf::explore(Run &R) {
  int T = R.thorough;
  // ---- Wright omega: w + log w = z
  { long N = T ? 400000 : 40000; for (long blk = 0; blk < N / 1000; blk++) { CASE(); std::string e;
      for (long k = 0; k < 1000 && e.empty(); k++) { long i = blk * 1000 + k; for (int mode = 0; mode < 3; mode++) {
          double z = mode == 0 ? i * (12.0 / N) : mode == 1 ? exp(i * (700.0 / N)) : 1 + ldexp(1.0 + (i % 64) / 64.0, -(int)(i / 64 % 52)) * (i & 1 ? -1 : 1); if (z < 0 || z > 1e100) continue;
          double w = wrightOmega(z); ld ref = omega(z); R.evals++; R.nontriv(hdbl(1, z));
          if (!near(w, ref, 1e-14L * ref)) { e = fmt("wrightOmega(%.17g) = %.17g, should be %.17Lg", z, w, ref); break; } } }
      R.outcome("omega"); DONE("") } }
  // ---- interior points of the dual cone: derivatives and barrier values
  std::vector<V> zs, ss; { V us = T ? V{1e-5, 1e-3, 0.03, 0.2, 0.7, 1, 1.9, 8, 60, 1e3, 1e5} : V{1e-4, 0.02, 0.7, 1, 3, 60, 1e4}, rs = T ? V{1e-7, 1e-5, 1e-3, 0.05, 0.5, 1, 2.5, 20, 1e3, 1e6} : V{1e-6, 1e-3, 0.1, 1, 7, 1e3, 1e6};
    for (double u : us) for (double v : us) for (double r : rs) { double l = log(v / u), w = r - u - u * l * 1.0; w = r + (-u) + (-u) * l; zs.push_back({-u, v, w}); } }
  for (size_t i = 0; i < zs.size(); i++) { CASE(); std::string e; V z = zs[i], g(3), H(6); ld r = dres(z.data()), amp = dmag(z.data()) / r; if (!(r > 0) || amp > 1e10L) { R.outcome("grid point rounded outside"); continue; }
    AD f = dualBarrier(z.data()); R.evals++; R.nontriv(hdbl(hdbl(hdbl(3, z[0]), z[1]), z[2])); V z0 = z;
    evalExpGradient(z.data(), g.data()); ld gs = 0; // each component relative to its own terms
    for (int k = 0; k < 3; k++) { ld mag = k == 0 ? fabsl(logl(-z[1] / (ld)z[0])) / r - 1 / (ld)z[0] : k == 1 ? (1 - z[0] / r) / z[1] : 1 / r; if (!near(g[k], f.g[k], 1e-14L * amp * mag * 8)) { e = fmt("gradient component %d is %.15g, should be %.15Lg", k, g[k], f.g[k]); break; } }
    static const double mus[3] = {1, 1e-6, 37}; static const int ix[6][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}, {2, 2}};
    for (double mu : mus) { evalExpHessian(z.data(), H.data(), mu); for (int k = 0; k < 6 && e.empty(); k++) { ld ref = mu * f.h[ix[k][0]][ix[k][1]], mag = sqrtl(f.h[ix[k][0]][ix[k][0]] * f.h[ix[k][1]][ix[k][1]]) * mu; if (!near(H[k], ref, 1e-13L * amp * mag)) e = fmt("Hessian entry %d%d with mu=%g is %.15g, should be %.15Lg", ix[k][0], ix[k][1], mu, H[k], ref); } }
    if (z != z0) e = "derivatives changed their argument";
    // conjugacy: -grad f*(z) is in the primal cone and f(-grad f*(z)) + f*(z) = -3
    V s = {-g[0], -g[1], -g[2]}; if (inP(s.data()) == 0) e = "minus the gradient of the dual barrier is outside the primal cone";
    if (inP(s.data()) == 1 && evalExpPrimalFeas(s.data(), 1) != 1) e = "minus the gradient of the dual barrier is not accepted as primal feasible";
    if (inP(s.data()) == 1) ss.push_back(s);
    R.outcome("interior point of the dual cone"); R.sample("z=" + vs(z)); DONE("  z=" + vs(z)) }
  // barrier value of pairs; primal points are images of dual ones
  ss.clear(); for (auto &z : zs) { if (dmag(z.data()) / dres(z.data()) > 1e6L || !(dres(z.data()) > 0)) continue; AD f = dualBarrier(z.data()); ss.push_back({(double)-f.g[0], (double)-f.g[1], (double)-f.g[2]}); }
  std::vector<V> zi; for (auto &z : zs) if (dres(z.data()) > 0 && dmag(z.data()) / dres(z.data()) < 1e6L) zi.push_back(z);
  std::vector<ld> fp; std::vector<char> okp; for (auto &s : ss) { bool ok = pres(s.data()) > 1e-5L * pmag(s.data()); okp.push_back(ok); fp.push_back(ok ? primalBarrier(s.data()) : 0); }
  for (size_t a = 0; a < ss.size(); a++) { if (!okp[a]) continue; CASE(); std::string e;
    for (size_t b = 0; b < zi.size() && e.empty(); b++) for (int two = 0; two < (b % 5 == 0 ? 2 : 1) && e.empty(); two++) { int b2 = (a * 7 + b * 3) % zi.size(), a2 = (a * 5 + b) % ss.size(); if (two && !okp[a2]) continue;
      int off = (a + b) % 3; V S(off, 9), Z(off, 9); for (double x : ss[a]) S.push_back(x); for (double x : zi[b]) Z.push_back(x); if (two) { for (double x : ss[a2]) S.push_back(x); for (double x : zi[b2]) Z.push_back(x); }
      double v = evalBarrierValue(S.data(), Z.data(), off, 1 + two); ld ref = fp[a] + dualBarrier(zi[b].data()).v + (two ? fp[a2] + dualBarrier(zi[b2].data()).v : 0); R.evals++;
      auto pamp = [](const V &s) { return (pmag(s.data()) + s[2]) / pres(s.data()); }; ld amp = std::max(pamp(ss[a]), dmag(zi[b].data()) / dres(zi[b].data())); if (two) amp = std::max(amp, std::max(pamp(ss[a2]), dmag(zi[b2].data()) / dres(zi[b2].data())));
      if (!near(v, ref, 1e-12L * (1 + fabsl(ref)) * amp)) e = fmt("barrier value %.15g, should be %.15Lg  z=%s", v, ref, vs(zi[b]).c_str());
      if (a == b && !two && !near((double)(fp[a] + dualBarrier(zi[b].data()).v), -3, 1e-9L * amp)) e = "oracle: conjugate pair does not have barrier value -3"; }
    R.outcome("barrier of pairs"); R.nontriv(hmix(11, a)); DONE("  s=" + vs(ss[a])) }
  // ---- membership: all triples of a grid around the boundary, alone and in lists of up to three cones
  { V g1 = T ? V{-1e3, -7, -2, -1, -0.5, -1e-4, -1e-12, 1e-12, 1e-4, 0.5, 1, 2, 7, 1e3} : V{-100, -2, -1, -0.3, -1e-6, 1e-6, 0.3, 1, 2, 100}; g1.push_back(0); std::vector<V> pts; int ng = g1.size();
    for (Odo o({ng, ng, ng}); !o.done; o.next()) pts.push_back({g1[o.d[0]], g1[o.d[1]], g1[o.d[2]]});
    for (double a : g1) for (double b : g1) if (a > 0 && b > 0) for (int k = 1; k <= 28; k += 3) for (int sg = -1; sg <= 1; sg += 2) { double bd = b * log(a / b), d = sg * ldexp(1 + fabs(bd), -k); pts.push_back({bd + d, a, b}); double l = log(a / b), w = -b - b * l; pts.push_back({-b, a, w + sg * ldexp(1 + fabs(w), -k)}); }
    std::vector<V> rep[2][2]; // [dual][inside]
    for (auto &p : pts) for (int d = 0; d < 2; d++) { int t = d ? inD(p.data()) : inP(p.data()); if (t >= 0 && rep[d][t].size() < 5) rep[d][t].push_back(p); }
    for (size_t i = 0; i < pts.size(); i++) { CASE(); std::string e; 
      for (int d = 0; d < 2 && e.empty(); d++) { int t = d ? inD(pts[i].data()) : inP(pts[i].data()); if (t < 0) { R.outcome("on the boundary: not judged"); continue; } R.evals++; R.nontriv(hmix(i, 100 + d)); R.outcome(t ? "inside" : "outside");
        V p = pts[i]; long got = d ? evalExpDualFeas(p.data(), 1) : evalExpPrimalFeas(p.data(), 1); if (got != t) e = fmt("%s membership test says %ld, the definition %d", d ? "dual" : "primal", got, t);
        for (int n = 2; n <= 3 && e.empty(); n++) for (int pos = 0; pos < n; pos++) for (int in = 0; in < 2; in++) for (auto &o : rep[d][in]) { V l; for (int k = 0; k < n; k++) { auto &x = k == pos ? pts[i] : (n == 3 && k == (pos + 1) % n) ? rep[d][1][0] : o; l.insert(l.end(), x.begin(), x.end()); }
              long got = d ? evalExpDualFeas(l.data(), n) : evalExpPrimalFeas(l.data(), n); R.transitions++; if (got != (t && in)) e = fmt("%s membership test of a list says %ld, the definition %d: %s", d ? "dual" : "primal", got, t && in, vs(l).c_str()); } }
      DONE("  " + vs(pts[i])) } }
  // ---- symmetric barrier, the product with the Hessians, the unit starting point, the centrality line search
  std::vector<Lay> LS = {{0, {}, 1}, {1, {}, 1}, {0, {2}, 1}, {1, {3}, 1}, {0, {}, 2}, {2, {1, 2}, 2}}; if (T) { LS.push_back({1, {2, 3}, 1}); LS.push_back({0, {3}, 3}); }
  for (auto &L : LS) { int ns = L.sym(), m = L.m(); Data *D; pwork *w = nullptr;
    // blocks: symmetric cones near the unit point; exponential cones from a small set of pairs
    std::vector<V> ep = {{-1.051383945322714, 1.258967884768947, 0.556409619469370}, {-0.5, 2, 0.6}, {-2, 0.7, 1.4}, {-1, 1, 0.4}, {-3, 0.2, 0.9}};
    static const double sc[6] = {1, 0.4, 3, 0.02, 80, 1.3};
    int nb = ep.size(); V dirv = {-1, 0.3, -0.05, 2}; 
    for (int a = 0; a < nb * (T ? 6 : 3); a++) for (int b = 0; b < nb; b++) { CASE(); if (!w) w = make(L, D); std::string e; 
      V s(m), z(m); for (int k = 0; k < L.l; k++) { s[k] = sc[(a + k) % 6]; z[k] = sc[(b + 2 * k) % 6]; } { int k = L.l; for (auto p : L.q) { s[k] = sc[(a + b) % 6]; z[k] = 1; for (int i = 1; i < p; i++) { s[k + i] = s[k] * (i & 1 ? 0.3 : -0.6); z[k + i] = (a & 1 ? 0.5 : -0.2); } k += p; } for (int c = 0; c < L.nex; c++, k += 3) for (int i = 0; i < 3; i++) { s[k + i] = ep[(a + c) % nb][i] * sc[a % 3]; z[k + i] = ep[(b + 2 * c) % nb][i]; } }
      bool okpt = true; for (int c = 0; c < L.nex; c++) okpt &= inP(&s[ns + 3 * c]) == 1 && inD(&z[ns + 3 * c]) == 1; if (!okpt) { R.outcome("start outside: skipped"); continue; } 
      R.evals++; R.nontriv(hmix(hmix(a, b), hmix(L.l * 100 + ns, L.nex)));
      // symmetric barrier
      auto symbar = [&](const ld *S, const ld *Z, ld tau, ld kap) { ld t = 0; for (int k = 0; k < L.l; k++) { if (S[k] <= 0 || Z[k] <= 0) return (ld)INFINITY; t -= logl(S[k]) + logl(Z[k]); } if (tau <= 0 || kap <= 0) return (ld)INFINITY; t -= logl(tau) + logl(kap); int k = L.l;
        for (auto p : L.q) { ld a = S[k] * S[k], b = Z[k] * Z[k]; for (int i = 1; i < p; i++) { a -= S[k + i] * S[k + i]; b -= Z[k + i] * Z[k + i]; } if (a <= 0 || b <= 0) return (ld)INFINITY; t -= (logl(a) + logl(b)) / 2; k += p; } return t - w->D - 1; };
      static const double tk[5][2] = {{1, 1}, {0.2, 5}, {1e-3, 0.7}, {-1, 1}, {1, -0.1}};
      for (auto &x : tk) for (int out = -1; out < 2 * ns && e.empty(); out++) { V S = s, Z = z; if (out >= 0) { auto &Y = out & 1 ? Z : S; int c = out / 2; if (c < L.l) Y[c] = -Y[c]; else { Y[c] = 40 * Y[L.l] + 100 * (Y[c] == 0); bool head = false; int k = L.l; for (auto p : L.q) { if (k == c) head = true; k += p; } if (head) continue; } }
        std::vector<ld> SL(S.begin(), S.end()), ZL(Z.begin(), Z.end()); ld ref = symbar(SL.data(), ZL.data(), x[0], x[1]); double v = evalSymmetricBarrierValue(S.data(), Z.data(), x[0], x[1], w->C, w->D); R.transitions++; R.outcome(std::isinf((double)ref) ? "symmetric barrier: outside" : "symmetric barrier: inside");
        if (std::isinf((double)ref) && v == -INFINITY && R.known("barrier-minus-infinity")) continue; if (std::isinf((double)ref) ? !(v == INFINITY) : !near(v, ref, 1e-13L * (1 + fabsl(ref)) * 100)) e = fmt("barrier of the symmetric cones is %.15g, should be %.15Lg (tau=%g kap=%g s=%s z=%s)", v, ref, x[0], x[1], vs(S).c_str(), vs(Z).c_str()); }
      // product with the Hessians stored for the current point
      { V lam(m, 7), s1 = s, z1 = z; double mu = 0.3; if (updateScalings(w->C, s1.data(), z1.data(), lam.data(), mu) != 0) e = "scaling refused for interior points"; else { AD f; for (int i = 0; i < 3 * L.nex && e.empty(); i++) { V x(m, 0), y(m, 0.25); x[ns + i] = 2; scaleToAddExpcone(y.data(), x.data(), w->C->expc, L.nex, ns); for (int j = 0; j < m; j++) { ld ref = 0.25L; if (j >= ns && (j - ns) / 3 == i / 3) { int c = ns + 3 * (i / 3); f = dualBarrier(&z[c]); ref += 2 * mu * f.h[i % 3][(j - ns) % 3]; } if (!near(y[j], ref, 1e-9L * (1 + fabsl(ref)))) { e = fmt("product with the Hessian: component %d for unit vector %d is %.12g, should be %.12Lg", j, ns + i, y[j], ref); break; } } }
          for (int c = 0; c < L.nex && e.empty(); c++) { AD f = dualBarrier(&z[ns + 3 * c]); for (int i = 0; i < 3; i++) if (!near(w->C->expc[c].g[i], f.g[i], 1e-10L * (1 + fabsl(f.g[i])))) e = "stored gradient differs"; } } }
      // unit starting point: interior, mu = scaling^2, z = -grad f (perfectly centred)
      { V us(m, 5), uz(m, 5); double k = sc[(a + b) % 6]; unitInitialization(w->C, us.data(), uz.data(), k); int c = 0; for (; c < L.l; c++) if (us[c] != k || uz[c] != k) e = "unit point: linear part"; for (auto p : L.q) { for (int i = 0; i < p; i++) if (us[c + i] != (i ? 0 : k) || uz[c + i] != (i ? 0 : k)) e = "unit point: second-order part"; c += p; }
        for (int x = 0; x < L.nex && e.empty(); x++) { if (inP(&us[ns + 3 * x]) != 1 || inD(&uz[ns + 3 * x]) != 1) e = "unit point outside the exponential cone"; else { V q = {uz[ns + 3 * x] / k, uz[ns + 3 * x + 1] / k, uz[ns + 3 * x + 2] / k}; AD f = dualBarrier(q.data()); for (int i = 0; i < 3; i++) if (!near(us[ns + 3 * x + i] / k, -f.g[i], 1e-7L)) e = "unit point is not on the central ray"; } } }
      // line search: all directions over the grid for the exponential part, a rotating one for the rest
      if (e.empty()) { memcpy(w->s, s.data(), m * 8); memcpy(w->z, z.data(), m * 8); w->tau = 1; w->kap = 0.7; w->stgs->centrality = 1; 
        int nd = dirv.size(); long cnt = 0; for (Odo o(std::vector<int>(6, nd)); !o.done && e.empty(); o.next(), cnt++) { if (!T && (cnt + a * 5 + b) % 4) continue;
          V ds(m), dz(m); for (int k = 0; k < ns; k++) { ds[k] = 0.3 * dirv[(k + cnt) % nd]; dz[k] = 0.3 * dirv[(3 * k + 1 + cnt) % nd]; } for (int c = 0; c < L.nex; c++) for (int i = 0; i < 3; i++) { ds[ns + 3 * c + i] = dirv[(o.d[i] + c) % nd]; dz[ns + 3 * c + i] = dirv[(o.d[3 + i] + 2 * c) % nd]; }
          static const double dtk[4][2] = {{-0.5, 0.2}, {0.3, -0.4}, {0, 0}, {-0.9, -0.1}}, a0s[4] = {0.999, 0.5, 0.07, 0.999}; double dtau = dtk[cnt % 4][0], dkap = dtk[cnt % 4][1], a0 = a0s[(cnt / 4) % 4];
          memcpy(w->dsaff, ds.data(), m * 8); memcpy(w->KKT->dz2, dz.data(), m * 8); int aff = cnt & 1; w->info->step_aff = aff ? a0 : 0.999; w->info->step = aff ? 0.123 : a0;
          double got = expConeLineSearch(w, dtau, dkap, aff); R.transitions++;
          // reference
          ld al = a0; double ref = -1, alt = -2; bool amb = false; for (int k = 0; k < w->stgs->max_bk_iter; k++, al *= w->stgs->bk_scale) { std::vector<ld> S(m), Z(m); ld mu = (w->tau + al * dtau) * (w->kap + al * dkap); V Sd(m), Zd(m); for (int j = 0; j < m; j++) { S[j] = s[j] + al * ds[j]; Z[j] = z[j] + al * dz[j]; Sd[j] = S[j]; Zd[j] = Z[j]; mu += S[j] * Z[j]; } mu /= (w->D + 1);
            int in = 1; for (int c = 0; c < L.nex; c++) in = land(in, land(inP(&Sd[ns + 3 * c]), inD(&Zd[ns + 3 * c]))); if (in < 0) { amb = true; break; } if (!in) continue;
            bool low = false; for (int c = 0; c < L.nex; c++) { int k = ns + 3 * c; ld mi = (S[k] * Z[k] + S[k + 1] * Z[k + 1] + S[k + 2] * Z[k + 2]) / 3; if (fabsl(mi - 0.1L * mu) < 1e-9L * fabsl(mu)) amb = true; if (mi <= 0.1L * mu) low = true; } if (amb) break; if (low) continue;
            ld bar = symbar(S.data(), Z.data(), w->tau + al * dtau, w->kap + al * dkap); if (std::isinf((double)bar)) { if (alt == -2 && mu > 0) alt = al * w->stgs->gamma; continue; } if (!(mu > 0)) continue; for (int c = 0; c < L.nex; c++) bar += primalBarrier(&Sd[ns + 3 * c]) + dualBarrier(&Zd[ns + 3 * c]).v;
            ld cen = bar + (w->D + 1) * logl(mu) + (w->D + 1); if (fabsl(cen - w->stgs->centrality) < 1e-6L) { amb = true; break; } if (cen < w->stgs->centrality) { ref = al * w->stgs->gamma; break; } }
          if (amb) { R.outcome("line search: too close to call"); continue; } R.outcome(ref < 0 ? "line search: no step" : ref < a0 * 0.98 ? "line search: backtracked" : "line search: full step");
          if (alt > 0 && near(got, alt, 1e-12L) && !near(got, ref, 1e-12L) && R.known("barrier-minus-infinity")) continue; if (!near(got, ref, 1e-12L)) e = fmt("centrality line search returns %.15g, the definition gives %.15g: s=%s z=%s ds=%s dz=%s dtau=%g dkap=%g alpha0=%g", got, ref, vs(s).c_str(), vs(z).c_str(), vs(ds).c_str(), vs(dz).c_str(), dtau, dkap, a0); } }
      R.alive(); DONE(fmt("  layout l=%d q=%s nex=%d s=", L.l, vs(L.q).c_str(), L.nex) + vs(s) + " z=" + vs(z)) }
    if (w) { ECOS_cleanup(w, 0); delete D; } }
}
