// C21: linear and second-order cone operations against their definitions (long double), on every grid point of every layout.
#include "prob.hpp"
using namespace vf;
extern "C" { pfloat lineSearch(pfloat *, pfloat *, pfloat *, pfloat, pfloat, pfloat, pfloat, cone *, kkt *); }
typedef std::vector<double> V;
struct Lay { int l; std::vector<idxint> q; int nex; int sym() const { int t = l; for (auto x : q) t += x; return t; } int m() const { return sym() + 3 * nex; } std::string str() const { return fmt("l=%d q=%s nex=%d", l, vs(q).c_str(), nex); } };
static pwork *make(const Lay &L, Data *&D) {   // any small problem with this cone layout
  Prob P; P.n = 1; P.l = L.l; P.q = L.q; P.nex = L.nex; P.m = L.m(); P.G.assign(P.m, 1); P.h.assign(P.m, 1); P.c = {1}; D = new Data(P); return setup(*D);
}
static ld sres(const double *u, int p) { ld t = (ld)u[0] * u[0]; for (int i = 1; i < p; i++) t -= (ld)u[i] * u[i]; return t; }
static double margin(const Lay &L, const V &v) {   // relative distance from the boundary, > 0 inside
  double r = 1; int k = 0; for (; k < L.l; k++) { if (v[k] <= 0) return -1; }
  for (auto p : L.q) { if (v[k] <= 0) return -1; ld t = 0; for (int i = 1; i < p; i++) t += (ld)v[k + i] * v[k + i]; double g = (v[k] - sqrtl(t)) / v[k]; if (g < r) r = g; k += p; }
  return r;
}
static V jordan(const Lay &L, const V &u, const V &v) { V w(L.sym()); int k = 0; for (; k < L.l; k++) w[k] = u[k] * v[k]; for (auto p : L.q) { ld t = 0; for (int i = 0; i < p; i++) t += (ld)u[k + i] * v[k + i]; w[k] = t; for (int i = 1; i < p; i++) w[k + i] = (ld)u[k] * v[k + i] + (ld)v[k] * u[k + i]; k += p; } return w; }
// largest step keeping v + a*d in the cone (infinity: never leaves)
static ld maxstep(const Lay &L, const V &v, const V &d) {
  ld a = INFINITY; int k = 0; for (; k < L.l; k++) if (d[k] < 0) a = std::min(a, (ld)-v[k] / d[k]);
  for (auto p : L.q) { ld A = sres(&d[k], p), B = (ld)v[k] * d[k], C = sres(&v[k], p); for (int i = 1; i < p; i++) B -= (ld)v[k + i] * d[k + i];
    // smallest positive root of A a^2 + 2 B a + C, or the step at which the head becomes negative
    ld D = B * B - A * C, r = INFINITY; if (D >= 0) { ld s = sqrtl(D); for (ld t : {C / (-B + s), C / (-B - s)}) if (t > 0 && t < r) r = t; } if (d[k] < 0) r = std::min(r, (ld)-v[k] / d[k]); a = std::min(a, r); k += p; }
  return a;
}
static std::vector<V> points(const Lay &L, int level) {   // interior points
  std::vector<V> blocks_acc{V()};
  auto extend = [&](const std::vector<V> &b) { std::vector<V> r; for (auto &x : blocks_acc) for (auto &y : b) { V z = x; z.insert(z.end(), y.begin(), y.end()); r.push_back(z); } blocks_acc.swap(r); };
  for (int i = 0; i < L.l; i++) extend(level > 1 ? std::vector<V>{{1}, {1e-5}, {0.3}, {400}} : level ? std::vector<V>{{1}, {1e-5}, {400}} : std::vector<V>{{1}, {0.02}});
  for (auto p : L.q) { std::vector<V> b; std::vector<double> al = level > 1 ? V{0, 0.5, -0.7, 0.995, -0.3} : level ? V{0, 0.5, -0.7, 0.995} : V{0, -0.7, 0.6};
    for (double h : level ? V{1, 1e-4, 50} : V{1, 7}) for (Odo o(std::vector<int>(p - 1, (int)al.size())); !o.done; o.next()) { V v{h}; double t = 0; for (int x : o.d) { v.push_back(h * al[x]); t += al[x] * al[x]; } if (t < 0.9999) b.push_back(v); }
    extend(b); }
  for (auto &v : blocks_acc) for (int e = 0; e < L.nex; e++) { v.push_back(-1.2); v.push_back(1.1); v.push_back(0.7); }
  return blocks_acc;
}
static bool close(const V &a, const V &b, double tol, size_t n, const V &scale = {}) { ld s = 0; for (size_t i = 0; i < n; i++) s = std::max(s, (ld)std::max(fabs(b[i]), fabs(a[i]))); if (!scale.empty()) for (double x : scale) s = std::max(s, (ld)fabs(x)); for (size_t i = 0; i < n; i++) if (!(fabs(a[i] - b[i]) <= tol * s)) return false; return true; }
void vf::explore(Run &R) {
  std::vector<Lay> LS = {{1, {}, 0}, {2, {}, 0}, {0, {1}, 0}, {0, {2}, 0}, {0, {3}, 0}, {1, {2}, 0}, {0, {2, 2}, 0}, {1, {1, 2}, 0}, {0, {4}, 0}, {0, {1, 3}, 1}, {2, {2}, 1}, {1, {3}, 0}, {0, {3, 2}, 0}};
  if (R.thorough) for (auto &x : std::vector<Lay>{{2, {1, 2}, 0}, {0, {3, 3}, 0}, {1, {4}, 1}, {0, {5}, 0}, {3, {}, 2}, {0, {2, 1, 2}, 0}}) LS.push_back(x);
  // points so close to the boundary that rounding pushes the scaled point of a cone outside: the other cones still limit the step
  for (int ka = 1; ka <= 53; ka++) for (int kb = 1; kb <= 53; kb++) for (int sg = 0; sg < 2; sg++) for (int hh = 0; hh < 3; hh++) {
    if (!R.want()) { if (R.stopped) return; continue; }
    static const double hd[3] = {1, 1e-4, 3e3}; Lay L{0, {2, 3}, 0}; Data *D; pwork *w = make(L, D); std::string e;
    V s = {1, 1 - ldexp(1, -ka), 1, 0.25, 0}, z = {hd[hh], (sg ? 1 : -1) * hd[hh] * (1 - ldexp(1, -kb)), 1, 0, -0.5}, lam(5), ds = {0, 0, -1, 0.5, -0.25}, dz = {0, 0, -0.1, -0.75, 2}; R.evals++;
    if (updateScalings(w->C, s.data(), z.data(), lam.data(), 1) == 0) {
      Lay L2{0, {3}, 0}; V l2(lam.begin() + 2, lam.end()), d2(ds.begin() + 2, ds.end()), e2(dz.begin() + 2, dz.end()); ld lim = std::min(maxstep(L2, l2, d2), maxstep(L2, l2, e2));
      double st = lineSearch(lam.data(), ds.data(), dz.data(), 1, 0.5, 1, 0.5, w->C, w->KKT); R.transitions++; R.nontriv(hmix(ka * 64 + kb, sg * 3 + hh)); R.outcome("second cone limits the step");
      if (!(st <= lim * (1 + 1e-9))) e = fmt("step length %.12g leaves the second cone: at most %.12Lg is allowed (first cone: lambda = %.17g, %.17g)", st, lim, lam[0], lam[1]);
    } else R.outcome("scaling refused");
    ECOS_cleanup(w, 0); delete D;
    if (!e.empty()) { R.fail(e + "  s=" + vs(s) + " z=" + vs(z)); if (R.stopped) return; } }
  // one slack or multiplier block outside its cone: noticed, wherever it is and whatever the other one is
  for (auto &L : LS) { int m = L.m(), k = L.l; if (L.q.empty()) continue; auto pts = points(L, 1); Data *D; pwork *w = nullptr;
    for (size_t qi = 0; qi < L.q.size(); k += L.q[qi++]) { int p = L.q[qi];
      for (size_t a = 0; a < pts.size(); a++) { if (!R.want()) { if (R.stopped) return; continue; } if (!w) { w = make(L, D); if (!w) { R.fail("setup failed"); return; } } std::string e;
        static const double al[4] = {0, 1.02, -3, 40};
        for (double hd : V{1, 1e-3, 60, -1, -1e-3, -60}) for (Odo o(std::vector<int>(p - 1, 4)); !o.done && e.empty(); o.next()) { V u = pts[a]; double t = 0; u[k] = hd; for (int i = 1; i < p; i++) { u[k + i] = hd * al[o.d[i - 1]]; t += al[o.d[i - 1]] * al[o.d[i - 1]]; } if (hd > 0 && t < 1.01) continue;
          for (size_t b = 0; b < pts.size() && e.empty(); b += pts.size() > 40 ? 7 : 1) for (int side = 0; side < 3 && e.empty(); side++) { V s = side == 1 ? pts[b] : u, z = side == 0 ? pts[b] : u, lam(m, 0); R.evals++; R.transitions++;
            if (updateScalings(w->C, s.data(), z.data(), lam.data(), 1) == 0) e = std::string(side == 0 ? "slack" : side == 1 ? "multiplier" : "slack and multiplier") + " outside the cone not noticed: s=" + vs(s) + " z=" + vs(z); } }
        R.outcome("outside " + L.str()); R.nontriv(hmix(R.mycase, 9)); if (!e.empty()) { R.fail(e + "  " + L.str()); if (R.stopped) return; } } }
    if (w) { ECOS_cleanup(w, 0); delete D; } }
  for (auto &L : LS) {
    int m = L.m(), ns = L.sym(); int lev = R.thorough ? (ns <= 4 ? 2 : 1) : ns <= 3 ? 2 : 1; auto pts = points(L, lev);
    Data *D; pwork *w = nullptr;
    for (size_t a = 0; a < pts.size(); a++) {
      if (!R.want()) { if (R.stopped) return; continue; }
      if (!w) { w = make(L, D); if (!w) { R.fail("setup failed"); return; } }
      const V &s = pts[a]; std::string e;
      for (size_t b = 0; b < pts.size() && e.empty(); b++) {
        const V &z = pts[b]; R.evals++; V s1 = s, z1 = z; V lam(m, 7), t(m, 7), u(m, 7), x(m, 7);
        double cond = std::min(margin(L, s), margin(L, z)); double tol = 1e-12 / (cond * cond);
        if (updateScalings(w->C, s1.data(), z1.data(), lam.data(), 0.5) != 0) { e = "scaling refused for a pair of interior points"; break; }
        if (s1 != s || z1 != z) { e = "updateScalings changed its arguments"; break; }
        for (int k = ns; k < m; k++) if (lam[k] != 7) e = "scale touched the exponential part";
        // W z = lambda = W^-1 s
        unscale(s1.data(), w->C, t.data()); if (!close(t, lam, tol, ns)) { e = "W z differs from W^-1 s: " + vs(lam) + " / " + vs(t); break; }
        scale(lam.data(), w->C, u.data()); if (!close(u, s, tol, ns)) { e = "W W z differs from s: " + vs(u); break; }
        // W symmetric, inverse of unscale, and W J W = eta^2 J (an automorphism of the cone)
        std::vector<V> W; for (int j = 0; j < ns; j++) { V ej(m, 0), r(m, 7); ej[j] = 1; scale(ej.data(), w->C, r.data()); W.push_back(r); V back(m, 7); unscale(r.data(), w->C, back.data()); if (!close(back, ej, tol, ns)) { e = fmt("unscale is not the inverse of scale (column %d)", j); break; } }
        if (!e.empty()) break;
        for (int i = 0; i < ns; i++) for (int j = 0; j < i; j++) if (fabs(W[i][j] - W[j][i]) > tol * (fabs(W[i][i]) + fabs(W[j][j]))) e = "the scaling matrix is not symmetric";
        // W^2 through the expanded form: eliminate the two extra unknowns of each cone
        { int me = ns + 2 * (int)L.q.size() + 3 * L.nex; for (int j = 0; j < ns && e.empty(); j++) {
            V ej(me, 0), y(me, 0); // position of component j in the expanded vector
            auto pos = [&](int c) { int k = c, off = L.l; if (c < L.l) return c; for (auto p : L.q) { if (c < off + p) return k; off += p; k += 2; } return k; };
            ej[pos(j)] = 1; scale2add(ej.data(), y.data(), w->C); int k = L.l, ke = L.l; V W2(ns, 0); for (int i = 0; i < L.l; i++) W2[i] = y[i];
            for (size_t qi = 0; qi < L.q.size(); qi++) { int p = L.q[qi]; double f = w->C->soc[qi].eta_square; // y3 = f (x3 + r3), y4 = f (r4 - x4) must vanish
              V e2(me, 0), y2(me, 0); e2 = ej; e2[ke + p] = -y[ke + p] / f; e2[ke + p + 1] = y[ke + p + 1] / f; scale2add(e2.data(), y2.data(), w->C);
              if (fabs(y2[ke + p]) > 1e-9 * (1 + fabs(y[ke + p])) || fabs(y2[ke + p + 1]) > 1e-9 * (1 + fabs(y[ke + p + 1]))) e = "the expanded scaling has other diagonal entries than (1,-1)";
              for (int i = 0; i < p; i++) W2[k + i] = y2[ke + i]; k += p; ke += p + 2; }
            V ref(m, 0), col = W[j]; scale(col.data(), w->C, ref.data());
            double big = 0; for (int i = 0; i < ns; i++) big = std::max(big, std::max(fabs(ref[i]), fabs(W[i][i]) * fabs(W[i][i])));
            for (int i = 0; i < ns; i++) if (!(fabs(W2[i] - ref[i]) <= 1e-10 / (cond * cond) * big)) { e = fmt("expanded scaling: W^2 has %.12g at (%d,%d), W*W has %.12g", W2[i], i, j, ref[i]); break; } } }
        if (!e.empty()) break;
        // Jordan product and its inverse
        V pr(m, 7), dv(m, 7); double mu = conicProduct(s1.data(), z1.data(), w->C, pr.data()); V ref = jordan(L, s, z); ld muref = 0; for (int k = 0; k < ns; k++) muref += (ld)s[k] * z[k];
        if (!close(pr, ref, 1e-13, ns)) { e = "conic product " + vs(pr) + " should be " + vs(ref); break; }
        if (!(fabs(mu - muref) <= 1e-12 * (fabs((double)muref) + 1e-300) * 10 / cond)) { e = fmt("conic product returns %.12g, the inner product is %.12Lg", mu, muref); break; }
        conicDivision(s1.data(), pr.data(), w->C, dv.data()); if (!close(dv, z, 1e-11 / (cond * cond), ns)) { e = "conic division does not undo the product: " + vs(dv); break; }
        conicDivision(s1.data(), z1.data(), w->C, dv.data()); conicProduct(s1.data(), dv.data(), w->C, pr.data()); { V sc; double g = 0; for (int k = 0; k < ns; k++) g = std::max(g, fabs(s[k]) * fabs(dv[k])); if (!close(pr, z, 1e-11 / (cond * cond), ns, {g})) { e = "s o (s \\ z) differs from z: " + vs(pr); break; } }
        for (int k = ns; k < m; k++) if (pr[k] != 7 || dv[k] != 7) e = "a product touched the exponential part";
        if (a != b) R.nontriv(hmix(hmix(a, b), hmix(L.l * 100 + ns, L.nex + 10 * L.q.size())));
        // line search: every direction of the grid
        std::vector<V> dirs; static const double al[4] = {-1, 0.4, -30, 1e-3}; int nd = ns <= 2 ? 4 : ns <= 3 ? 3 : 2;
        if ((a * 31 + b) % (R.thorough ? 1 : (ns > 3 ? 7 : 2)) == 0) for (Odo o(std::vector<int>(ns, nd)); !o.done; o.next()) { V d(m, 0); for (int k = 0; k < ns; k++) d[k] = al[o.d[k]]; dirs.push_back(d); }
        static const double taus[4][4] = {{1, 0.5, 1, 0.5}, {1, -1.7, 1, 0.1}, {0.2, 0, 0.3, -4}, {1e-3, -2e-3, 5, -1}};
        auto search = [&](const V &d1, const V &d2, const double *tk) { V l2 = z, ds = d1, dz = d2; // the line search sees lambda + alpha*ds and lambda + alpha*dz
          double al2 = lineSearch(l2.data(), ds.data(), dz.data(), tk[0], tk[1], tk[2], tk[3], w->C, w->KKT); R.transitions++;
          ld lim = std::min(maxstep(L, z, d1), maxstep(L, z, d2)); if (tk[1] < 0) lim = std::min(lim, (ld)-tk[0] / tk[1]); if (tk[3] < 0) lim = std::min(lim, (ld)-tk[2] / tk[3]);
          double want = std::min((ld)0.999, std::max(lim, (ld)1e-6)), tl = 1e-9 / margin(L, z); bool over = !(al2 <= want * (1 + tl));
          if (over || !(al2 >= want * (1 - tl))) e = fmt(over ? "step length %.12g leaves the cone: at most %.12g is allowed; lambda=%s ds=%s dz=%s tau=%g dtau=%g kap=%g dkap=%g" : "step length %.12g although %.12g would be allowed; lambda=%s ds=%s dz=%s tau=%g dtau=%g kap=%g dkap=%g", al2, want, vs(z).c_str(), vs(d1).c_str(), vs(d2).c_str(), tk[0], tk[1], tk[2], tk[3]); };
        for (size_t i = 0; i < dirs.size() && e.empty(); i++) for (size_t j = 0; j < dirs.size() && e.empty(); j++) { if (ns > 3 && (i + j) % 3) continue; search(dirs[i], dirs[j], taus[(i + 2 * j + a) % 4]); }
        // every order of the limits set by tau, by kappa and by the cones
        if ((a + 3 * b) % (R.thorough ? 3 : 11) == 0) { static const double tv[3] = {1, 0.02, 30}, dv2[6] = {0.5, 0, -0.9, -1.5, -4, -200}; V d0(m, 0), d1(m, 0), d2(m, 0); for (int k = 0; k < ns; k++) d1[k] = -0.7 * z[k], d2[k] = -3 * z[k];
          for (Odo o({3, 6, 3, 6, 4}); !o.done && e.empty(); o.next()) { double tk[4] = {tv[o.d[0]], tv[o.d[0]] * dv2[o.d[1]], tv[o.d[2]], tv[o.d[2]] * dv2[o.d[3]]}; search(o.d[4] & 1 ? d1 : d0, o.d[4] & 2 ? d2 : d0, tk); } R.outcome("every order of the limits on a step"); }
      }
      R.alive(); R.outcome(L.str()); R.sample(L.str() + " s=" + vs(s));
      if (!e.empty()) { R.fail(e + "  " + L.str() + " s=" + vs(s)); if (R.stopped) return; }
    }
    // start-up shift: every vector of the grid
    if (!L.nex) { V al = ns <= 3 ? V{-3, -1, -0.5, 0, 0.25, 1, 100} : V{-2, -0.5, 0, 1};
      for (Odo o(std::vector<int>(ns, (int)al.size())); !o.done; o.next()) {
        if (!R.want()) { if (R.stopped) return; continue; } if (!w) { w = make(L, D); if (!w) { R.fail("setup failed"); return; } }
        V r(m), r1, s(m, 7); for (int k = 0; k < ns; k++) r[k] = al[o.d[k]]; r1 = r; bring2cone(w->C, r1.data(), s.data()); R.evals++; std::string e;
        if (margin(L, s) <= 0) e = "start-up shift leaves the point outside the cone: " + vs(s);
        double t = L.l ? s[0] - r[0] : s[0] - r[0]; int k = 0; for (; k < L.l; k++) if (fabs(s[k] - r[k] - t) > 1e-12 * (1 + fabs(r[k]))) e = "linear part not shifted evenly: " + vs(s); for (auto p : L.q) { if (fabs(s[k] - r[k] - t) > 1e-12 * (1 + fabs(r[k]))) e = "head of a cone not shifted like the rest: " + vs(s); for (int i = 1; i < p; i++) if (s[k + i] != r[k + i]) e = "tail of a cone changed: " + vs(s); k += p; }
        if (t < 0) e = "shifted outwards"; R.outcome("start-up shift"); if (margin(L, r) < 0) R.nontriv(hmix(R.mycase, 5));
        if (!e.empty()) { R.fail(e + "  " + L.str() + " r=" + vs(r)); if (R.stopped) return; } } }
    if (w) { ECOS_cleanup(w, 0); delete D; }
  }
}
