// The figures of an iterate, from the caller's data, in extended precision.
#pragma once
#include "base.hpp"
namespace vf {
struct Fig { ld cx = 0, acx = 0, d = 0, ad = 0, gap = 0, agap = 0, pres = 0, pe = 0, dres = 0, de = 0, pinf = 0, pie = 0, dinf = 0, die = 0, nx = 0, nyz = 0; double tau = 0, kap = 0; bool ok = false; };
typedef std::vector<ld> L;
// the figures of a point of the homogeneous embedding (in the solver's scaling), from the caller's data
inline Fig figures(const Prob &P, const double *xe, const double *Ae, const double *Ge, const L &x, const L &y, const L &z, const L &s, double tau, double kap) {
  Fig f; f.tau = tau; f.kap = kap; if (!(tau > 1e-140)) return f; for (auto *v : {&x, &y, &z, &s}) for (ld q : *v) if (!std::isfinite((double)q)) return f;
  ld t = tau, nx = 0, ny = 0, nz = 0, ns = 0, rx = 0, ry = 0, rz = 0, ax = 0, ay = 0, az = 0, hx = 0, hy = 0, hz = 0, cc = 0, bb = 0, hh = 0;
  for (long j = 0; j < P.n; j++) { ld q = P.c[j] / (ld)xe[j] * x[j]; f.cx += q; f.acx += fabsl(q); nx += x[j] * x[j]; } for (long i = 0; i < P.p; i++) { ld q = P.b[i] / (ld)Ae[i] * y[i]; f.d -= q; f.ad += fabsl(q); ny += y[i] * y[i]; }
  for (long i = 0; i < P.m; i++) { ld q = P.h[i] / (ld)Ge[i] * z[i]; f.d -= q; f.ad += fabsl(q); nz += z[i] * z[i]; ns += s[i] * s[i]; f.gap += s[i] * z[i]; f.agap += fabsl(s[i] * z[i]); }
  for (long i = 0; i < P.p; i++) { ld a = 0, b = P.b[i] / (ld)Ae[i], aa = fabsl(b * t); for (long j = 0; j < P.n; j++) { ld q = (ld)P.a(i, j) / Ae[i] / xe[j] * x[j]; a += q; aa += fabsl(q); } hy += a * a; ry += (a - b * t) * (a - b * t); ay += aa * aa; bb += b * b; }
  for (long i = 0; i < P.m; i++) { ld a = s[i], b = P.h[i] / (ld)Ge[i], aa = fabsl(b * t) + fabsl(a); for (long j = 0; j < P.n; j++) { ld q = (ld)P.g(i, j) / Ge[i] / xe[j] * x[j]; a += q; aa += fabsl(q); } hz += a * a; rz += (a - b * t) * (a - b * t); az += aa * aa; hh += b * b; }
  for (long j = 0; j < P.n; j++) { ld a = 0, b = P.c[j] / (ld)xe[j], aa = fabsl(b * t); for (long i = 0; i < P.p; i++) { ld q = (ld)P.a(i, j) / Ae[i] / xe[j] * y[i]; a += q; aa += fabsl(q); } for (long i = 0; i < P.m; i++) { ld q = (ld)P.g(i, j) / Ge[i] / xe[j] * z[i]; a += q; aa += fabsl(q); } hx += a * a; rx += (a + b * t) * (a + b * t); ax += aa * aa; cc += b * b; }
  nx = sqrtl(nx); ny = sqrtl(ny); nz = sqrtl(nz); ns = sqrtl(ns); ld mx = std::max(1.0L, sqrtl(cc)), my = std::max(1.0L, sqrtl(bb)), mz = std::max(1.0L, sqrtl(hh));
  f.pres = std::max(sqrtl(ry) / (my + nx), sqrtl(rz) / (mz + nx + ns)) / t; f.pe = 1e-13L * (sqrtl(ay) / (my + nx) + sqrtl(az) / (mz + nx + ns)) / t; f.dres = sqrtl(rx) / (mx + ny + nz) / t; f.de = 1e-13L * sqrtl(ax) / (mx + ny + nz) / t;
  f.nx = nx; f.nyz = ny + nz; f.pinf = sqrtl(hx) / (ny + nz); f.pie = 1e-13L * sqrtl(ax) / (ny + nz); f.dinf = std::max(sqrtl(hy) / nx, sqrtl(hz) / (nx + ns)); f.die = 1e-13L * (sqrtl(ay) / nx + sqrtl(az) / (nx + ns)); f.ok = true; return f;
}
}
