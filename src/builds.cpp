// C25: four builds of the library in one program, bit for bit.  Each build's symbols carry a prefix; src/wrap.c, compiled with each
// build's settings, runs one life cycle and returns every observable number.
#include "base.hpp"
#include "bb.hpp"
#include "wrap.h"
using namespace vf;
extern "C" { long base_wrap_run(const vreq *); long base_wrap_width();
#if MODE == 0
long int_wrap_run(const vreq *); long noctrlc_wrap_run(const vreq *); long intnoctrlc_wrap_run(const vreq *); long int_wrap_width(); long noctrlc_wrap_width(); long intnoctrlc_wrap_width();
#else
long quiet_wrap_run(const vreq *); long final_wrap_run(const vreq *); long loud_wrap_run(const vreq *); long noexp_wrap_run(const vreq *);
#endif
}
struct Build { const char *n; long (*f)(const vreq *); bool text, exp; };
#if MODE == 0
static Build bs[] = {{"32-bit indices", int_wrap_run, true, true}, {"without interrupt handler", noctrlc_wrap_run, true, true}, {"32-bit indices without interrupt handler", intnoctrlc_wrap_run, true, true}};
#else
static Build bs[] = {{"print level 0, profiling level 0", quiet_wrap_run, false, true}, {"print level 1, profiling level 2", final_wrap_run, false, true}, {"print level 3, profiling level 2", loud_wrap_run, false, true}, {"no exponential cones", noexp_wrap_run, false, false}};
#endif
static unsigned long rk; static int rot() { return (int)((rk++ * 7919 + 13) & 0x7fffffff); }
struct Out { std::vector<double> v; std::string text; long allocs, live; int disp; };
static Out go(long (*f)(const vreq *), const Prob &P, const std::vector<idxint> &bl, const std::vector<idxint> &il, bool mip, int life, int verbose, long maxit, long strat) {
  env::reset(); env::rand_hook = rot; rk = 0; env::keep_output = true; env::output.clear(); std::vector<long> q(P.q.begin(), P.q.end()), b(bl.begin(), bl.end()), i(il.begin(), il.end());
  static std::vector<double> buf(1 << 18); vreq r{P.n, P.m, P.p, P.l, P.nex, (long)q.size(), (long)b.size(), (long)i.size(), mip, life, verbose, maxit, strat, q.data(), b.data(), i.data(), P.G.data(), P.A.data(), P.c.data(), P.h.data(), P.b.data(), buf.data(), (long)buf.size()};
  env::Snapshot s0 = env::snap(); Out o; long k = f(&r); o.v.assign(buf.begin(), buf.begin() + std::min(k, r.cap)); o.text = env::output; o.live = env::snap().blocks - s0.blocks; env::keep_output = false; return o;
}
static std::string diff(const Out &a, const Out &b, bool text) {
  if (a.v.size() != b.v.size()) return fmt("%zu observations instead of %zu", b.v.size(), a.v.size());
  for (size_t i = 0; i < a.v.size(); i++) if (memcmp(&a.v[i], &b.v[i], 8) && !(a.v[i] != a.v[i] && b.v[i] != b.v[i])) return fmt("observation %zu is %.17g instead of %.17g", i, b.v[i], a.v[i]);
  if (text && a.text != b.text) { size_t i = 0; while (i < a.text.size() && i < b.text.size() && a.text[i] == b.text[i]) i++; return fmt("printed text differs at %zu: '%.40s' instead of '%.40s'", i, b.text.substr(i, 40).c_str(), a.text.substr(i, 40).c_str()); }
  if (a.live || b.live) return fmt("%ld and %ld blocks not freed", a.live, b.live);
  return "";
}
static bool cmp(Run &R, const Prob &P, const std::vector<idxint> &bl, const std::vector<idxint> &il, bool mip, int life, int verbose, long maxit, long strat) {
  Out a = go(base_wrap_run, P, bl, il, mip, life, verbose, maxit, strat); R.evals++; if (a.v.size() > 1 && a.v[0] == 1) { R.outcome(mip ? std::string("mip ") + bbname(a.v[1]) : codename(a.v[1])); if (a.v.size() > 40) R.nontriv(hmix(P.hash(), mip * 1000 + life * 500 + maxit * 16 + strat)); } else R.outcome("setup refused");
  for (auto &b : bs) { if (P.nex && !b.exp) continue; Out o = go(b.f, P, bl, il, mip, life, verbose, maxit, strat); R.transitions++; std::string e = diff(a, o, b.text); if (!e.empty()) { R.fail(std::string("build with ") + b.n + " differs: " + e + fmt("  mip=%d life=%d verbose=%d maxit=%ld strategy=%ld bool=%s int=%s ", mip, life, verbose, maxit, strat, vs(bl).c_str(), vs(il).c_str()) + P.str()); return !R.stopped; } }
  return true;
}
void vf::explore(Run &R) {
#if MODE == 0
  if (R.want()) { R.evals++; if (base_wrap_width() != 8 || noctrlc_wrap_width() != 8 || int_wrap_width() != 4 || intnoctrlc_wrap_width() != 4) R.fail(fmt("index widths of the builds are %ld %ld %ld %ld", base_wrap_width(), int_wrap_width(), noctrlc_wrap_width(), intnoctrlc_wrap_width())); }
#endif
  if (!each_base(R.thorough ? 1 : 0, [&](auto mk, int kind) { if (!R.want()) return !R.stopped; Prob P = mk(); bool full = kind == 0 || R.thorough; if (!cmp(R, P, {}, {}, false, 1, kind == 0, 0, 0)) return false; if (full) for (long mi : {1, 3}) if (!cmp(R, P, {}, {}, false, 1, 1, mi, 0)) return false; return true; })) return;
  // sparse problems large enough for the ordering to have work to do
  for (int n = 4; n <= (R.thorough ? 24 : 14); n++) for (int pat = 0; pat < (R.thorough ? 64 : 24); pat++) { if (!R.want()) { if (R.stopped) return; continue; }
    Shape S{n, {3, (idxint)(n / 2 + 1)}, pat % 3, n, pat % 2}; Prob P = shell(S); for (long i = 0; i < P.m; i++) for (int k = 0; k < 3; k++) P.G[i * n + (i * (2 + k) + k * (pat + 1) + (i * i * pat) % 7) % n] = k ? 0.5 - (i + k) % 3 : -1; if (S.p) for (int j = 0; j < n; j += 2) P.A[j] = 1; std::vector<double> x0(n, 0.5), y0(S.p, 0.5); set_hb(P, x0, interior(S, pat % 3, false)); set_c(P, interior(S, pat / 3 % 3, true), y0); cmp(R, P, {}, {}, false, 1, pat == 0, 0, 0); }
  each_mip(R.thorough ? 0 : -1, [&](auto mk, const char *) { if (!R.want()) return !R.stopped; BProb B = mk(); bool ok = cmp(R, B.P, B.bl, B.il, true, 1, 0, 0, 0); if (ok && (R.thorough || R.caseno % 7 == 0)) for (long st = 1; st < 15 && ok; st += R.thorough ? 1 : 4) ok = cmp(R, B.P, B.bl, B.il, true, 1, 0, st % 2 ? 4 : 200, st); return ok; });
}
