// C10: SIGINT delivered at every basic block of ECOS_solve, for every zoo problem and each previous disposition.
#include "zoo.hpp"
using namespace vf;
static uint64_t at; static int where_went; static long iter_at; static pwork *W;
static int user_calls; static void user_handler(int) { user_calls++; }
static void hook() { if (env::points == at) { env::point_hook = nullptr; iter_at = W->info->iter; where_went = env::deliver_sigint(); } }
static void dispose(int kind) { if (kind > 2) kind = 0; memset(&env::sigint_disp, 0, sizeof env::sigint_disp); if (kind == 0) env::sigint_disp.sa_handler = user_handler; else if (kind == 1) env::sigint_disp.sa_handler = SIG_IGN; else env::sigint_disp.sa_handler = SIG_DFL; env::sigint_disp.sa_flags = kind == 0 ? SA_NODEFER : 0; }
static bool disposed(int kind) { if (kind > 2) kind = 0; auto h = env::sigint_disp.sa_handler; return kind == 0 ? (h == user_handler && env::sigint_disp.sa_flags == SA_NODEFER) : kind == 1 ? h == SIG_IGN : h == SIG_DFL; }
static std::string bits(const Sol &a, const Sol &b) {
  if (a.code != b.code) return fmt("exit code %s instead of %s", codename(a.code), codename(b.code));
  auto c = [](const std::vector<double> &x, const std::vector<double> &y) { for (size_t i = 0; i < x.size(); i++) if (!(fabs(x[i] - y[i]) <= 1e-7 * (1 + fabs(y[i])))) return false; return true; };
  if (a.code == 0 && !(c(a.x, b.x) && c(a.s, b.s))) return "another solution";
  if (a.info.iter != b.info.iter) return fmt("%ld iterations instead of %ld", (long)a.info.iter, (long)b.info.iter);
  return "";
}
void vf::explore(Run &R) {
  for (auto &z : zoo()) for (int v = 0; v < (R.thorough ? 3 : 1); v++) for (int kind = 0; kind < 7; kind++) {
    const Prob &P = z.v[v]; if (kind > 2 && v) continue;
    // kind 3..6: with an iteration limit of 0, 1, 3 and one less than needed
    long lim = kind < 3 ? -1 : kind == 3 ? 0 : kind == 4 ? 1 : kind == 5 ? 3 : -2; if (lim == -2) { Sol r = solve_fresh(P); lim = (long)r.info.iter - 1; if (lim < 0) continue; }
    // the uninterrupted solve: reference result, number of points
    env::reset(); dispose(kind); uint64_t np; Sol ref; { Data D(P); pwork *w = setup(D); if (!w) { R.fail("setup failed"); return; } if (lim >= 0) w->stgs->maxit = lim; uint64_t p0 = env::points; ref = grab(w, ECOS_solve(w)); np = env::points - p0; ECOS_cleanup(w, 0); }
    if (!disposed(kind)) { if (R.want()) R.fail(std::string(z.name) + ": the disposition of SIGINT is not what it was before the solve"); return; }
    long step = kind == 0 ? 1 : kind < 3 ? (R.thorough ? 7 : 97) : R.thorough ? 1 : 2;   // every block with a user handler installed; the other dispositions on a grid (only the restoring differs)
    for (uint64_t N = 1; N <= np + 1; N += step) {
      if (!R.want()) { if (R.stopped) return; continue; }
      dispose(kind); user_calls = 0; where_went = -1; iter_at = -1;
      Data D(P); pwork *w = setup(D); W = w; if (lim >= 0) w->stgs->maxit = lim; at = env::points + N; env::point_hook = hook;
      long code = ECOS_solve(w); env::point_hook = nullptr; Sol s = grab(w, code); R.evals++; R.transitions++;
      std::string e; bool caught = where_went == env::D_CALLED && user_calls == 0;
      if (N <= np && where_went < 0) e = "harness: the signal was not delivered (control flow changed before it)";
      if (!disposed(kind)) e = "the disposition of SIGINT is not what it was before the solve";
      else if (!finite(s.x) || !finite(s.s) || !finite(s.z) || !finite(s.y)) e = fmt("exit code %s with a point that is not finite", codename(code));
      else if (caught) {
        R.nontrivial++;
        long from = iter_at < 0 || iter_at > 200 ? -1 : iter_at;
        if ((long)s.info.iter > from + 1) e = fmt("kept going for %ld more iterations, exit code %s", (long)s.info.iter - from, codename(code));
        else if (code == -4) {}
        else if (code == -1 && lim >= 0 && from == lim) {}   // came in while the last iterate was being judged
        else if (code < 0) e = fmt("interrupted solve returned %s", codename(code));
        else { e = check_claim(P, s); if (e.empty() && code < 10) e = bits(s, ref); }
      } else e = bits(s, ref);
      R.outcome(std::string(caught ? "library handler ran -> " : "library handler not installed -> ") + codename(code));
      if (caught) R.state(hmix(hmix(P.hash(), code), s.info.iter * 1000 + iter_at));
      if (e.empty()) { Sol t = grab(w, ECOS_solve(w)); e = bits(t, ref); if (!e.empty()) e = "the solve after an interrupted one: " + e; if (e.empty() && !disposed(kind)) e = "disposition of SIGINT not restored by the next solve"; R.transitions++; }
      ECOS_cleanup(w, 0);
      if (!e.empty()) { R.fail(fmt("SIGINT at basic block %llu of %llu (iteration %ld, previous disposition %s, iteration limit %ld): ", (unsigned long long)N, (unsigned long long)np, iter_at, kind == 0 ? "user handler" : kind == 1 ? "ignore" : "default", lim) + e + "  " + z.name + " " + P.str()); return; }
      R.sample(fmt("%s: SIGINT at block %llu -> %s, iter %ld", z.name, (unsigned long long)N, codename(code), (long)s.info.iter));
    }
  }
}
