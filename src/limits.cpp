// C11: every iteration limit, both verbosity levels.
#include "base.hpp"
using namespace vf;
static std::vector<uint64_t> bits(const Sol &s) { std::vector<uint64_t> b; auto add = [&](const double *p, size_t n) { for (size_t i = 0; i < n; i++) { uint64_t u; double d = p[i] != p[i] ? NAN : p[i]; memcpy(&u, &d, 8); b.push_back(u); } }; b.push_back(s.code); b.push_back(s.info.iter); add(s.x.data(), s.x.size()); add(s.y.data(), s.y.size()); add(s.z.data(), s.z.size()); add(s.s.data(), s.s.size()); double f[] = {s.info.pcost, s.info.dcost, s.info.pres, s.info.dres, s.info.gap, s.info.relgap, s.info.pinfres, s.info.dinfres}; add(f, 8); return b; }
void vf::explore(Run &R) {
  each_base(R.thorough ? 2 : 1, [&](auto mk, int kind) {
    if (!R.want()) return !R.stopped;
    Prob P = mk(); env::reset(); Sol ref = solve_fresh(P); auto rb = bits(ref); long it = ref.info.iter; R.evals++; R.outcome(std::string("unlimited -> ") + codename(ref.code));
    std::string e; if (it > 100) e = "more iterations than the default limit"; if (env::printed) e = "output although verbose is off";
    std::vector<std::vector<uint64_t>> silent;   // the answer for each limit with the verbosity off
    for (int verb = 0; verb < 2 && e.empty(); verb++) for (long k = 0; k <= std::min(it + 2, 100L) && e.empty(); k++) {
      env::reset(); long before = env::printed; bool same_twice = true; Sol s = solve_fresh(P, [&](pwork *w) { w->stgs->maxit = k; w->stgs->verbose = verb; }); R.evals++; R.alive();
      std::string at = fmt("limit %ld (needs %ld, then %s), verbose %d: ", k, it, codename(ref.code), verb);
      if (!verb) silent.push_back(bits(s)); else if (bits(s) != silent[k]) e = at + fmt("not the result of the silent solve with the same limit: %s", codename(s.code));
      if (!verb && env::printed != before) e = at + "output although verbose is off";
      if (s.info.iter > k) e = at + fmt("made %ld iterations", (long)s.info.iter);
      else if (k > it || (k == it && ref.code >= 0 && ref.code < 10)) { if (bits(s) != rb) e = at + fmt("another result than without the limit: %s after %ld iterations", codename(s.code), (long)s.info.iter); }
      else {
        if (k < it) { R.nontriv(hmix(hmix(P.hash(), k), verb)); R.outcome(std::string("limited -> ") + codename(s.code)); if (s.info.iter < k) e = at + fmt("stopped after %ld iterations with %s", (long)s.info.iter, codename(s.code)); }
        if (!(s.code == -1 || s.code >= 10 || (k == it && s.code == ref.code))) e = at + fmt("exit code %s", codename(s.code));
        if (e.empty() && (!finite(s.x) || !finite(s.y) || !finite(s.s) || !finite(s.z)) && finite(ref.x)) e = at + "the point returned is not finite";
        if (e.empty()) { e = check_claim(P, s); if (!e.empty()) e = at + e; }
      }
      if (e.empty()) R.sample(at + codename(s.code) + "  " + P.str());
    }
    if (!e.empty()) R.fail(e + "  " + P.str());
    return !R.stopped;
  });
}
