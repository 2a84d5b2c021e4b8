// Exploration framework: deterministic case numbering, sharding over worker processes, crash and hang
// capture, early stop, counters.  Each driver defines  void explore(vf::Run&)  and enumerates its space.
#pragma once
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include "env.hpp"
namespace vf {
struct Shared { volatile long cur; volatile uint64_t beat; volatile int stop; };
struct Run {
  int shard = 0, jobs = 1; long only = -1, upto = -1; bool thorough = false; bool verbose = false;
  long caseno = 0, mycase = -1; bool stopped = false;
  Shared *sh = nullptr; volatile int *gstop = nullptr;
  uint64_t evals = 0, nontrivial = 0, transitions = 0, dups = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> outcomes, notes;
  std::vector<std::string> samples;
  std::vector<std::pair<long, std::string>> fails;   // case, message
  // true: the deviation is listed in the known-findings file under this key (counted, reported by bin/check)
  bool known(const std::string &key) { const char *k = getenv("VF_KNOWN"); std::string l = k ? "\n" + std::string(k) + "\n" : ""; if (l.find("\n" + key + "\n") == std::string::npos) return false; notes["known:" + key]++; return true; }
  std::string capped;                                 // non-empty: some bound was hit
  bool want() {                                       // call once per case, true: this worker executes it
    long id = caseno++;
    if (stopped) return false;
    if (only >= 0 ? id != only : (id % jobs != shard || (upto >= 0 && id > upto))) return false;
    if (gstop && *gstop) { stopped = true; return false; }
    mycase = id; if (sh) { sh->cur = id; sh->beat++; }
    env::reset();
    return true;
  }
  // distinct non-trivial cases, counted in a table shared by the workers
  uint64_t *table = nullptr; uint64_t tmask = 0, tfull = 0;
  void nontriv(uint64_t h) { if (!table) { nontrivial++; return; } h = h ? h : 1; uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 20; for (int k = 0; k < 64; k++, i++) { uint64_t *s = &table[i & tmask], o = 0; if (__atomic_load_n(s, __ATOMIC_RELAXED) == h) return; if (__atomic_compare_exchange_n(s, &o, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { nontrivial++; return; } if (o == h) return; } tfull++; }
  void alive() { if (sh) sh->beat++; }
  // a tolerated exception: counted; the check fails when the rate in the whole run exceeds the bound stated for the property
  std::map<std::string, std::vector<std::pair<long, std::string>>> softs;
  void soft(const std::string &key, const std::string &msg) { notes["soft:" + key]++; auto &v = softs[key]; if (v.size() < 3) v.push_back({mycase, msg}); if (verbose) fprintf(stderr, "SOFT %s case %ld: %s\n", key.c_str(), mycase, msg.c_str()); }
  void outcome(const std::string &s) { outcomes[s]++; }
  bool state(uint64_t h) { return states.insert(h).second; }
  void sample(const std::string &s) { if (samples.size() < 4 || (evals && (evals & (evals - 1)) == 0 && samples.size() < 24)) samples.push_back("case " + std::to_string(mycase) + ": " + s); }
  void fail(const std::string &msg) { if (verbose) fprintf(stderr, "FAIL case %ld: %s\n", mycase, msg.c_str()); if (fails.size() < 40) fails.push_back({mycase, msg}); if (only < 0 && !getenv("VF_ALL")) { stopped = true; if (gstop) *gstop = 1; } }
};
void explore(Run &R);
inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
inline uint64_t hdbl(uint64_t h, double d) { uint64_t u; if (d == 0) d = 0; memcpy(&u, &d, 8); return hmix(h, u); }
inline std::string fmt(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
template <class T> std::string vs(const std::vector<T> &v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
inline std::string vs(const double *v, long n) { return vs(std::vector<double>(v, v + n)); }
// odometer over radices
struct Odo {
  std::vector<int> d, r; bool done = false;
  explicit Odo(std::vector<int> radix) : d(radix.size(), 0), r(radix) { for (int x : r) if (x <= 0) done = true; }
  void next() { size_t i = 0; for (; i < d.size(); i++) { if (++d[i] < r[i]) return; d[i] = 0; } done = true; }
};
}
