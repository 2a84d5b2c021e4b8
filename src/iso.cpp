// C07: two workspaces, operations and basic blocks interleaved; each must behave exactly as if it were alone.
// MODE 1: all interleavings of two operation scripts.  MODE 2: preemption at every basic block (fibers).
#include "zoo.hpp"
#include <ucontext.h>
#include <memory>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
using namespace vf;
#ifndef MODE
#define MODE 1
#endif
struct Out { std::vector<uint64_t> bits; std::string what; };
static void push(Out &o, double d) { uint64_t u; memcpy(&u, &d, 8); o.bits.push_back(u); }
static void record(Out &o, const Sol &s) { o.bits.push_back(s.code); for (auto *v : {&s.x, &s.y, &s.z, &s.s}) for (double d : *v) push(o, d); for (double d : {s.info.pcost, s.info.dcost, s.info.pres, s.info.dres, s.info.pinf, s.info.dinf, s.info.gap, s.info.relgap, s.info.mu, s.info.step}) push(o, d); o.bits.push_back(s.info.iter); o.what += std::string(" ") + codename(s.code); }
// script: setup, solve, update, solve, cleanup
struct Actor {
  const Zoo *z; std::unique_ptr<Data> d[3]; pwork *w = nullptr; Out out; int pc = 0; int var = 0;
  explicit Actor(const Zoo *zz, int v0) : z(zz), var(v0) { for (int i = 0; i < 3; i++) d[i].reset(new Data(z->v[i])); }
  void step() {
    int nx = (var + 1) % 3;
    switch (pc++) {
      case 0: w = setup(*d[var]); break;
      case 1: case 3: record(out, grab(w, ECOS_solve(w))); break;
      case 2: { Data &D = *d[nx]; ECOS_updateData(w, D.G.pr.data(), D.p ? D.A.pr.data() : nullptr, D.c.data(), D.h.data(), D.p ? D.b.data() : nullptr); break; }
      case 4: ECOS_cleanup(w, 0); w = nullptr; for (int i = 0; i < 3; i++) for (auto *v : {&d[i]->G.pr, &d[i]->A.pr, &d[i]->c, &d[i]->h, &d[i]->b}) for (double x : *v) push(out, x); break;
    }
  }
};
// what an actor does alone, in a process in which the library has done nothing before (a child forked before any library call of this one)
static std::pair<Out, uint64_t> alone(std::function<std::pair<Out, uint64_t>()> f) {
  int p[2]; if (pipe(p)) abort(); pid_t c = fork();
  if (c == 0) { close(p[0]); auto r = f(); std::vector<uint64_t> m{r.second, r.first.bits.size(), r.first.what.size()}; m.insert(m.end(), r.first.bits.begin(), r.first.bits.end()); for (char ch : r.first.what) m.push_back((unsigned char)ch);
    const char *b = (const char *)m.data(); size_t n = m.size() * 8; while (n) { ssize_t k = write(p[1], b, n); if (k <= 0) _exit(1); b += k; n -= k; } _exit(0); }
  close(p[1]); std::vector<char> b; char t[65536]; ssize_t k; while ((k = read(p[0], t, sizeof t)) > 0) b.insert(b.end(), t, t + k); close(p[0]); int st = 0; waitpid(c, &st, 0);
  Out o; uint64_t pts = 0; const uint64_t *m = (const uint64_t *)b.data(); size_t n = b.size() / 8;
  if (st || n < 3 || n != 3 + m[1] + m[2]) { o.what = fmt("crash of the workspace alone in its process (status %d)", st); return {o, 0}; }
  pts = m[0]; o.bits.assign(m + 3, m + 3 + m[1]); for (size_t i = 0; i < m[2]; i++) o.what += (char)m[3 + m[1] + i]; return {o, pts};
}
#if MODE == 1
void vf::explore(Run &R) {
  auto &Z = zoo(); std::vector<std::vector<Out>> ref(Z.size());
  for (size_t i = 0; i < Z.size(); i++) for (int v = 0; v < (R.thorough ? 3 : 1); v++) ref[i].push_back(alone([&] { Actor a(&Z[i], v); for (int k = 0; k < 5; k++) a.step(); return std::make_pair(a.out, (uint64_t)0); }).first);
  for (size_t i = 0; i < Z.size(); i++) for (size_t j = i; j < Z.size(); j++) for (int vj = 0; vj < (R.thorough ? 3 : 1); vj++) for (int mask = 0; mask < 1024; mask++) {
    if (__builtin_popcount(mask) != 5) continue;
    if (!R.want()) { if (R.stopped) return; continue; }
    const Out &ra = ref[i][0], &rb = ref[j][vj];
    Actor a(&Z[i], 0), b(&Z[j], vj); std::string tr;
    for (int k = 0; k < 10; k++) { bool A = mask >> k & 1; tr += A ? 'A' : 'B'; (A ? a : b).step(); R.transitions++; R.state(hmix(hmix(hmix(i * 100 + j, a.pc * 8 + b.pc), a.out.bits.size()), b.out.bits.size())); }
    R.evals++; R.outcome("A:" + a.out.what + "  B:" + b.out.what); R.sample(std::string(Z[i].name) + " || " + Z[j].name + " order " + tr);
    if (a.out.bits != ra.bits || b.out.bits != rb.bits) { R.fail(std::string("interleaving ") + tr + " of workspaces A (" + Z[i].name + ") and B (" + Z[j].name + "): " + (a.out.bits != ra.bits ? "A" : "B") + " does not behave as it does alone. A:" + a.out.what + " (alone:" + ra.what + ") B:" + b.out.what + " (alone:" + rb.what + ")"); return; }
  }
}
#else
struct Fiber { ucontext_t ctx; std::vector<char> stack; Actor *a = nullptr; bool done = false; uint64_t pts = 0, stop = 0; };
static ucontext_t mainctx; static Fiber *cur; static Fiber F[2];
static void hook() { if (++cur->pts == cur->stop) swapcontext(&cur->ctx, &mainctx); }
static void body(int k) { Fiber &f = F[k]; f.a->step(); f.a->step(); f.a->pc = 4; f.a->step(); f.done = true; swapcontext(&f.ctx, &mainctx); }
static void start(int k, Actor *a) { Fiber &f = F[k]; if (f.stack.empty()) f.stack.resize(256 << 10); f.a = a; f.done = false; f.pts = f.stop = 0; getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack.data(); f.ctx.uc_stack.ss_size = f.stack.size(); f.ctx.uc_link = &mainctx; makecontext(&f.ctx, (void (*)())body, 1, k); }
static void go(int k, uint64_t until) { Fiber &f = F[k]; if (f.done) return; f.stop = until; cur = &f; env::point_hook = hook; swapcontext(&mainctx, &f.ctx); env::point_hook = nullptr; }
void vf::explore(Run &R) {
  auto &Z = zoo(); struct Ref { Out o; uint64_t pts; };
  std::vector<Ref> ref; for (auto &z : Z) { auto r = alone([&] { env::reset(); Actor a(&z, 0); start(0, &a); go(0, 0); return std::make_pair(a.out, F[0].pts); }); ref.push_back({r.first, r.second}); }
  auto check = [&](size_t i, size_t j, Actor &a, Actor &b, const std::string &how) {
    R.evals++; R.nontrivial++; R.outcome("A:" + a.out.what + "  B:" + b.out.what);
    if (!env::heap_error.empty()) { R.fail(how + ": " + env::heap_error); return false; }
    if (a.out.bits != ref[i].o.bits || b.out.bits != ref[j].o.bits) { bool A = a.out.bits != ref[i].o.bits; R.fail(std::string("workspaces A (") + Z[i].name + ") and B (" + Z[j].name + "), " + how + ": " + (A ? "A" : "B") + " does not behave as it does alone (" + (A ? a : b).out.what + ", alone" + ref[A ? i : j].o.what + ")"); return false; }
    R.sample(std::string(Z[i].name) + " || " + Z[j].name + " " + how); return true;
  };
  std::vector<std::pair<int, int>> pairs; int n = Z.size(); for (int i = 0; i < n; i++) { pairs.push_back({i, i}); pairs.push_back({i, (i + 3) % n}); if (R.thorough) for (int j = 0; j < n; j++) if (j != i && j != (i + 3) % n) pairs.push_back({i, j}); }
  for (auto pr : pairs) {
    int i = pr.first, j = pr.second; uint64_t pa = ref[i].pts, pb = ref[j].pts;
    for (uint64_t N = 1; N <= pa; N++) {           // one preemption: A to block N, all of B, rest of A
      if (!R.want()) { if (R.stopped) return; continue; }
      Actor a(&Z[i], 0), b(&Z[j], 0); start(0, &a); start(1, &b); go(0, N); go(1, 0); go(0, 0); R.transitions += 3;
      R.state(hmix(hmix(i * 100 + j, N), 0)); if (!check(i, j, a, b, fmt("A preempted at basic block %llu", (unsigned long long)N))) return;
    }
    uint64_t g = R.thorough ? 120 : 40;             // two preemptions on a grid
    for (uint64_t u = 1; u < g; u++) for (uint64_t v = 1; v < g; v++) {
      if (!R.want()) { if (R.stopped) return; continue; }
      uint64_t N1 = pa * u / g, N2 = pb * v / g;
      Actor a(&Z[i], 0), b(&Z[j], 0); start(0, &a); start(1, &b); go(0, N1); go(1, N2); go(0, 0); go(1, 0); R.transitions += 4;
      R.state(hmix(hmix(i * 100 + j, N1), N2)); if (!check(i, j, a, b, fmt("A preempted at block %llu, B at block %llu", (unsigned long long)N1, (unsigned long long)N2))) return;
    }
  }
}
#endif
