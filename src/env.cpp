#include "env.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cerrno>
#include <new>
namespace env {
int fill = 0xFF;
long live_blocks = 0, live_bytes = 0, total_allocs = 0;
std::string heap_error;
bool heap_track = true;
int (*rand_hook)() = nullptr;
struct sigaction sigint_disp;
long sigaction_calls = 0;
long long clock_ns = 0;
long long (*clock_hook)() = nullptr;
long clock_calls = 0;
long printed = 0;
bool keep_output = false;
std::string output;
void (*point_hook)() = nullptr;
uint64_t points = 0;

struct Head { size_t size; uint64_t magic; Head *prev, *next; uint64_t pad[2]; };
static Head ring = {0, 0, &ring, &ring, {0, 0}};
static const uint64_t LIVE = 0x4c495645b10c5a11ull, DEAD = 0xdeadb10cdeadb10cull;
static const size_t TAIL = 32;
static void bad(const char *m) { if (heap_error.empty()) heap_error = m; }
static bool guards_ok(Head *h) {
  unsigned char *t = (unsigned char *)(h + 1) + h->size;
  for (size_t i = 0; i < TAIL; i++) if (t[i] != 0xB7) return false;
  return h->pad[1] == 0xB7B7B7B7B7B7B7B7ull;
}
void heap_check_all() { for (Head *h = ring.next; h != &ring; h = h->next) if (!guards_ok(h)) bad("heap guard overwritten (out-of-bounds write)"); }
static void *alloc(size_t n, int f) {
  total_allocs++;
#if defined(VF_ASAN)
  void *q = malloc(n ? n : 1); if (!q) abort();
  // header-less under ASAN: ASAN itself guards; we only count
  memset(q, f, n ? n : 1); live_blocks++; return q;
#else
  Head *h = (Head *)malloc(sizeof(Head) + n + TAIL);
  if (!h) { fprintf(stderr, "harness: out of memory (%zu)\n", n); abort(); }
  h->size = n; h->magic = LIVE; h->pad[0] = h->pad[1] = 0xB7B7B7B7B7B7B7B7ull;
  h->next = ring.next; h->prev = &ring; ring.next->prev = h; ring.next = h;
  memset(h + 1, f, n); memset((char *)(h + 1) + n, 0xB7, TAIL);
  live_blocks++; live_bytes += n;
  return h + 1;
#endif
}
static void dealloc(void *p) {
  if (!p) return;
#if defined(VF_ASAN)
  live_blocks--; free(p);
#else
  Head *h = (Head *)p - 1;
  bool found = h->magic == LIVE;
  if (!found) { bad(h->magic == DEAD ? "double free" : "free of a pointer the library did not allocate"); return; }
  if (!guards_ok(h)) bad("heap guard overwritten (out-of-bounds write)");
  h->prev->next = h->next; h->next->prev = h->prev; h->magic = DEAD;
  live_blocks--; live_bytes -= h->size;
  memset(p, 0xFE, h->size);
  // a small quarantine keeps use-after-free reads deterministic
  static Head *quar[64]; static int qi = 0;
  if (quar[qi]) { quar[qi]->magic = 0; free(quar[qi]); }
  quar[qi] = h; qi = (qi + 1) % 64;
#endif
}
Deliver deliver_sigint() {
  if (sigint_disp.sa_handler == SIG_DFL) return D_DEFAULT_DEATH;
  if (sigint_disp.sa_handler == SIG_IGN) return D_IGNORED;
  if (sigint_disp.sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); sigint_disp.sa_sigaction(SIGINT, &si, nullptr); }
  else sigint_disp.sa_handler(SIGINT);
  return D_CALLED;
}
void reset() {
  fill = 0xFF; heap_error.clear(); rand_hook = nullptr;
  memset(&sigint_disp, 0, sizeof sigint_disp); sigint_disp.sa_handler = SIG_DFL; sigaction_calls = 0;
  clock_ns = 1000000000ll; clock_hook = nullptr; clock_calls = 0; printed = 0; keep_output = false; output.clear();
  point_hook = nullptr; points = 0; out_hook = nullptr;
}
void (*out_hook)(const char *, size_t) = nullptr;
static void out(const char *s, size_t n) { printed += n; if (out_hook) out_hook(s, n); if (keep_output) output.append(s, n); }
}
using namespace env;
extern "C" {
void *vf_malloc(size_t n) { return alloc(n, fill); }
void *vf_calloc(size_t a, size_t b) { return alloc(a * b, 0); }
void *vf_realloc(void *p, size_t n) {
  if (!p) return alloc(n, fill);
#if defined(VF_ASAN)
  return realloc(p, n);
#else
  void *q = alloc(n, fill); size_t old = ((Head *)p - 1)->size; memcpy(q, p, old < n ? old : n); dealloc(p); return q;
#endif
}
void vf_free(void *p) { dealloc(p); }
int vf_rand(void) { return rand_hook ? rand_hook() : 0; }
void vf_srand(unsigned) {}
long vf_random(void) { return vf_rand(); }
// the calls that change the disposition are moments of their own: right before and right after they take effect
static void moment() { points++; if (point_hook) point_hook(); }
struct Moments { Moments() { moment(); } ~Moments() { moment(); } };
int vf_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  Moments mo; sigaction_calls++;
  if (sig != SIGINT) { if (o) memset(o, 0, sizeof *o); return 0; }
  struct sigaction n; if (a) n = *a;
  if (o) *o = sigint_disp;
  if (a) sigint_disp = n;
  return 0;
}
void (*vf_signal(int sig, void (*h)(int)))(int) {
  Moments mo; sigaction_calls++;
  if (sig != SIGINT) return SIG_DFL;
  void (*o)(int) = sigint_disp.sa_handler; memset(&sigint_disp, 0, sizeof sigint_disp); sigint_disp.sa_handler = h; return o;
}
static long long now() { clock_calls++; if (clock_hook) return clock_hook(); return clock_ns += 1000; }
int vf_clock_gettime(clockid_t, struct timespec *t) { long long x = now(); t->tv_sec = x / 1000000000ll; t->tv_nsec = x % 1000000000ll; return 0; }
int vf_gettimeofday(struct timeval *t, void *) { long long x = now(); t->tv_sec = x / 1000000000ll; t->tv_usec = (x % 1000000000ll) / 1000; return 0; }
clock_t vf_clock(void) { return now() / 1000; }
int vf_vprintf(const char *f, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); out(b, n < (int)sizeof b ? n : sizeof b - 1); return n; }
int vf_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = vf_vprintf(f, ap); va_end(ap); return n; }
int vf_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int n = vf_vprintf(f, ap); va_end(ap); return n; }
int vf_puts(const char *s) { out(s, strlen(s)); out("\n", 1); return 1; }
int vf_putchar(int c) { char b = c; out(&b, 1); return c; }
int vf_fputc(int c, FILE *) { return vf_putchar(c); }
int vf_fputs(const char *s, FILE *) { out(s, strlen(s)); return 1; }
size_t vf_fwrite(const void *p, size_t a, size_t b, FILE *) { out((const char *)p, a * b); return b; }
int vf_fflush(FILE *) { return 0; }
// -fsanitize-coverage=trace-pc: one call per executed basic block of the library (fine build only)
void __sanitizer_cov_trace_pc(void) { points++; if (point_hook) point_hook(); }
}
