#include "vf.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
using namespace vf;
static std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void emit(FILE *f, Run &R) {
  fprintf(f, "{\"evals\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"cases\":%ld,\"stopped\":%d,\"capped\":\"%s\",\"outcomes\":{", (unsigned long long)R.evals, (unsigned long long)R.nontrivial, (unsigned long long)R.transitions, R.caseno, R.stopped ? 1 : 0, esc(R.capped).c_str());
  bool c = false; for (auto &k : R.outcomes) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(k.first).c_str(), (unsigned long long)k.second); c = true; }
  fprintf(f, "},\"notes\":{"); c = false; for (auto &k : R.notes) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(k.first).c_str(), (unsigned long long)k.second); c = true; }
  fprintf(f, "},\"samples\":["); c = false; for (auto &s : R.samples) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(s).c_str()); c = true; }
  fprintf(f, "],\"fails\":["); c = false; for (auto &s : R.fails) { fprintf(f, "%s[%ld,\"%s\"]", c ? "," : "", s.first, esc(s.second).c_str()); c = true; }
  fprintf(f, "],\"softs\":["); c = false; for (auto &k : R.softs) for (auto &s : k.second) { fprintf(f, "%s[\"%s\",%ld,\"%s\"]", c ? "," : "", esc(k.first).c_str(), s.first, esc(s.second).c_str()); c = true; }
  fprintf(f, "],\"states\":["); c = false; for (uint64_t s : R.states) { fprintf(f, "%s%llu", c ? "," : "", (unsigned long long)s); c = true; }
  fprintf(f, "]}\n");
}
int main(int argc, char **argv) {
  int jobs = 8, hang = 60; long only = -1, upto = -1; int shard = -1; bool thorough = false, verbose = false; const char *out = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--only") only = atol(argv[++i]); else if (a == "--upto") upto = atol(argv[++i]);
    else if (a == "--shard") shard = atoi(argv[++i]); else if (a == "--thorough") thorough = true; else if (a == "--out") out = argv[++i];
    else if (a == "--hang") hang = atoi(argv[++i]); else if (a == "--verbose") verbose = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const uint64_t slots = 1ull << 26; uint64_t *table = (uint64_t *)mmap(nullptr, slots * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (table == MAP_FAILED) table = nullptr;
  volatile int *gstop = &sh[jobs].stop;
  int lo = 0, hi = jobs; if (only >= 0) { lo = 0; hi = 1; } else if (shard >= 0) { lo = shard; hi = shard + 1; }
  struct W { pid_t pid; int fd; std::string buf; bool eof = false, done = false; uint64_t beat = 0; double t = 0; int status = 0; bool hung = false; };
  std::vector<W> ws(hi);
  auto nowt = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
  for (int k = lo; k < hi; k++) {
    int p[2]; if (pipe(p)) return 3;
    sh[k].cur = -1;
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      Run R; R.shard = k; R.jobs = jobs; R.only = only; R.upto = upto; R.thorough = thorough; R.verbose = verbose; R.sh = &sh[k]; R.table = table; R.tmask = slots - 1; R.gstop = only >= 0 ? nullptr : gstop;
      env::reset();
      explore(R);
      FILE *f = fdopen(p[1], "w"); emit(f, R); fclose(f); _exit(0);
    }
    close(p[1]); ws[k].pid = pid; ws[k].fd = p[0]; ws[k].t = nowt();
  }
  bool any = true;
  while (any) {
    any = false; std::vector<struct pollfd> pf; std::vector<int> idx;
    for (int k = lo; k < hi; k++) if (!ws[k].eof) { pf.push_back({ws[k].fd, POLLIN, 0}); idx.push_back(k); any = true; }
    if (!any) break;
    poll(pf.data(), pf.size(), 300);
    for (size_t i = 0; i < pf.size(); i++) if (pf[i].revents) { char b[65536]; ssize_t n = read(pf[i].fd, b, sizeof b); if (n <= 0) ws[idx[i]].eof = true; else ws[idx[i]].buf.append(b, n); ws[idx[i]].t = nowt(); }
    double t = nowt();
    for (int k = lo; k < hi; k++) if (!ws[k].eof) {
      if (sh[k].beat != ws[k].beat) { ws[k].beat = sh[k].beat; ws[k].t = t; }
      else if (t - ws[k].t > hang && !ws[k].hung) { ws[k].hung = true; kill(ws[k].pid, SIGKILL); *gstop = 1; }
    }
    for (int k = lo; k < hi; k++) if (ws[k].eof && !ws[k].done) { waitpid(ws[k].pid, &ws[k].status, 0); ws[k].done = true; if (ws[k].status != 0) *gstop = 1; }
  }
  FILE *f = out ? fopen(out, "w") : stdout; if (!f) return 3;
  fprintf(f, "[\n"); bool c = false; int bad = 0;
  for (int k = lo; k < hi; k++) {
    if (!ws[k].done) waitpid(ws[k].pid, &ws[k].status, 0);
    if (c) fprintf(f, ","); c = true;
    if (ws[k].status == 0 && ws[k].buf.size() > 2) { fputs(ws[k].buf.c_str(), f); if (ws[k].buf.find("\"fails\":[]") == std::string::npos) bad = 1; }
    else { bad = 1; std::string m = ws[k].hung ? "hang: no progress within the time limit" : WIFSIGNALED(ws[k].status) ? fmt("crash: signal %d", WTERMSIG(ws[k].status)) : fmt("crash: exit status %d", WEXITSTATUS(ws[k].status));
      fprintf(f, "{\"crash\":1,\"shard\":%d,\"fails\":[[%ld,\"%s\"]]}\n", k, (long)sh[k].cur, m.c_str()); }
  }
  fprintf(f, "]\n"); if (out) fclose(f);
  return bad;
}
