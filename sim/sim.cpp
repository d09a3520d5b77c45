#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <map>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
enum { MAXC = 1 << 16, MAXLOG = 1 << 20, MAXCNT = 256, MAXSPAN = 1 << 14, MAXFEAT = 1 << 12 };
struct Counter { char name[56]; uint64_t n; };
struct Shared {
  bool foreign;
  volatile int status;  // 0 running, 1 ok, 2 violation, 3 known
  char cls[128];
  char msg[8192];
  uint32_t nchoice; uint32_t choices[MAXC];
  uint32_t nspan; struct { uint32_t b, e, depth; } span[MAXSPAN];
  uint32_t nlog; char log[MAXLOG];
  uint64_t digest;
  uint32_t ncnt; Counter cnt[MAXCNT];
  uint32_t nflt; Counter flt[MAXCNT];
  uint32_t nfeat; uint64_t feat[MAXFEAT];
  uint64_t nsteps;
  uint64_t runsig;
  int nontriv;
};
Shared* g_sh = nullptr;
static bool g_replay = false;
static std::vector<uint32_t>* g_list = nullptr;
static uint64_t g_rng[2];

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rng_next() {
  uint64_t s1 = g_rng[0]; const uint64_t s0 = g_rng[1];
  const uint64_t r = s0 + s1;
  g_rng[0] = s0; s1 ^= s1 << 23;
  g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6) + (a >> 2));
  return splitmix(x);
}
uint64_t hstr(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
  return h;
}
// tape: re-feeds an already recorded stretch of choices (programs that are run
// several times inside one run)
static bool g_tape = false; static uint32_t g_tpos = 0, g_tend = 0;
uint32_t tape_mark() { return g_sh->nchoice; }
void tape_play(uint32_t from) { if (!g_tape) g_tend = g_sh->nchoice; g_tape = true; g_tpos = from; }
void tape_stop() { g_tape = false; }
static uint32_t tape_next(uint32_t n) { uint32_t v = g_tpos < g_tend ? g_sh->choices[g_tpos] : 0; ++g_tpos; return n ? v % n : v; }
static uint32_t raw(uint32_t n) {
  if (g_tape) return tape_next(n);
  uint32_t i = g_sh->nchoice;
  uint32_t v;
  if (g_replay) v = i < g_list->size() ? (*g_list)[i] : 0;
  else v = n ? (uint32_t)((rng_next() >> 11) % n) : 0;
  if (n && v >= n) v %= n;
  if (i < MAXC) g_sh->choices[i] = v;
  g_sh->nchoice = i + 1;
  if (i + 1 >= MAXC) { g_sh->status = 1; _exit(0); }  // run too long: stop cleanly
  return v;
}
uint32_t draw(uint32_t n) { if (n <= 1) return 0; uint32_t v = raw(n); g_sh->runsig = mix(g_sh->runsig, v); return v; }
uint32_t draw_w(std::initializer_list<uint32_t> w) {
  if (g_tape) return tape_next((uint32_t)w.size());
  uint32_t tot = 0; for (auto x : w) tot += x;
  // the recorded choice is the index itself, so that minimisation lowers it
  if (g_replay) { uint32_t v = raw((uint32_t)w.size()); 
    g_sh->runsig = mix(g_sh->runsig, v); return v; }
  uint32_t r = (uint32_t)((rng_next() >> 11) % tot), i = 0;
  for (auto x : w) { if (r < x) break; r -= x; ++i; }
  if (g_sh->nchoice < MAXC) g_sh->choices[g_sh->nchoice] = i;
  if (++g_sh->nchoice >= MAXC) { g_sh->status = 1; _exit(0); }
  g_sh->runsig = mix(g_sh->runsig, i);
  return i;
}
bool chance(uint32_t num, uint32_t den) {
  if (g_tape) return tape_next(2) == 1;
  if (g_replay) { uint32_t v = raw(2); return v == 1; }
  bool b = (rng_next() >> 11) % den < num;
  if (g_sh->nchoice < MAXC) g_sh->choices[g_sh->nchoice] = b;
  if (++g_sh->nchoice >= MAXC) { g_sh->status = 1; _exit(0); }
  g_sh->runsig = mix(g_sh->runsig, b);
  return b;
}
int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
double real(double lo, double hi, int steps) { return lo + (hi - lo) * draw(steps + 1) / steps; }
bool choices_exhausted() { return g_replay && g_sh->nchoice >= g_list->size(); }

static uint32_t g_open[64], g_nopen = 0;
void span_begin() {
  if (g_tape) return;
  if (g_nopen < 64 && g_sh->nspan < MAXSPAN) {
    uint32_t k = g_sh->nspan++;
    g_sh->span[k].b = g_sh->nchoice; g_sh->span[k].e = 0; g_sh->span[k].depth = g_nopen;
    g_open[g_nopen] = k;
  }
  ++g_nopen;
}
void span_end() {
  if (g_tape) return;
  --g_nopen;
  if (g_nopen < 64) { uint32_t k = g_open[g_nopen]; if (k < MAXSPAN) g_sh->span[k].e = g_sh->nchoice; }
}

static void digest(const char* p, size_t n) {
  uint64_t h = g_sh->digest;
  for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
  g_sh->digest = h;
}
void log_digest_only(const void* p, size_t n) { digest((const char*)p, n); }
void logf(const char* fmt, ...) {
  char b[2048];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  digest(b, n);
  if (g_sh->nlog + n < MAXLOG) { memcpy(g_sh->log + g_sh->nlog, b, n); g_sh->nlog += n; }
}
void foreign(bool on) { g_sh->foreign = on; }
bool is_foreign() { return g_sh->foreign; }
void violation(const char* cls, const char* fmt, ...) {
  alloc::disarm();
  if (g_sh->foreign) { alloc::Outside o; probe("left-to-another-property"); throw StopRun{cls}; }
  va_list ap; va_start(ap, fmt); vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap); va_end(ap);
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
  logf("VIOLATION %s: %s", cls, g_sh->msg);
  g_sh->status = 2;
  _exit(0);
}
void known(const char* id, const char* fmt, ...) {
  alloc::disarm();
  va_list ap; va_start(ap, fmt); vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap); va_end(ap);
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", id);
  g_sh->status = 3;
  _exit(0);
}
static void bump(Counter* c, uint32_t& n, const char* name, uint64_t k) {
  for (uint32_t i = 0; i < n; i++) if (!strcmp(c[i].name, name)) { c[i].n += k; return; }
  if (n < MAXCNT) { snprintf(c[n].name, sizeof c[n].name, "%s", name); c[n].n = k; n++; }
}
void probe(const char* s, uint64_t n) { bump(g_sh->cnt, g_sh->ncnt, s, n); }
void fault(const char* s, uint64_t n) { bump(g_sh->flt, g_sh->nflt, s, n); }
void feature(uint64_t h) { if (g_sh->nfeat < MAXFEAT) g_sh->feat[g_sh->nfeat++] = h; }
void nontrivial() { g_sh->nontriv = 1; }
static std::vector<double>* g_obs = nullptr;
void observe_into(std::vector<double>* v) { g_obs = v; }
void observe(const double* p, size_t n) {
  if (g_obs) g_obs->insert(g_obs->end(), p, p + n);
  log_digest_only(p, n * sizeof(double));
}
void steps(uint64_t n) { g_sh->nsteps += n; }

static std::vector<Harness>& harnesses() { static std::vector<Harness> v; return v; }
void register_harness(const char* id, RunFn fn) { harnesses().push_back({id, fn}); }

// ---------------------------------------------------------------- supervisor
static void reset_shared() {
  Shared* s = g_sh;
  s->status = 0; s->cls[0] = s->msg[0] = 0; s->nchoice = 0; s->nspan = 0; s->nlog = 0;
  s->digest = 1469598103934665603ull; s->ncnt = 0; s->nflt = 0; s->nfeat = 0; s->nsteps = 0; s->runsig = 0; s->nontriv = 0; s->foreign = false;
}
static RunFn find(const char* id) {
  for (auto& h : harnesses()) if (!strcmp(h.id, id)) return h.fn;
  fprintf(stderr, "no harness %s\n", id); exit(2);
}
// runs one simulation in a forked child; classifies its end
static void run_child(RunFn fn, int cpu_s) {
  reset_shared();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    struct rlimit rl { (rlim_t)cpu_s, (rlim_t)cpu_s + 1 }; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
    // the library prints diagnostics; they are not part of the checked behaviour
    FILE* f1 = freopen("/dev/null", "w", stdout); (void)f1;
    if (!getenv("SIM_STDERR")) { FILE* f2 = freopen("/dev/null", "w", stderr); (void)f2; }
    alloc::set_fill(2, 12345);   // fresh memory holds the same rubbish in every run
    fn();
    g_sh->status = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (g_sh->foreign && (WIFSIGNALED(st) || g_sh->status == 0)) { g_sh->status = 1; return; }
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGKILL && g_sh->status == 0) {
      // RLIMIT_CPU hard limit or out of memory: both mean no answer
      sg = SIGXCPU;
    }
    g_sh->status = 2;
    snprintf(g_sh->cls, sizeof g_sh->cls, sg == SIGXCPU ? "no-progress" : "process-terminated");
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", sg == SIGXCPU ? "the operation did not finish" :
             sg == SIGABRT ? "process terminated (SIGABRT: failed assertion, std::terminate or corrupted heap)" :
             sg == SIGSEGV ? "process terminated (SIGSEGV: invalid memory access)" :
             sg == SIGFPE ? "process terminated (SIGFPE)" : "process terminated by a signal");
    char b[300]; int n = snprintf(b, sizeof b, "VIOLATION %s: %s\n", g_sh->cls, g_sh->msg);
    digest(b, n);
    if (g_sh->nlog + n < MAXLOG) { memcpy(g_sh->log + g_sh->nlog, b, n); g_sh->nlog += n; }
  } else if (g_sh->status == 0) {
    g_sh->status = 2; snprintf(g_sh->cls, sizeof g_sh->cls, "process-exited");
    snprintf(g_sh->msg, sizeof g_sh->msg, "the process exited with code %d inside an operation", WEXITSTATUS(st));
  }
}
static void seed_rng(const char* prop, uint64_t seed) {
  uint64_t x = mix(hstr(prop), seed);
  g_rng[0] = splitmix(x); g_rng[1] = splitmix(x) | 1;
  g_replay = false;
}
static void jstr(FILE* f, const char* s, size_t n) {
  fputc('"', f);
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static void emit_run(FILE* f, uint64_t seed, bool full) {
  Shared* s = g_sh;
  fprintf(f, "{\"run\":%llu,\"status\":%d,\"cls\":", (unsigned long long)seed, s->status);
  jstr(f, s->cls, strlen(s->cls));
  fputs(",\"msg\":", f); jstr(f, s->msg, strlen(s->msg));
  fprintf(f, ",\"digest\":\"%016llx\"", (unsigned long long)s->digest);
  if (full) {
    fputs(",\"choices\":[", f);
    for (uint32_t i = 0; i < s->nchoice && i < MAXC; i++) fprintf(f, "%s%u", i ? "," : "", s->choices[i]);
    fputs("],\"spans\":[", f);
    bool first = true;
    for (uint32_t i = 0; i < s->nspan; i++) {
      uint32_t e = s->span[i].e ? s->span[i].e : s->nchoice;
      if (e > s->span[i].b) { fprintf(f, "%s[%u,%u,%u]", first ? "" : ",", s->span[i].b, e, s->span[i].depth); first = false; }
    }
    fputs("],\"log\":", f); jstr(f, s->log, s->nlog);
    fputs(",\"faults\":{", f);
    for (uint32_t i = 0; i < s->nflt; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", s->flt[i].name, (unsigned long long)s->flt[i].n);
    fputs("}", f);
  }
  fputs("}\n", f);
}

int main_entry(int argc, char** argv, const char* kind) {
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }
  const char* mode = argc > 1 ? argv[1] : "";
  if (!strcmp(mode, "list")) { for (auto& h : harnesses()) puts(h.id); return 0; }
  int cpu = 30;
  if (getenv("SIM_CPU")) cpu = atoi(getenv("SIM_CPU"));
  if (!strcmp(mode, "explore") && argc >= 7) {
    // explore PROP BASE FIRST STRIDE MAXRUNS SECONDS [digests]
    const char* prop = argv[2];
    RunFn fn = find(prop);
    uint64_t base = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), maxr = strtoull(argv[6], 0, 10);
    double secs = argc > 7 ? atof(argv[7]) : 1e9;
    bool dig = argc > 8 && !strcmp(argv[8], "digests");
    auto t0 = std::chrono::steady_clock::now();
    std::map<std::string, uint64_t> cnt, flt;
    std::unordered_set<uint64_t> feats, sigs;
    uint64_t runs = 0, nt = 0, steps = 0, viol = 0, samples = 0;
    std::map<std::string, uint64_t> knowns;
    std::set<std::string> seen;
    for (uint64_t i = first; runs < maxr; i += stride) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
      uint64_t seed = mix(base, i) & 0xffffffffffffull;
      seed_rng(prop, seed);
      run_child(fn, cpu);
      ++runs;
      for (uint32_t k = 0; k < g_sh->ncnt; k++) cnt[g_sh->cnt[k].name] += g_sh->cnt[k].n;
      for (uint32_t k = 0; k < g_sh->nflt; k++) flt[g_sh->flt[k].name] += g_sh->flt[k].n;
      for (uint32_t k = 0; k < g_sh->nfeat; k++) feats.insert(g_sh->feat[k]);
      steps += g_sh->nsteps;
      if (g_sh->nontriv) { ++nt; sigs.insert(g_sh->runsig); }
      if (dig) printf("{\"digest\":\"%llu %016llx\"}\n", (unsigned long long)seed, (unsigned long long)g_sh->digest);
      if (g_sh->status == 3) { knowns[std::string(g_sh->cls) + "\t" + g_sh->msg]++; }
      if (g_sh->status == 2) {
        ++viol;
        if (seen.size() < 6 && seen.insert(g_sh->cls).second) { emit_run(stdout, seed, true); fflush(stdout); }
        if (viol >= 12) break;
      }
      else if (g_sh->nontriv && samples < 2 && first == 0) { ++samples; printf("{\"sample\":"); jstr(stdout, g_sh->log, std::min<size_t>(g_sh->nlog, 1500)); printf(",\"seed\":%llu}\n", (unsigned long long)seed); }
    }
    printf("{\"summary\":1,\"runs\":%llu,\"nontrivial\":%llu,\"violations\":%llu,\"steps\":%llu,\"counters\":{", (unsigned long long)runs, (unsigned long long)nt, (unsigned long long)viol, (unsigned long long)steps);
    bool f = true; for (auto& c : cnt) { printf("%s\"%s\":%llu", f ? "" : ",", c.first.c_str(), (unsigned long long)c.second); f = false; }
    printf("},\"faults\":{"); f = true; for (auto& c : flt) { printf("%s\"%s\":%llu", f ? "" : ",", c.first.c_str(), (unsigned long long)c.second); f = false; }
    printf("},\"known\":["); f = true; for (auto& c : knowns) { if (!f) printf(","); f = false; size_t t = c.first.find('\t'); printf("["); jstr(stdout, c.first.c_str(), t); printf(","); jstr(stdout, c.first.c_str() + t + 1, c.first.size() - t - 1); printf(",%llu]", (unsigned long long)c.second); }
    printf("],\"features\":["); f = true; for (auto x : feats) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)x); f = false; }
    printf("],\"sigs\":["); f = true; for (auto x : sigs) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)x); f = false; }
    printf("]}\n");
    return 0;
  }
  if (!strcmp(mode, "seed") && argc >= 4) {
    RunFn fn = find(argv[2]); uint64_t seed = strtoull(argv[3], 0, 10);
    seed_rng(argv[2], seed); run_child(fn, cpu); emit_run(stdout, seed, true); return 0;
  }
  if (!strcmp(mode, "replay") && argc >= 3) {
    // reads lines of choices from stdin: one run per line
    RunFn fn = find(argv[2]);
    std::string line; int c;
    while (true) {
      line.clear();
      while ((c = getchar()) != EOF && c != '\n') line.push_back((char)c);
      if (line.empty() && c == EOF) break;
      std::vector<uint32_t> v; const char* p = line.c_str(); char* e;
      while (*p) { unsigned long x = strtoul(p, &e, 10); if (e == p) break; v.push_back((uint32_t)x); p = e; while (*p == ' ' || *p == ',') ++p; }
      g_list = &v; g_replay = true;
      run_child(fn, cpu); emit_run(stdout, 0, true); fflush(stdout);
    }
    return 0;
  }
  fprintf(stderr, "usage: %s list | explore PROP BASE FIRST STRIDE MAXRUNS SECONDS | seed PROP SEED | replay PROP < choices\n", kind);
  return 2;
}
}  // namespace sim
