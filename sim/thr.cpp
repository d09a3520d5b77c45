// Thread simulation (C07, C08): real threads of which exactly one runs at a time.
// The code under test is compiled with a callback at every memory access; the
// scheduler decides there, from the seed, whether another thread goes on.
#include "thr.hpp"
#include "sim.hpp"
#include <cerrno>
#include <cmath>
#include <csignal>
#include <exception>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using namespace thr;
using sim::draw; using sim::draw_w; using sim::chance;

// ------------------------------------------------------------------ memory
// one arena per thread at a fixed address; blocks freed by a simulated thread
// are poisoned and not used again
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;
namespace {
const uintptr_t ARENA = 0x200000000000ull, STEP = 0x1000000000ull; const size_t ALEN = 0x40000000ull;
char* g_top[MAXT + 1]; char* g_end[MAXT + 1]; struct Hdr { uint64_t size, cls; }; void* g_free[64]; bool g_threads = false;
void arena_init(int a) { void* p = mmap((void*)(ARENA + STEP * a), ALEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) _exit(99); g_top[a] = (char*)p; g_end[a] = g_top[a] + ALEN; }
void* get(size_t n, size_t al) {
  int a = me + 1; if (!g_top[a]) arena_init(a);
  if (al < 16) al = 16; size_t want = (n + 15) & ~(size_t)15; if (!want) want = 16; int c = 63 - __builtin_clzll(want); if (want & (want - 1)) c++; if (c < 4) c = 4;
  if (a == 0 && al == 16 && g_free[c]) { void* p = g_free[c]; g_free[c] = *(void**)p; ((Hdr*)p)[-1].size = n; return p; }
  if (a == 0) want = (size_t)1 << c;
  uintptr_t p = ((uintptr_t)g_top[a] + sizeof(Hdr) + al - 1) & ~(al - 1);
  if ((char*)p + want > g_end[a]) return nullptr;
  g_top[a] = (char*)p + want; ((Hdr*)p)[-1] = {n, al == 16 ? (uint64_t)c : 0}; return (void*)p;
}
void put(void* p) {
  if (!p) return; Hdr& h = ((Hdr*)p)[-1]; bool main_block = (uintptr_t)p < ARENA + STEP;
  if (me >= 0 || g_threads || !main_block) { if (me >= 0) memset(p, 0xDB, h.size); return; }
  if (h.cls >= 4) { *(void**)p = g_free[h.cls]; g_free[h.cls] = p; }
}
}  // namespace
extern "C" {
void* malloc(size_t n) { void* p = get(n, 16); if (!p) errno = ENOMEM; return p; }
void free(void* p) { put(p); }
void* calloc(size_t a, size_t b) { size_t n = a * b; void* p = get(n, 16); if (p) memset(p, 0, n); return p; }
void* realloc(void* q, size_t n) { void* p = get(n, 16); if (p && q) { size_t o = ((Hdr*)q)[-1].size; memcpy(p, q, o < n ? o : n); put(q); } return p; }
void* memalign(size_t al, size_t n) { return get(n, al); }
void* aligned_alloc(size_t al, size_t n) { return get(n, al); }
int posix_memalign(void** r, size_t al, size_t n) { *r = get(n, al); return *r ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p)[-1].size : 0; }
}
namespace sim { namespace alloc { void disarm() {} Outside::Outside() : saved(0) {} Outside::~Outside() {} void set_fill(int, uint64_t) {} } }

// ------------------------------------------------------------------ shared with sub-processes
namespace {
const int MAXOUT = 6000, MAXSEG = 24, MAXLOGC = 6000, MAXEV = 200; const uint32_t TBL = 1u << 19;
struct Seg { int t; uint64_t n; };
struct Cell { uint64_t g; uint32_t id; uint8_t r, w; };
struct Conf { uint32_t id; uint64_t at; };
struct Res {
  uint32_t nout[MAXT]; double out[MAXT][MAXOUT]; uint64_t points[MAXT]; bool finished[MAXT]; uint64_t edges, switches, forced; int status;   // status 1: all finished, 2: deadlock, 3: no progress
  int nev; struct { int from_t, from_op, to_t, to_op; uint64_t at; } ev[MAXEV];
};
struct World {
  Res res[MAXT + 2];                        // one per solo run, the sequential run, the current concurrent run
  Cell tbl[TBL]; uint32_t ncells, nconf; uint32_t nlog[MAXT]; Conf log[MAXT][MAXLOGC];
};
World* W; Res* R; const Prog* P;
int g_record = 0;                           // 0 no, 1 which cells are shared, 2 where they are accessed
Seg g_seg[MAXSEG]; int g_nseg, g_cur; uint64_t g_limit; int g_run[MAXT];
bool g_exists[MAXT], g_blocked[MAXT]; int g_op[MAXT]; uint32_t g_turn = 0xffffffffu; uint64_t g_since = 0;
uintptr_t g_slo[MAXT], g_shi[MAXT];
const uint64_t INF = ~0ull;
void fwait(uint32_t* a, uint32_t v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void fwake(uint32_t* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 64, nullptr, nullptr, 0); }
void give(int t) {                          // t==-1: the main thread
  __atomic_store_n(&g_turn, (uint32_t)t, __ATOMIC_SEQ_CST); fwake(&g_turn);
}
void await(int t) { for (;;) { uint32_t v = __atomic_load_n(&g_turn, __ATOMIC_SEQ_CST); if (v == (uint32_t)t) return; fwait(&g_turn, v); } }
bool can(int t) { return g_exists[t] && !R->finished[t] && !g_blocked[t]; }
// who goes on, and how far
int choose(int now) {
  while (g_cur < g_nseg) { Seg& s = g_seg[g_cur++]; if (s.t < MAXT && can(s.t)) { g_limit = s.n == INF ? INF : R->points[s.t] + s.n; return s.t; } }
  g_limit = INF; if (now >= 0 && can(now)) return now;
  for (int k = 1; k <= MAXT; k++) { int t = ((now < 0 ? -1 : now) + k + MAXT) % MAXT; if (can(t)) return t; }
  return -1;
}
void move_to(int t) {
  int was = me; if (t == was) return;
  if (was >= 0) { R->switches++; if (R->nev < MAXEV) { auto& e = R->ev[R->nev++]; e.from_t = was; e.from_op = g_op[was]; e.to_t = t; e.to_op = t >= 0 ? g_op[t] : -1; e.at = R->points[was]; } }
  g_since = 0; give(t); await(was);
}
void stop(int status) { R->status = status; _exit(0); }
void point() {
  uint64_t k = ++R->points[me];
  if (k > g_limit) { int t = choose(me); if (t >= 0) move_to(t); }
}
void forced() {                             // something spins or waits for another thread
  g_since = 0; R->forced++; if (R->forced > 3000) stop(3);
  for (int k = 1; k < MAXT; k++) { int t = (me + k) % MAXT; if (can(t)) { g_limit = INF; move_to(t); return; } }
}
void block() {                              // cannot go on before another thread has
  g_blocked[me] = true; int t = choose(me); if (t < 0) stop(2); move_to(t); g_blocked[me] = false;
}
void unblock_all() { for (int t = 0; t < MAXT; t++) g_blocked[t] = false; }
void cell(uintptr_t a, bool store) {
  uint64_t g = a >> 3; uint32_t h = ((uint32_t)(((g >> 6) * 0x9E3779B97F4A7C15ull) >> 45) << 6 | (uint32_t)(g & 63)) & (TBL - 1);
  for (uint32_t k = 0; k < 64; k++, h = (h + 64) & (TBL - 1)) {
    Cell& c = W->tbl[h];
    if (c.g == g || (!c.g && g_record == 1 && W->ncells < TBL * 3 / 4)) {
      if (!c.g) { c.g = g; W->ncells++; }
      if (g_record == 1) { if (store) c.w |= 1u << me; else c.r |= 1u << me; return; }
      uint8_t all = c.r | c.w; if (!c.w || !(all & (all - 1))) return;
      if (!c.id) c.id = ++W->nconf;
      if (W->nlog[me] < MAXLOGC) W->log[me][W->nlog[me]++] = {c.id, R->points[me]};
      return; }
    if (!c.g) return;
  }
}
inline void access(uintptr_t a, size_t n, bool store) {
  if (me < 0 || (a >= g_slo[me] && a < g_shi[me])) return;
  if (g_record) { cell(a, store); if ((a >> 3) != ((a + n - 1) >> 3)) cell(a + n - 1, store); }
  point();
}
}  // namespace
extern "C" {
#define H(n) void __sanitizer_cov_load##n(void* a) { access((uintptr_t)a, n, false); } void __sanitizer_cov_store##n(void* a) { access((uintptr_t)a, n, true); }
H(1) H(2) H(4) H(8) H(16)
void __sanitizer_cov_trace_pc() { if (me < 0) return; R->edges++; if (++g_since > 2000000) forced(); }
// bulk copies are made in pieces
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
static bool plain(size_t n) { return me < 0 || !n; }
static size_t piece(size_t n) { size_t p = n / 64; p &= ~(size_t)7; return p < 8 ? 8 : p; }
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (plain(n)) return __real_memcpy(d, s, n);
  size_t p = piece(n); for (size_t i = 0; i < n; i += p) { size_t k = n - i < p ? n - i : p; access((uintptr_t)s + i, k, false); access((uintptr_t)d + i, k, true); __real_memcpy((char*)d + i, (const char*)s + i, k); } return d; }
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (plain(n)) return __real_memmove(d, s, n);
  if ((uintptr_t)d + n <= (uintptr_t)s || (uintptr_t)s + n <= (uintptr_t)d) return __wrap_memcpy(d, s, n);
  access((uintptr_t)s, 8, false); access((uintptr_t)d, 8, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) {
  if (plain(n)) return __real_memset(d, c, n);
  size_t p = piece(n); for (size_t i = 0; i < n; i += p) { size_t k = n - i < p ? n - i : p; access((uintptr_t)d + i, k, true); __real_memset((char*)d + i, c, k); } return d; }
// one-time initialisation
int __cxa_guard_acquire(uint64_t* g) { unsigned char* b = (unsigned char*)g; for (;;) { if (me >= 0) point(); if (b[0]) return 0; if (!b[1]) { b[1] = 1; return 1; } if (me < 0) abort(); block(); } }
void __cxa_guard_release(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[0] = 1; b[1] = 0; unblock_all(); if (me >= 0) point(); }
void __cxa_guard_abort(uint64_t* g) { ((unsigned char*)g)[1] = 0; unblock_all(); }
int pthread_once(pthread_once_t* c, void (*f)(void)) {
  int* s = (int*)c; for (;;) { if (me >= 0) point(); if (*s == 2) return 0; if (*s == 0) { *s = 1; struct U { int* s; bool ok = false; ~U() { *s = ok ? 2 : 0; unblock_all(); } } u{s}; f(); u.ok = true; return 0; } if (me < 0) abort(); block(); } }
// locks
typedef int (*LockFn)(void*);
static LockFn real(const char* n) { return (LockFn)dlsym(RTLD_NEXT, n); }
static LockFn r_ml, r_mt, r_mu, r_rr, r_rtr, r_rw, r_rtw, r_ru;
static void locks() { if (r_ml) return; r_mt = real("pthread_mutex_trylock"); r_mu = real("pthread_mutex_unlock"); r_rr = real("pthread_rwlock_rdlock"); r_rtr = real("pthread_rwlock_tryrdlock"); r_rw = real("pthread_rwlock_wrlock"); r_rtw = real("pthread_rwlock_trywrlock"); r_ru = real("pthread_rwlock_unlock"); r_ml = real("pthread_mutex_lock"); }
static int locked(void* m, LockFn whole, LockFn attempt) { if (me < 0) return whole(m); point(); for (;;) { int r = attempt(m); if (r != EBUSY && r != EAGAIN) { return r; } block(); } }
int pthread_mutex_lock(pthread_mutex_t* m) { locks(); return locked(m, r_ml, r_mt); }
int pthread_mutex_trylock(pthread_mutex_t* m) { locks(); if (me >= 0) point(); return r_mt(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { locks(); int r = r_mu(m); if (me >= 0) { unblock_all(); point(); } return r; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { locks(); return locked(m, r_rr, r_rtr); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { locks(); return locked(m, r_rw, r_rtw); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { locks(); if (me >= 0) point(); return r_rtr(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { locks(); if (me >= 0) point(); return r_rtw(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { locks(); int r = r_ru(m); if (me >= 0) { unblock_all(); point(); } return r; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { pthread_mutex_unlock(m); if (me >= 0) forced(); return pthread_mutex_lock(m); }
int sched_yield() { if (me >= 0) forced(); return 0; }
}
namespace thr {
void out(double x) { if (R->nout[me] < MAXOUT) R->out[me][R->nout[me]++] = x; }
void out_failed() { out(-7.77e77); }
void at_op(int k) { g_op[me] = k; }
}
namespace {
void* thread_main(void* v) {
  int t = (int)(intptr_t)v; await(t); me = t; body(*P, t); R->finished[t] = true; int n = choose(t);
  me = -1; if (n < 0) { for (int k = 0; k < MAXT; k++) if (g_exists[k] && !R->finished[k]) stop(2); R->status = 1; give(-1); } else { g_since = 0; give(n); }
  for (;;) pause();                        // the process ends with its main thread
  return nullptr;
}
// runs the program (or one of its threads) in a process of its own
int execute(const Prog& p, int only, int record, Res* r) {
  fflush(nullptr); pid_t c = fork(); if (c < 0) return -1;
  if (c == 0) {
    P = &p; R = r; g_record = record; g_threads = true;
    for (int t = 0; t < p.T; t++) {
      if (only >= 0 && t != only) continue; g_exists[t] = true; arena_init(t + 1); size_t len = 1 << 20; char* s = (char*)mmap((void*)(ARENA + STEP * 16 + STEP * t), len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (s == MAP_FAILED) _exit(99);
      g_slo[t] = (uintptr_t)s; g_shi[t] = g_slo[t] + len; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, s, len); pthread_t h; g_op[t] = -1; if (pthread_create(&h, &a, thread_main, (void*)(intptr_t)t)) _exit(99); }
    int t = choose(-1); give(t < 0 ? -1 : t); await(-1); _exit(0);
  }
  int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
  if (WEXITSTATUS(st)) return 2000 + WEXITSTATUS(st);
  return r->status;
}
bool close(double a, double b) { if (a != a && b != b) return true; if (a == b) return true; return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
void compare(const Prog& p, const Res& got, const char* when) {
  for (int t = 0; t < p.T; t++) {
    const Res& e = W->res[t];
    uint32_t n = e.nout[t] < got.nout[t] ? e.nout[t] : got.nout[t];
    for (uint32_t i = 0; i < n; i++) if (!close(e.out[t][i], got.out[t][i])) { bool f = got.out[t][i] == -7.77e77; sim::violation(f ? "operation-failed" : "wrong-result", "%s: thread %d %s %u: alone it obtains %.12g, here %s%.12g", when, t, "value", i, e.out[t][i], f ? "the operation fails: " : "", got.out[t][i]); }
    if (e.nout[t] != got.nout[t]) sim::violation("wrong-result", "%s: thread %d obtains %u values, alone %u", when, t, got.nout[t], e.nout[t]);
  }
}
void bad(int st, const char* when) {
  if (st == 1) return;
  if (st == 2) sim::violation("deadlock", "%s: every thread waits for another one", when);
  if (st == 3 || st == 1000 + SIGXCPU) sim::violation("no-progress", "%s: the threads do not come to an end", when);
  if (st > 1000 && st < 2000) sim::violation("process-terminated", "%s: the process is terminated by signal %d, no thread running alone is", when, st - 1000);
  if (st == 0) sim::violation("process-exited", "%s: the process ended", when);
  fprintf(stderr, "harness failure %d\n", st); _exit(3);
}
bool prepare(const Prog& p) { try { setup(p); return true; } catch (const std::exception&) { return false; } }
void run(int flavour) {
  W = (World*)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (W == MAP_FAILED) _exit(3);
  Prog p; memset(&p, 0, sizeof p); p.flavour = flavour; p.T = 2 + (int)draw_w({4, 1}); p.var = (int)draw(8); int K = op_kinds(flavour); p.cold = flavour == 7 && chance(1, 5);
  int focus[2] = {(int)draw((uint32_t)K), (int)draw((uint32_t)K)}, foci = (int)draw_w({1, 2, 1}), fa = (int)draw(8), fc = (int)draw(4); bool same = chance(2, 3);
  for (int t = 0; t < p.T; t++) {
    p.n[t] = 1 + (int)draw(3);
    for (int i = 0; i < p.n[t]; i++) { sim::Span sp; Op& o = p.op[t][i]; o.k = foci && chance(5, 6) ? focus[draw((uint32_t)foci)] : (int)draw((uint32_t)K); o.a = (int)draw(8); o.b = (int)draw(8); o.c = (int)draw(4); if (same && chance(2, 3)) { o.a = fa; if (chance(1, 2)) o.c = fc; } if (p.cold) o.k = cold_kind(o.k); o.x = sim::real(0, 1, 16); sim::logf("thread %d: %s (%d,%d,%d,%g)", t, op_name(flavour, o.k), o.a, o.b, o.c, o.x); sim::probe(op_name(flavour, o.k)); }
  }
  locks(); sim::foreign(true);             // what goes wrong before there are threads is another check's
  if (!prepare(p)) { sim::probe("set-up-fails"); return; }
  sim::foreign(false);
  for (int t = 0; t < p.T; t++) { int st = execute(p, t, 0, &W->res[t]); if (st != 1) { if (st >= 2000 || st < 0) bad(st, "alone"); sim::probe("fails-alone"); sim::logf("thread %d alone: status %d", t, st); return; } sim::steps(W->res[t].points[t]); }
  Res* q = &W->res[MAXT]; g_nseg = 0;
  int st = execute(p, -1, 1, q); bad(st, "one thread after the other"); compare(p, *q, "one thread after the other");
  memset(q, 0, sizeof *q); st = execute(p, -1, 2, q); bad(st, "one thread after the other");
  sim::logf("%u places used, %u of them by several threads and written", W->ncells, W->nconf);
  if (W->nconf) sim::probe("shared-and-written", W->nconf);
  Res* c = &W->res[MAXT + 1]; int schedules = W->nconf ? 8 + (int)draw(16) : 1 + (int)draw(3);
  for (int s = 0; s < schedules; s++) {
    sim::Span sp; uint64_t at[MAXT] = {0, 0, 0, 0}; int prev = -1; uint32_t g = W->nconf && chance(4, 5) ? 1 + draw(W->nconf) : 0;
    g_nseg = 1 + (int)draw(7); char txt[400]; int tn = 0; txt[0] = 0; bool stalled = false;
    for (int i = 0; i < g_nseg; i++) {
      sim::Span sp2; int t = (int)draw((uint32_t)p.T); if (t == prev) t = (t + 1) % p.T; prev = t; uint32_t kind = draw_w({3, g ? 5u : 0u, g ? 3u : 0u, 1}); uint64_t target = 0; bool any = false;
      uint64_t gap = ((uint64_t)1 << draw(14)) + draw(8); uint32_t pick = draw(64), off = draw(2);
      if (kind == 1) { for (uint32_t j = 0; j < W->nlog[t]; j++) if (W->log[t][j].id == g && W->log[t][j].at >= at[t]) { target = W->log[t][j].at + off; any = true; break; } }
      if (kind == 2) { uint32_t n = 0; for (uint32_t j = 0; j < W->nlog[t]; j++) if (W->log[t][j].id == g && W->log[t][j].at >= at[t]) n++; if (n) { uint32_t w = pick % n; for (uint32_t j = 0; j < W->nlog[t]; j++) if (W->log[t][j].id == g && W->log[t][j].at >= at[t] && !w--) { target = W->log[t][j].at + off; any = true; break; } } }
      g_seg[i].t = t;
      if (kind == 3) { g_seg[i].n = INF; at[t] = W->res[t].points[t]; if (i) stalled = true; }
      else { if (!any) target = at[t] + gap; if (target < at[t]) target = at[t]; g_seg[i].n = target - at[t]; at[t] = target; }
      if (tn < 360) tn += snprintf(txt + tn, sizeof txt - tn, " %d:%s%llu", t, g_seg[i].n == INF ? "end/" : "", g_seg[i].n == INF ? 0ull : (unsigned long long)g_seg[i].n);
      sim::feature(sim::mix(sim::mix(kind, g ? 1 : 0), (uint64_t)t));
    }
    memset(c, 0, sizeof *c); st = execute(p, -1, 0, c); sim::logf("schedule%s: %llu switches", txt, (unsigned long long)c->switches);
    sim::fault("preemption", c->switches); if (stalled) sim::fault("thread-stalled"); if (c->forced) sim::fault("spinning-thread-preempted", c->forced);
    if (c->switches) sim::nontrivial();
    for (int i = 0; i < c->nev; i++) sim::feature(sim::mix(sim::mix((uint64_t)c->ev[i].from_op + 1, (uint64_t)c->ev[i].to_op + 1), sim::mix(c->ev[i].at / 64, 5)));
    bad(st, "interleaved"); compare(p, *c, "interleaved");
  }
}
void c07() { run(7); }
void c08() { run(8); }
sim::Reg r07("C07", c07), r08("C08", c08);
}  // namespace
int main(int c, char** v) { return sim::main_entry(c, v, "thr"); }
