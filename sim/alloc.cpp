// The allocator seam: operator new/delete are replaced and malloc/free of the
// linked objects are wrapped (ld --wrap); libc and libstdc++ internals keep the
// real allocator, so raising bad_alloc itself never fails.
#include "sim.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
}
namespace sim { namespace alloc {
static int g_scope = 0, g_exempt = 0;
static bool g_armed = false, g_sticky = false, g_fired = false;
static uint64_t g_k = 0, g_count = 0;
static int64_t g_live = 0, g_live_bytes = 0;
static int g_fill = -1; static uint64_t g_fseed = 0; static bool g_pad = false; static uint64_t g_pseed = 0;
// Two arenas at fixed addresses, one for the harness and one for the system under
// test: where a block lies is a function of the run alone.  A block is a header,
// the payload and guard bytes; writing past the end or releasing twice ends the process.
struct Hdr { uint32_t size, room; uint32_t state; uint32_t off; };   // off: distance from the true header (aligned blocks)
static const uint32_t USED = 0x5ed0c0deu, FREE = 0xf2eed0deu, FWD = 0xa11d0a11u, SCOPED = 1;
struct Arena { char *lo, *hi, *up, *down; Hdr* head[4098]; Hdr* tail[4098]; };
static Arena g_ar[2];
static const size_t SPAN = (size_t)1 << 36;
static int g_recycle = 0; static bool g_downward = false;
static Hdr*& link_of(Hdr* h) { return *(Hdr**)(h + 1); }
static void lost(const char* why) { fprintf(stderr, "heap: %s\n", why); abort(); }
static Arena& arena(int k) {
  Arena& a = g_ar[k];
  if (!a.lo) {
    void* p = mmap((void*)(0x200000000000ull + (size_t)k * 2 * SPAN), SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    a.lo = a.up = (char*)p; a.hi = a.down = a.lo + SPAN; }
  return a;
}
static Arena* arena_of(const void* p) { for (auto& a : g_ar) if (a.lo && (const char*)p >= a.lo && (const char*)p < a.hi) return &a; return nullptr; }
static size_t room_of(size_t n) { n += 8; if (n <= 65536) return (n + 15) & ~(size_t)15; size_t r = 131072; while (r < n) r <<= 1; return r; }
static unsigned class_of(size_t room) { return room <= 65536 ? (unsigned)(room / 16) : 4097; }
static void* carve(size_t n, size_t pad, bool scoped) {
  if (n > ((size_t)1 << 31)) return nullptr;
  Arena& a = arena(scoped); size_t room = room_of(n + pad); unsigned c = class_of(room); Hdr* h = nullptr;
  if (g_recycle != 2 || !scoped) {
    Hdr* prev = nullptr; for (Hdr* x = a.head[c]; x; prev = x, x = link_of(x)) if (x->room >= room && (c != 4097 || x->room <= 2 * room)) { if (prev) link_of(prev) = link_of(x); else a.head[c] = link_of(x); if (a.tail[c] == x) a.tail[c] = prev; h = x; break; } }
  if (!h) {
    size_t whole = sizeof(Hdr) + room; if ((size_t)(a.down - a.up) < whole) return nullptr;
    if (g_downward && scoped) { a.down -= whole; h = (Hdr*)a.down; } else { h = (Hdr*)a.up; a.up += whole; }
    h->room = (uint32_t)room; h->off = 0; }
  h->size = (uint32_t)n; h->state = USED + (scoped ? SCOPED : 0);
  char* p = (char*)(h + 1); memset(p + n, 0xa5, h->room - n < 24 ? h->room - n : 24);
  return p;
}
static Hdr* header(void* p) { Hdr* h = (Hdr*)p - 1; if (h->state == FWD) h = (Hdr*)((char*)p - h->off) - 1; return h; }
static size_t size_of(void* p) { return header(p)->size - (((Hdr*)p - 1)->state == FWD ? ((Hdr*)p - 1)->off : 0); }
static void release(Arena& a, void* p) {
  Hdr* h = header(p); bool scoped = h->state == USED + SCOPED;
  if (h->state == FREE) lost("released twice");
  if (h->state != USED && !scoped) lost("released what was never allocated");
  unsigned char* e = (unsigned char*)(h + 1) + h->size; size_t g = h->room - h->size; if (g > 24) g = 24;
  for (size_t i = 0; i < g; i++) if (e[i] != 0xa5) lost("written past the end of a block");
  if (scoped) { --g_live; g_live_bytes -= h->size; memset(h + 1, 0xdb, h->size < 4096 ? h->size : 4096); }   // stale readers see rubbish
  h->state = FREE; unsigned c = class_of(h->room); link_of(h) = nullptr;
  if (!a.head[c]) a.head[c] = a.tail[c] = h;
  else if (g_recycle == 1) { link_of(a.tail[c]) = h; a.tail[c] = h; }
  else { link_of(h) = a.head[c]; a.head[c] = h; }
}
static bool should_fail() {
  if (!g_scope) return false;
  ++g_count;
  if (!g_armed || g_exempt) return false;
  if (g_fired) return g_sticky;
  if (--g_k == 0) { g_fired = true; return true; }
  return false;
}
static uint64_t next(uint64_t& s) { s = s * 6364136223846793005ull + 1442695040888963407ull; return s ^ (s >> 29); }
static void fill(void* p, size_t n) {
  if (g_fill < 0 || !g_scope) return;
  switch (g_fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;                       // every double a NaN
    case 2: { uint64_t* q = (uint64_t*)p; for (size_t i = 0; i < n / 8; i++) q[i] = (next(g_fseed) & 0x000fffffffffffffull) | 0x40f0000000000000ull; break; }
    default: { double* q = (double*)p; for (size_t i = 0; i < n / 8; i++) q[i] = 0.5 + (double)(next(g_fseed) >> 54); break; }
  }
}
static void* get(size_t n, bool zero) {
  if (should_fail()) return nullptr;
  bool scoped = g_scope != 0; size_t pad = g_pad && scoped ? 16 * (next(g_pseed) % 5) : 0;
  void* p = carve(n, pad, scoped); if (!p) return p;
  if (zero) memset(p, 0, n); else { fill(p, n & ~(size_t)7); }
  if (scoped) { ++g_live; g_live_bytes += (int64_t)n; }
  return p;
}
static void put(void* p) {
  if (!p) return;
  if (Arena* a = arena_of(p)) release(*a, p); else __real_free(p);
}
Scope::Scope() { ++g_scope; }
Scope::~Scope() { --g_scope; }
Outside::Outside() : saved(g_scope) { g_scope = 0; }
Outside::~Outside() { g_scope = saved; }
bool g_dry = false;
void arm(uint64_t k, bool sticky) { g_armed = k > 0 && !g_dry; g_k = k; g_sticky = sticky; g_fired = false; }
void disarm() { g_armed = false; }
bool fired() { return g_fired; }
uint64_t count() { return g_count; }
int64_t live() { return g_live; }
int64_t live_bytes() { return g_live_bytes; }
void set_fill(int m, uint64_t s) { g_fill = m; g_fseed = s * 2 + 1; }
void set_placement(int recycle, bool downward) { g_recycle = recycle; g_downward = downward; }
void set_padding(bool on, uint64_t s) { g_pad = on; g_pseed = s * 2 + 1; }
}}  // namespace sim::alloc
using namespace sim::alloc;
extern "C" {
void sim_alloc_exempt(int d) { g_exempt += d; }
void* __wrap_malloc(size_t n) { void* p = get(n, false); return p; }
void* __wrap_calloc(size_t a, size_t b) { return get(a * b, true); }
void __wrap_free(void* p) { put(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return get(n, false);
  void* q = get(n, false);
  if (!q) return nullptr;
  size_t u = arena_of(p) ? size_of(p) : malloc_usable_size(p); memcpy(q, p, u < n ? u : n); put(p); return q;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) {
  char* p = (char*)get(al > 16 ? n + al : n, false); if (!p) return 12;
  if (al > 16) { char* q = (char*)(((uintptr_t)p + al - 1) & ~(uintptr_t)(al - 1)); if (q != p) { Hdr* h = (Hdr*)q - 1; h->state = FWD; h->off = (uint32_t)(q - p); } p = q; }
  *r = p; return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { void* r = nullptr; return __wrap_posix_memalign(&r, al < 8 ? 8 : al, n) ? nullptr : r; }
}
void* operator new(size_t n) { void* p = get(n, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, false); }
void* operator new(size_t n, std::align_val_t a) { void* r = nullptr; if (__wrap_posix_memalign(&r, (size_t)a, n)) throw std::bad_alloc(); return r; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
