// Deterministic simulation core: one choice stream decides everything a run does.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// A run is a pure function of its choice stream.  In search mode the stream is
// produced by a PRNG seeded with the run seed; in replay mode it is a list of
// integers (missing ones read as 0, the simplest choice).
struct Shared;                       // memory shared with the supervisor
extern Shared* g_sh;

uint32_t draw(uint32_t n);           // uniform in [0,n); 0 is the simplest
uint32_t draw_w(std::initializer_list<uint32_t> weights);  // weighted index
bool chance(uint32_t num, uint32_t den);                   // 0 -> false
int range(int lo, int hi);                                 // inclusive
double real(double lo, double hi, int steps = 64);         // grid value
void span_begin();                   // removable unit for the minimiser
void span_end();
uint32_t tape_mark();                // position in the choice stream
void tape_play(uint32_t from);       // re-feed the choices since a mark
void tape_stop();
bool choices_exhausted();            // replay list ran out

struct Span { Span() { span_begin(); } ~Span() { span_end(); } };

// ---------------------------------------------------------------- reporting
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log_digest_only(const void* p, size_t n);
[[noreturn]] void violation(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void known(const char* id, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// values the system under test returned; recorded when a sink is set (C12)
void observe(const double* p, size_t n);
void observe_into(std::vector<double>* sink);
// While foreign, whatever goes wrong belongs to another property's check: a
// violation unwinds to the harness as StopRun, a crash ends the run quietly.
struct StopRun { const char* cls; };
void foreign(bool on);
bool is_foreign();
void probe(const char* name, uint64_t n = 1);   // reach counter
void fault(const char* name, uint64_t n = 1);   // injected-fault counter
void feature(uint64_t h);            // state/interleaving reached
void nontrivial();                   // this run exercised the property
void steps(uint64_t n);              // simulated steps (logical time)
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hstr(const char* s);

// ---------------------------------------------------------------- properties
typedef void (*RunFn)();
struct Harness { const char* id; RunFn fn; };
void register_harness(const char* id, RunFn fn);
struct Reg { Reg(const char* id, RunFn f) { register_harness(id, f); } };

// ---------------------------------------------------------------- allocator seam
namespace alloc {
struct Scope {                       // code inside is the system under test
  Scope(); ~Scope();
};
struct Outside {                     // harness code called back from inside
  int saved; Outside(); ~Outside();
};
// arm: fail the k-th allocation (1-based) made inside a Scope; sticky keeps
// failing until disarm.
void arm(uint64_t k, bool sticky);
extern bool g_dry;                   // arm does nothing
void disarm();
bool fired();
uint64_t count();                    // allocations made inside scopes so far
int64_t live();                      // blocks allocated in scopes and not freed
int64_t live_bytes();
void set_fill(int mode, uint64_t seed);   // -1 none, 0 zero, 1 NaN, 2 noise, 3 plausible
// released blocks: 0 the last one is used first, 1 the oldest first, 2 never again;
// fresh blocks at descending addresses
void set_placement(int recycle, bool downward);
void set_padding(bool on, uint64_t seed); // perturb block sizes/placement
// enumerates live blocks (thread harness)
bool is_preexisting(const void* p);
void snapshot_preexisting();
}  // namespace alloc

int main_entry(int argc, char** argv, const char* kind);
}  // namespace sim
