// What all single-process worlds share: how a step is attempted under faults.
#pragma once
#include "model.hpp"
#include "sim.hpp"
#include "world_func.hpp"
#include <exception>
#include <string>

namespace ww {
enum Mode { NONE, SOME, ENUM };
struct Outcome { bool failed = false, fired = false, absorbed = false; std::string what; };

// f runs inside the simulated allocator; unchanged() is called after each failed
// attempt that a fault caused.  In ENUM mode every failure point of the
// operation is tried in turn until an attempt runs to its end.
template <class F> Outcome once(F f) {
  Outcome o;
  try { sim::alloc::Scope s; f(); }
  catch (const std::exception& e) { sim::alloc::Outside out; o.failed = true; o.what = e.what(); }
  return o;
}
template <class F, class U> Outcome attempt(Mode mode, bool user, F f, U unchanged) {
  if (mode == NONE) return once(f);
  if (mode == SOME) {
    uint32_t fk = sim::draw_w({3, 2, 1, user ? 2u : 0u});
    if (fk == 3 && !user) fk = 0;
    uint32_t at = fk ? 1 + (sim::chance(1, 4) ? sim::draw(fk == 3 ? 12 : 200) : sim::draw(fk == 3 ? 4 : 24)) : 0;
    Outcome o;
    if (fk == 0) return once(f);
    if (fk == 3) {
      fw::g_user_fired = false; fw::g_user_countdown = at; o = once(f); fw::g_user_countdown = 0; o.fired = fw::g_user_fired;
      if (o.fired) sim::fault("user-function-throws");
    } else {
      sim::alloc::arm(at, fk == 2); o = once(f); o.fired = sim::alloc::fired(); sim::alloc::disarm();
      if (o.fired) sim::fault(fk == 1 ? "alloc-fail" : "alloc-fail-sticky");
    }
    if (o.fired && !o.failed) { o.absorbed = true; sim::probe("fault-absorbed"); if (fk == 3) sim::violation("failure-swallowed", "a user-supplied function threw and the failure did not reach the caller"); }
    if (o.fired && o.failed) unchanged();
    return o;
  }
  bool u = user && sim::chance(1, 3), sticky = sim::chance(1, 2);
  for (uint64_t k = 1; k < 1000000; k += k < 1500 ? 1 : 1 + k / 150) {   // every point up to the 1500th, then ever fewer of them
    Outcome o;
    if (u) { fw::g_user_fired = false; fw::g_user_countdown = (long)k; o = once(f); fw::g_user_countdown = 0; o.fired = fw::g_user_fired; }
    else { sim::alloc::arm(k, sticky); o = once(f); o.fired = sim::alloc::fired(); sim::alloc::disarm(); }
    if (!o.fired) return o;
    sim::fault(u ? "user-function-throws" : sticky ? "alloc-fail-sticky" : "alloc-fail");
    sim::nontrivial();
    if (!o.failed) {
      if (u) sim::violation("failure-swallowed", "a user-supplied function threw and the failure did not reach the caller");
      sim::probe("fault-absorbed"); o.absorbed = true; o.fired = false; return o;
    }
    unchanged();
  }
  sim::violation("no-progress", "the operation asks for memory without end");
}

// new data for a long-lived object: unrelated to the data before, or close to it in
// one of the ways in which a remembered answer could be taken for the right one
inline std::vector<double> vary(const std::vector<double>& before, const std::vector<double>& fresh) {
  if (before.size() != fresh.size() || before.empty() || sim::chance(1, 2)) return fresh;
  std::vector<double> r(before); size_t i = sim::draw((uint32_t)r.size()), j = sim::draw((uint32_t)r.size());
  static const double E[] = {1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 3e-7}; double e = E[sim::draw(6)];
  switch (sim::draw(7)) {
    case 0: break;                                            // the same
    case 1: for (size_t k = 0; k < r.size(); k++) r[k] = before[(k + 1) % r.size()]; break;   // the same sum
    case 2: std::swap(r[i], r[j]); break;
    case 3: r[i] = fresh[i]; break;
    case 4: r[i] *= 1 + e; break;
    case 5: r.back() = fresh.back(); break;                   // all but the last
    default: for (auto& x : r) x *= 1 + e; break;
  }
  return r;
}
// a few runs are larger or longer than the others
inline bool wide_run(Mode m) { return m != ENUM && sim::chance(1, 8); }
// long-double Gauss-Lobatto nodes, by bisection on the derivative of P_{n-1}
std::vector<double> gll_nodes(int n);
// the seeded choice of a world with its own program; used by C02, C03, C12
void run_func(Mode m, int steps);
void run_spline(Mode m, int steps);
void run_basis(Mode m, int steps);
void run_interp(Mode m, int steps);
void run_cost(Mode m, int steps);
void run_colloc(Mode m, int steps);
}  // namespace ww
