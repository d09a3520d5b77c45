// Optimization worlds.  The external solver is the simulator's: behind the ifopt
// interface it does whatever the seed says.  C09: outcome of every solve against
// what the path functions return.  C15: the problem objects driven in seeded
// callback orders, and the options each solve receives.
#include "ref.hpp"
#include "world.hpp"
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Optimization/ipopt_interface.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <ifopt/ipopt_solver.h>
#include <map>
#include <set>
using namespace gsplines;
namespace op = gsplines::optimization;
using sim::draw; using sim::draw_w; using sim::chance; using sim::real;
typedef long double LD;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat;
namespace ww {
namespace {
struct Boom : std::runtime_error { int tag; explicit Boom(int t) : std::runtime_error("solver gives up"), tag(t) {} };
// which path is asked for
struct Ask {
  int kind = 0, rows = 3, cd = 1; double k = 1, exec = 1; model::BasisM m; ref::Weights w; Mat wp; std::string txt;
  std::unique_ptr<basis::Basis> b; double T = 1; bool named = true, shape_only = false;
};
const char* PATHS[] = {"broken lines", "minimum acceleration", "minimum jerk", "minimum snap", "minimum crackle", "rojas", "sobolev norm"};
Ask draw_ask(Mode mode, bool shapes = false) {
  Ask a; a.kind = (int)draw_w({3, 3, 3, 2, 1, 2, 5}); a.rows = 2 + (int)draw_w({2, 3, 3, 1}); a.cd = 1 + (int)draw(3); 
  if (mode != ENUM && a.kind != 3 && a.kind != 4 && a.kind != 5 && chance(1, 10)) { a.rows += 3 + (int)draw(5); if (chance(1, 2)) a.cd += 3; }
  if (shapes && mode != ENUM && a.kind >= 3 && a.kind <= 5 && chance(1, 8)) { a.shape_only = true; a.rows += 3 + (int)draw(5); if (chance(1, 4)) a.cd += 3; }   // too badly conditioned to judge the values
  a.wp = Mat(a.rows, a.cd);
  if (a.kind == 4 && !a.shape_only) a.rows = std::min(a.rows, 3), a.wp = Mat(a.rows, a.cd);
  for (int i = 0; i < a.rows; i++) for (int j = 0; j < a.cd; j++) a.wp(i, j) = real(-2, 2, 16);
  int n = a.rows - 1; a.exec = n;
  if (a.kind < 5) { a.m.kind = 0; a.m.dim = 2 * (a.kind + 1); a.w = {{(size_t)a.kind + 1, 1.0}}; }
  else if (a.kind == 5) { a.k = real(0.5, 2, 6); a.exec = 4.0 * n / std::sqrt(2.0); a.m.kind = 2; a.m.dim = 6; a.m.alpha = 1.0 / (1.0 + std::pow(1 / a.k, 4)); a.w = {{1, a.m.alpha}, {3, 1 - a.m.alpha}}; }
  else {
    a.named = false; a.exec = real(0.5, 6, 11);
    switch (draw_w({3, 2, 1})) {
      case 0: a.m.kind = 0; a.m.dim = 2 + 2 * (int)draw(3); a.b = std::make_unique<basis::BasisLegendre>(a.m.dim); break;
      case 1: a.m.kind = 1; a.m.dim = 4 + 2 * (int)draw(2); a.m.pts = gll_nodes(a.m.dim); a.b = std::make_unique<basis::BasisLagrangeGaussLobatto>(a.m.dim); break;
      default: a.m.kind = 2; a.m.dim = 6; a.m.alpha = real(0.1, 0.9, 8); if (a.rows > 5) { a.rows = 5; a.wp.conservativeResize(5, a.cd); } a.exec = std::max(a.exec, 0.8 * (a.rows - 1)); a.b = std::make_unique<basis::Basis0101>(a.m.alpha); break; }
    int nt = 1 + (int)draw(2); for (int i = 0; i < nt; i++) a.w.push_back({a.m.kind == 2 ? 1 + 2 * draw(2) : draw((uint32_t)std::min(4, a.m.dim)), real(0.25, 3, 11)}); }
  a.T = a.named ? 1.0 : a.exec;
  char t[120]; snprintf(t, sizeof t, "%s path, %d waypoints, dim %d", PATHS[a.kind], a.rows, a.cd); a.txt = t; return a;
}
std::optional<GSpline> call(const Ask& a, const Mat& wp) {
  switch (a.kind) {
    case 0: return op::broken_lines_path(wp);
    case 1: return op::minimum_acceleration_path(wp);
    case 2: return op::minimum_jerk_path(wp);
    case 3: return op::minimum_snap_path(wp);
    case 4: return op::minimum_crackle_path(wp);
    case 5: return op::rojas_path(wp, a.k);
    default: return op::optimal_sobolev_norm(wp, *a.b, a.w, a.exec); }
}
std::vector<double> iterate(int n, double exec) { std::vector<double> x; double s = 0; for (int i = 0; i < n; i++) { x.push_back(real(0.3, 2, 17)); s += x.back(); } for (auto& y : x) y *= exec / s; return x; }

// ------------------------------------------------------------------ C09
const int STATUS[] = {0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199, 7, 100, -5, 256, 65536};
struct Scripted : ifopt::SolverHook {
  struct Step { int what; std::vector<double> x; };
  std::vector<Step> steps; std::vector<double> last; int status = 0; int throw_at = -1, throw_option = -1; int kind_of_throw = 0, tag = 0;
  bool finished = false; int solves = 0, opts = 0; std::vector<double> seen; bool threw = false;
  void gone() { threw = true; if (kind_of_throw == 1) throw std::bad_alloc(); throw Boom(tag); }
  void option(const ifopt::OptionCall&) override { if (opts++ == throw_option) gone(); }
  int solve(ifopt::IpoptSolver&, ifopt::Problem& p) override {
    solves++; int i = 0;
    for (auto& s : steps) {
      if (i++ == throw_at) gone();
      if ((int)s.x.size() != p.GetNumberOfOptimizationVariables()) continue;
      try { switch (s.what) {
        case 0: p.EvaluateCostFunction(s.x.data()); break;
        case 1: p.EvaluateCostFunctionGradient(s.x.data()); break;
        case 2: p.EvaluateConstraints(s.x.data()); break;
        case 3: p.GetJacobianOfConstraints(); break;
        default: p.SetVariables(s.x.data()); break; }
      } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) {}      // the solver steps back from points it cannot evaluate
    }
    if (throw_at >= 0) gone();
    if ((int)last.size() == p.GetNumberOfOptimizationVariables()) p.SetVariables(last.data());
    { sim::alloc::Outside o; Vec v = p.GetVariableValues(); seen.assign(v.data(), v.data() + v.size()); }
    finished = true; return status;
  }
};
void judge_path(const Ask& a, const GSpline& s, const std::vector<double>& tau, const Mat& wp) {
  int n = a.rows - 1; const char* w = a.txt.c_str(); auto d = s.get_domain(); double sum = 0; for (double t : tau) sum += t;
  if ((int)s.get_number_of_intervals() != n || (int)s.get_codom_dim() != a.cd) sim::violation("wrong-path", "%s: it has %zu intervals and %zu components", w, s.get_number_of_intervals(), s.get_codom_dim());
  double T = d.second - d.first, want = a.named ? 1.0 : sum;
  if (!(std::fabs(d.first) <= 1e-12) || !(std::fabs(T - want) <= 1e-9 * (1 + want))) sim::violation("wrong-path", "%s: it lasts from %.12g to %.12g, promised duration %.12g", w, d.first, d.second, want);
  Vec L = s.get_interval_lengths(); for (int i = 0; i < n; i++) if (!(std::fabs(L(i) - tau[i] / sum * want) <= 1e-9 * (1 + want))) sim::violation("wrong-path", "%s: interval %d lasts %.12g, by the solver's answer %.12g", w, i, L(i), tau[i] / sum * want);
  if (a.shape_only) { sim::probe("shape-only"); return; }
  Vec t(n + 1); t(0) = d.first; for (int i = 0; i < n; i++) t(i + 1) = i + 1 == n ? d.second : t(i) + L(i);
  Mat v = s(t); Vec c = s.get_coefficients(); sim::observe(v.data(), (size_t)v.size());
  double big = 1; for (long i = 0; i < c.size(); i++) big = std::max(big, std::fabs(c(i)) * (a.m.kind == 2 ? 1e-5 : 1.0));
  for (int i = 0; i <= n; i++) for (int k = 0; k < a.cd; k++) if (!(std::fabs(v(i, k) - wp(i, k)) <= 1e-7 * big * a.m.dim)) sim::violation("wrong-path", "%s: waypoint %d component %d is %.12g, requested %.12g", w, i, k, v(i, k), wp(i, k));
}
void solve_once(Mode mode) {
  Ask a = draw_ask(mode, true); int n = a.rows - 1; Scripted h;
  int badwp = chance(1, 14) ? 1 + (int)draw(3) : 0;
  h.last = iterate(n, a.exec);
  uint32_t oc = draw_w({5, 4, 2, 2}); bool weird = oc == 0 && chance(1, 8);
  h.status = oc == 1 ? STATUS[1 + draw(sizeof STATUS / sizeof *STATUS - 1)] : 0;
  int ns = (int)draw(mode == ENUM ? 2 : 5); for (int i = 0; i < ns; i++) { h.steps.push_back({(int)draw(5), iterate(n, a.exec)}); if (chance(1, 6) && n) h.steps.back().x[draw((uint32_t)n)] = std::vector<double>{0, -1, NAN, 1e-9}[draw(4)]; }
  if (oc == 2) { h.throw_at = (int)draw((uint32_t)ns + 1); h.kind_of_throw = (int)draw(2); h.tag = 1 + (int)draw(1000); }
  if (oc == 3) { h.throw_option = (int)draw(11); h.kind_of_throw = (int)draw(2); h.tag = 1 + (int)draw(1000); }
  if (mode != ENUM && n > 1 && oc == 0 && (a.kind < 2 || (a.kind == 6 && a.m.kind == 0 && a.m.dim <= 4)) && chance(1, 5)) { h.last[draw((uint32_t)n)] *= 0.004; double z = 0; for (double x : h.last) z += x; for (auto& x : h.last) x *= a.exec / z; sim::probe("short-interval"); }
  if (weird) { h.last[draw((uint32_t)n)] = std::vector<double>{0, -0.5, NAN, INFINITY}[draw(4)]; sim::fault("unusable-iterate"); }
  bool off = !weird && oc == 0 && chance(1, 5); if (off) { double f = real(0.5, 2, 6); for (auto& x : h.last) x *= f; sim::fault("constraint-not-met"); }
  Mat wp = a.wp; if (badwp == 1) wp = Mat(0, a.cd); if (badwp == 2) wp = Mat::Ones(1, a.cd); if (badwp == 3) wp = Mat(a.rows, 0);
  std::optional<GSpline> got; Boom* seen = nullptr; std::unique_ptr<Boom> hold; Scripted fresh = h;
  ifopt::solver_hook() = &h; int boom = -1; bool badalloc = false;
  Outcome o = attempt(mode, false, [&] { { sim::alloc::Outside out; h = fresh; got.reset(); boom = -1; badalloc = false; } try { auto r = call(a, wp); if (r) got.emplace(std::move(*r)); } catch (const Boom& e) { boom = e.tag; throw; } catch (const std::bad_alloc&) { badalloc = true; throw; } }, [] {});
  ifopt::solver_hook() = nullptr; (void)seen;
  sim::logf("%s%s: solver %s%d -> %s", a.txt.c_str(), badwp ? " (bad waypoints)" : "", h.threw ? "throws, status " : "status ", h.status, o.failed ? o.what.c_str() : got ? "path" : "no path");
  sim::feature(sim::mix(sim::mix((uint64_t)a.kind * 8 + (uint64_t)a.rows, (uint64_t)(h.status + 300)), sim::mix(oc * 4 + (weird ? 1 : 0) + (off ? 2 : 0), o.failed * 2 + got.has_value())));
  if (badwp) { sim::fault("refused-operands"); if (got && badwp != 3) sim::violation("path-from-nothing", "a path was returned for %ld waypoints", (long)wp.rows()); return; }
  if (o.failed && o.fired) return;
  if (n == 1) {
    if (o.failed || !got) sim::violation("no-path", "%s: a single interval needs no solver, but no path was returned", a.txt.c_str());
    if (h.solves == 0) { sim::nontrivial(); sim::probe("single-interval"); judge_path(a, *got, {a.exec}, wp); } return; }
  if (h.threw) {
    sim::fault(h.throw_option >= 0 ? "solver-option-throws" : "solver-throws");
    if (!o.failed) sim::violation("failure-swallowed", "%s: an exception raised during solving did not reach the caller", a.txt.c_str());
    if (h.kind_of_throw ? !badalloc : boom != h.tag) sim::violation("failure-swallowed", "%s: the exception raised during solving reached the caller as another one (%s)", a.txt.c_str(), o.what.c_str());
    sim::nontrivial(); return; }
  if (!h.finished) { if (o.failed) sim::violation("no-path", "%s: it failed before the solver was asked: %s", a.txt.c_str(), o.what.c_str()); sim::violation("path-without-solver", "%s: an answer was given although the solver did not finish", a.txt.c_str()); }
  if (weird) { return; }
  sim::nontrivial();
  if (h.status != 0) { sim::fault("solver-fails"); if (got) sim::violation("path-without-success", "%s: the solver reported status %d and a path was returned", a.txt.c_str(), h.status); if (o.failed) sim::violation("path-without-success", "%s: the solver reported status %d and the call threw: %s", a.txt.c_str(), h.status, o.what.c_str()); return; }
  if (o.failed) sim::violation("no-path", "%s: the solver succeeded but the call threw: %s", a.txt.c_str(), o.what.c_str());
  if (!got) sim::violation("no-path", "%s: the solver succeeded but no path was returned", a.txt.c_str());
  sim::probe("path"); judge_path(a, *got, h.seen, wp);
}
void run_c09() { Mode m = (Mode)draw_w({3, 2, 1}); int k = 1 + (int)draw(m == ENUM ? 2 : 6); sim::logf("mode %d", m); for (int i = 0; i < k; i++) { sim::Span s; sim::steps(1); solve_once(m); } }

// ------------------------------------------------------------------ C15
struct Opt { int type; std::string s; int i = 0; double d = 0; };
typedef std::map<std::string, Opt> Table;
// one problem seen from the solver's side
struct Driver {
  const Ask& a; Mode mode; ref::Problem q; bool unset = true; std::vector<double> cur;
  Driver(const Ask& x, Mode m) : a(x), mode(m) { q.m = a.m; q.cd = a.cd; for (int i = 0; i < a.rows; i++) { q.wp.push_back({}); for (int k = 0; k < a.cd; k++) q.wp.back().push_back(a.wp(i, k)); } cur.assign((size_t)a.rows - 1, a.exec / (a.rows - 1)); }
  bool usable() const { for (double x : cur) if (!(x > 1e-6 && x < 1e6)) return false; return true; }
  void start(ifopt::Problem& p) {
    int n = a.rows - 1; const char* w = a.txt.c_str();
    if (p.GetNumberOfOptimizationVariables() != n) sim::violation("wrong-problem", "%s: %d variables for %d intervals", w, p.GetNumberOfOptimizationVariables(), n);
    Vec v = p.GetVariableValues(); for (int i = 0; i < n; i++) if (!(v(i) > 0) || !(std::fabs(v(i) - a.exec / n) <= 1e-9 * (1 + a.exec))) sim::violation("wrong-problem", "%s: variable %d starts at %.12g, not at an equal share of %g", w, i, v(i), a.exec);
    auto vb = p.GetBoundsOnOptimizationVariables(); if ((int)vb.size() != n) sim::violation("wrong-problem", "%s: bounds for %zu variables", w, vb.size()); for (int i = 0; i < n; i++) if (!(vb[i].lower_ >= 0 && vb[i].lower_ < a.exec / n && vb[i].upper_ > a.exec / n)) sim::violation("wrong-problem", "%s: bounds [%g,%g] of variable %d", w, vb[i].lower_, vb[i].upper_, i);
    if (p.GetNumberOfConstraints() != 1) sim::violation("wrong-problem", "%s: %d constraints", w, p.GetNumberOfConstraints());
    auto cb = p.GetBoundsOnConstraints(); if (cb.size() != 1 || !(std::fabs(cb[0].lower_ - a.exec) <= 1e-9 * (1 + a.exec)) || !(std::fabs(cb[0].upper_ - a.exec) <= 1e-9 * (1 + a.exec))) sim::violation("wrong-problem", "%s: the constraint does not keep the execution time %g", w, a.exec);
  }
  void step(ifopt::Problem& p) {
    sim::Span sp; sim::steps(1); int n = a.rows - 1; uint32_t what = draw_w({4, 4, 2, 2, 2, 2, 1, 1}); const char* W[] = {"cost", "gradient", "constraint", "constraint gradient here", "cost gradient here", "set", "cost here", "constraint here"};
    std::vector<double> x = cur;
    bool sets = what == 0 || what == 1 || what == 2 || what == 5;
    if (sets) { bool again = chance(1, 6); std::vector<double> y = iterate(n, a.exec); if (usable()) y = vary(cur, y); if (!again) { x = y; if (chance(1, 4)) for (auto& t : x) t *= real(0.5, 2, 6); if (a.m.dim <= 4 && chance(1, 12)) { double u = std::vector<double>{1e-2, 1e-3, 1e-4, 2e-5}[draw(4)]; for (auto& t : x) t *= u; sim::probe("short-lengths"); } if (chance(1, 8)) { x[draw((uint32_t)n)] = std::vector<double>{0, -1, NAN, 1e-9}[draw(4)]; sim::fault("unusable-iterate"); } } }
    double val = 0; Vec g; Mat J; Vec now;
    auto go = [&](Mode m) { return attempt(m, false, [&] { switch (what) {
      case 0: val = p.EvaluateCostFunction(x.data()); break;
      case 1: g = p.EvaluateCostFunctionGradient(x.data()); break;
      case 2: g = p.EvaluateConstraints(x.data()); break;
      case 3: J = Mat(p.GetJacobianOfConstraints()); break;
      case 4: g = Mat(p.GetJacobianOfCosts()).row(0).transpose(); break;
      case 5: p.SetVariables(x.data()); break;
      case 6: val = p.GetCosts().GetValues()(0); break;
      default: g = p.GetConstraints().GetValues(); break; } }, [] {}); };
    Outcome o = go(mode);
    now = p.GetVariableValues(); if (now.size() != n) sim::violation("wrong-problem", "%s: %ld variables", a.txt.c_str(), (long)now.size());
    // after a failure the variables are the old ones or the new ones, and every later answer is for them
    auto is = [&](const std::vector<double>& y) { for (int i = 0; i < n; i++) if (!(now(i) == y[i] || (now(i) != now(i) && y[i] != y[i]))) return false; return true; };
    if (!(is(x) || (o.failed && is(cur)))) sim::violation("stale-problem", "%s: after %s the variables are not those set last", a.txt.c_str(), W[what]);
    if (is(x)) cur = x;
    sim::logf("  %s%s%s", W[what], usable() ? "" : " (unusable lengths)", o.failed ? o.fired ? " failed" : " refused" : "");
    if (o.failed && o.fired) { sim::fault("callback-fails"); o = go(NONE); if (is(x)) cur = x; now = p.GetVariableValues(); cur.assign(now.data(), now.data() + n); }
    bool costy = what == 0 || what == 1 || what == 4 || what == 6;
    sim::feature(sim::mix(sim::mix(what, (uint64_t)a.kind * 8 + (uint64_t)a.rows), (uint64_t)o.failed * 2 + usable()));
    if (!usable()) { if (costy) { sim::probe("unusable-iterate-evaluated"); return; } }
    if (o.failed) sim::violation("request-failed", "%s: %s failed: %s", a.txt.c_str(), W[what], o.what.c_str());
    sim::nontrivial();
    if (what == 3) { if (J.rows() != 1 || J.cols() != n) sim::violation("stale-problem", "%s: gradient of the constraint is %ldx%ld", a.txt.c_str(), (long)J.rows(), (long)J.cols()); for (int i = 0; i < n; i++) if (!(std::fabs(J(0, i) - 1) <= 1e-9)) sim::violation("stale-problem", "%s: gradient of the constraint is %g for variable %d", a.txt.c_str(), J(0, i), i); }
    if (what == 2 || what == 7) { double s = 0; for (double t : cur) s += t; if (g.size() != 1 || !(std::fabs(g(0) - s) <= 1e-9 * (1 + std::fabs(s)) || s != s)) sim::violation("stale-problem", "%s: the constraint is %.12g for lengths that add up to %.12g", a.txt.c_str(), g.size() ? g(0) : 0, s); }
    if (!costy) return;
    q.tau = cur; ref::Cost c; if (!ref::cost(q, a.w, c)) { sim::probe("reference-undecided"); return; }
    sim::probe(what == 0 || what == 6 ? "cost" : "gradient");
    if (what == 0 || what == 6) { sim::observe(&val, 1); if (!(model::ab(val - c.value) <= 1e-7L * (1 + c.scale))) sim::violation("stale-problem", "%s: the cost is %.12g, for the variables set last it is %.12Lg", a.txt.c_str(), val, c.value); }
    else { if (g.size() != n) sim::violation("stale-problem", "%s: gradient of size %ld", a.txt.c_str(), (long)g.size()); sim::observe(g.data(), (size_t)n); for (int i = 0; i < n; i++) if (!(model::ab(g(i) - c.grad[i]) <= 1e-7L * (1 + c.gscale[i] + c.scale))) sim::violation("stale-problem", "%s: component %d of the gradient is %.12g, for the variables set last it is %.12Lg", a.txt.c_str(), i, g(i), c.grad[i]); }
  }
};
struct Held { std::unique_ptr<Ask> a; std::unique_ptr<Driver> d; std::unique_ptr<ifopt::Problem> p; };
struct OWorld : ifopt::SolverHook {
  Mode mode; Table table; bool have = false; const Ask* cur = nullptr; int status = 0; bool checked = false; std::vector<Held> held;
  explicit OWorld(Mode m) : mode(m) {}
  void compare(const std::vector<ifopt::OptionCall>& got, const char* when) {
    std::set<std::string> names;
    for (auto& o : got) { if (!names.insert(o.name).second) sim::violation("option-twice", "%s: option %s is passed more than once", when, o.name.c_str()); }
    if (!have) { for (auto& o : got) table[o.name] = {o.type, o.s, o.i, o.d}; have = true; return; }
    for (auto& o : got) { auto it = table.find(o.name); if (it == table.end()) sim::violation("wrong-option", "%s: option %s was never set", when, o.name.c_str()); auto& t = it->second; if (t.type != o.type || t.s != o.s || t.i != o.i || !(t.d == o.d)) sim::violation("wrong-option", "%s: option %s does not have the value set last", when, o.name.c_str()); }
    for (auto& t : table) if (!names.count(t.first)) sim::violation("wrong-option", "%s: option %s is not passed", when, t.first.c_str());
  }
  int solve(ifopt::IpoptSolver& s, ifopt::Problem& p) override {
    sim::alloc::Outside out; checked = true; compare(s.options, "in a solve"); Driver d(*cur, mode); d.start(p); int k = (int)draw(6); for (int i = 0; i < k; i++) d.step(p); return status;
  }
  void ask() {
    Ask a = draw_ask(mode); cur = &a; checked = false; status = chance(1, 3) ? -1 : 0; ifopt::solver_hook() = this; sim::logf("solve: %s", a.txt.c_str());
    Outcome o = once([&] { auto r = call(a, a.wp); }); ifopt::solver_hook() = nullptr; cur = nullptr;
    if (a.rows > 2 && !checked) sim::violation("wrong-problem", "%s: the solver was not asked%s%s", a.txt.c_str(), o.failed ? ": " : "", o.what.c_str());
    sim::probe("solve");
  }
  void peek(const char* when) { ifopt::IpoptSolver s; op::IpoptSolverOptions::set_options_on_interface(s); compare(s.options, when); }
  void option() {
    static const char* NAMES[] = {"tol", "print_level", "linear_solver", "max_iter", "jac_c_constant", "acceptable_tol", "mu_strategy", "a", ""};
    std::string name = NAMES[draw(9)]; Opt t; t.type = (int)draw(3); if (t.type == 0) { static const char* S[] = {"mumps", "ma27", "", "a rather long value that does not fit into a short string buffer"}; t.s = S[draw(4)]; } if (t.type == 1) t.i = sim::range(-3, 50); if (t.type == 2) { static const double S[] = {1e-8, 1e-9, 1e-3, 2e-3, 1e-300, 1e20}; t.d = chance(1, 3) ? S[draw(6)] : real(-1, 1, 32); }
    auto was = table.find(name); if (was != table.end() && was->second.type == t.type && chance(1, 2)) { uint32_t how = draw(4); if (t.type == 1) t.i = was->second.i + (how & 1 ? 1 : -1); if (t.type == 2) t.d = how == 0 ? was->second.d * 0.1 : how == 1 ? was->second.d * (1 + 1e-9) : how == 2 ? std::nextafter(was->second.d, 2.0) : -was->second.d; if (t.type == 0) t.s = was->second.s + "x"; }   // nearly what it was
    Outcome o = attempt(mode, false, [&] { if (t.type == 0) op::IpoptSolverOptions::set_option(name, t.s); else if (t.type == 1) op::IpoptSolverOptions::set_option(name, t.i); else op::IpoptSolverOptions::set_option(name, t.d); }, [&] { if (have) peek("after setting an option failed"); });
    sim::logf("option %s (type %d)%s", name.c_str(), t.type, o.failed ? " failed" : "");
    if (o.failed) { if (!o.fired) sim::violation("request-failed", "setting an option failed: %s", o.what.c_str()); return; }
    sim::probe("option-set"); auto it = table.find(name); if (it != table.end() && it->second.type != t.type) sim::probe("option-changes-type"); table[name] = t; peek("after setting an option");
  }
  void hold() {
    Held h; h.a = std::make_unique<Ask>(draw_ask(mode)); Ask& a = *h.a; if (a.rows < 3) return; if (!a.b) { if (a.m.kind == 0) a.b = std::make_unique<basis::BasisLegendre>(a.m.dim); else a.b = std::make_unique<basis::Basis0101>(a.m.alpha); }
    Outcome o = attempt(mode, false, [&] {
      h.p = std::make_unique<ifopt::Problem>(); h.p->AddVariableSet(std::make_shared<op::TimeSegmentLenghtsVar>(a.rows - 1, a.exec)); h.p->AddConstraintSet(std::make_shared<op::ExecTimeConstraint>(a.rows - 1, a.exec)); h.p->AddCostSet(std::make_shared<op::SobolevNorm>("cost", a.wp, *a.b, a.w)); }, [] {});
    sim::logf("problem #%zu: %s%s", held.size(), a.txt.c_str(), o.failed ? " failed" : ""); if (o.failed) { if (!o.fired) sim::violation("request-failed", "making a problem failed: %s", o.what.c_str()); return; }
    a.b.reset(); h.d = std::make_unique<Driver>(*h.a, mode); h.d->start(*h.p); if (held.size() < 3) held.push_back(std::move(h)); else held[draw(3)] = std::move(h);
  }
  void run(int steps) {
    if (chance(1, 2)) { peek("at first"); }
    else if (chance(1, 2)) { ask(); }
    if (!have) peek("at first");
    for (int i = 0; i < steps; i++) { sim::Span sp; sim::steps(1); uint32_t k = draw_w({3, 3, 2, 5});
      if (k == 0) ask(); else if (k == 1) option(); else if (k == 2 || held.empty()) hold(); else { uint32_t h = draw((uint32_t)held.size()); sim::logf(" #%u", h); held[h].d->step(*held[h].p); } }
  }
};
// the collocation problem: a spline variable, a distance as cost, continuity as constraint
void run_gll_problem(Mode mode) {
  using namespace collocation; int n = 3 + (int)draw(3), I = 2 + (int)draw(2), c = 1 + (int)draw(2), deg = (int)draw(2); double T = real(0.5, 3, 10); long N = (long)n * I * c;
  Vec dir((long)c); for (long q = 0; q < c; q++) dir(q) = real(-2, 2, 16);
  std::pair<double, double> D(0.0, T); functions::FunctionExpression f = functions::Sin(D) * functions::ConstFunction(D, dir); Vec tau = Vec::Constant(I, T / I);
  auto spl = [&](const Vec& x) { return GaussLobattoLagrangeSpline(D, (size_t)c, (size_t)I, (size_t)n, x, tau); };
  GaussLobattoLagrangeSpline s0 = spl(Vec::Constant(N, 0.5)); auto var = std::make_shared<GLLSplineVariable>(s0); ifopt::Problem p; p.AddVariableSet(var);
  p.AddConstraintSet(std::make_shared<ConstraintWrapper<ContinuityError>>(0.0, 0.0, s0, (size_t)deg)); p.AddCostSet(std::make_shared<CostWrapper<SobolevDistance>>(f, (size_t)n, (size_t)I, (size_t)1));
  sim::logf("collocation problem: %d nodes, %d intervals, dim %d", n, I, c); sim::probe("collocation-problem");
  std::vector<double> cur((size_t)N, 0.5); int k = 2 + (int)draw(8);
  for (int i = 0; i < k; i++) {
    sim::Span sp; sim::steps(1); uint32_t what = draw(5); std::vector<double> x = cur; if (what != 3) { for (auto& y : x) y = real(-2, 2, 16); }
    double val = 0; Vec g; Mat J; const char* W[] = {"cost", "gradient", "constraint", "constraint gradient here", "set"};
    auto go = [&](Mode m) { return attempt(m, false, [&] { switch (what) { case 0: val = p.EvaluateCostFunction(x.data()); break; case 1: g = p.EvaluateCostFunctionGradient(x.data()); break; case 2: g = p.EvaluateConstraints(x.data()); break; case 3: J = Mat(p.GetJacobianOfConstraints()); break; default: p.SetVariables(x.data()); } }, [] {}); };
    Outcome o = go(mode); sim::logf("  %s%s", W[what], o.failed ? " failed" : ""); if (o.failed && o.fired) { sim::fault("callback-fails"); o = go(NONE); }
    if (o.failed) sim::violation("request-failed", "collocation problem: %s failed: %s", W[what], o.what.c_str());
    cur = x; Vec now = p.GetVariableValues(); for (long q = 0; q < N; q++) if (now.size() != N || now(q) != cur[(size_t)q]) sim::violation("stale-problem", "collocation problem: the variables are not those set last");
    sim::nontrivial(); GaussLobattoLagrangeSpline s = spl(Eigen::Map<Vec>(cur.data(), N)); SobolevDistance fd(f, (size_t)n, (size_t)I, 1); ContinuityError fc(s, (size_t)deg);
    if (what == 0) { double e = fd(s)(0); if (!(std::fabs(val - e) <= 1e-9 * (1 + std::fabs(e)))) sim::violation("stale-problem", "collocation problem: cost %.12g, for the variables set last %.12g", val, e); }
    if (what == 1) { Mat e = fd.differential(s)->to_dense_matrix(); for (long q = 0; q < N; q++) if (g.size() != N || !(std::fabs(g(q) - e(0, q)) <= 1e-9 * (1 + std::fabs(e(0, q))))) sim::violation("stale-problem", "collocation problem: component %ld of the gradient", q); }
    if (what == 2) { Vec e = fc(s); if (g.size() != e.size()) sim::violation("stale-problem", "collocation problem: %ld constraints", (long)g.size()); for (long q = 0; q < e.size(); q++) if (!(std::fabs(g(q) - e(q)) <= 1e-9 * (1 + std::fabs(e(q))))) sim::violation("stale-problem", "collocation problem: constraint %ld is %.12g, for the variables set last %.12g", q, g(q), e(q)); }
    if (what == 3) { Mat e = fc.to_dense_matrix(); if (J.rows() != e.rows() || J.cols() != e.cols() || !((J - e).cwiseAbs().maxCoeff() <= 1e-9 * (1 + e.cwiseAbs().maxCoeff()))) sim::violation("stale-problem", "collocation problem: gradient of the constraints"); }
  }
}
void run_c15() { Mode m = (Mode)draw_w({3, 3, 1}); sim::logf("mode %d", m); if (chance(1, 8)) { run_gll_problem(m); return; } OWorld w(m); w.run(m == ENUM ? 4 : 10); }
sim::Reg r09("C09", run_c09), r15("C15", run_c15);
}  // namespace
}  // namespace ww
