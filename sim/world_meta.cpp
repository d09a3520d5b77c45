// Properties about how any history behaves rather than what it computes: the
// worlds are run as a whole, several times with the same choices.
#include "ref.hpp"
#include "world.hpp"
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Interpolator.hpp>
#include <climits>
#include <random>
using namespace gsplines;
using sim::draw; using sim::draw_w; using sim::chance; using sim::real;
typedef long double LD;
namespace ww {
namespace {
struct Program { uint32_t which; int steps; };
const char* NAMES[] = {"functions", "splines", "bases", "interpolators", "costs", "collocation operators", "objects made and released in turn"};
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
void see(const M& m) { sim::alloc::Outside o; std::vector<double> v(m.data(), m.data() + m.size()); sim::observe(v.data(), v.size()); }
// Objects of one kind and size, with other contents each time, are made, asked the
// same questions and released: what was remembered of one that is gone must not be
// taken for the next one, which may lie where it lay.
void recycle(int steps) {
  namespace fn = functions; namespace co = collocation; typedef std::pair<double, double> D; D d(0.0, 2.0);
  int kind = (int)draw(8), dim = 4 + 2 * (int)draw(2), I = 1 + (int)draw(3), cd = 1 + (int)draw(2); double x = real(0.1, 1.9, 18), tau = real(0.5, 2, 6); bool same_lens = chance(1, 2), last_first = chance(1, 2);
  auto fillv = [&](long n) { V v(n); for (long i = 0; i < n; i++) v(i) = real(-2, 2, 16); return v; };
  auto lensv = [&](int n) { V v(n); for (int i = 0; i < n; i++) v(i) = same_lens ? 0.5 + 0.25 * i : real(0.25, 2, 7); return v; };
  V pts(4); pts << x, 2.0 - x, 1.0, x; if (last_first) pts << 1.0, x, 2.0 - x, 1.0;
  for (int r = 0; r < steps; r++) {
    sim::Span sp; sim::steps(1); uint32_t bk = draw(4); double al = real(0.2, 0.8, 6); V knots(dim); for (int i = 0; i < dim; i++) knots(i) = -1 + 2.0 * i / (dim - 1); if (bk == 2) for (int i = 1; i + 1 < dim; i++) knots(i) += real(-0.2, 0.2, 4) / dim;
    auto basis_of = [&]() -> std::unique_ptr<basis::Basis> { switch (bk) { case 0: return std::make_unique<basis::BasisLegendre>(dim); case 1: return std::make_unique<basis::BasisLagrangeGaussLobatto>(dim); case 2: return std::make_unique<basis::BasisLagrange>(knots); default: if (dim != 6) return std::make_unique<basis::BasisLegendre>(dim); return std::make_unique<basis::Basis0101>(al); } };
    V c = fillv((long)dim * I * cd), L = lensv(I), c2 = fillv(dim); M wp(I + 1, cd); for (int i = 0; i <= I; i++) for (int j = 0; j < cd; j++) wp(i, j) = real(-2, 2, 16); double q = real(-2, 2, 16); D dd(0.0, L.sum());
    std::vector<double> keep;
    try {
      sim::alloc::Scope s;
      switch (kind) {
        case 0: { auto b = basis_of(); V v(dim); for (int i = 0; i < 4; i++) { b->eval_on_window(pts(i) - 1, tau, v); see(v); b->eval_derivative_on_window(pts(i) - 1, tau, 1, v); see(v); b->eval_derivative_wrt_tau_on_window(pts(i) - 1, tau, 1, v); see(v); } see(b->get_derivative_matrix_block(1)); see(M(b->continuity_matrix((size_t)I + 1, (size_t)cd, 1, V::Constant(I + 1, tau)))); break; }
        case 1: { std::unique_ptr<GSpline> g; { auto b = basis_of(); g = std::make_unique<GSpline>(dd, (size_t)cd, (size_t)I, *b, c, L); } V t = pts * (L.sum() / 2); see((*g)(t)); auto e = g->deriv(1); see((*e)(t)); see(g->get_waypoints()); see((*g)(t)); break; }
        case 2: { auto g = std::make_unique<co::GaussLobattoLagrangeSpline>(dd, (size_t)cd, (size_t)I, (size_t)dim, c, L); V t = pts * (L.sum() / 2); see((*g)(t)); auto e = g->deriv(1); see((*e)(t)); see(g->get_domain_discretization()); break; }
        case 3: { auto a = std::make_unique<fn::CanonicPolynomial>(d, c2); fn::FunctionExpression e = (a->to_expression() + fn::Sin(d)) * fn::ConstFunction(d, 1, q); see(e(pts)); see(e.derivate()(pts)); fn::FunctionExpression h = e.compose(fn::Cos(d) + fn::ConstFunction(d, 1, q)); see(h(pts)); break; }
        case 4: { std::unique_ptr<Interpolator> t; { auto b = basis_of(); t = std::make_unique<Interpolator>((size_t)cd, (size_t)I, *b); } V L2 = V::Constant(I, tau); GSpline g = t->interpolate(L2, wp); see(g.get_coefficients()); see(t->get_coeff_derivative_wrt_tau(g.get_coefficients(), L2, 0)); break; }
        case 5: { std::unique_ptr<functional_analysis::SobolevNorm> t; { auto b = basis_of(); t = std::make_unique<functional_analysis::SobolevNorm>(wp, *b, std::vector<std::pair<size_t, double>>{{1, 1.0}}); } V L2 = V::Constant(I, tau), g(I); M v(1, 1); v(0, 0) = (*t)(L2); see(v); t->deriv_wrt_interval_len(L2, g); see(g); break; }
        case 6: { co::GaussLobattoLagrangeSpline g(dd, (size_t)cd, (size_t)I, (size_t)dim, c, L); auto a = std::make_unique<co::Derivative>(g); see((*a)(g)); auto b = std::make_unique<co::TransposeLeftMultiplication>(g); see((*b)(g)); auto e = std::make_unique<co::ContinuityError>(g, (size_t)1); see((*e)(g)); if (cd == 1) { auto i = std::make_unique<co::Integral>(g); see((*i)(g)); } a->update(V::Constant(I, tau)); see((*a)(g)); break; }
        default: { auto a = std::make_unique<fn::CanonicPolynomial>(d, c2); see((*a)(pts)); auto b = std::make_unique<fn::DomainLinearDilation>(d, q); see((*b)(pts)); auto e = a->deriv(1); see((*e)(pts)); auto f = std::make_unique<fn::ConstFunction>(d, c2); see((*f)(pts)); break; }
      }
    } catch (const std::exception&) { sim::alloc::Outside o; double bad = -7e77; sim::observe(&bad, 1); }
  }
}
void play(const Program& p, Mode m) {
  switch (p.which) {
    case 0: run_func(m, p.steps); break;
    case 1: run_spline(m, p.steps); break;
    case 2: run_basis(m, p.steps); break;
    case 3: run_interp(m, p.steps); break;
    case 4: run_cost(m, p.steps); break;
    case 5: run_colloc(m, p.steps); break;
    default: recycle(p.steps); break;
  }
}
// ---------------------------------------------------------------- C02
// First the whole program with no fault (what goes wrong then is not C02's),
// then again with every failure point of every operation tried in turn.
void c02() {
  Program p; p.which = draw_w({6, 6, 2, 3, 2, 2}); p.steps = p.which == 3 || p.which == 4 ? 3 : 5;
  sim::logf("program on %s", NAMES[p.which]); sim::probe(NAMES[p.which]);
  uint32_t at = sim::tape_mark();
  sim::foreign(true); sim::alloc::g_dry = true;
  try { play(p, ENUM); } catch (sim::StopRun&) { return; }
  sim::foreign(false); sim::alloc::g_dry = false;
  sim::logf("again, failing at every point");
  sim::tape_play(at); play(p, ENUM); sim::tape_stop();
}
// ---------------------------------------------------------------- C03
void c03() {
  Program p; p.which = draw_w({6, 5, 2, 3, 2, 2}); p.steps = p.which == 3 || p.which == 4 ? 5 : 8;
  bool every = chance(1, 3); if (every) p.steps = 3;
  sim::logf("program on %s, repeated", NAMES[p.which]); sim::probe(NAMES[p.which]);
  sim::foreign(true);
  uint32_t at = sim::tape_mark(); int64_t live[6], bytes[6]; const int N = 5;
  for (int r = 0; r < N; r++) {
    if (r) sim::tape_play(at);
    bool stop = false;
    try { play(p, every ? ENUM : SOME); } catch (sim::StopRun&) { stop = true; }
    if (stop) { sim::tape_stop(); return; }
    live[r] = sim::alloc::live(); bytes[r] = sim::alloc::live_bytes();
    sim::logf("repetition %d: %lld blocks held", r, (long long)live[r]);
  }
  sim::tape_stop();
  sim::foreign(false); sim::nontrivial(); sim::probe("programs-repeated");
  bool grows = true; for (int r = 2; r < N; r++) grows &= live[r] > live[r - 1] && bytes[r] > bytes[r - 1];
  if (grows) sim::violation("leak", "each repetition of a program on %s with the same failures leaves %lld more blocks (%lld bytes) behind", NAMES[p.which], (long long)(live[N - 1] - live[N - 2]), (long long)(bytes[N - 1] - bytes[N - 2]));
}
// ---------------------------------------------------------------- C12
void c12() {
  Program p; p.which = draw_w({5, 5, 3, 4, 3, 3, 6}); p.steps = p.which == 3 || p.which == 4 ? 7 : p.which == 6 ? 5 : 12;
  sim::logf("program on %s under different memory", NAMES[p.which]); sim::probe(NAMES[p.which]);
  uint32_t fillseed = draw(1000), order = draw(3); bool other = chance(1, 3); Program q; q.which = 0; q.steps = 4; if (other) q.which = draw(6);
  uint32_t at = sim::tape_mark(); std::vector<double> base;
  const int fills[3][3] = {{1, 2, 3}, {2, 3, 1}, {3, 1, 2}}; const char* F[] = {"zeros", "NaNs", "large rubbish", "plausible rubbish"};
  std::string end0;
  for (int v = 0; v < 4; v++) {
    std::vector<double> got; std::string end = "end";
    int fill = v == 0 ? 0 : fills[order][v - 1];
    sim::alloc::set_fill(fill, fillseed + v); sim::alloc::set_padding(v > 1, fillseed * 7 + v); sim::alloc::set_placement(v == 1 || v == 3 ? 2 - (int)((fillseed + v) & 1) : 0, v == 1 || (v == 2 && (fillseed & 2)));
    if (v == 3 && other) {      // unrelated activity first
      // runs on choices of its own: the ones after the program
      uint32_t end_of = sim::tape_mark(); (void)end_of;
      sim::foreign(true); sim::tape_play(at + 1 + fillseed % 7); try { play(q, NONE); } catch (sim::StopRun&) {} sim::tape_stop(); sim::fault("unrelated-activity");
    }
    // only differences between the variants are judged: what every variant does is another property's
    sim::foreign(true);
    sim::observe_into(&got);
    if (v) sim::tape_play(at);
    try { play(p, NONE); } catch (sim::StopRun& s) { end = s.cls; }
    if (v) sim::tape_stop();
    sim::observe_into(nullptr); sim::foreign(false);
    sim::fault(v == 0 ? "fresh-memory-zero" : fill == 1 ? "fresh-memory-nan" : "fresh-memory-rubbish"); if (v > 1) sim::fault("blocks-moved"); if (v & 1) sim::fault("blocks-not-recycled-at-once");
    if (v == 0) { base.swap(got); end0 = end; continue; }
    size_t n = std::min(base.size(), got.size());
    for (size_t i = 0; i < n; i++) {
      double a = base[i], b = got[i];
      if (a == b || (a != a && b != b)) continue;
      if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a)))) sim::violation("memory-dependent", "program on %s: value %zu is %.15g when fresh memory holds zeros and %.15g when it holds %s", NAMES[p.which], i, a, b, F[fill]);
    }
    if (base.size() != got.size() || end != end0) sim::violation("memory-dependent", "program on %s: it takes another course when fresh memory holds %s (%zu instead of %zu values)", NAMES[p.which], F[fill], got.size(), base.size());
  }
  sim::probe("values-compared", base.size()); if (!base.empty()) sim::nontrivial();
}
}  // namespace
static sim::Reg r02("C02", c02), r03("C03", c03), r12("C12", c12);
// ---------------------------------------------------------------- C13
namespace rnd {
uint32_t policy = 0; uint64_t state = 1; bool active = false; uint64_t used = 0; int fail_at = 0; int last = 0;
static uint64_t next() { state = state * 6364136223846793005ull + 1442695040888963407ull; uint64_t x = state; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; return x ^ (x >> 29); }
int value() {
  ++used;
  switch (policy) {
    case 0: return (int)(next() >> 33);
    case 1: return 0;
    case 2: return RAND_MAX;
    case 3: return last = last ? 0 : RAND_MAX;
    case 4: return RAND_MAX / 2 + (int)(next() % 3) - 1;
    case 5: return next() % 5 ? 0 : RAND_MAX;
    case 6: return next() % 5 ? RAND_MAX : 0;
    default: return (int)(next() % 4) * (RAND_MAX / 3);
  }
}
}  // namespace rnd
namespace {
void c13() {
  int calls = 1 + (int)draw(4); Mode m = chance(1, 3) ? SOME : NONE;
  for (int call = 0; call < calls; call++) {
    sim::Span sp; sim::steps(1);
    std::unique_ptr<basis::Basis> b; int kind = (int)draw_w({3, 2, 2, 1}), dim = 6; char t[64];
    if (kind == 0) snprintf(t, sizeof t, "default basis"); else if (kind == 1) { dim = 2 + 2 * (int)draw(4); b = std::make_unique<basis::BasisLegendre>(dim); snprintf(t, sizeof t, "legendre(%d)", dim); }
    else if (kind == 2) { dim = 4 + 2 * (int)draw(2); b = std::make_unique<basis::BasisLagrangeGaussLobatto>(dim); snprintf(t, sizeof t, "gauss-lobatto(%d)", dim); }
    else { b = std::make_unique<basis::Basis0101>(real(0.1, 0.9, 8)); snprintf(t, sizeof t, "basis0101"); }
    double lo = real(-20, 20, 40), len = chance(1, 5) ? real(0.05, 30, 600) : real(0.5, 8, 30); if (kind != 3 && chance(1, 10)) len = std::vector<double>{2e-2, 5e-3, 1e-3, 2e-4}[draw(4)]; if (kind == 3 && len > 8) len = 8;
    std::pair<double, double> dom{lo, lo + len}; size_t cd = chance(1, 8) ? 5 + draw(4) : 1 + draw(4);
    rnd::policy = draw(8); rnd::state = draw(1u << 30); rnd::last = 0; rnd::used = 0; rnd::fail_at = chance(1, 8) ? 1 : 0;
    bool fail = rnd::fail_at; rnd::active = true;
    std::unique_ptr<GSpline> s;
    auto run = [&] { s.reset(); s = std::make_unique<GSpline>(kind == 0 ? random_gspline(dom, cd) : random_gspline(dom, cd, *b)); };
    Outcome o = attempt(m, false, run, [] {});
    rnd::active = false; static const char* P[] = {"random", "all lowest", "all highest", "alternating extremes", "all middle", "mostly lowest", "mostly highest", "few values"};
    sim::logf("random spline on [%g,%g] dim %zu %s, source %s%s -> %s", dom.first, dom.second, cd, t, P[rnd::policy], fail ? " (failing)" : "", o.failed ? "failed" : "ok");
    if (fail) { if (o.failed) sim::fault("random-source-fails"); else sim::probe("random-source-not-consulted"); }
    sim::fault(std::string("random-source-").append(P[rnd::policy]).c_str());
    if (o.failed) { if (!o.fired && !fail) sim::violation("request-failed", "random spline on [%g,%g], dimension %zu, %s failed: %s", dom.first, dom.second, cd, t, o.what.c_str()); continue; }
    sim::nontrivial(); sim::probe("splines");
    char w[160]; snprintf(w, sizeof w, "random spline on [%g,%g], dimension %zu, %s", dom.first, dom.second, cd, t);
    auto d = s->get_domain();
    if (d.first != dom.first || d.second != dom.second) sim::violation("wrong-random-spline", "%s has domain [%.17g,%.17g]", w, d.first, d.second);
    if (s->get_codom_dim() != cd) sim::violation("wrong-random-spline", "%s has dimension %zu", w, s->get_codom_dim());
    if (kind ? !(s->get_basis() == *b) : !(s->get_basis() == basis::BasisLegendre(6))) sim::violation("wrong-random-spline", "%s has basis %s of dimension %zu", w, s->get_basis_name().c_str(), s->get_basis().get_dim());
    size_t n = s->get_number_of_intervals(); if (n < 2 || n > 10) sim::violation("wrong-random-spline", "%s has %zu intervals", w, n);
    sim::feature(sim::mix(n, sim::mix(kind * 16 + dim, rnd::policy)));
    Eigen::VectorXd tau = s->get_interval_lengths(); double sum = 0;
    if ((size_t)tau.size() != n) sim::violation("wrong-random-spline", "%s has %ld lengths for %zu intervals", w, (long)tau.size(), n);
    for (size_t i = 0; i < n; i++) { if (!(tau((long)i) > 0) || !std::isfinite(tau((long)i))) sim::violation("wrong-random-spline", "%s: interval length %zu is %g", w, i, tau((long)i)); sum += tau((long)i); }
    if (!(std::fabs(sum - len) <= 1e-9 * (1 + len))) sim::violation("wrong-random-spline", "%s: lengths add up to %.15g", w, sum);
    Eigen::VectorXd c = s->get_coefficients(); if ((size_t)c.size() != n * cd * (size_t)dim) sim::violation("wrong-random-spline", "%s has %ld coefficients", w, (long)c.size());
    double top = 0; for (long i = 0; i < c.size(); i++) { if (!std::isfinite(c(i))) sim::violation("wrong-random-spline", "%s: coefficient %ld is not finite", w, i); top = std::max(top, std::fabs(c(i))); }
    // the waypoints are the values at the breakpoints
    Eigen::MatrixXd wp = s->get_waypoints(); if ((size_t)wp.rows() != n + 1 || (size_t)wp.cols() != cd) sim::violation("wrong-random-spline", "%s: %ldx%ld waypoints", w, (long)wp.rows(), (long)wp.cols());
    for (long i = 0; i < wp.rows(); i++) for (long k = 0; k < wp.cols(); k++) if (!(std::fabs(wp(i, k)) <= 3 + 1e-8 * (1 + top) * dim)) sim::violation("wrong-random-spline", "%s: waypoint %ld component %ld is %g", w, i, k, wp(i, k));
    Eigen::VectorXd ts = Eigen::VectorXd::LinSpaced(11, d.first, d.second); Eigen::MatrixXd v = (*s)(ts);
    for (long i = 0; i < v.size(); i++) if (!std::isfinite(v.data()[i])) sim::violation("wrong-random-spline", "%s has a value that is not finite", w);
    // between waypoints the spline is the smooth one: it meets the conditions of an interpolant
    ref::Problem q; q.m.kind = kind == 2 ? 1 : kind == 3 ? 2 : 0; q.m.dim = dim; if (kind == 2) q.m.pts = gll_nodes(dim); if (kind == 3) q.m.alpha = s->get_basis().get_parameters()(0); q.cd = (int)cd;
    for (size_t i = 0; i < n; i++) q.tau.push_back(tau((long)i));
    for (long i = 0; i < wp.rows(); i++) { std::vector<double> r; for (size_t k = 0; k < cd; k++) r.push_back(wp(i, (long)k)); q.wp.push_back(r); }
    std::string which; std::vector<double> cs(c.data(), c.data() + c.size()); LD r = q.residual(cs, &which); if (!(r <= 10)) sim::violation("wrong-random-spline", "%s: %s", w, which.c_str());
    sim::observe(c.data(), c.size());
  }
}
}  // namespace
static sim::Reg r13("C13", c13);
}  // namespace ww
// the random source behind std::random_device and std::rand
extern "C" {
int __real_rand();
int __wrap_rand() { return ww::rnd::active ? ww::rnd::value() : 4; }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) {
  if (ww::rnd::active && ww::rnd::fail_at && --ww::rnd::fail_at == 0) throw std::runtime_error("random_device could not be read");
  return ww::rnd::active ? (unsigned)ww::rnd::next() : 4u;
}
}
