// Interpolator and path-cost worlds: seeded sequences of requests on long-lived
// interpolators (C04) and cost objects (C05), with refused, singular and failed
// requests in between.
#include "ref.hpp"
#include "world.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Interpolator.hpp>
using namespace gsplines;
using sim::draw; using sim::draw_w; using sim::chance; using sim::real;
typedef long double LD;
namespace ww {
namespace {
// a user-supplied basis: Legendre polynomials whose last one vanishes on
// intervals longer than a limit, so that interpolating there is impossible; it
// may also fail
struct UserBasis : basis::BasisLegendre {
  double limit;
  UserBasis(std::size_t d, double l) : basis::BasisLegendre(d), limit(l) {}
  UserBasis(const UserBasis& o) : basis::BasisLegendre(o), limit(o.limit) { fw::user_tick(); }
  typedef Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> Out;
  void cut(double tau, Out& b) const { fw::user_tick(); if (tau > limit) b(b.size() - 1) = 0; }
  void eval_on_window(double s, double tau, Out b) const override { basis::BasisLegendre::eval_on_window(s, tau, b); cut(tau, b); }
  void eval_derivative_on_window(double s, double tau, unsigned int k, Out b) const override { basis::BasisLegendre::eval_derivative_on_window(s, tau, k, b); cut(tau, b); }
  void eval_derivative_wrt_tau_on_window(double s, double tau, unsigned int k, Out b) const override { basis::BasisLegendre::eval_derivative_wrt_tau_on_window(s, tau, k, b); cut(tau, b); }
  std::unique_ptr<basis::Basis> clone() const override { return std::make_unique<UserBasis>(*this); }
  std::unique_ptr<basis::Basis> move_clone() override { return std::make_unique<UserBasis>(*this); }
};
struct Made { std::unique_ptr<basis::Basis> b; model::BasisM m; std::string txt; double limit = 1e9; };
Made make_basis(bool user_ok, bool wide = false) {
  Made r; char t[64]; uint32_t k = draw_w({4, 3, 2, user_ok ? 2u : 0u});
  if (k == 0) { r.m.kind = 0; r.m.dim = 2 + 2 * (int)draw_w({1, 3, 3, 1, wide ? 2u : 0u}); r.b = std::make_unique<basis::BasisLegendre>(r.m.dim); snprintf(t, sizeof t, "legendre(%d)", r.m.dim); }
  else if (k == 1) { r.m.kind = 1; r.m.dim = 4 + 2 * (int)draw(2); r.m.pts = gll_nodes(r.m.dim); r.b = std::make_unique<basis::BasisLagrangeGaussLobatto>(r.m.dim); snprintf(t, sizeof t, "gauss-lobatto(%d)", r.m.dim); }
  else if (k == 2) { r.m.kind = 2; r.m.dim = 6; r.m.alpha = real(0.1, 0.9, 8); r.b = std::make_unique<basis::Basis0101>(r.m.alpha); snprintf(t, sizeof t, "basis0101(%g)", r.m.alpha); }
  else { r.m.kind = 0; r.m.dim = 4; r.limit = 1.5; r.b = std::make_unique<UserBasis>(4, 1.5); snprintf(t, sizeof t, "user basis"); }
  r.txt = t; return r;
}
std::vector<double> lengths(int n) {
  std::vector<double> t; bool wide = chance(1, 6); for (int i = 0; i < n; i++) t.push_back(wide ? real(0.05, 4, 63) : real(0.3, 2, 17)); return t; }
std::vector<std::vector<double>> points(int n, int cd) { std::vector<std::vector<double>> w(n + 1); for (auto& r : w) for (int k = 0; k < cd; k++) r.push_back(real(-2, 2, 16)); return w; }
Eigen::VectorXd vec(const std::vector<double>& v) { Eigen::VectorXd r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
Eigen::MatrixXd mat(const std::vector<std::vector<double>>& w, long cols) { Eigen::MatrixXd r(w.size(), cols); for (size_t i = 0; i < w.size(); i++) for (long k = 0; k < cols; k++) r(i, k) = k < (long)w[i].size() ? w[i][k] : 0.5; return r; }
std::vector<double> stdv(const Eigen::VectorXd& v) { return std::vector<double>(v.data(), v.data() + v.size()); }

// ------------------------------------------------------------------ C04
struct Interp { std::unique_ptr<Interpolator> p; Made b; int n = 1, cd = 1; std::vector<double> tau; std::vector<std::vector<double>> wp; };
struct Result { std::unique_ptr<GSpline> s; ref::Problem q; };
struct IWorld {
  Mode mode; bool wide; std::vector<Interp> pool; std::vector<Result> kept;
  explicit IWorld(Mode m) : mode(m), wide(wide_run(m)) {}
  void make() {
    Interp x; x.b = make_basis(true, wide); x.n = 1 + (wide && chance(1, 2) ? 5 + (int)draw(12) : (int)draw_w({1, 2, 3, 2, 1})); x.cd = 1 + (int)draw(wide ? 7 : 3);
    bool bad = chance(1, 12); int what = bad ? (int)draw(3) : 0;
    Outcome o = attempt(mode, x.b.limit < 1e8, [&] {
      if (bad && what == 0) { basis::BasisLegendre odd(5); x.p = std::make_unique<Interpolator>(x.cd, x.n, odd); }
      else x.p = std::make_unique<Interpolator>(bad && what == 1 ? 0 : x.cd, bad && what == 2 ? 0 : x.n, *x.b.b); }, [] {});
    sim::logf("new #%zu: %s, %d intervals, dim %d%s%s", pool.size(), x.b.txt.c_str(), x.n, x.cd, bad ? " (bad)" : "", o.failed ? " failed" : "");
    if (bad) { sim::fault("refused-operands"); if (!o.failed && what == 0) sim::violation("refused-accepted", "an interpolator with an odd basis was accepted"); return; }
    if (o.failed) { if (!o.fired) sim::violation("request-failed", "making an interpolator failed: %s", o.what.c_str()); return; }
    if (chance(1, 2)) x.b.b.reset();                 // the interpolator keeps its own basis
    if (pool.size() < 3) pool.push_back(std::move(x)); else pool[draw(3)] = std::move(x);
  }
  void judge(const ref::Problem& q, const std::vector<double>& c, const char* what) {
    size_t want = (size_t)q.n() * q.cd * q.m.dim; if (c.size() != want) sim::violation("wrong-interpolant", "%s: %zu coefficients instead of %zu", what, c.size(), want);
    std::string w; LD r = q.residual(c, &w); if (!(r <= 1)) sim::violation("wrong-interpolant", "%s: %s", what, w.c_str());
  }
  void judge_spline(const GSpline& s, const ref::Problem& q, const char* what) {
    double T = 0; for (double x : q.tau) T += x;
    auto d = s.get_domain();
    if (d.first != 0 || !(std::fabs(d.second - T) <= 1e-12 * (1 + T))) sim::violation("wrong-interpolant", "%s: domain [%g,%g], requested [0,%g]", what, d.first, d.second, T);
    if ((int)s.get_codom_dim() != q.cd || (int)s.get_number_of_intervals() != q.n()) sim::violation("wrong-interpolant", "%s: shape", what);
    auto L = s.get_interval_lengths(); for (int i = 0; i < q.n(); i++) if (L(i) != q.tau[i]) sim::violation("wrong-interpolant", "%s: length %d is %g, requested %g", what, i, L(i), q.tau[i]);
    auto c = stdv(s.get_coefficients()); sim::observe(c.data(), c.size()); judge(q, c, what);
    Eigen::VectorXd t(2 * q.n()); double x = 0; for (int i = 0; i < q.n(); i++) { t(2 * i) = x + 0.25 * q.tau[i]; t(2 * i + 1) = x + 0.8 * q.tau[i]; x += q.tau[i]; }
    Eigen::MatrixXd v = s(t); x = 0;
    for (int i = 0; i < q.n(); i++) { for (int h = 0; h < 2; h++) { std::vector<LD> sc; auto b = ref::deriv(q.m, 2 * (t(2 * i + h) - x) / q.tau[i] - 1, q.tau[i], 0, &sc); for (int k = 0; k < q.cd; k++) { LD y = 0, g = 1; for (int j = 0; j < q.m.dim; j++) { y += b[j] * c[q.at(i, k, j)]; g += model::ab(b[j] * c[q.at(i, k, j)]); } if (!(model::ab(y - v(2 * i + h, k)) <= 1e-7L * g)) sim::violation("wrong-interpolant", "%s: value at %g is %.12g, should be %.12Lg", what, t(2 * i + h), v(2 * i + h, k), y); } } x += q.tau[i]; }
  }
  void request(size_t i) {
    Interp& x = pool[i]; ref::Problem q; q.m = x.b.m; q.cd = x.cd; q.tau = vary(x.tau, lengths(x.n)); q.wp = points(x.n, x.cd); if (x.wp.size() == q.wp.size() && chance(1, 2)) { auto w = x.wp; if (chance(2, 3)) { size_t r = draw((uint32_t)w.size()); w[r] = vary(w[r], q.wp[r]); } q.wp = w; }
    if (x.b.limit < 1e8 && !chance(1, 4)) for (auto& t : q.tau) if (t > x.b.limit) t = x.b.limit - 0.25;
    x.tau = q.tau; x.wp = q.wp; bool singular = false; for (double t : q.tau) singular |= t > x.b.limit;
    uint32_t kind = draw_w({4, 4, 5}), bad = chance(1, 4) ? 1 + draw(7) : 0; int idx = (int)draw((uint32_t)x.n);
    Eigen::VectorXd tau = vec(q.tau); long cols = x.cd; Eigen::MatrixXd wp = mat(q.wp, cols); Eigen::VectorXd coeff;
    // data the request is refused for
    const char* N[] = {"", " (length too short)", " (negative length)", " (NaN length)", " (wrong number of lengths)", " (wrong waypoints)", " (index out of range)", " (NaN waypoint)"};
    if (bad == 1) tau(idx) = 1e-8; if (bad == 2) tau(idx) = -tau(idx); if (bad == 3) tau(idx) = NAN;
    if (bad == 4) { Eigen::VectorXd t2 = Eigen::VectorXd::Constant(x.n + 1, 0.5); tau = t2; }
    if (bad == 5) { if (kind == 2) coeff = Eigen::VectorXd::Ones(3); else wp = Eigen::MatrixXd::Ones(x.n + 1 + chance(1, 2), x.cd + 1); }
    if (bad == 6) { if (kind == 2) idx = x.n + (int)draw(3); else bad = 0; }
    if (bad == 7) { if (kind == 2) bad = 0; else wp(draw(x.n + 1), 0) = NAN; }
    if (kind == 2 && bad != 5) {
      std::vector<double> c; if (chance(1, 3)) for (size_t k = 0; k < (size_t)x.n * x.cd * x.b.m.dim; k++) c.push_back(((k * 7 + 3) % 11) / 5.0 - 1);
      else { std::vector<LD> lc; if (!q.coefficients(lc)) return; for (LD v : lc) c.push_back((double)v); }
      coeff = vec(c);
    }
    bool user = x.b.limit < 1e8;
    auto go = [&](Mode md, const char* when) -> bool {
      Eigen::VectorXd got; std::unique_ptr<GSpline> sp;
      Outcome o = attempt(md, user, [&] {
        if (kind == 0) sp = std::make_unique<GSpline>(x.p->interpolate(tau, wp));
        else if (kind == 1) { auto r = x.p->solve_interpolation(tau, wp); sim::alloc::Outside out; got = r; }
        else { auto r = x.p->get_coeff_derivative_wrt_tau(coeff, tau, (size_t)idx); sim::alloc::Outside out; got = r; } }, [] {});
      const char* K[] = {"interpolation", "coefficients", "sensitivity"};
      char w[120]; snprintf(w, sizeof w, "%s%s of #%zu (%s, %d intervals, dim %d)", when, K[kind], i, x.b.txt.c_str(), x.n, x.cd);
      sim::logf("%s%s -> %s", w, N[bad], o.failed ? o.fired ? "failed" : "refused" : "ok");
      if (bad || singular) {
        sim::fault(singular ? "singular-request" : "refused-operands");
        if (!o.failed && bad != 7) sim::violation("refused-accepted", "%s%s was accepted%s", w, N[bad], singular ? " although no interpolant exists" : "");
        return true;
      }
      if (o.failed) { if (!o.fired) sim::violation("request-failed", "%s failed: %s", w, o.what.c_str()); return false; }
      sim::nontrivial(); sim::probe(K[kind]);
      if (kind == 0) { judge_spline(*sp, q, w); if (kept.size() < 4) { kept.push_back(Result{std::move(sp), q}); } }
      else if (kind == 1) { sim::observe(got.data(), got.size()); judge(q, stdv(got), w); }
      else { sim::observe(got.data(), got.size()); std::string d; auto c = stdv(coeff), dc = stdv(got); if (c.size() != dc.size()) sim::violation("wrong-sensitivity", "%s: %zu coefficients", w, dc.size()); LD r = q.sensitivity_residual(c, dc, idx, &d); if (!(r <= 1)) sim::violation("wrong-sensitivity", "%s with respect to length %d: %s", w, idx, d.c_str()); }
      return true;
    };
    sim::feature(sim::mix(sim::mix(kind, bad), sim::mix(x.n * 4 + x.cd, x.b.m.kind * 32 + x.b.m.dim + singular * 16)));
    if (!go(mode, "")) go(NONE, "repeated after a failure: ");
  }
  void free_request() {
    ref::Problem q; Made b = make_basis(false); q.m = b.m; q.cd = 1 + (int)draw(3); int n = 1 + (int)draw(4); q.tau = lengths(n); q.wp = points(n, q.cd);
    Eigen::VectorXd tau = vec(q.tau); Eigen::MatrixXd wp = mat(q.wp, q.cd); bool pw = b.m.kind == 0; bool bad = chance(1, 8); if (bad) wp = Eigen::MatrixXd::Ones(draw(2), q.cd);
    auto go = [&](Mode md) -> bool {
      std::unique_ptr<GSpline> sp;
      Outcome o = attempt(md, false, [&] { sp = std::make_unique<GSpline>(pw ? pw_polynomial_interpolation(tau, wp, (size_t)b.m.dim) : interpolate(tau, wp, *b.b)); }, [] {});
      sim::logf("free interpolation %s n=%d%s -> %s", b.txt.c_str(), n, bad ? " (too few waypoints)" : "", o.failed ? "failed" : "ok");
      if (bad) { sim::fault("refused-operands"); if (!o.failed) sim::violation("refused-accepted", "interpolation with fewer than two waypoints was accepted"); return true; }
      if (o.failed) { if (!o.fired) sim::violation("request-failed", "interpolation failed: %s", o.what.c_str()); return false; }
      sim::nontrivial(); judge_spline(*sp, q, "free interpolation"); return true; };
    if (!go(mode)) go(NONE);
  }
  void run(int steps) {
    make(); if (pool.empty()) make();
    for (int i = 0; i < steps; i++) {
      sim::Span sp; sim::steps(1);
      if (pool.empty() || chance(1, 10)) { make(); continue; }
      if (chance(1, 12)) { free_request(); continue; }
      request(draw((uint32_t)pool.size()));
    }
    for (auto& k : kept) judge_spline(*k.s, k.q, "an earlier interpolant at the end of the history");
    pool.clear();
    for (auto& k : kept) judge_spline(*k.s, k.q, "an earlier interpolant after its interpolator is gone");
  }
};
// ------------------------------------------------------------------ C05
struct CostObj { std::unique_ptr<functional_analysis::SobolevNorm> p; Made b; ref::Problem q; ref::Weights w; };
struct CWorld {
  Mode mode; bool wide; std::vector<CostObj> pool;
  explicit CWorld(Mode m) : mode(m), wide(wide_run(m)) {}
  void make() {
    CostObj x; x.b = make_basis(true); int n = 1 + (wide && chance(1, 2) ? 4 + (int)draw(6) : (int)draw_w({2, 3, 2, 1})); x.q.m = x.b.m; x.q.cd = 1 + (int)draw(wide ? 6 : 3); x.q.wp = points(n, x.q.cd); x.q.tau.assign(n, 1.0);
    int nt = 1 + (int)draw(3); for (int i = 0; i < nt; i++) x.w.push_back({x.b.m.kind == 2 ? (chance(1, 4) ? draw(4) : 1 + 2 * draw(2)) : draw((uint32_t)std::min(5, x.b.m.dim) + (chance(1, 8) ? 2 : 0)), chance(1, 6) ? real(-2, 0, 8) : real(0.25, 3, 11)});
    if (chance(1, 6)) x.w.push_back(x.w[0]);        // the same order twice
    Eigen::MatrixXd wp = mat(x.q.wp, x.q.cd); bool bad = chance(1, 12); if (bad) wp = Eigen::MatrixXd::Ones(draw(2), x.q.cd);
    Outcome o = attempt(mode, x.b.limit < 1e8, [&] { x.p = std::make_unique<functional_analysis::SobolevNorm>(wp, *x.b.b, x.w); }, [] {});
    std::string ws; for (auto& t : x.w) ws += " " + std::to_string(t.first) + ":" + std::to_string(t.second).substr(0, 4);
    sim::logf("new cost #%zu: %s, %d intervals, dim %d, weights%s%s%s", pool.size(), x.b.txt.c_str(), n, x.q.cd, ws.c_str(), bad ? " (bad)" : "", o.failed ? " failed" : "");
    if (bad) { sim::fault("refused-operands"); return; }
    if (o.failed) { if (!o.fired) sim::violation("request-failed", "making a cost failed: %s", o.what.c_str()); return; }
    wp.setConstant(1e3);                            // the cost keeps its own waypoints
    if (chance(1, 2)) x.b.b.reset();
    if (pool.size() < 3) pool.push_back(std::move(x)); else pool[draw(3)] = std::move(x);
  }
  void request(size_t i) {
    CostObj& x = pool[i]; int n = x.q.n(); x.q.tau = vary(x.q.tau, lengths(n)); if (x.b.limit < 1e8 && !chance(1, 4)) for (auto& t : x.q.tau) if (t > x.b.limit) t = x.b.limit - 0.25;
    bool singular = false; for (double t : x.q.tau) singular |= t > x.b.limit;
    bool grad = chance(1, 2), twice = chance(1, 5); uint32_t bad = chance(1, 4) ? 1 + draw(5) : 0; uint32_t k = draw((uint32_t)n);
    Eigen::VectorXd tau = vec(x.q.tau), buff = Eigen::VectorXd::Constant(n, 77.0);
    if (bad == 1) tau(k) = 1e-8; if (bad == 2) tau(k) = -1; if (bad == 3) tau(k) = NAN; if (bad == 4) { Eigen::VectorXd t2 = Eigen::VectorXd::Constant(n + 1, 0.5); tau = t2; }
    if (bad == 5) { if (grad) { Eigen::VectorXd b2 = Eigen::VectorXd::Constant(n == 1 || chance(1, 2) ? n + 1 : n - 1, 0.5); buff = b2; } else bad = 0; }
    // some gradients of this basis are not available
    bool maybe = false; if (x.b.m.kind == 2 && grad) for (auto& t : x.w) if (t.first != 1 && t.first != 3) maybe = true;
    bool user = x.b.limit < 1e8;
    auto go = [&](Mode md, const char* when, bool g) -> bool {
      double v = 0;
      Outcome o = attempt(md, user, [&] { if (g) x.p->deriv_wrt_interval_len(tau, buff); else v = (*x.p)(tau); }, [] {});
      char w[120]; snprintf(w, sizeof w, "%s%s of #%zu (%s, %d intervals, dim %d)", when, g ? "gradient" : "cost", i, x.b.txt.c_str(), n, x.q.cd);
      sim::logf("%s%s -> %s", w, bad ? " (bad)" : singular ? " (singular)" : "", o.failed ? o.fired ? "failed" : "refused" : "ok");
      if (bad || singular) { sim::fault(bad ? "refused-operands" : "singular-request"); if (!o.failed && !(bad == 5 && !g)) sim::violation("refused-accepted", "%s was accepted for %s", w, bad ? "unusable data" : "lengths that have no interpolant"); return true; }
      if (o.failed) { if (o.fired) return false; if (maybe && g) { sim::fault("refused-operands"); return true; } sim::violation("request-failed", "%s failed: %s", w, o.what.c_str()); }
      ref::Cost c; if (!ref::cost(x.q, x.w, c)) { sim::probe("reference-undecided"); return true; }
      sim::nontrivial(); sim::probe(g ? "gradient" : "cost");
      if (!g) { sim::observe(&v, 1); if (!(model::ab(v - c.value) <= 1e-7L * (1 + c.scale))) sim::violation("wrong-cost", "%s is %.12g, should be %.12Lg", w, v, c.value); }
      else { sim::observe(buff.data(), buff.size()); for (int q = 0; q < n; q++) if (!(model::ab(buff(q) - c.grad[q]) <= 1e-7L * (1 + c.gscale[q] + c.scale))) sim::violation("wrong-gradient", "%s: component %d is %.12g, should be %.12Lg", w, q, buff(q), c.grad[q]); }
      return true;
    };
    sim::feature(sim::mix(sim::mix(grad * 8 + bad, x.w.size() * 64 + x.w[0].first), sim::mix(n * 4 + x.q.cd, x.b.m.kind * 32 + x.b.m.dim + singular * 16)));
    if (!go(mode, "", grad)) go(NONE, "repeated after a failure: ", grad);
    if (twice && bad != 5) go(NONE, "then ", !grad && !(x.b.m.kind == 2));
  }
  void run(int steps) {
    make(); if (pool.empty()) make();
    for (int i = 0; i < steps; i++) {
      sim::Span sp; sim::steps(1);
      if (pool.empty() || chance(1, 10)) { make(); continue; }
      request(draw((uint32_t)pool.size()));
    }
  }
};
}  // namespace
void run_interp(Mode m, int steps) { IWorld w(m); w.run(2 + (int)draw(w.wide ? 3 * steps : steps)); }
void run_cost(Mode m, int steps) { CWorld w(m); w.run(2 + (int)draw(w.wide ? 3 * steps : steps)); }
static void c04() { Mode m = chance(1, 2) ? SOME : NONE; run_interp(m, 16); }
static void c05() { Mode m = chance(1, 2) ? SOME : NONE; run_cost(m, 12); }
static sim::Reg r04("C04", c04), r05("C05", c05);
}  // namespace ww
