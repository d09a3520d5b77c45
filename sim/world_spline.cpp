// Spline world: seeded histories over GSpline and GaussLobattoLagrangeSpline,
// compared with pointwise arithmetic (C11), and as a source of programs for
// C02, C03 and C12.
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
using namespace gsplines;
using gsplines::collocation::GaussLobattoLagrangeSpline;
using gsplines::functions::FunctionBase;
using sim::draw; using sim::draw_w; using sim::chance; using sim::real;
typedef GaussLobattoLagrangeSpline GLL;

namespace ww {
std::vector<double> gll_nodes(int n) {
  // roots of P'_{n-1}: between consecutive roots of P_{n-1}; simple bisection on a fine grid
  typedef long double LD;
  auto dp = [n](LD x) { LD p0 = 1, p1 = x, d0 = 0, d1 = 1; if (n - 1 == 0) return (LD)0; for (int k = 1; k < n - 1; k++) { LD p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1), d2 = d0 + (2 * k + 1) * p1; p0 = p1; p1 = p2; d0 = d1; d1 = d2; } return d1; };
  std::vector<double> r{-1.0};
  const int G = 4000; LD a = -1 + 1e-9L, fa = dp(a);
  for (int i = 1; i <= G && n > 2; i++) {
    LD b = -1 + 1e-9L + (2 - 2e-9L) * i / G, fb = dp(b);
    if ((fa < 0) != (fb < 0)) { LD l = a, h = b, fl = fa; for (int q = 0; q < 80; q++) { LD m = (l + h) / 2, fm = dp(m); if ((fm < 0) == (fl < 0)) { l = m; fl = fm; } else h = m; } r.push_back((double)((l + h) / 2)); }
    a = b; fa = fb;
  }
  r.push_back(1.0);
  if (n % 2 == 1 && n > 2) r[n / 2] = 0.0;
  return r;
}
static const std::vector<double>& nodes_cached(int n) {
  static std::vector<double> c[16]; if (c[n].empty()) c[n] = gll_nodes(n); return c[n];
}
namespace {
struct S {
  std::unique_ptr<GSpline> g; std::unique_ptr<GLL> l;
  model::P m; model::BasisM b; int codim = 1; std::vector<double> tau; double lo = 0, hi = 1; int ord = 0; std::string txt;
  const GSplineBase& base() const { return g ? static_cast<const GSplineBase&>(*g) : *l; }
  const model::Spline& nodal() const { return static_cast<const model::Spline&>(*m); }
};
enum Yes { NO, MAYBE, YES };
Yes both(Yes a, Yes b) { return std::min(a, b); }
Yes close(double a, double b) { double d = std::fabs(a - b); return d < 1e-12 * (1 + std::fabs(a)) ? YES : d > 1e-4 ? NO : MAYBE; }
Yes close(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return NO; Yes r = YES; for (size_t i = 0; i < a.size(); i++) r = both(r, close(a[i], b[i])); return r; }
Yes same_basis(const model::BasisM& a, const model::BasisM& b) { if (a.kind != b.kind || a.dim != b.dim) return NO; if (a.kind == 2) return close(a.alpha, b.alpha); if (a.kind == 1) return close(a.pts, b.pts); return YES; }
Yes same_dom(const S& a, const S& b) { return both(close(a.lo, b.lo), close(a.hi, b.hi)); }
Yes same_space(const S& a, const S& b) { if (a.codim != b.codim) return NO; return both(both(same_basis(a.b, b.b), same_dom(a, b)), close(a.tau, b.tau)); }
Yes same_disc(const S& a, const S& b) { return a.b.dim == b.b.dim && a.tau.size() == b.tau.size() ? YES : NO; }

struct World {
  Mode mode; bool wide; std::vector<S> pool; const char* cls = "wrong-spline";
  explicit World(Mode m) : mode(m), wide(wide_run(m)) {}

  Eigen::VectorXd vec(const std::vector<double>& v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), (long)v.size()); }
  // -------------------------------------------------------------- checks
  void check(const S& x, const char* when) {
    const GSplineBase& f = x.base();
    if (f.get_codom_dim() != (size_t)x.codim) sim::violation(cls, "%s: %s has codomain dimension %zu, should be %d", when, x.txt.c_str(), f.get_codom_dim(), x.codim);
    auto d = f.get_domain();
    if (!(std::fabs(d.first - x.lo) < 1e-9 * (1 + std::fabs(x.lo))) || !(std::fabs(d.second - x.hi) < 1e-9 * (1 + std::fabs(x.hi)))) sim::violation(cls, "%s: domain of %s is [%.12g, %.12g], should be [%.12g, %.12g]", when, x.txt.c_str(), d.first, d.second, x.lo, x.hi);
    if (f.get_number_of_intervals() != x.tau.size()) sim::violation(cls, "%s: %s has %zu intervals, should have %zu", when, x.txt.c_str(), f.get_number_of_intervals(), x.tau.size());
    Eigen::VectorXd t = f.get_interval_lengths();
    for (size_t i = 0; i < x.tau.size(); i++) if (!(std::fabs(t((long)i) - x.tau[i]) < 1e-9 * (1 + x.tau[i]))) sim::violation(cls, "%s: interval length %zu of %s is %.12g, should be %.12g", when, i, x.txt.c_str(), t((long)i), x.tau[i]);
    Eigen::VectorXd br = f.get_domain_breakpoints(); double at = x.lo;
    for (size_t i = 0; i <= x.tau.size(); i++) { if (!(std::fabs(br((long)i) - at) < 1e-8 * (1 + std::fabs(at)))) sim::violation(cls, "%s: breakpoint %zu of %s is %.12g, should be %.12g", when, i, x.txt.c_str(), br((long)i), at); if (i < x.tau.size()) at += x.tau[i]; }
    // points: ends and two inside every interval
    std::vector<double> p{x.lo, x.hi}; double b = x.lo;
    // and, differing from spline to spline, one more inside every interval, in an order and a form of their own
    uint64_t hh = sim::mix(sim::hstr(x.txt.c_str()), sim::hstr(when)); int how = (int)(hh % 8);
    for (double h : x.tau) { p.push_back(b + h * 0.273); p.push_back(b + h * 0.81); p.push_back(b + h * (double)(sim::mix(hh, p.size()) % 4093 + 1) / 4094.0); b += h; }
    if (hh / 8 % 6 == 0) { std::vector<double> two; for (double t : p) { two.push_back(t); two.push_back(t); } p.swap(two); }      // every instant twice in a row
    if (how / 2 % 2) std::reverse(p.begin(), p.end()); if (how == 5) for (size_t i = 1; i < p.size(); i++) std::swap(p[i], p[sim::mix(hh, i) % (i + 1)]);
    Eigen::MatrixXd v;
    try {
      if (how == 0) { v.resize((long)p.size(), x.codim); for (size_t i = 0; i < p.size(); i++) v.row((long)i) = f(Eigen::VectorXd::Constant(1, p[i])); }
      else if (how == 1) { long n = (long)p.size(); Eigen::MatrixXd big = Eigen::MatrixXd::Constant(n + 3, x.codim + 2, 5.5); f.value(vec(p), big.block(1, 1, n, x.codim)); v = big.block(1, 1, n, x.codim); big.block(1, 1, n, x.codim).setConstant(5.5); if (!(big.array() == 5.5).all()) sim::violation(cls, "%s: evaluating %s wrote beyond the array it was given", when, x.txt.c_str()); }
      else v = f(vec(p));
    } catch (const std::exception& e) { sim::violation(cls, "%s: evaluating %s failed: %s", when, x.txt.c_str(), e.what()); }
    for (size_t i = 0; i < p.size(); i++) {
      std::vector<model::LD> val, tol;
      if (!model::decide(x.m, p[i], val, tol)) { sim::probe("point-undecided"); continue; }
      sim::probe("point-checked");
      for (int k = 0; k < x.codim; k++) { double g = v((long)i, k); sim::observe(&g, 1); }
      for (int k = 0; k < x.codim; k++) if (!(std::fabs((double)(v((long)i, k) - val[k])) <= (double)tol[k])) sim::violation(cls, "%s: %s at t=%.17g component %d is %.17g, should be %.17g (tolerance %.2g)", when, x.txt.c_str(), p[i], k, v((long)i, k), (double)val[k], (double)tol[k]);
    }
    if (how % 3 == 0) {
      Eigen::MatrixXd wp; try { wp = f.get_waypoints(); } catch (const std::exception& e) { sim::violation(cls, "%s: the waypoints of %s failed: %s", when, x.txt.c_str(), e.what()); }
      if (wp.rows() != (long)x.tau.size() + 1 || wp.cols() != x.codim) sim::violation(cls, "%s: the waypoints of %s are a %ldx%ld matrix", when, x.txt.c_str(), (long)wp.rows(), (long)wp.cols());
      for (long i = 0; i < wp.rows(); i++) {
        std::vector<model::LD> val, tol; if (!model::decide(x.m, i == 0 ? x.lo : i + 1 == wp.rows() ? x.hi : br(i), val, tol)) { sim::probe("waypoint-undecided"); continue; }
        sim::probe("waypoint-checked");
        for (int k = 0; k < x.codim; k++) if (!(std::fabs((double)(wp(i, k) - val[k])) <= (double)tol[k])) sim::violation(cls, "%s: waypoint %ld of %s component %d is %.17g, should be %.17g (tolerance %.2g)", when, i, x.txt.c_str(), k, wp(i, k), (double)val[k], (double)tol[k]);
      }
    }
    if (x.l) {
      const model::Spline& n = x.nodal(); long q = x.b.dim; Eigen::VectorXd disc = x.l->get_domain_discretization(); double left = x.lo;
      if (disc.size() != q * (long)x.tau.size()) sim::violation(cls, "%s: discretization of %s has %ld points, should have %ld", when, x.txt.c_str(), (long)disc.size(), q * (long)x.tau.size());
      for (long i = 0; i < (long)x.tau.size(); i++) {
        for (long j = 0; j < q; j++) {
          double tn = left + (x.b.pts[j] + 1) * x.tau[i] / 2;
          if (!(std::fabs(disc(i * q + j) - tn) < 1e-8 * (1 + std::fabs(tn)))) sim::violation(cls, "%s: collocation node %ld of %s is %.12g, should be %.12g", when, i * q + j, x.txt.c_str(), disc(i * q + j), tn);
          Eigen::VectorXd va = x.l->value_at(i * q + j);
          for (int k = 0; k < x.codim; k++) {
            size_t ci = (i * x.codim + k) * q + j; double tol = 1e-10 * (1 + std::fabs(n.coef[ci])) + 1000 * (double)n.cerr_[ci];
            if (!(std::fabs(va(k) - n.coef[ci]) <= tol)) sim::violation(cls, "%s: %s at node %ld component %d is %.17g, should be %.17g (tolerance %.2g)", when, x.txt.c_str(), i * q + j, k, va(k), n.coef[ci], tol);
          }
        }
        left += x.tau[i];
      }
    }
  }
  void check_all(const char* when) { for (auto& x : pool) check(x, when); }

  // -------------------------------------------------------------- makers
  // few spaces, so that operands often fit
  struct Space { int kind, bdim, codim; double lo, hi; std::vector<double> tau; };
  // the space of a live spline with one thing altered
  Space near_space(const S& a) {
    Space s; s.kind = a.b.kind == 1 && close(a.b.pts, nodes_cached(a.b.dim)) == YES ? 3 : a.b.kind; s.bdim = a.b.dim; s.codim = a.codim; s.lo = a.lo; s.hi = a.hi; s.tau = a.tau; size_t n = s.tau.size();
    if (s.kind == 1) { bool even = true; for (int i = 0; i < s.bdim; i++) if (close(a.b.pts[i], -1 + 2.0 * i / (s.bdim - 1)) != YES) even = false; if (!even) s.kind = 0; }
    switch (draw(9)) {
      case 0: break;
      case 7: { static const double E[] = {3e-3, 4e-4, 3e-5, 4e-6}; double e = E[draw(4)]; if (n > 1) { double h = s.tau[n - 1] * e; s.tau[n - 1] -= h; s.tau[n - 2] += h; } break; }   // nearly the same lengths
      case 8: { static const double E[] = {3e-3, 4e-4, 3e-5, 4e-6}; double e = E[draw(4)]; double L = s.hi - s.lo; s.hi = s.lo + L * (1 + e); for (double& h : s.tau) h *= 1 + e; break; }   // nearly the same domain
      case 1: std::reverse(s.tau.begin(), s.tau.end()); break;
      case 2: if (n > 1) { double h = s.tau[n - 1] * 0.25; s.tau[n - 1] -= h; s.tau[n - 2] += h; } break;   // the same sum
      case 3: s.codim += 1; break;
      case 4: s.lo += 0.25; s.hi += 0.25; break;                                                   // the same lengths elsewhere
      case 5: if (n > 2) std::swap(s.tau[1], s.tau[2]); break;
      default: if (s.kind == 0) s.kind = 3; else if (s.kind == 3) s.kind = 0; break;                        // another basis of the same size
    }
    return s;
  }
  Space pick_space(int forcekind = -1) {
    Space s; if (!pool.empty() && forcekind < 0 && chance(1, 4)) return near_space(pool[draw((uint32_t)pool.size())]);
    if (forcekind == 3 && chance(1, 3)) { std::vector<size_t> ls; for (size_t i = 0; i < pool.size(); i++) if (pool[i].l) ls.push_back(i); if (!ls.empty()) { s = near_space(pool[ls[draw((uint32_t)ls.size())]]); s.kind = 3; return s; } }
    static const double D[][2] = {{0, 1}, {0, 2}, {-1, 1}, {0.5, 1.5}};
    uint32_t d = draw_w({4, 2, 1, 1}); s.lo = D[d][0]; s.hi = D[d][1];
    s.kind = forcekind >= 0 ? forcekind : (int)draw_w({4, 2, 2, 2});   // legendre, lagrange, 0101, lagrange at GL points
    s.bdim = s.kind == 2 ? 6 : 3 + (int)draw_w({2, 3, 2}) + (wide && chance(1, 2) ? 2 : 0);
    s.codim = 1 + (int)draw_w({4, 3, 1}); if (wide && chance(1, 2)) s.codim += 4;
    int n = 1 + (int)draw_w({3, 4, 2}); if (wide && chance(1, 2)) n += 4 + (int)draw(6); bool even = chance(1, 2); double L = s.hi - s.lo;
    for (int i = 0; i < n; i++) s.tau.push_back(even || n == 1 ? L / n : L * (i + 1) / (n * (n + 1) / 2));
    return s;
  }
  model::BasisM basis_model(const Space& s) {
    model::BasisM b; b.kind = s.kind == 3 ? 1 : s.kind; b.dim = s.bdim; b.alpha = 0.3;
    if (s.kind == 1) for (int i = 0; i < b.dim; i++) b.pts.push_back(-1 + 2.0 * i / (b.dim - 1));
    if (s.kind == 3) b.pts = nodes_cached(b.dim);
    return b;
  }
  std::unique_ptr<basis::Basis> real_basis(const Space& s) {
    if (s.kind == 0) return std::make_unique<basis::BasisLegendre>(s.bdim);
    if (s.kind == 2) return std::make_unique<basis::Basis0101>(0.3);
    if (s.kind == 3) return std::make_unique<basis::BasisLagrangeGaussLobatto>(s.bdim);
    std::vector<double> p; for (int i = 0; i < s.bdim; i++) p.push_back(-1 + 2.0 * i / (s.bdim - 1));
    return std::make_unique<basis::BasisLagrange>(p);
  }
  std::shared_ptr<model::Spline> spline_model(double lo, double hi, int codim, const model::BasisM& b, const std::vector<double>& tau, const std::vector<double>& coef) {
    auto m = std::make_shared<model::Spline>(); m->b = b; m->dim = codim; m->tau = tau; m->coef = coef; m->cerr_.assign(coef.size(), 0); m->setup(lo); m->hi = hi; m->breaks.back() = hi; return m;
  }
  static S describe(const model::P& m, double lo, double hi, int codim, const model::BasisM& b, const std::vector<double>& tau) { S s; s.m = m; s.lo = lo; s.hi = hi; s.codim = codim; s.b = b; s.tau = tau; return s; }
  std::vector<double> coefs(size_t n) { std::vector<double> c(n); uint32_t style = draw(3); for (auto& x : c) x = style == 0 ? real(0.25, 2, 7) : real(-2, 2, 16); return c; }
  // a user-supplied function and its model
  struct Fn { std::unique_ptr<FunctionBase> f; model::P m; bool borrowed = false; const FunctionBase* p = nullptr; };
  Fn make_fn(int dim) {
    Fn r; uint32_t pick = draw_w({4, 2, 2});
    if (pick == 2) for (size_t q = 0; q < pool.size(); q++) { size_t j = (q + draw((uint32_t)pool.size())) % pool.size(); if (pool[j].codim == dim) { r.p = &pool[j].base(); r.m = pool[j].m; r.borrowed = true; return r; } }
    static const double D[][2] = {{0, 1}, {0, 2}, {-1, 1}, {1, 4}};
    uint32_t d = draw(4); std::pair<double, double> dom{D[d][0], D[d][1]};
    auto poly = [&] { auto m = std::make_shared<model::Poly>(); m->dim = dim; m->lo = dom.first; m->hi = dom.second; m->c.resize(dim); for (auto& c : m->c) { int k = 1 + (int)draw(3); for (int i = 0; i < k; i++) c.push_back(real(-1, 1, 8)); } return m; };
    auto m1 = poly();
    if (pick == 0) { r.f = std::make_unique<fw::UserFn>(dom, m1->c); r.m = m1; }
    else { auto m2 = poly(); fw::UserFn a(dom, m1->c), b(dom, m2->c); r.f = std::make_unique<fw::FunctionExpression>(a + b); auto s = std::make_shared<model::Sum>(); s->a = m1; s->b = m2; s->dim = dim; s->lo = dom.first; s->hi = dom.second; r.m = s; }
    r.p = r.f.get(); return r;
  }
  // nodal values of a function on given lengths; indices the model cannot decide go to unknown
  std::shared_ptr<model::Spline> sample(const model::P& f, double lo, double hi, int codim, int n, const std::vector<double>& tau, std::vector<size_t>& unknown) {
    model::BasisM b; b.kind = 1; b.dim = n; b.pts = nodes_cached(n);
    auto m = spline_model(lo, hi, codim, b, tau, std::vector<double>(tau.size() * n * codim));
    double left = lo;
    for (size_t i = 0; i < tau.size(); i++) {
      for (int j = 0; j < n; j++) {
        double t = left + (b.pts[j] + 1) * tau[i] / 2; if (t < lo) t = lo; if (t > hi) t = hi;
        model::Ctx c; auto v = f->eval(model::E(t, 2e-15 * (1 + std::fabs(t))), 0, c);
        for (int k = 0; k < codim; k++) { size_t ci = (i * codim + k) * n + j; if (c.ambiguous || c.huge) unknown.push_back(ci); m->coef[ci] = (double)v[k][0].v; m->cerr_[ci] = v[k][0].e + 4e-16L * model::ab(v[k][0].v); }
      }
      left += tau[i];
    }
    return m;
  }
  void adopt(model::Spline& m, const GLL& real_, const std::vector<size_t>& unknown) {
    const Eigen::VectorXd& c = real_.get_coefficients();
    for (size_t i : unknown) if ((long)i < c.size()) m.coef[i] = c((long)i);
  }
  bool tame(const model::Spline& m) { for (size_t i = 0; i < m.coef.size(); i++) if (!(std::fabs(m.coef[i]) < 1e5) || !(m.cerr_[i] < 1e-8L)) return false; return true; }

  void push(S&& s) { if (pool.size() < 9) pool.push_back(std::move(s)); else pool[draw((uint32_t)pool.size())] = std::move(s); }
  void drop(std::vector<size_t> gone) { std::sort(gone.rbegin(), gone.rend()); gone.erase(std::unique(gone.begin(), gone.end()), gone.end()); for (size_t g : gone) pool.erase(pool.begin() + (long)g); }

  // -------------------------------------------------------------- outcome bookkeeping
  // expected: YES must succeed, NO must be refused, MAYBE either
  bool settle(const Outcome& o, Yes want, const std::string& txt, const char* refuse_cls = "incompatible-accepted") {
    if (want == NO && !o.failed) sim::violation(refuse_cls, "%s was accepted although the operands do not fit", txt.c_str());
    if (want == NO) sim::fault("refused-operands");
    if (want == YES && o.failed && !o.fired) sim::violation("refused-compatible", "%s failed: %s", txt.c_str(), o.what.c_str());
    if (o.failed) sim::logf("  failed");
    else sim::nontrivial();
    return !o.failed;
  }
  static void same(const char*) {}

  void create() {
    uint32_t how = draw_w({5, 3, 1, 2, 2, 1, 1}); S s; char b[128]; std::vector<size_t> unknown; Outcome o; Yes want = YES;
    auto none = [&] { check_all("after a failed construction"); };
    if (how == 0 || how == 6) {   // GSpline (6: inconsistent sizes)
      Space sp = pick_space(); auto bs = real_basis(sp); auto bm = basis_model(sp);
      std::vector<double> c = coefs(sp.tau.size() * sp.bdim * sp.codim); Eigen::VectorXd cv = vec(c), tv = vec(sp.tau); size_t n = sp.tau.size();
      if (how == 6) { want = NO; uint32_t w = draw(3); if (w == 0) cv.conservativeResize(cv.size() - 1); else if (w == 1) { tv = Eigen::VectorXd::Ones((long)n + 1); } else { n += 1; } }
      s = describe(spline_model(sp.lo, sp.hi, sp.codim, bm, sp.tau, c), sp.lo, sp.hi, sp.codim, bm, sp.tau);
      bool rv = chance(1, 2);
      o = attempt(mode, false, [&] { Eigen::VectorXd a, t; { sim::alloc::Outside q; a = cv; t = tv; } std::pair<double, double> dom(sp.lo, sp.hi); if (rv) s.g = std::make_unique<GSpline>(dom, sp.codim, n, *bs, std::move(a), std::move(t)); else s.g = std::make_unique<GSpline>(dom, sp.codim, n, *bs, a, t); }, none);
      snprintf(b, sizeof b, "spline(basis %d/%d, dim %d, %zu intervals, [%g,%g])%s", sp.kind, sp.bdim, sp.codim, sp.tau.size(), sp.lo, sp.hi, how == 6 ? " inconsistent" : "");
    } else if (how == 1) {   // collocation spline from values
      Space sp = pick_space(3); auto bm = basis_model(sp); std::vector<double> c = coefs(sp.tau.size() * sp.bdim * sp.codim);
      s = describe(spline_model(sp.lo, sp.hi, sp.codim, bm, sp.tau, c), sp.lo, sp.hi, sp.codim, bm, sp.tau); Eigen::VectorXd cv = vec(c), tv = vec(sp.tau); bool rv = chance(1, 2);
      o = attempt(mode, false, [&] { Eigen::VectorXd a, t; { sim::alloc::Outside q; a = cv; t = tv; } std::pair<double, double> dom(sp.lo, sp.hi); if (rv) s.l = std::make_unique<GLL>(dom, (size_t)sp.codim, sp.tau.size(), (size_t)sp.bdim, std::move(a), std::move(t)); else s.l = std::make_unique<GLL>(dom, (size_t)sp.codim, sp.tau.size(), (size_t)sp.bdim, a, t); }, none);
      snprintf(b, sizeof b, "gll(%d nodes, dim %d, %zu intervals, [%g,%g])", sp.bdim, sp.codim, sp.tau.size(), sp.lo, sp.hi);
    } else if (how == 2) {   // zero
      Space sp = pick_space(3); auto bm = basis_model(sp); std::vector<double> tau(sp.tau.size(), (sp.hi - sp.lo) / sp.tau.size());
      s = describe(spline_model(sp.lo, sp.hi, sp.codim, bm, tau, std::vector<double>(tau.size() * sp.bdim * sp.codim, 0.0)), sp.lo, sp.hi, sp.codim, bm, tau);
      o = attempt(mode, false, [&] { s.l = std::make_unique<GLL>(std::pair<double, double>(sp.lo, sp.hi), (size_t)sp.codim, tau.size(), (size_t)sp.bdim); }, none);
      snprintf(b, sizeof b, "gll zero");
    } else if (how == 3 || how == 5) {   // from a function / identity
      int dim = 1 + (int)draw_w({4, 3, 1}), n = 3 + (int)draw(3); size_t ni = 1 + draw(3); if (wide && chance(1, 2)) { n += 2; ni += 4; dim += 2; } Fn f;
      if (how == 5) { dim = 1; auto id = std::make_shared<model::Affine>(); id->lo = 0; id->hi = 2; f.m = id; } else f = make_fn(dim);
      std::vector<double> tau(ni, (f.m->hi - f.m->lo) / ni);
      auto m = sample(f.m, f.m->lo, f.m->hi, dim, n, tau, unknown); s = describe(m, f.m->lo, f.m->hi, dim, m->b, tau); if (!tame(*m)) return;
      uint32_t form = draw(2);
      o = attempt(mode, how == 3, [&] { if (how == 5) s.l = std::make_unique<GLL>(GLL::identity({0.0, 2.0}, n, ni)); else if (form) s.l = std::make_unique<GLL>(GLL::approximate(*f.p, n, ni)); else s.l = std::make_unique<GLL>(*f.p, ni, (size_t)n); }, none);
      snprintf(b, sizeof b, how == 5 ? "gll identity" : "gll approximation"); if (!o.failed) adopt(*m, *s.l, unknown);
    } else {   // conversion from a spline
      std::vector<size_t> gs; for (size_t i = 0; i < pool.size(); i++) if (pool[i].g) gs.push_back(i);
      if (gs.empty()) return;
      size_t ia = gs[draw((uint32_t)gs.size())]; S& a = pool[ia]; bool rv = chance(1, 3); bool ok = a.b.kind == 1 && close(a.b.pts, nodes_cached(a.b.dim)) != NO; want = ok ? YES : NO;
      auto m = ok ? sample_by_piece(a) : nullptr; if (ok && !tame(*m)) return;
      if (ok) s = describe(m, a.lo, a.hi, a.codim, a.b, a.tau);
      bool consume = rv && ok;
      o = attempt(mode, false, [&] { std::unique_ptr<GSpline> c; { sim::alloc::Outside q; if (rv) { if (mode == ENUM || !ok) c = std::make_unique<GSpline>(*a.g); } } if (rv) s.l = std::make_unique<GLL>(std::move(c ? *c : *a.g)); else s.l = std::make_unique<GLL>(*static_cast<const GSpline*>(a.g.get())); }, [&] { if (!(consume && mode != ENUM)) check(a, "operand after a failed conversion"); });
      snprintf(b, sizeof b, "gll from #%zu%s", ia, rv ? "&&" : ""); sim::logf("new %s%s", b, want == NO ? " (must be refused)" : ""); s.txt = b; sim::probe("convert");
      bool got = settle(o, want, b); if (got) check(s, "converted spline");
      if (consume && mode != ENUM) drop({ia});
      if (got) push(std::move(s)); return;
    }
    s.txt = b; sim::logf("new #%zu = %s", pool.size(), b); sim::probe("create");
    if (settle(o, want, b)) { check(s, "new spline"); push(std::move(s)); }
  }
  // nodal values of a spline seen from inside each interval
  std::shared_ptr<model::Spline> sample_by_piece(const S& a, int deriv = 0) {
    model::BasisM b; b.kind = 1; b.dim = a.b.dim; b.pts = nodes_cached(a.b.dim);
    auto m = spline_model(a.lo, a.hi, a.codim, b, a.tau, std::vector<double>(a.tau.size() * b.dim * a.codim));
    bool exact = dynamic_cast<const model::Spline*>(a.m.get()) != nullptr;
    double left = a.lo;
    for (size_t i = 0; i < a.tau.size(); i++) {
      for (int j = 0; j < b.dim; j++) {
        double t = left + (b.pts[j] + 1) * a.tau[i] / 2; model::Ctx c; std::vector<model::Jet> v; double pull = 0;
        if (exact) v = static_cast<const model::Spline&>(*a.m).piece(i, model::E(t, 2e-16), deriv, c);
        else { pull = j == 0 ? 2e-6 : j == b.dim - 1 ? -2e-6 : 0; v = a.m->eval(model::E(t + pull * a.tau[i] * 10), std::max(deriv, 1), c); }   // slightly inside
        double f = 1; for (int q = 2; q <= deriv; q++) f *= q;
        for (int k = 0; k < a.codim; k++) {
          size_t ci = (i * a.codim + k) * b.dim + j; model::E e = v[k][deriv];
          m->coef[ci] = (double)(e.v * f); m->cerr_[ci] = e.e * f + 4e-16L * model::ab(e.v * f);
          if (pull != 0) m->cerr_[ci] += 1e-4L;   // undecided at the end points of a composite
        }
      }
      left += a.tau[i];
    }
    return m;
  }

  // -------------------------------------------------------------- shared operations
  enum K { ADD, SUB, IADD, ISUB, SCALE, NEG, TIME, VELO, DER, COPY, NK };
  template <class T> struct Res { std::unique_ptr<T> r; };
  template <class T> static std::unique_ptr<T> exec(int k, T* a, T* b, bool ra, bool rb, double s, int v, int deg, const std::vector<double>& bound, double dt, const std::vector<double>& vb, const std::vector<double>& ab) {
    const T& ca = *a; const T* cbp = b;
    auto box = [](T&& x) { return std::make_unique<T>(std::move(x)); };
    switch (k) {
      case ADD: if (ra) { if (rb) return box(std::move(*a) + std::move(*b)); return box(std::move(*a) + *cbp); } if (rb) return box(ca + std::move(*b)); return box(ca + *cbp);
      case SUB: if (ra) { if (rb) return box(std::move(*a) - std::move(*b)); return box(std::move(*a) - *cbp); } if (rb) return box(ca - std::move(*b)); return box(ca - *cbp);
      case IADD: *a += *cbp; return nullptr;
      case ISUB: *a -= *cbp; return nullptr;
      case SCALE: if (ra) { if (v % 2) return box(s * std::move(*a)); return box(std::move(*a) * s); } if (v % 2) return box(s * ca); return box(ca * s);
      case NEG: if (ra) return box(-std::move(*a)); return box(-ca);
      case TIME: return box(ca.linear_scaling_new_execution_time(s));
      case VELO:
        switch (v % 4) {
          case 0: return box(ca.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(bound[0]), std::optional<double>(bound[1]), dt));
          case 1: return box(ca.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(bound[0]), std::optional<double>(), dt));
          case 2: return box(ca.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(), std::optional<double>(bound[1]), dt));
          default: { std::optional<std::vector<double>> x, y; { sim::alloc::Outside q; if (v != 3 || ca.get_codom_dim() % 2) x = vb; if (v != 3 || !x) y = ab; } return box(ca.linear_scaling_new_execution_time_max_velocity_max_acceleration(x, y, dt)); }
        }
      case DER: if (v % 2) { auto p = ca.deriv(deg); return std::make_unique<T>(*p); } return std::make_unique<T>(ca.derivate(deg));
      case COPY: switch (v % 6) {
          case 0: return std::make_unique<T>(ca);
          case 1: return ca.clone();
          case 2: { auto p = static_cast<const FunctionBase&>(ca).clone(); if (!dynamic_cast<T*>(p.get())) { sim::alloc::Outside q; sim::violation("wrong-spline", "a copy of a spline is not a spline"); } return std::unique_ptr<T>(static_cast<T*>(p.release())); }
          case 3: return std::make_unique<T>(std::move(*a));
          case 4: return a->move_clone();
          default: return std::move(*a).clone();
        }
    }
    return nullptr;
  }
  template <class T> std::unique_ptr<T>& slot(S& s);
  template <class T> void shared_op() {
    std::vector<size_t> ids; for (size_t i = 0; i < pool.size(); i++) if (slot<T>(pool[i])) ids.push_back(i);
    if (ids.empty()) return create();
    const bool gll = std::is_same<T, GLL>::value;
    int k = (int)draw_w({5, 5, 4, 4, 3, 3, 3, 1, 4, 4});
    size_t ia = ids[draw((uint32_t)ids.size())], ib = ids[draw((uint32_t)ids.size())];
    bool ra = chance(1, 3), rb = chance(1, 3); double s = real(-2, 2, 8); int v = (int)draw(8), deg = (int)draw_w({1, 5, 2, 1, 1, 1, 1}); bool fit = chance(2, 3);
    std::vector<double> bound{real(0.5, 3, 5), real(0.5, 3, 5)};
    const double dt = mode == ENUM ? 0.05 : 0.004;
    bool binary = k <= ISUB, inplace = k == IADD || k == ISUB;
    if (inplace) ra = rb = false;
    if (binary && fit) { Yes best = NO; size_t start = ib; (void)start; for (size_t q : ids) { size_t j = ids[(q + ib) % ids.size()]; Yes y = same_space(pool[ia], pool[j]); if (y > best || (y == best && y == YES && j != ia && ib == ia)) { best = y; ib = j; } } }
    if (!binary) { ib = ia; rb = false; }
    if (binary && ia == ib) ra = rb = false;
    if (k == TIME || k == VELO || k == DER) ra = false;
    if (k == COPY) ra = v % 6 >= 3;
    S &A = pool[ia], &B = pool[ib]; T *a = slot<T>(A).get(), *b = slot<T>(B).get();
    if (k == DER && A.ord + deg > (gll ? 4 : 6)) return;
    Yes want = binary ? same_space(A, B) : YES;
    S e; e = describe(A.m, A.lo, A.hi, A.codim, A.b, A.tau); e.ord = A.ord + (k == DER ? deg : 0);
    double f = 1;
    if (k == TIME) { if (v == 7) { s = -1.0; want = NO; } else s = (A.hi - A.lo) * (v == 3 ? 1 + 1.0 / 256 : v == 6 ? 1 + 1.0 / 32768 : v % 2 ? 2.0 : v % 3 ? 0.5 : 1.5); f = s / (A.hi - A.lo); }
    if (k == VELO) {
      Eigen::VectorXd tt = Eigen::VectorXd::LinSpaced(17, A.lo + 1e-3, A.hi - 1e-3); Eigen::MatrixXd d1 = a->deriv(1)->value(tt), d2 = a->deriv(2)->value(tt);
      if (d1.cwiseAbs().minCoeff() < 0 || d1.cwiseAbs().maxCoeff() < 1e-2 || d2.cwiseAbs().maxCoeff() < 1e-2 || d1.cwiseAbs().maxCoeff() > 1e3 || d2.cwiseAbs().maxCoeff() > 1e4 || !(A.hi - A.lo > 0.4)) return;
      if (v == 7) want = NO;
    }
    // one bound for every component; one too many must be refused
    std::vector<double> vb, ab; for (int i = 0; i < A.codim + (v == 7 ? 1 : 0); i++) { vb.push_back(bound[0] * (1 + 0.37 * ((i * 5 + v) % 4))); ab.push_back(bound[1] * (1 + 0.29 * ((i * 3 + v) % 5))); }
    // expected model
    auto lin = [&](double fac) {
      if (gll) { e.m = spline_model(A.lo, A.lo + (A.hi - A.lo) * fac, A.codim, A.b, scaled(A.tau, fac), A.nodal().coef); const_cast<model::Spline&>(e.nodal()).cerr_ = A.nodal().cerr_; }
      else { auto in = std::make_shared<model::Affine>(); in->b = 1 / (model::LD)fac; in->a = (model::LD)A.lo * (1 - in->b); auto c = std::make_shared<model::Comp>(); c->outer = A.m; c->inner = in; c->dim = A.codim; c->lo = A.lo; c->hi = A.lo + (A.hi - A.lo) * fac; c->size = A.m->size + 1; e.m = c; }
      e.hi = A.lo + (A.hi - A.lo) * fac; e.tau = scaled(A.tau, fac);
      if (e.b.kind == 2) { double kk = e.b.k0101() / fac, k4 = std::pow(kk, 4) * 64; e.b.alpha = k4 / (1 + k4); }
    };
    if (want != NO) {
      if (gll) {
        if (binary || k == SCALE || k == NEG) {
          auto m = spline_model(A.lo, A.hi, A.codim, A.b, A.tau, A.nodal().coef); m->cerr_ = A.nodal().cerr_;
          for (size_t i = 0; i < m->coef.size(); i++) {
            model::E x(m->coef[i], m->cerr_[i]), y(B.nodal().coef[std::min(i, B.nodal().coef.size() - 1)], B.nodal().cerr_[std::min(i, B.nodal().cerr_.size() - 1)]);
            model::E r = k == ADD || k == IADD ? x + y : k == SUB || k == ISUB ? x - y : k == SCALE ? x * model::E(s) : x * model::E(-1);
            m->coef[i] = (double)r.v; m->cerr_[i] = r.e + 2e-16L * model::ab(r.v);
          }
          e.m = m;
        } else if (k == DER) { auto m = sample_by_piece(A, deg); if (deg == 0) { m->coef = A.nodal().coef; m->cerr_ = A.nodal().cerr_; } for (auto& c : m->cerr_) c += deg ? 1e-12L : 0; e.m = m; }
        if (!tame(static_cast<const model::Spline&>(*e.m))) return;
      } else {
        if (binary) { auto m = std::make_shared<model::Sum>(); m->a = A.m; m->b = B.m; m->minus = k == SUB || k == ISUB; m->dim = A.codim; m->lo = A.lo; m->hi = A.hi; m->size = A.m->size + B.m->size + 1; e.m = m; e.ord = std::max(A.ord, B.ord); }
        if (k == SCALE) { auto c = std::make_shared<model::Const>(); c->v = {s}; auto m = std::make_shared<model::Mul>(); m->a = A.m; m->b = c; m->dim = A.codim; m->lo = A.lo; m->hi = A.hi; m->size = A.m->size + 1; e.m = m; }
        if (k == NEG) { auto m = std::make_shared<model::Neg>(); m->a = A.m; m->dim = A.codim; m->lo = A.lo; m->hi = A.hi; m->size = A.m->size + 1; e.m = m; }
        if (k == DER) { auto m = std::make_shared<model::Deriv>(); m->a = A.m; m->k = deg; m->dim = A.codim; m->lo = A.lo; m->hi = A.hi; m->size = A.m->size + 1; e.m = m; }
        if (e.m->size > 40) return;
      }
      if (k == TIME) lin(f);
    }
    static const char* N[] = {"add", "sub", "iadd", "isub", "scale", "neg", "time", "velo", "der", "copy"};
    char tx[160]; snprintf(tx, sizeof tx, "%s %s#%zu%s", gll ? "gll" : "spl", N[k], ia, ra ? "&&" : ""); std::string txt = tx;
    if (binary) { snprintf(tx, sizeof tx, " #%zu%s", ib, rb ? "&&" : ""); txt += tx; } else { snprintf(tx, sizeof tx, " s=%g v=%d deg=%d", s, v, deg); txt += tx; }
    sim::logf("%s%s", txt.c_str(), want == NO ? " (must be refused)" : want == MAYBE ? " (may be refused)" : "");
    sim::probe(N[k]); sim::feature(sim::mix(sim::mix(k * 4 + ra * 2 + rb, v * 2 + gll), sim::mix(A.b.kind * 16 + A.codim, want * 8 + A.tau.size())));
    std::unique_ptr<T> res;
    bool clone_consumed = mode == ENUM || want != YES;    // refused operands stay; keep originals
    Outcome o = attempt(mode, false, [&] {
      std::unique_ptr<T> ca, cb; res.reset();
      { sim::alloc::Outside q; if (clone_consumed) { if (ra) ca = std::make_unique<T>(*a); if (rb) cb = std::make_unique<T>(*b); } }
      res = exec<T>(k, ca ? ca.get() : a, cb ? cb.get() : b, ra, rb, s, v, deg, bound, dt, vb, ab);
      if (want == NO && !res && !inplace) {}
    }, [&] {
      if (!(ra && !clone_consumed)) check(A, "operand after a failed operation");
      if (binary && !(rb && !clone_consumed)) check(B, "operand after a failed operation");
    });
    bool ok = settle(o, want, txt);
    if (ok && k == VELO) { auto d = res->get_domain(); f = (d.second - A.lo) / (A.hi - A.lo); if (!(f > 0) || !(f < 1e9)) sim::violation(cls, "%s: domain is [%g, %g]", txt.c_str(), d.first, d.second); if (f < 1e-4 || f > 1e3) ok = false; else { lin(f); e.hi = d.second; } }
    if (ok && k == VELO && mode != ENUM) bounds_met(*a, f, v, bound, vb, ab, dt, txt);
    e.txt = txt;
    if (inplace) {
      if (ok) { A.m = e.m; A.ord = e.ord; A.txt = txt; }
      check(A, ok ? "in-place update" : "target of a refused or failed update");
    }
    std::vector<size_t> gone; if (ra && !clone_consumed) gone.push_back(ia); if (rb && !clone_consumed) gone.push_back(ib);
    if (ok && !inplace) { if (!res) sim::violation(cls, "%s: no result", txt.c_str()); slot<T>(e) = std::move(res); check(e, "result"); }
    bool keep = ok && !inplace;
    if (!keep || want == NO) check_all_but(gone, "after the step");
    drop(gone); if (keep) push(std::move(e));
  }
  // after a rescaling by f to limits on velocity and acceleration, sampled every dt: within the limits, and not slower than they demand
  template <class T> void bounds_met(const T& a, double f, int v, const std::vector<double>& bound, const std::vector<double>& vb, const std::vector<double>& ab, double dt, const std::string& txt) {
    const long M = 40; bool usev = v % 4 != 2, usea = v % 4 != 1; if (v == 3) { usev = a.get_codom_dim() % 2; usea = !usev; }
    double lo = 0, hi = 0, at = a.get_domain().first; Eigen::VectorXd tau = a.get_interval_lengths(), t(M * tau.size());
    for (long i = 0; i < tau.size(); i++) { for (long j = 0; j < M; j++) t(i * M + j) = at + tau(i) * (j + 0.5) / M; at += tau(i); }
    Eigen::MatrixXd d1 = a.deriv(1)->value(t), d2 = a.deriv(2)->value(t), d3 = a.deriv(3)->value(t); double h = tau.maxCoeff() / M;
    if (tau.minCoeff() < 3 * dt) return;
    for (long c = 0; c < d1.cols(); c++) {
      double v1 = v % 4 == 3 ? vb[c] : bound[0], a1 = v % 4 == 3 ? ab[c] : bound[1], m1 = d1.col(c).cwiseAbs().maxCoeff(), m2 = d2.col(c).cwiseAbs().maxCoeff(), m3 = d3.col(c).cwiseAbs().maxCoeff();
      if (usev) { lo = std::max(lo, (m1 - 2 * dt * m2) / v1); hi = std::max(hi, (m1 + 2 * h * m2) / v1); }
      if (usea) { lo = std::max(lo, std::sqrt(std::max(0.0, (m2 - 2 * dt * m3) / a1))); hi = std::max(hi, std::sqrt((m2 + 2 * h * m3) / a1)); }
    }
    sim::probe("limits-checked");
    if (!(f >= lo * (1 - 1e-6)) || !(f <= hi * (1 + 1e-6))) sim::violation(cls, "%s: the duration is scaled by %.12g; the limits demand between %.12g and %.12g", txt.c_str(), f, lo, hi);
  }
  std::vector<double> scaled(const std::vector<double>& t, double f) { std::vector<double> r(t); for (auto& x : r) x *= f; return r; }
  void check_all_but(const std::vector<size_t>& gone, const char* when) { for (size_t i = 0; i < pool.size(); i++) if (std::find(gone.begin(), gone.end(), i) == gone.end()) check(pool[i], when); }

  // -------------------------------------------------------------- collocation only
  void gll_op() {
    std::vector<size_t> ids; for (size_t i = 0; i < pool.size(); i++) if (pool[i].l) ids.push_back(i);
    if (ids.empty()) return create();
    enum { MUL, POW, NORM, DIV, VADD, VSUB, ASG, MASG, FASG, ARR };
    static const char* N[] = {"mul", "pow", "norm", "div", "vadd", "vsub", "assign", "move-assign", "assign-function", "set-from-array"};
    int k = (int)draw_w({6, 2, 2, 2, 2, 3, 4, 3, 5, 4});
    size_t ia = ids[draw((uint32_t)ids.size())], ib = ids[draw((uint32_t)ids.size())]; bool ra = chance(1, 3), rb = chance(1, 3), fit = chance(2, 3); int v = (int)draw(6);
    auto okpair = [&](size_t j) { const S &a = pool[ia], &b = pool[j]; if (k == MUL) return a.codim > 1 && b.codim > 1 ? NO : both(both(same_disc(a, b), close(a.tau, b.tau)), same_dom(a, b)); return a.codim != b.codim ? NO : same_disc(a, b); };
    bool binary = k == MUL || k == ASG || k == MASG;
    if (binary && fit) for (size_t q = 0; q < ids.size(); q++) { size_t j = ids[(q + ib) % ids.size()]; if (j != ia && okpair(j) == YES) { ib = j; break; } }
    if (!binary) { ib = ia; rb = false; }
    if (k >= ASG) ra = false;
    if (k == ASG) rb = false;
    if (k == MASG) { if (ia == ib) return; rb = true; }
    if (k == NORM || (ia == ib && binary)) ra = rb = false;
    if (k == MASG) rb = true;
    S &A = pool[ia], &B = pool[ib]; GLL *a = A.l.get(), *b = B.l.get(); const model::Spline &na = A.nodal(), &nb = B.nodal();
    Yes want = binary ? okpair(ib) : YES; bool inplace = k >= ASG, user = false;
    S e = describe(A.m, A.lo, A.hi, A.codim, A.b, A.tau); e.ord = std::max(A.ord, B.ord);
    size_t n = (size_t)A.b.dim, ni = A.tau.size(); std::vector<size_t> unknown; std::shared_ptr<model::Spline> m;
    Eigen::VectorXd vv; double ex = 2; Fn f; std::pair<double, double> dom(A.lo, A.hi); std::vector<Eigen::VectorXd> arr; long throw_at = -1; int badrow = -1;
    auto E_ = [](const model::Spline& s, size_t i) { return model::E(s.coef[i], s.cerr_[i]); };
    auto put = [&](size_t i, model::E x) { m->coef[i] = (double)x.v; m->cerr_[i] = x.e + 2e-16L * model::ab(x.v); };
    if (k == MUL && want != NO) {
      int cd = std::max(A.codim, B.codim); e.codim = cd; m = spline_model(A.lo, A.hi, cd, A.b, A.tau, std::vector<double>(ni * n * cd));
      for (size_t i = 0; i < ni; i++) for (int c = 0; c < cd; c++) for (size_t j = 0; j < n; j++) put((i * cd + c) * n + j, E_(na, (i * A.codim + std::min(c, A.codim - 1)) * n + j) * E_(nb, (i * B.codim + std::min(c, B.codim - 1)) * n + j));
    } else if (k == POW) {
      static const double EX[] = {2, 1, 0.5, -1, 3, 0}; ex = EX[v]; if (A.codim != 1) want = NO;
      else { m = spline_model(A.lo, A.hi, 1, A.b, A.tau, na.coef); for (size_t i = 0; i < na.coef.size(); i++) { double x = na.coef[i]; if (x < 0.1 && !(ex == 2 || ex == 3 || ex == 1 || ex == 0)) return; model::E y(std::pow((long double)x, (long double)ex), na.cerr_[i] * std::fabs(ex) * std::pow(std::fabs((long double)x) + 1e-3L, (long double)ex - 1) + 4e-16L); put(i, y); } }
    } else if (k == NORM) {
      e.codim = 1; m = spline_model(A.lo, A.hi, 1, A.b, A.tau, std::vector<double>(ni * n));
      for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < n; j++) { model::LD s = 0, er = 0; for (int c = 0; c < A.codim; c++) { model::E x = E_(na, (i * A.codim + c) * n + j); s += x.v * x.v; er += x.e; } put(i * n + j, model::E(std::sqrt(s), er + 4e-16L * std::sqrt(s))); }
    } else if (k == DIV) {
      if (A.codim != 1) want = NO;
      else { ex = real(-2, 2, 8); m = spline_model(A.lo, A.hi, 1, A.b, A.tau, na.coef); for (size_t i = 0; i < na.coef.size(); i++) { double x = na.coef[i]; if (std::fabs(x) < 0.1) return; put(i, model::E((model::LD)ex / x, std::fabs(ex) / (x * x) * na.cerr_[i] * 2 + 4e-16L)); } }
    } else if (k == VADD || k == VSUB) {
      int d = A.codim + (chance(1, 5) ? 1 : 0); vv.resize(d); for (int i = 0; i < d; i++) vv(i) = real(-2, 2, 8);
      if (d != A.codim) want = NO; else { m = spline_model(A.lo, A.hi, A.codim, A.b, A.tau, na.coef); for (size_t i = 0; i < ni; i++) for (int c = 0; c < A.codim; c++) for (size_t j = 0; j < n; j++) { size_t ci = (i * A.codim + c) * n + j; model::E x = E_(na, ci), y(vv(c)); put(ci, k == VADD ? x + y : v % 2 ? x - y : y - x); } }
    } else if ((k == ASG || k == MASG) && want != NO) { m = spline_model(B.lo, B.hi, B.codim, B.b, B.tau, nb.coef); m->cerr_ = nb.cerr_; e.lo = B.lo; e.hi = B.hi; e.tau = B.tau; e.b = B.b; }
    else if (k == FASG) {
      int d = A.codim + (chance(1, 6) ? 1 : 0); if (d != A.codim) want = NO; f = make_fn(d); user = true; if (f.p == &A.base()) { want = MAYBE; unknown.clear(); }
      double fac = (f.m->hi - f.m->lo) / (A.hi - A.lo); e.lo = f.m->lo; e.hi = f.m->hi; e.tau = scaled(A.tau, fac);
      if (want != NO) { if (f.p == &A.base()) { m = spline_model(A.lo, A.hi, A.codim, A.b, A.tau, na.coef); m->cerr_ = na.cerr_; e.tau = A.tau; } else m = sample(f.m, e.lo, e.hi, A.codim, (int)n, e.tau, unknown); }
    } else if (k == ARR) {
      uint32_t how = draw_w({4, 1, 1, 1}); dom = {real(-1, 1, 4), real(1.5, 4, 5)}; size_t cnt = n * ni + (how == 1 ? 1 : 0); user = false;
      for (size_t i = 0; i < cnt; i++) { Eigen::VectorXd x(A.codim); for (int c = 0; c < A.codim; c++) x(c) = real(-2, 2, 8); arr.push_back(x); }
      if (how == 2) { badrow = (int)draw((uint32_t)cnt); arr[badrow] = Eigen::VectorXd::Zero(A.codim + 1); } if (how == 3) throw_at = (long)draw((uint32_t)cnt);
      want = how == 0 ? YES : NO; e.lo = dom.first; e.hi = dom.second; e.tau = scaled(A.tau, (dom.second - dom.first) / (A.hi - A.lo));
      if (want == YES) { m = spline_model(e.lo, e.hi, A.codim, A.b, e.tau, na.coef); for (size_t i = 0; i < ni; i++) for (int c = 0; c < A.codim; c++) for (size_t j = 0; j < n; j++) put((i * A.codim + c) * n + j, model::E(arr[i * n + j](c))); }
    }
    if (m && !tame(*m)) return;
    if (m) e.m = m;
    char tx[160]; snprintf(tx, sizeof tx, "gll %s #%zu%s", N[k], ia, ra ? "&&" : ""); std::string txt = tx; if (binary) { snprintf(tx, sizeof tx, " #%zu%s", ib, rb ? "&&" : ""); txt += tx; } else { snprintf(tx, sizeof tx, " v=%d ex=%g", v, ex); txt += tx; }
    sim::logf("%s%s", txt.c_str(), want == NO ? " (must be refused)" : want == MAYBE ? " (may be refused)" : "");
    sim::probe(N[k]); sim::feature(sim::mix(sim::mix(100 + k * 4 + ra * 2 + rb, v), sim::mix(A.codim * 16 + B.codim, want * 8 + ni)));
    std::unique_ptr<GLL> res; bool cc = mode == ENUM || want != YES;
    Outcome o = attempt(mode, user, [&] {
      std::unique_ptr<GLL> ka, kb; res.reset();
      { sim::alloc::Outside q; if (cc) { if (ra) ka = std::make_unique<GLL>(*a); if (rb) kb = std::make_unique<GLL>(*b); } }
      GLL *pa = ka ? ka.get() : a, *pb = kb ? kb.get() : b; const GLL &ca = *pa, &cb = *pb;
      auto box = [](GLL&& x) { return std::make_unique<GLL>(std::move(x)); };
      switch (k) {
        case MUL: if (ra) { if (rb) res = box(std::move(*pa) * std::move(*pb)); else res = box(std::move(*pa) * cb); } else if (rb) res = box(ca * std::move(*pb)); else res = box(ca * cb); break;
        case POW: res = ra ? box(collocation::pow(std::move(*pa), ex)) : box(collocation::pow(ca, ex)); break;
        case NORM: res = box(collocation::norm(ca)); break;
        case DIV: res = ra ? box(ex / std::move(*pa)) : box(ex / ca); break;
        case VADD: if (v % 2) res = ra ? box(std::move(*pa) + vv) : box(ca + vv); else res = ra ? box(vv + std::move(*pa)) : box(vv + ca); break;
        case VSUB: if (v % 2) res = ra ? box(std::move(*pa) - vv) : box(ca - vv); else res = ra ? box(vv - std::move(*pa)) : box(vv - ca); break;
        case ASG: *pa = cb; break;
        case MASG: *pa = std::move(*pb); break;
        case FASG: *pa = *f.p; break;
        default: if (throw_at >= 0) { long i = 0; pa->set_from_array(dom, arr.begin(), arr.end(), [&](const Eigen::VectorXd& x) -> const Eigen::VectorXd& { if (i++ == throw_at) throw fw::UserError(); return x; }); } else pa->set_from_array(dom, arr.begin(), arr.end());
      }
    }, [&] {
      if (!(ra && !cc)) check(A, "operand after a failed operation");
      if (binary && !(rb && !cc)) check(B, "operand after a failed operation");
    });
    bool ok = settle(o, want, txt);
    if (inplace) { if (ok) { if (m && !unknown.empty()) adopt(*m, *A.l, unknown); A.m = e.m; A.lo = e.lo; A.hi = e.hi; A.tau = e.tau; A.b = e.b; A.ord = e.ord; A.txt = txt; } check(A, ok ? "in-place assignment" : "target of a refused or failed assignment"); }
    std::vector<size_t> gone; if (ra && !cc) gone.push_back(ia); if (rb && !cc) gone.push_back(ib);
    bool keep = ok && !inplace; e.txt = txt;
    if (keep) { e.l = std::move(res); check(e, "result"); }
    if (!keep) check_all_but(gone, "after the step");
    drop(gone); if (keep) push(std::move(e));
  }
  // equality, and positions that do not exist
  void compare() {
    S &A = pool[draw((uint32_t)pool.size())], &B = pool[draw((uint32_t)pool.size())]; const GSplineBase &a = A.base(), &b = B.base(); sim::probe("compare");
    Eigen::VectorXd ca = a.get_coefficients(), cb = b.get_coefficients(); bool eq = false, ne = false;
    Outcome o = attempt(mode, false, [&] { eq = a == b; ne = a != b; }, [&] { check(A, "operand of a failed comparison"); });
    sim::logf("compare %s with %s%s", A.txt.c_str(), B.txt.c_str(), o.failed ? " failed" : ""); if (o.failed) { if (!o.fired) sim::violation(cls, "comparing %s with %s failed: %s", A.txt.c_str(), B.txt.c_str(), o.what.c_str()); return; }
    Yes want = ca.size() != cb.size() ? NO : both(same_basis(A.b, B.b), close(A.tau, B.tau));
    if (want != NO) { double d = ca.size() ? (ca - cb).cwiseAbs().maxCoeff() : 0, top = ca.size() ? ca.cwiseAbs().maxCoeff() : 0; want = both(want, d == 0 ? YES : d > 1e-4 * (1 + top) ? NO : MAYBE); }
    if (eq == ne || (want == YES && !eq) || (want == NO && eq)) sim::violation(cls, "%s and %s are said to be %s", A.txt.c_str(), B.txt.c_str(), eq == ne ? "equal and different" : eq ? "equal" : "different");
    if (A.l) {
      size_t n = (size_t)A.b.dim * A.tau.size() + draw(3); Outcome r = once([&] { Eigen::VectorXd x = A.l->value_at(n); }); sim::fault("refused-operands");
      if (!r.failed) sim::violation("incompatible-accepted", "%s has a value at node %zu of %zu", A.txt.c_str(), n, (size_t)A.b.dim * A.tau.size());
      if (B.l && A.l->same_discretization(*B.l) != (same_disc(A, B) == YES)) sim::violation(cls, "%s and %s: wrong answer about their discretizations", A.txt.c_str(), B.txt.c_str());
    }
    check(A, "after a comparison");
  }
  void step() {
    sim::Span sp; sim::steps(1);
    if (pool.size() < 2 || chance(1, 5)) { if (pool.size() < 9) return create(); }
    uint32_t w = draw_w({8, 6, 10, 1});
    if (w == 3) compare(); else if (w == 0) shared_op<GSpline>(); else if (w == 1) shared_op<GLL>(); else gll_op();
  }
  void run(int n) {
    if (wide && chance(1, 2)) n *= 2;
    for (int i = 0; i < 2; i++) { sim::Span s; create(); }
    for (int i = 0; i < n; i++) step();
    check_all("end of history");
  }
};
template <> std::unique_ptr<GSpline>& World::slot<GSpline>(S& s) { return s.g; }
template <> std::unique_ptr<GLL>& World::slot<GLL>(S& s) { return s.l; }
}  // namespace
void run_spline(Mode m, int steps) { World w(m); w.run(2 + (int)draw(steps)); }
static void c11() { Mode m = chance(1, 2) ? SOME : NONE; run_spline(m, 16); }
static sim::Reg r11("C11", c11);
}  // namespace ww
