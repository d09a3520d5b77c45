#include "world_func.hpp"
#include "world.hpp"
#include <cstring>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
using namespace gsplines;
using namespace gsplines::functions;
using sim::draw; using sim::draw_w; using sim::chance; using sim::range; using sim::real;

namespace fw {
long g_user_countdown = 0; bool g_user_fired = false;
void user_tick() {
  if (!sim::alloc::g_dry && g_user_countdown > 0 && --g_user_countdown == 0) { g_user_fired = true; throw UserError(); }
}
void UserFn::value_impl(const Eigen::Ref<const Eigen::VectorXd> t, Eigen::Ref<Eigen::MatrixXd> r) const {
  user_tick();
  for (long i = 0; i < t.size(); i++)
    for (size_t d = 0; d < c_.size(); d++) {
      double v = 0; for (size_t k = c_[d].size(); k-- > 0;) v = v * t(i) + c_[d][k];
      r(i, (long)d) = v;
    }
}
UserFn* UserFn::deriv_impl(std::size_t k) const {
  user_tick();
  std::vector<std::vector<double>> c(c_);
  for (size_t q = 0; q < k; q++)
    for (auto& p : c) {
      if (p.size() <= 1) { p.assign(1, 0.0); continue; }
      for (size_t i = 1; i < p.size(); i++) p[i - 1] = p[i] * (double)i;
      p.pop_back();
    }
  return new UserFn(get_domain(), c);
}

static const double DOM[][2] = {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {-1, 1}, {0, 1 + 1e-10}};
static int train = -1;   // the place of the next piece, when pieces that follow each other are wanted
static std::pair<double, double> pick_domain() {
  if (train >= 0) return {(double)train, (double)train + 1};
  uint32_t k = draw_w({8, 5, 3, 3, 2, 1});
  double a = DOM[k][0], b = DOM[k][1];
  if (chance(1, 24)) { static const double off[] = {2e-5, 1e-4, 5e-4, 1e-3, 1e-2}; double e = off[draw(5)] * (chance(1, 2) ? 1 : -1); if (chance(1, 2)) a += e; else b += e; }   // nearly another one's, but not quite
  return {a, b};
}
static int pick_dim() { if (train >= 0) return 1; return 1 + (int)draw_w({6, 3, 2}); }

template <class T> static std::shared_ptr<T> mk(std::pair<double, double> d, int dim) {
  auto n = std::make_shared<T>(); n->lo = d.first; n->hi = d.second; n->dim = dim; return n;
}
Obj World::leaf() {
  Obj r; auto d = pick_domain(); char b[96];
  switch (draw_w({4, 3, 3, 3, 3, 4, 4, 4, 3})) {
    case 0: { int n = pick_dim(); auto m = mk<model::Const>(d, n); Eigen::VectorXd v(n); for (int i = 0; i < n; i++) { v(i) = real(-2, 2, 16); m->v.push_back(v(i)); }
      sim::alloc::Scope s; r.p = std::make_unique<ConstFunction>(d, v); r.m = m; snprintf(b, sizeof b, "const%d", n); break; }
    case 1: { double a = real(-2, 2, 16); auto m = mk<model::Lin>(d, 1); m->a = a; sim::alloc::Scope s; r.p = std::make_unique<DomainLinearDilation>(d, a); r.m = m; snprintf(b, sizeof b, "lin(%g)", a); break; }
    case 2: { auto m = mk<model::Lin>(d, 1); sim::alloc::Scope s; r.p = std::make_unique<Identity>(d); r.m = m; snprintf(b, sizeof b, "id"); break; }
    case 3: { auto m = mk<model::Trig>(d, 1); m->kind = 0; sim::alloc::Scope s; r.p = std::make_unique<Exponential>(d); r.m = m; snprintf(b, sizeof b, "exp"); break; }
    case 4: { auto m = mk<model::Trig>(d, 1); m->kind = 1; sim::alloc::Scope s; r.p = std::make_unique<Cos>(d); r.m = m; snprintf(b, sizeof b, "cos"); break; }
    case 5: { auto m = mk<model::Trig>(d, 1); m->kind = 2; sim::alloc::Scope s; r.p = std::make_unique<Sin>(d); r.m = m; snprintf(b, sizeof b, "sin"); break; }
    case 6: { int n = 1 + (int)draw(7); auto m = mk<model::Poly>(d, 1); Eigen::VectorXd v(n); m->c.resize(1); bool small = chance(1, 5), mv = chance(1, 3); for (int i = 0; i < n; i++) { v(i) = real(-1, 1, 16); if (small && chance(1, 2)) v(i) /= 512; m->c[0].push_back(v(i)); }   // some leading coefficients are small
      sim::alloc::Scope s; if (mv) r.p = std::make_unique<CanonicPolynomial>(d, std::move(v)); else r.p = std::make_unique<CanonicPolynomial>(d, v); r.m = m; snprintf(b, sizeof b, "poly%d", n - 1); break; }
    case 7: { int n = pick_dim(); auto m = mk<model::Poly>(d, n); m->c.resize(n); for (auto& c : m->c) { int k = 1 + (int)draw(4); for (int i = 0; i < k; i++) c.push_back(real(-1, 1, 16)); }
      sim::alloc::Scope s; r.p = std::make_unique<UserFn>(d, m->c); r.m = m; snprintf(b, sizeof b, "user%d", n); break; }
    default: {
      int n = pick_dim(), ni = 1 + (int)draw(3); auto m = mk<model::Spline>(d, n);
      m->b.kind = draw_w({3, 1, 1}) ;
      m->b.dim = m->b.kind == 2 ? 6 : 2 + (int)draw(4); m->b.alpha = 0.3;
      std::unique_ptr<basis::Basis> bs;
      if (m->b.kind == 1) { for (int i = 0; i < m->b.dim; i++) m->b.pts.push_back(-1 + 2.0 * i / (m->b.dim - 1)); bs = std::make_unique<basis::BasisLagrange>(m->b.pts); }
      else if (m->b.kind == 2) bs = std::make_unique<basis::Basis0101>(0.3);
      else bs = std::make_unique<basis::BasisLegendre>(m->b.dim);
      double L = d.second - d.first, used = 0; Eigen::VectorXd tau(ni);
      for (int i = 0; i < ni; i++) { tau(i) = i + 1 == ni ? L - used : L / ni * real(0.5, 1, 8); used += tau(i); m->tau.push_back(tau(i)); }
      Eigen::VectorXd c(m->b.dim * n * ni); for (long i = 0; i < c.size(); i++) { c(i) = real(-1, 1, 16); m->coef.push_back(c(i)); }
      m->setup(d.first); m->hi = d.second; m->breaks.back() = d.second;
      sim::alloc::Scope s; r.p = std::make_unique<GSpline>(d, n, ni, *bs, c, tau); r.m = m; snprintf(b, sizeof b, "spline%d/%d", n, ni); break; }
  }
  char t[160]; snprintf(t, sizeof t, "%s[%.4g,%.4g]", b, d.first, d.second);
  r.txt = t;
  if (chance(1, 4)) { sim::alloc::Scope s; r.p = std::make_unique<FunctionExpression>(*r.p); r.txt += "'"; }
  return r;
}

// ------------------------------------------------------------------ operations
enum Kind { LEAF, ADD, SUB, MUL, NEG, SCALE, COMPOSE, CONCAT, DOT, DERIV, COPY, IADD, IMUL, DROP, EVAL, ZERO, NKIND };
static const char* KN[] = {"leaf", "add", "sub", "mul", "neg", "scale", "compose", "concat", "dot", "deriv", "copy", "iadd", "imul", "drop", "eval", "zero"};
struct Op { Kind k; bool ra = false, rb = false; int deg = 0; double s = 1; int variant = 0; };

static FunctionExpression* fe(FunctionBase* f) { return dynamic_cast<FunctionExpression*>(f); }
static std::unique_ptr<FunctionBase> boxe(FunctionExpression&& e) { return std::make_unique<FunctionExpression>(std::move(e)); }

#define BIN(OPR)                                                                                     \
  if (op.ra) {                                                                                       \
    if (eb) { if (op.rb) return boxe(std::move(*a) OPR(std::move(*eb)) CL); return boxe(std::move(*a) OPR(*eb) CL); } \
    if (op.rb) return boxe(std::move(*a) OPR(std::move(*b)) CL); return boxe(std::move(*a) OPR(*static_cast<const FunctionBase*>(b)) CL);                    \
  } else {                                                                                           \
    const FunctionBase& ca = *a;                                                                     \
    if (eb) { if (op.rb) return boxe(ca OPR(std::move(*eb)) CL); return boxe(ca OPR(*static_cast<const FunctionExpression*>(eb)) CL); }     \
    if (op.rb) return boxe(ca OPR(std::move(*b)) CL); return boxe(ca OPR(*static_cast<const FunctionBase*>(b)) CL);                          \
  }
#define CL
// runs the operation for real; a (and b) are consumed when ra (rb) is set
static std::unique_ptr<FunctionBase> exec(const Op& op, FunctionBase* a, FunctionBase* b) {
  FunctionExpression *ea = a ? fe(a) : nullptr, *eb = b ? fe(b) : nullptr;
  switch (op.k) {
    case ADD: BIN(+)
    case SUB: BIN(-)
    case MUL: BIN(*)
    case COMPOSE: BIN(.compose)
    case CONCAT: BIN(.concat)
    case NEG: if (op.ra) return boxe(-std::move(*a)); return boxe(-*static_cast<const FunctionBase*>(a));
    case SCALE:
      if (ea) { if (op.ra) return boxe(op.s * std::move(*ea)); return boxe(op.s * *static_cast<const FunctionExpression*>(ea)); }
      return boxe(op.s * *static_cast<const FunctionBase*>(a));
    case DOT:
      if (op.ra) { if (op.rb) return std::make_unique<DotProduct>(std::move(*a).dot(std::move(*b))); return std::make_unique<DotProduct>(std::move(*a).dot(*static_cast<const FunctionBase*>(b))); }
      if (op.rb) return std::make_unique<DotProduct>(static_cast<const FunctionBase*>(a)->dot(std::move(*b)));
      return std::make_unique<DotProduct>(static_cast<const FunctionBase*>(a)->dot(*static_cast<const FunctionBase*>(b)));
    case DERIV:
      switch (op.variant) {
        case 0: return a->deriv(op.deg);
        case 1: return boxe(a->derivate(op.deg));
        default: if (ea) return boxe(ea->derivate(op.deg)); return a->deriv(op.deg);
      }
    case COPY:
      switch (op.variant) {
        case 0: return static_cast<const FunctionBase*>(a)->clone();
        case 1: return std::make_unique<FunctionExpression>(*static_cast<const FunctionBase*>(a));
        case 2: return boxe(static_cast<const FunctionBase*>(a)->to_expression());
        case 3: if (ea) return std::make_unique<FunctionExpression>(*static_cast<const FunctionExpression*>(ea)); return static_cast<const FunctionBase*>(a)->clone();
        // the rest consume a
        case 4: return a->move_clone();
        case 5: return std::make_unique<FunctionExpression>(std::move(*a));
        case 6: return boxe(std::move(*a).to_expression());
        default: if (ea) return std::make_unique<FunctionExpression>(std::move(*ea)); return std::move(*a).clone();
      }
    case IADD: if (op.rb) { if (eb) *ea += std::move(*eb); else *ea += std::move(*b); } else { if (eb) *ea += *static_cast<const FunctionExpression*>(eb); else *ea += *static_cast<const FunctionBase*>(b); } return nullptr;
    case IMUL: if (op.rb) { if (eb) *ea *= std::move(*eb); else *ea *= std::move(*b); } else { if (eb) *ea *= *static_cast<const FunctionExpression*>(eb); else *ea *= *static_cast<const FunctionBase*>(b); } return nullptr;
    default: return nullptr;
  }
}
static bool same_dom(const model::P& a, const model::P& b) { return std::fabs(a->lo - b->lo) < 1e-6 && std::fabs(a->hi - b->hi) < 1e-6; }
// expected model of the result; null when the operation must be refused
static model::P expect(const Op& op, const model::P& a, const model::P& b) {
  std::shared_ptr<model::Node> r;
  switch (op.k) {
    case ADD: case SUB: case IADD: { if (!same_dom(a, b) || a->dim != b->dim) return nullptr; auto m = std::make_shared<model::Sum>(); m->a = a; m->b = b; m->minus = op.k == SUB; m->dim = a->dim; m->lo = a->lo; m->hi = a->hi; r = m; break; }
    case MUL: case IMUL: { if (!same_dom(a, b) || (a->dim > 1 && b->dim > 1)) return nullptr; auto m = std::make_shared<model::Mul>(); m->a = a; m->b = b; m->dim = std::max(a->dim, b->dim); m->lo = a->lo; m->hi = a->hi; r = m; break; }
    case NEG: { auto m = std::make_shared<model::Neg>(); m->a = a; m->dim = a->dim; m->lo = a->lo; m->hi = a->hi; r = m; break; }
    case SCALE: { auto c = std::make_shared<model::Const>(); c->v = {op.s}; auto m = std::make_shared<model::Mul>(); m->a = a; m->b = c; m->dim = a->dim; m->lo = a->lo; m->hi = a->hi; r = m; break; }
    case COMPOSE: { if (b->dim != 1) return nullptr; auto m = std::make_shared<model::Comp>(); m->outer = a; m->inner = b; m->dim = a->dim; m->lo = b->lo; m->hi = b->hi; r = m; break; }
    case CONCAT: { if (a->dim != b->dim || std::fabs(a->hi - b->lo) > 1e-6) return nullptr; auto m = std::make_shared<model::Concat>(); m->f = {a, b}; m->breaks = {a->lo, a->hi, b->hi}; m->dim = a->dim; m->lo = a->lo; m->hi = b->hi; r = m; break; }
    case DOT: { if (!same_dom(a, b) || a->dim != b->dim) return nullptr; auto m = std::make_shared<model::Dot>(); m->a = a; m->b = b; m->dim = 1; m->lo = a->lo; m->hi = a->hi; r = m; break; }
    case DERIV: { auto m = std::make_shared<model::Deriv>(); m->a = a; m->k = op.deg; m->dim = a->dim; m->lo = a->lo; m->hi = a->hi; r = m; break; }
    default: return a;
  }
  r->size = a->size + (b ? b->size : 0) + 1;
  if (op.k == DERIV) { int s = a->size; for (int i = 0; i < op.deg && s > 1; i++) s = s * (a->size <= 3 ? 2 : 3) + 1; r->size = s; }
  return r;
}

static void check_values(const FunctionBase& f, const model::P& m, const std::string& txt, const char* when, const char* cls) {
  if (f.get_codom_dim() != (size_t)m->dim) sim::violation(cls, "%s: codomain dimension of %s is %zu, should be %d", when, txt.c_str(), f.get_codom_dim(), m->dim);
  auto d = f.get_domain();
  if (!(std::fabs(d.first - m->lo) < 1e-6) || !(std::fabs(d.second - m->hi) < 1e-6))
    sim::violation(cls, "%s: domain of %s is [%g, %g], should be [%g, %g]", when, txt.c_str(), d.first, d.second, m->lo, m->hi);
  double L = m->hi - m->lo;
  // both ends, four fixed points and some that differ from function to function, in no order;
  // asked for at once, one by one, or into a part of a larger array
  uint64_t h = sim::mix(sim::hstr(txt.c_str()), sim::hstr(when)); int n = 6 + (h % 16 == 0 ? 30 : 3), how = (int)(h / 16 % 8);
  const double fr[] = {0.0, 1.0, 0.31830988, 0.7182818, 0.55, 0.0901};
  Eigen::VectorXd t(n); for (int i = 0; i < n; i++) t(i) = i == 0 ? d.first : i == 1 ? d.second : m->lo + L * (i < 6 ? fr[i] : (double)(sim::mix(h, (uint64_t)i) % 4093 + 1) / 4094.0);
  if (h / 128 % 8 == 0) for (int i = 3; i < n; i += 2) t(i) = t(i - 1);          // the same instant twice in a row
  Eigen::MatrixXd v;
  try {
    if (how == 0) { v.resize(n, m->dim); for (int i = 0; i < n; i++) { Eigen::VectorXd one = t.segment(i, 1); v.row(i) = f.value(one); } }
    else if (how == 1) { Eigen::MatrixXd big = Eigen::MatrixXd::Constant(n + 3, m->dim + 2, 5.5); Eigen::MatrixXd col(n + 4, 1); col.block(2, 0, n, 1) = t; f.value(col.block(2, 0, n, 1).col(0), big.block(1, 1, n, m->dim)); v = big.block(1, 1, n, m->dim); big.block(1, 1, n, m->dim).setConstant(5.5); if (!(big.array() == 5.5).all()) sim::violation(cls, "%s: evaluating %s wrote beyond the array it was given", when, txt.c_str()); }
    else if (how == 2) v = f(t);
    else v = f.value(t);
  } catch (const std::exception& e) {
    // a value nothing is said about may have been asked for (a composition that leaves the reals): only the others have to be there
    sim::probe("evaluation-refused"); v = Eigen::MatrixXd::Zero(n, m->dim);
    for (int i = 0; i < n; i++) { std::vector<model::LD> x, tol; if (!model::decide(m, t(i), x, tol)) continue; Eigen::VectorXd one = t.segment(i, 1);
      try { v.row(i) = f.value(one); } catch (const std::exception& e2) { sim::violation(cls, "%s: evaluating %s at t=%.17g failed: %s", when, txt.c_str(), t(i), e2.what()); } }
  }
  if (v.rows() != n || v.cols() != m->dim) sim::violation(cls, "%s: evaluating %s gives %ld x %ld values instead of %d x %d", when, txt.c_str(), (long)v.rows(), (long)v.cols(), n, m->dim);
  for (int i = 0; i < n; i++) {
    std::vector<model::LD> x, tol;
    if (!model::decide(m, t(i), x, tol)) { sim::probe("point-undecided"); continue; }
    sim::probe("point-checked");
    for (int k = 0; k < m->dim; k++) { double g = v(i, k); sim::observe(&g, 1); }
    for (int k = 0; k < m->dim; k++) {
      double got = v(i, k);
      if (!(std::fabs((double)(got - x[k])) <= (double)tol[k]))
        sim::violation(cls, "%s: %s at t=%.17g component %d is %.17g, should be %.17g (tolerance %.2g)", when, txt.c_str(), t(i), k, got, (double)x[k], (double)tol[k]);
    }
  }
}
void World::check(const Obj& x, const char* when) {
  if (!o.check) return;
  check_values(*x.p, x.m, x.txt, when, "wrong-function");
}
void World::check_all(const char* when) { for (auto& x : pool) check(x, when); }

static const char* tname(FunctionBase* f) { auto e = fe(f); return e ? (e->get_type() == FunctionExpression::UNIQUE ? "U" : e->get_type() == FunctionExpression::SUM ? "S" : e->get_type() == FunctionExpression::MULTIPLICATION ? "M" : e->get_type() == FunctionExpression::COMPOSITION ? "C" : e->get_type() == FunctionExpression::CONCATENATION ? "K" : "N") : "L"; }

// integrals, inner products and squared norms, against the same quadrature of the model
void World::integrate(size_t ia, size_t ib) {
  namespace fa = gsplines::functional_analysis; Obj &A = pool[ia], &B = pool[ib];
  uint32_t kind = draw(8); if (kind == 7 && B.m->dim != 1) kind = 0; bool fine = chance(1, 6); int nn = 2 + (int)draw(fine ? 9 : 5), ni = 1 + (int)draw(fine ? 9 : 3), deg = (int)draw_w({2, 2, 1}); std::vector<std::pair<size_t, double>> terms; int nt = 1 + (int)draw(3); for (int i = 0; i < nt; i++) terms.push_back({draw(3), real(-2, 2, 16)});
  bool two = kind == 1 || kind == 3 || kind >= 6; if (kind == 7) { nn = 10; ni = 1; } bool fit = kind == 0 ? A.m->dim == 1 : !two || kind == 7 || (same_dom(A.m, B.m) && A.m->dim == B.m->dim);
  if (kind == 0 && !fit) return; if (kind == 0) terms.assign(1, {0, 1.0}); if (kind >= 3 && kind <= 4) { terms.clear(); for (int i = 0; i <= deg; i++) terms.push_back({(size_t)i, 1.0}); } if (kind >= 5) terms.assign(1, {0, 1.0});
  int top = 0; for (auto& w : terms) top = std::max(top, (int)w.first); if (std::max(A.ord, two ? B.ord : 0) + top > 5 || A.m->size + B.m->size > 60) return;
  double v = 0; ww::Outcome r = ww::attempt(o.enumerate ? ww::ENUM : o.faults ? ww::SOME : ww::NONE, true, [&] {
    switch (kind) { case 0: v = fa::integral(*A.p, nn, ni); break; case 1: v = fa::sobolev_semi_inner_product(*A.p, *B.p, terms, nn, ni); break; case 2: v = fa::sobolev_semi_norm(*A.p, terms, nn, ni); break; case 3: v = fa::sobolev_inner_product(*A.p, *B.p, deg, nn, ni); break; case 4: v = fa::sobolev_norm(*A.p, deg, nn, ni); break; case 5: v = fa::l2_norm(*A.p, nn, ni); break; case 7: v = gsplines::collocation::integral(*B.p, *A.p); break; default: v = fa::l2_inner_product(*A.p, *B.p, nn, ni); } }, [&] { check(A, "operand of a failed integration"); if (two) check(B, "operand of a failed integration"); });
  static const char* N[] = {"integral", "semi inner product", "semi norm", "inner product", "norm", "l2 norm", "l2 inner product", "energy of the first along the second"};
  sim::logf("%s #%zu #%zu (%d nodes, %d intervals)%s%s", N[kind], ia, ib, nn, ni, fit ? "" : " (incompatible)", r.failed ? " failed" : ""); sim::probe("integration"); if (r.fired) any_fault = true;
  sim::feature(sim::mix(1000 + kind, sim::hstr(tname(A.p.get()))));
  if (!fit) { sim::fault("incompatible-operands"); if (!r.failed) sim::violation("incompatible-accepted", "%s of %s and %s was accepted although they are incompatible", N[kind], A.txt.c_str(), B.txt.c_str()); return; }
  if (r.failed && r.fired) { check_all("after a failed integration"); return; }
  auto d = kind == 7 ? B.p->get_domain() : A.p->get_domain(); auto x = ww::gll_nodes(nn); model::LD want = 0, tol = 1e-10L, len = ((model::LD)d.second - d.first) / ni;
  for (auto& w : terms) {
    model::P g = A.m; if (kind) { auto der = [&](const model::P& q) -> model::P { if (!w.first) return q; auto m = std::make_shared<model::Deriv>(); m->a = q; m->k = (int)w.first; m->dim = q->dim; m->lo = q->lo; m->hi = q->hi; return m; }; auto m = std::make_shared<model::Dot>(); m->a = der(A.m); m->b = der(two && kind != 7 ? B.m : A.m); m->dim = 1; m->lo = A.m->lo; m->hi = A.m->hi; g = m; if (kind == 7) { auto c = std::make_shared<model::Comp>(); c->outer = g; c->inner = B.m; c->dim = 1; c->lo = B.m->lo; c->hi = B.m->hi; g = c; } }
    for (int i = 0; i < ni; i++) for (int q = 0; q < nn; q++) {
      model::LD a = 1, b = x[q]; for (int k = 2; k <= nn - 1; k++) { model::LD c = ((2 * k - 1) * (model::LD)x[q] * b - (k - 1) * a) / k; a = b; b = c; } model::LD wt = 2.0L / ((model::LD)nn * (nn - 1) * b * b) * len / 2;
      std::vector<model::LD> y, e; double at = (x[q] + 1) * (double)len / 2 + (d.first + i * (double)len); if (!model::decide(g, at, y, e)) { sim::probe("integral-undecided"); return; }
      want += w.second * wt * y[0]; tol += std::fabs(w.second) * wt * (e[0] + 1e-8L * (1 + model::ab(y[0]))); } }
  if (r.failed) sim::violation("refused-compatible", "%s of %s failed: %s", N[kind], A.txt.c_str(), r.what.c_str());
  sim::probe("integral-checked"); sim::observe(&v, 1); sim::nontrivial();
  if (!(model::ab(v - want) <= tol)) sim::violation(o.enumerate ? "wrong-result" : "wrong-function", "%s of %s%s%s (%d nodes, %d intervals) is %.15g, should be %.15Lg", N[kind], A.txt.c_str(), two ? " and " : "", two ? B.txt.c_str() : "", nn, ni, v, want);
}
// a function asked for over a domain whose end lies before its beginning: nothing sensible can come of it,
// but the failure has to reach the caller
void World::inverted() {
  double a = real(-2, 2, 8), len = real(0.125, 2, 8); std::pair<double, double> d(a + len, a); uint32_t k = draw(6); bool failed = false; if (sim::alloc::g_dry) return;
  try {
    switch (k) {
      case 0: { Identity f(d); (void)f; break; }
      case 1: { ConstFunction f(d, (size_t)2, 0.5); (void)f; break; }
      case 2: { Sin f(d); (void)f; break; }
      case 3: { Exponential f(d); (void)f; break; }
      case 4: { FunctionExpression f(d, (size_t)1); (void)f; break; }
      default: { Eigen::VectorXd c = Eigen::VectorXd::Ones(2), l = Eigen::VectorXd::Constant(1, len); GSpline f(d, (size_t)1, (size_t)1, *gsplines::basis::BasisLegendre::get(2), c, l); (void)f; }
    }
  } catch (const std::exception&) { failed = true; }
  sim::logf("inverted domain, kind %u -> %s", k, failed ? "refused" : "accepted"); sim::fault("refused-operands"); sim::probe("inverted-domain");
}
void World::step() {
  sim::Span sp;
  sim::steps(1);
  if (o.enumerate && chance(1, 30)) return inverted();
  if (pool.empty() || (pool.size() < 10 && chance(1, 4))) {
    Obj x = leaf(); sim::logf("new #%zu = %s", pool.size(), x.txt.c_str()); check(x, "new function"); pool.push_back(std::move(x)); return;
  }
  Op op;
  static const Kind ks[] = {ADD, SUB, MUL, NEG, SCALE, COMPOSE, CONCAT, DOT, DERIV, COPY, IADD, IMUL, EVAL, DROP, ZERO};
  op.k = ks[draw_w({6, 4, 6, 4, 2, 6, 6, 3, 6, 4, 5, 5, 2, 1, 1})];
  if (force >= 0) op.k = (Kind)force; else if (nfocus && chance(2, 3)) op.k = (Kind)focus[draw((uint32_t)nfocus)];
  size_t ia = draw((uint32_t)pool.size()), ib = draw((uint32_t)pool.size());
  op.ra = chance(1, 3); op.rb = chance(1, 3);
  op.deg = (int)draw_w({1, 5, 3, 1, 1}); op.s = real(-2, 2, 16); op.variant = (int)draw(8);
  if (chance(1, 16)) { if (chance(2, 3)) for (size_t q = 0; q < pool.size(); q++) { size_t j = (ib + q) % pool.size(); if (same_dom(pool[ia].m, pool[j].m) && pool[ia].m->dim == pool[j].m->dim) { ib = j; break; } } integrate(ia, ib); return; }
  bool binary = op.k == ADD || op.k == SUB || op.k == MUL || op.k == COMPOSE || op.k == CONCAT || op.k == DOT || op.k == IADD || op.k == IMUL;
  bool inplace = op.k == IADD || op.k == IMUL;
  int want = binary ? (int)draw_w({3, 2}) : 0;   // mostly look for a partner that fits
  uint32_t fk = o.faults ? draw_w({3, 2, 1, 1}) : 0;   // none, one failed allocation, sticky, user throw
  uint32_t fat = fk ? 1 + draw(fk == 3 ? 6 : 30) : 0;
  if (op.k == DROP) { if (pool.size() > 2) { sim::logf("drop #%zu", ia); pool.erase(pool.begin() + ia); } return; }
  if (op.k == ZERO) { auto d = pick_domain(); int n = pick_dim(); Obj x; { sim::alloc::Scope s; x.p = std::make_unique<FunctionExpression>(d, n); } auto m = mk<model::Const>(d, n); m->v.assign(n, 0.0); x.m = m; x.txt = "zero"; sim::logf("new #%zu = zero%d", pool.size(), n); check(x, "new function"); if (pool.size() < 12) pool.push_back(std::move(x)); return; }
  if (inplace) { op.ra = false; bool ok = false; for (size_t q = 0; q < pool.size(); q++) { size_t j = (ia + q) % pool.size(); if (fe(pool[j].p.get())) { ia = j; ok = true; break; } } if (!ok) return; }
  if (binary && want == 0) { for (size_t q = 0; q < pool.size(); q++) { size_t j = (ib + q) % pool.size(); if (expect(op, pool[ia].m, pool[j].m)) { ib = j; break; } } }
  if (op.k == COPY) { op.ra = op.variant >= 4; }
  if (op.k == DERIV || op.k == EVAL || (op.k == SCALE && !fe(pool[ia].p.get()))) op.ra = false;
  if (!binary) op.rb = false;
  if (binary && ia == ib) { op.ra = op.rb = false; }
  Obj &A = pool[ia], &B = pool[ib];
  int ord = A.ord; if (binary) ord = std::max(ord, B.ord); if (op.k == DERIV) ord += op.deg;
  if (ord > 5) return;
  model::P ex = expect(op, A.m, binary ? B.m : nullptr);
  if (ex && ex->size > 90) return;
  model::P am = A.m, bm = B.m;
  std::string txt;
  { char b[64]; if (binary) { txt = std::string(KN[op.k]) + "(" + A.txt + (op.ra ? "&&" : "") + ", " + B.txt + (op.rb ? "&&" : "") + ")"; } else { snprintf(b, sizeof b, op.k == DERIV ? "%s%d(" : op.k == SCALE ? "%s(" : "%s%d(", KN[op.k], op.k == DERIV ? op.deg : op.variant); txt = std::string(b) + A.txt + (op.ra ? "&&" : "") + ")"; } if (txt.size() > 300) txt = txt.substr(0, 297) + "..."; }
  sim::logf("%s #%zu%s #%zu%s deg=%d s=%g v=%d%s", KN[op.k], ia, op.ra ? "&&" : "", binary ? ib : ia, op.rb ? "&&" : "", op.deg, op.s, op.variant, ex ? "" : " (incompatible)");
  sim::feature(sim::mix(sim::mix(op.k * 64 + op.ra * 2 + op.rb, sim::hstr(tname(A.p.get()))), binary ? sim::hstr(tname(B.p.get())) : op.variant));
  sim::probe(KN[op.k]);
  if (!ex) sim::probe("incompatible-operands");

  // consumed operands are handed over as they are (the object leaves the pool)
  std::unique_ptr<FunctionBase> res; bool failed = false; std::string what;
  auto attempt = [&](FunctionBase* pa, FunctionBase* pb) {
    failed = false; what.clear(); res.reset();
    try {
      if (op.k == EVAL) { Eigen::VectorXd t = Eigen::VectorXd::LinSpaced(4, A.m->lo, A.m->hi); sim::alloc::Scope s; Eigen::MatrixXd v = (*pa)(t); (void)v; }
      else { sim::alloc::Scope s; res = exec(op, pa, pb); }
    } catch (const std::exception& e) { sim::alloc::Outside out; failed = true; what = e.what(); }
  };
  FunctionBase *pa = A.p.get(), *pb = binary ? B.p.get() : nullptr;
  bool fired = false, free_to_fail = op.k == IMUL && A.m->dim < B.m->dim;   // growing the codomain in place may be refused
  if (op.k == EVAL) { Eigen::VectorXd t = Eigen::VectorXd::LinSpaced(4, A.m->lo, A.m->hi); for (int i = 0; i < 4; i++) { std::vector<model::LD> x, tol; if (!model::decide(A.m, t(i), x, tol)) free_to_fail = true; } }
  if (o.enumerate && ex) {
    // every allocation point of this operation in turn, and every call into
    // user code, then the real attempt; an in-place update probes one of the
    // two kinds (the first attempt without a fault commits it)
    uint64_t points = 0; uint32_t sticky = draw(2), userfirst = draw(2);
    for (int pass = 0; pass < (inplace ? 1 : 2); pass++) {
      bool user = (pass == 1) != (userfirst == 1);
      for (uint64_t k = 1; k < (user ? 60u : 400u); k++) {
        std::unique_ptr<FunctionBase> ca, cb;
        if (op.ra) ca = pa->clone();
        if (op.rb) cb = pb->clone();
        bool f;
        if (user) { g_user_fired = false; g_user_countdown = (long)k; attempt(op.ra ? ca.get() : pa, op.rb ? cb.get() : pb); g_user_countdown = 0; f = g_user_fired; }
        else { sim::alloc::arm(k, sticky); attempt(op.ra ? ca.get() : pa, op.rb ? cb.get() : pb); f = sim::alloc::fired(); sim::alloc::disarm(); }
        if (!f) {   // not reached: the operation ran to its end
          if (failed && !free_to_fail) sim::violation("retry-failed", "%s failed without a fault: %s", txt.c_str(), what.c_str());
          if (inplace) {
            if (!failed) { A.m = ex; A.ord = ord; A.txt = txt; }
            check(A, "retry after failures"); check_all("after retry");
            if (op.rb) pool.erase(pool.begin() + ib);
            sim::fault(user ? "user-function-throws" : sticky ? "alloc-fail-sticky" : "alloc-fail", points); if (points) sim::nontrivial();
            return;
          }
          break;
        }
        ++points;
        if (user) sim::fault("user-function-throws");
        if (!failed) {
          if (user) sim::violation("failure-swallowed", "%s: a user-supplied function threw and the failure did not reach the caller", txt.c_str());
          sim::probe("fault-absorbed");
          if (inplace) { A.m = ex; A.ord = ord; A.txt = txt; check(A, "update that absorbed a failed allocation"); if (op.rb) pool.erase(pool.begin() + ib); return; }
          if (res) check_values(*res, ex, txt, "result of an operation that absorbed a failed allocation", "wrong-result");
        }
        ca.reset(); cb.reset(); res.reset();
        check_values(*pa, am, A.txt, "operand after a failed operation", "operand-changed");
        if (binary) check_values(*pb, bm, B.txt, "operand after a failed operation", "operand-changed");
      }
      if (!user) { sim::fault(sticky ? "alloc-fail-sticky" : "alloc-fail", points); if (points) sim::nontrivial(); }
    }
    check_all("after failures");
    attempt(pa, pb);
  } else {
    if (fk == 1 || fk == 2) sim::alloc::arm(fat, fk == 2);
    if (fk == 3) { g_user_fired = false; g_user_countdown = fat; }
    attempt(pa, pb);
    if (fk == 1 || fk == 2) { fired = sim::alloc::fired(); sim::alloc::disarm(); if (fired) sim::fault(fk == 1 ? "alloc-fail" : "alloc-fail-sticky"); }
    if (fk == 3) { fired = g_user_fired; g_user_countdown = 0; if (fired) sim::fault("user-function-throws"); }
    if (fired) any_fault = true;
  }
  if (!ex) {
    bool widen = op.k == IMUL && false; (void)widen;
    if (!failed) sim::violation("incompatible-accepted", "%s was accepted although the operands are incompatible (domains [%g,%g] and [%g,%g], dimensions %d and %d)", txt.c_str(), am->lo, am->hi, bm->lo, bm->hi, am->dim, bm->dim);
    sim::fault("incompatible-operands");
  } else if (failed && !fired) {
    if (!free_to_fail) sim::violation("refused-compatible", "%s failed although the operands are compatible: %s", txt.c_str(), what.c_str());
  }
  if (failed) { sim::logf("  failed"); }
  // bookkeeping: consumed operands leave the pool whatever happened
  Obj n; bool got = false;
  if (!failed) {
    if (inplace) { A.m = ex; A.ord = ord; A.txt = txt; }
    else if (res) { n.p = std::move(res); n.m = ex; n.ord = ord; n.txt = txt; got = true; }
    sim::nontrivial();
  }
  if (inplace) { check(A, failed ? "target after a failed in-place update" : "in-place update"); }
  std::vector<size_t> gone; if (op.ra) gone.push_back(ia); if (op.rb && ib != ia) gone.push_back(ib);
  std::sort(gone.rbegin(), gone.rend());
  for (size_t g : gone) pool.erase(pool.begin() + g);
  if (got) { check(n, failed ? "?" : "result"); if (pool.size() < 12) pool.push_back(std::move(n)); else pool[draw((uint32_t)pool.size())] = std::move(n); }
  if (fired || !ex || (gone.size() && chance(1, 3))) check_all("after the step");
}
void World::run() {
  int n = 3 + (int)draw(o.max_steps); if (!o.enumerate && chance(1, 10)) n *= 3;
  bool row = chance(1, 10); int leaves = row ? 4 : 3; train = -1;
  for (int i = 0; i < leaves; i++) { sim::Span s; train = row ? i : -1; Obj x = leaf(); train = -1; sim::logf("new #%zu = %s", pool.size(), x.txt.c_str()); check(x, "new function"); pool.push_back(std::move(x)); }
  // expressions to begin with, and a liking for some operations
  if (chance(1, 2)) {
    static const int make[] = {ADD, MUL, NEG, COMPOSE, CONCAT, CONCAT, SUB, DOT}; Opts keep = o; o.faults = o.enumerate = false; int pre = 1 + (int)draw(3);
    for (int i = 0; i < pre; i++) { force = make[draw(8)]; step(); } force = -1; o = keep; }
  static const int like[] = {ADD, SUB, MUL, NEG, SCALE, COMPOSE, CONCAT, DOT, DERIV, DERIV, DERIV, COPY, IADD, IMUL, EVAL};
  if (chance(1, 2)) { nfocus = 1 + (int)draw(2); for (int i = 0; i < nfocus; i++) focus[i] = like[draw(15)]; }
  if (row) { focus[nfocus++] = CONCAT; focus[nfocus++] = CONCAT; }
  for (int i = 0; i < n; i++) step();
  check_all("end of history");
}

static void c01() { Opts o; o.faults = sim::chance(1, 2); World w(o); w.run(); }
}  // namespace fw
void ww::run_func(Mode m, int steps) { fw::Opts o; o.faults = m == SOME; o.enumerate = m == ENUM; o.max_steps = steps; fw::World w(o); w.run(); }
namespace fw {
static sim::Reg r01("C01", c01);
}  // namespace fw
int main(int c, char** v) { return sim::main_entry(c, v, "sim"); }
