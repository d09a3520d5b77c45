// Thread simulation: the programs the simulated threads run.  Compiled, like the
// library, with a scheduling point at every memory access.
#include "thr.hpp"
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Optimization/ipopt_interface.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <gsplines/Tools.hpp>
#include <ifopt/ipopt_solver.h>
using namespace gsplines; using namespace gsplines::functions; using namespace gsplines::basis; using namespace gsplines::collocation;
namespace fa = gsplines::functional_analysis; namespace op = gsplines::optimization;
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat; typedef GaussLobattoLagrangeSpline GLL; typedef std::pair<double, double> Dom;
namespace {
const int NF = 6, NS = 5, NB = 6, NG = 2;
const Dom D(0.0, 2.0);
std::unique_ptr<Basis> new_basis(int i) {
  switch (i % NB) {
    case 0: return std::make_unique<BasisLegendre>(4);
    case 1: return std::make_unique<BasisLegendre>(6);
    case 2: return std::make_unique<BasisLagrangeGaussLobatto>(4);
    case 3: { Vec p(4); p << -1, -0.4, 0.3, 1; return std::make_unique<BasisLagrange>(p); }
    case 4: return std::make_unique<Basis0101>(0.4);
    default: return std::make_unique<BasisLagrangeGaussLobatto>(6); }
}
Vec lens(int n, int v) { Vec t(n); for (int i = 0; i < n; i++) t(i) = 0.4 + 0.35 * ((i * 3 + v) % 4); return t; }
Vec unit_lens(int n, int v) { Vec t = lens(n, v); return t * (2.0 / t.sum()); }
Vec filled(long n, int v) { Vec c(n); for (long i = 0; i < n; i++) c(i) = std::sin(1.3 * i + 0.7 * v) + 0.25 * ((i + v) % 3); return c; }
Mat waypoints(int rows, int cd, int v) { Mat w(rows, cd); for (int i = 0; i < rows; i++) for (int j = 0; j < cd; j++) w(i, j) = std::cos(0.9 * i + 1.7 * j + v); return w; }
GSpline new_spline(int i, int v, int cd) { auto b = new_basis(i); int n = 2; return GSpline(D, (size_t)cd, (size_t)n, *b, filled(n * cd * (long)b->get_dim(), v), unit_lens(n, v)); }
GLL new_gll(int i, int v, int cd) { size_t n = i % 2 ? 5 : 3, I = 2; return GLL(D, (size_t)cd, I, n, filled((long)(n * I) * cd, v), unit_lens(2, v)); }
FunctionExpression new_expr(int i, int v) {
  Vec c3 = filled(3, v);
  switch (i % NF) {
    case 0: return Sin(D) * ConstFunction(D, 1, 1.5 + v) + CanonicPolynomial(D, c3);
    case 1: return Exponential(D).compose(Sin(D)) * CanonicPolynomial(D, filled(4, v));
    case 2: return (Cos(D) + CanonicPolynomial(D, c3)).concat(Sin(Dom(2.0, 3.5)) * Cos(Dom(2.0, 3.5)));
    case 3: { GSpline s = new_spline(v, v, 2); return Sin(D) * s.to_expression(); }
    case 4: { GSpline s = new_spline(v + 2, v, 1), q = new_spline(v + 1, v + 1, 1); return s.to_expression() * q.to_expression() - Sin(D); }
    default: return ((Sin(D) + Cos(D)) * (Identity(D) + CanonicPolynomial(D, c3))) * ((Cos(D) - Identity(D)).derivate()); }
}
struct Zoo {                               // everything one owner needs
  std::vector<FunctionExpression> F; std::vector<GSpline> S; std::vector<GLL> G; std::vector<std::unique_ptr<Basis>> B;
  std::vector<std::unique_ptr<Interpolator>> I; std::vector<std::unique_ptr<fa::SobolevNorm>> N;
  std::vector<std::unique_ptr<LinearFunctionalBase>> L; std::vector<std::unique_ptr<FunctionBase>> U;
};
Zoo nothing; Zoo* shared_zoo; Zoo* own[thr::MAXT];
// which parts the programs use: set-up costs time
Zoo* originals(int v) {
  Zoo* z = new Zoo; int cd = 1 + v % 2;
  for (int i = 0; i < NF; i++) z->F.push_back(new_expr(i, v % 3));
  for (int i = 0; i < NS; i++) z->S.push_back(new_spline(i, v, cd));
  for (int i = 0; i < NG; i++) z->G.push_back(new_gll(i, v, cd));
  for (int i = 0; i < NB; i++) z->B.push_back(new_basis(i));
  if (v & 4) {                             // caches already filled
    for (auto& b : z->B) b->get_derivative_matrix_block(2);
    Vec p = Vec::LinSpaced(3, 0.1, 1.9); for (auto& s : z->S) s.derivate()(p); for (auto& f : z->F) f.derivate()(p); }
  z->U.push_back(std::make_unique<DotProduct>(z->S[0].dot(z->S[1]))); z->U.push_back(z->S[4].deriv(1)); z->U.push_back(z->G[0].deriv(1)); z->U.push_back(z->F[3].clone());
  return z;
}
Zoo* copy(const Zoo& o) {                  // copies of the same originals
  Zoo* z = new Zoo; for (auto& f : o.F) z->F.push_back(f); for (auto& s : o.S) z->S.push_back(s); for (auto& g : o.G) z->G.push_back(g); for (auto& b : o.B) z->B.push_back(b->clone()); for (auto& u : o.U) z->U.push_back(u->clone()); return z;
}
void out(const Mat& m) { thr::out((double)m.rows()); for (long j = 0; j < m.cols(); j++) for (long i = 0; i < m.rows(); i++) thr::out(m(i, j)); }
void out(double x) { thr::out(x); }
Vec points(const FunctionBase& f, const thr::Op& o, int n = 3) { Vec p(n); double a = f.get_domain().first, l = f.get_domain_length(); for (int i = 0; i < n; i++) p(i) = a + l * (0.03 + 0.94 * std::fmod(o.x + 0.37 * i + 0.011, 1.0)); return p; }
void show(const FunctionBase& f, const thr::Op& o) { out(f(points(f, o))); }
void show_spline(const GSplineBase& s, const thr::Op& o) { show(s, o); out(s.get_coefficients()); out(s.get_interval_lengths()); }
void show_basis(const Basis& b, const thr::Op& o) { Vec v((long)b.get_dim()); b.eval_on_window(2 * o.x - 1, 0.8 + o.c, v); out(v); b.eval_derivative_on_window(1 - 2 * o.x, 1.1, 1 + (unsigned)o.c % 3, v); out(v); }
// a stateless solver: looks at the problem and leaves a fixed point behind
struct Solver : ifopt::SolverHook {
  int solve(ifopt::IpoptSolver&, ifopt::Problem& p) override {
    int n = p.GetNumberOfOptimizationVariables(); Vec x = p.GetVariableValues(); double s = x.sum(); for (int i = 0; i < n; i++) x(i) *= 1 + 0.1 * i; x *= s / x.sum();
    thr::out(p.EvaluateCostFunction(x.data())); out(p.EvaluateCostFunctionGradient(x.data())); p.SetVariables(x.data()); return 0; }
};
Solver g_solver;
enum R { R_EVAL, R_DERIV, R_COPY, R_COMBINE, R_COMPOSE, R_CONCAT, R_DOT, S_EVAL, S_DERIV, S_ARITH, S_SCALE, S_WAY, S_BOUND, B_EVAL, B_BLOCK, B_CLONE, B_TAU, I_BASIS, N_BASIS, G_CONV, G_OPS, FA_INT, FA_SOB, FA_L2, G_FUNC, EXPR, LASTSHARED };
const char* RN[] = {"evaluate", "differentiate", "copy", "combine", "compose", "concatenate", "dot product", "evaluate spline", "differentiate spline", "add splines", "scale spline in time", "waypoints and breakpoints", "bound velocity", "evaluate basis", "derivative block", "clone basis", "derivatives with respect to the length", "interpolator from basis", "cost from basis", "collocate", "collocation arithmetic", "integral", "sobolev norm", "l2 product", "collocation operators from spline", "into expression"};
enum W { W_FADD = LASTSHARED, W_FMUL, W_SADD, W_SASSIGN, W_INTERP, W_COST, W_GRAD, W_CONT, W_DMAT, W_SOBM, W_GLP, W_OPER, W_GET, W_APPROX, W_PATH, W_DROP, W_OWNFUN, W_GASSIGN, W_ADDM, W_FRESH, W_FRESH2, LASTOWN };
const char* WN[] = {"add in place", "multiply in place", "add to spline in place", "assign spline", "own interpolator", "own cost", "own cost gradient", "continuity matrix", "spline derivative matrix", "energy matrix", "collocation points", "own operator", "named basis", "approximate comparison", "optimal path", "drop and remake", "own user of the zoo", "assign collocation spline", "add derivative matrix", "fresh objects", "fresh collocation objects"};

void read_op(const Zoo& z, const thr::Op& o, int t) {
  const FunctionExpression &f = z.F[o.a % NF], &g = z.F[o.b % NF]; const GSpline &s = z.S[o.a % NS], &q = z.S[o.b % NS]; const Basis& b = *z.B[o.a % NB]; const GLL &c = z.G[o.a % NG], &d = z.G[o.b % NG];
  const FunctionBase* any[] = {&f, &s, &c, z.U[o.b % z.U.size()].get()}; const FunctionBase& u = *any[o.c % 4]; int n = 1 + o.c % 3;
  switch (o.k) {
    case R_EVAL: show(u, o); show(f, o); break;
    case R_DERIV: show(u.derivate(1 + o.c % 2), o); show(f.derivate(), o); break;
    case R_COPY: { auto k = u.clone(); show(*k, o); FunctionExpression e(f); show(e, o); break; }
    case R_COMBINE: { FunctionExpression e = o.c & 1 ? z.F[0] + z.F[1] * f.derivate() : z.F[1] - z.F[5] + z.F[0]; show(e, o); if (f.get_codom_dim() == 1 && o.a % NF != 2) { FunctionExpression h = -(f + z.F[0]) * z.F[5]; show(h, o); show(h.derivate(), o); } if (g.get_codom_dim() == 1 && o.b % NF != 2) show(g * z.F[1], o); break; }
    case R_COMPOSE: { FunctionExpression e = z.F[0].compose(Sin(D)); show(e, o); show(z.F[1].compose(z.F[0].compose(Cos(D))), o); show(e.derivate(), o); break; }
    case R_CONCAT: { Identity id(Dom(3.5, 5)); FunctionExpression e = z.F[2].concat(id.to_expression()); show(e, o); show(e.derivate(), o); show(e, o); break; }
    case R_DOT: { DotProduct p = s.dot(q); show(p, o); show(p.derivate(), o); break; }
    case S_EVAL: show_spline(s, o); show_spline(q, o); break;
    case S_DERIV: { FunctionExpression e = s.derivate(1 + o.c % 3); show(e, o); auto p = s.deriv(1 + o.b % 2); show(*p, o); break; }
    case S_ARITH: { GSpline k(s); GSpline r = k + s; r += s; show_spline(2.5 * r, o); show_spline(-s, o); show_spline(s - k, o); break; }
    case S_SCALE: show_spline(s.linear_scaling_new_execution_time(1.5 + o.x), o); break;
    case S_WAY: out(s.get_waypoints()); out(s.get_domain_breakpoints()); out(s == q); out(s.same_vector_space(q)); break;
    case S_BOUND: show_spline(s.linear_scaling_new_execution_time_max_velocity_max_acceleration(1.0 + o.x, 2.0, 0.25), o); break;
    case B_EVAL: show_basis(b, o); break;
    case B_BLOCK: { if (o.b == 7) { out(b.get_derivative_matrix_block(19 + (size_t)o.c * 2)); break; } const Mat& m = b.get_derivative_matrix_block(1 + (size_t)o.c); out(m); out(b.get_derivative_matrix_block((size_t)o.b % 3)); out(m); break; }
    case B_CLONE: { auto k = b.clone(); show_basis(*k, o); out(k->get_derivative_matrix_block(1 + (size_t)o.c)); out(*k == b); break; }
    case B_TAU: { Vec v((long)b.get_dim()); b.eval_derivative_wrt_tau_on_window(2 * o.x - 1, 0.7, 1 + (unsigned)o.c % 2, v); out(v); break; }
    case I_BASIS: { Interpolator i(2, (size_t)n, b); Vec l = lens(n, t % 3 + o.b); Mat w = waypoints(n + 1, 2, o.b); GSpline r = i.interpolate(l, w); show_spline(r, o); if (o.c & 1) show_spline(interpolate(l, w, b), o); break; }
    case N_BASIS: { fa::SobolevNorm N(waypoints(n + 1, 1, o.b), b, {{1, 1.0}}); Vec t = lens(n, o.b); out(N(t)); Vec g2(n); N.deriv_wrt_interval_len(t, g2); out(g2); break; }
    case G_CONV: { GLL k(s); show_spline(k, o); show_spline(GLL::approximate(u, o.b & 1 ? 6 + (size_t)o.b : 4, 2), o); GLL m(f, 2, 3); show(m, o); break; }
    case G_OPS: { GLL k = c + c * 2.0; show_spline(k, o); show_spline(c - k, o); show(c.derivate(), o); if (c.get_codom_dim() == 1) { show_spline(c * c, o); show_spline(pow(c, 2.0), o); } show_spline(norm(c), o); out(c.same_discretization(d)); out(c.value_at(1)); out(c.get_domain_discretization()); break; }
    case FA_INT: out(fa::integral(f.get_codom_dim() == 1 ? f : z.F[1], o.b & 1 ? 6 + (size_t)o.b : 4, 2)); break;
    case FA_SOB: out(fa::sobolev_norm(f, (size_t)o.c % 2, 4, 1)); out(fa::sobolev_norm(s, 1 + (size_t)o.c % 2, 4, 1)); break;
    case FA_L2: out(fa::l2_norm(f, o.b & 1 ? 6 + (size_t)o.b : 4, 1)); out(fa::l2_inner_product(s, q, 4, 1)); break;
    case G_FUNC: { Derivative dv(c); out((dv * c).get_coefficients()); if (c.get_codom_dim() == 1) { Integral in(c); out(in(c)); } TransposeLeftMultiplication tm(c); out((tm * c).get_coefficients()); ContinuityError ce(c, 1); out(ce(c)); break; }
    case EXPR: { FunctionExpression e = u.to_expression(); show(e, o); show(e.derivate(), o); break; }
    default: break; }
  (void)t;
}
void write_op(Zoo& z, const thr::Op& o, int t) {
  int n = 1 + o.c % 3; Basis* bp = z.B.empty() ? nullptr : z.B[(size_t)o.a % NB].get();
  switch (o.k) {
    case W_FADD: { FunctionExpression& f = z.F[o.a % 2]; f += z.F[5]; show(f, o); show(f.derivate(), o); break; }
    case W_FMUL: { FunctionExpression& f = z.F[o.a % 2]; f *= z.F[(o.a + 1) % 2]; show(f, o); break; }
    case W_SADD: { GSpline& s = z.S[o.a % NS]; GSpline k = 0.5 * s; s += k; s -= k; s += k; show_spline(s, o); show(s.derivate(), o); break; }
    case W_SASSIGN: { z.S[o.a % NS].~GSpline(); new (&z.S[o.a % NS]) GSpline(new_spline(o.a % NS, o.b, (int)z.S[(o.a + 1) % NS].get_codom_dim())); show_spline(z.S[o.a % NS], o); break; }
    case W_INTERP: { while (z.I.size() < 2) z.I.push_back(std::make_unique<Interpolator>(2, 2, *z.B[z.I.size() + (size_t)o.a % 4])); Interpolator& i = *z.I[o.b % 2]; Vec l = lens(2, o.a); GSpline r = i.interpolate(l, waypoints(3, 2, o.b)); show_spline(r, o); out(i.get_coeff_derivative_wrt_tau(r.get_coefficients(), l, (size_t)o.c % 2)); break; }
    case W_COST: case W_GRAD: { if (z.N.empty()) z.N.push_back(std::make_unique<fa::SobolevNorm>(waypoints(3, 1, o.b), *z.B[o.a % 2], std::vector<std::pair<size_t, double>>{{1, 1.0}, {2, 0.5}})); Vec l = lens(2, o.c); if (o.k == W_COST) out((*z.N[0])(l)); else { Vec g(2); z.N[0]->deriv_wrt_interval_len(l, g); out(g); } break; }
    case W_CONT: out(Mat(bp->continuity_matrix((size_t)n + 1, 1 + (size_t)o.b % 2, (size_t)o.c % 3, lens(n + 1, o.b)))); break;
    case W_DMAT: out(Mat(bp->gspline_derivative_matrix((size_t)n, 1 + (size_t)o.b % 2, 1 + (size_t)o.c % 2, lens(n, o.b)))); break;
    case W_SOBM: { Mat m = Mat::Zero((long)bp->get_dim(), (long)bp->get_dim()); bp->add_derivative_matrix(0.9, (size_t)o.c % 3, m); out(m); break; }
    case W_ADDM: { Mat m = Mat::Zero((long)bp->get_dim(), (long)bp->get_dim()); bp->add_derivative_matrix_deriv_wrt_tau(0.9, (size_t)o.c % 3, m); out(m); break; }
    case W_GLP: { size_t k = o.b & 1 ? 7 + (size_t)o.a % 6 : 3 + (size_t)(o.a + t) % 5; auto r = legendre_gauss_lobatto_points_and_weights(k); out(r.first); out(r.second); out(legendre_gauss_lobatto_points(std::tuple<double, double>(0, 2), k, 2)); out(legendre_gauss_lobatto_weights(std::tuple<double, double>(0, 2), k, 2)); break; }
    case W_OPER: { GLL& c = z.G[o.a % NG]; Derivative dv(c); dv.update(lens(2, o.b)); out(Mat(dv.to_matrix())); TransposeLeftMultiplication tm(c); out((tm * c).get_coefficients()); if (c.get_codom_dim() == 1) { Integral in(c); out(in(c)); } break; }
    case W_GET: { std::vector<double> none, al{0.3}; auto p = BasisLegendre::get(o.b & 1 ? 7 + (size_t)o.a % 3 : 4 + (size_t)(o.a + t) % 3); show_basis(*p, o); auto q = get_basis("legendre", 4, none); show_basis(*q, o); auto r = get_basis("0101", 6, al); show_basis(*r, o); break; }
    case W_APPROX: { GSpline& s = z.S[o.a % NS]; GSpline k(s); out(tools::approx_equal(s, k, 1e-9)); k += k; out(tools::approx_equal(s, k, 1e-9)); out(tools::approx_zero(s - k + s, 1e-9)); Mat m = waypoints(3, 2, 1), w = waypoints(3, 2, o.b % 2); out(tools::approx_equal(m, w, 1e-9)); break; }
    case W_PATH: { Mat w = waypoints(3, 1 + o.b % 2, o.a); std::optional<GSpline> r = o.c == 0 ? op::broken_lines_path(w) : o.c == 1 ? op::minimum_acceleration_path(w) : o.c == 2 ? op::minimum_jerk_path(w) : op::rojas_path(w, 1.3); if (r) show_spline(*r, o); else out(-1.0); break; }
    case W_DROP: { FunctionExpression e = new_expr(o.a, o.b % 3); show(e, o); show(e.derivate(), o); GSpline s = new_spline(o.a, o.b, 1); show_spline(s, o); break; }
    case W_OWNFUN: { for (auto& u : z.U) { show(*u, o); show(u->derivate(), o); } break; }
    case W_GASSIGN: { GLL& g = z.G[o.a % NG]; g = new_gll(o.a, o.b, (int)g.get_codom_dim()); show_spline(g, o); g = g * 0.5; g = g + g; show_spline(g, o); break; }
    case W_FRESH: {                        // nothing was made before
      auto k = new_basis(o.a); show_basis(*k, o); out(k->get_derivative_matrix_block(1 + (size_t)o.c));
      if (o.b & 1) { BasisLagrangeGaussLobatto l(5 + (size_t)o.a % 4); show_basis(l, o); } else { BasisLegendre l(5 + (size_t)o.a % 4); show_basis(l, o); out(l.get_derivative_matrix_block(1)); }
      if (o.b & 2) { Interpolator i(1, 2, *k); show_spline(i.interpolate(lens(2, o.c), waypoints(3, 1, o.a)), o); } else { fa::SobolevNorm N(waypoints(3, 1, o.a), *k, {{1, 1.0}}); Vec l = lens(2, o.c); out(N(l)); Vec g(2); N.deriv_wrt_interval_len(l, g); out(g); }
      break; }
    case W_FRESH2: {
      size_t m = o.b & 1 ? 5 + (size_t)o.a : 3 + (size_t)o.a % 3; GLL g(D, 1, 2, m, filled((long)(2 * m), o.b), unit_lens(2, o.a)); show_spline(g, o); show(g.derivate(), o);
      if (o.b & 2) { Derivative dv(g); out((dv * g).get_coefficients()); Integral in(g); out(in(g)); } else { GSpline s = new_spline(o.a, o.b, 1); GLL k(s); show_spline(k, o); FunctionExpression e = new_expr(o.a, o.c); show(e, o); out(fa::integral(new_expr(1, o.c), m, 1)); }
      break; }
    default: break; }
}
}  // namespace
namespace thr {
int cold_kind(int i) { static const int k[] = {W_GLP, W_GET, W_PATH, W_DROP, W_FRESH, W_FRESH2, W_FRESH2, W_GLP}; return k[i % 8]; }
int op_kinds(int fl) { return fl == 8 ? LASTSHARED : LASTOWN; }
const char* op_name(int, int k) { return k < LASTSHARED ? RN[k] : WN[k - LASTSHARED]; }
void setup(const Prog& p) {
  ifopt::solver_hook() = &g_solver; if (p.cold) return; shared_zoo = originals(p.var); if (p.flavour == 8) return;
  for (int t = 0; t < p.T; t++) own[t] = t == 0 && (p.var & 2) ? shared_zoo : copy(*shared_zoo);   // the original counts as one of the copies
}
void body(const Prog& p, int t) {
  for (int i = 0; i < p.n[t]; i++) {
    const Op& o = p.op[t][i]; at_op(o.k);
    try { if (o.k < LASTSHARED) read_op(p.flavour == 8 ? *shared_zoo : *own[t], o, t); else write_op(p.cold ? nothing : *own[t], o, t); }
    catch (const std::exception&) { out_failed(); }
  }
}
}  // namespace thr
