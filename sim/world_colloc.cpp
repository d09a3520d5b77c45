// Collocation-operator world (C16): seeded sequences of in-place updates,
// refused and failing updates, copies, combinations and applications on a pool
// of long-lived operators, each judged against an operator built afresh and
// against its pointwise definition in extended precision.
#include "ref.hpp"
#include "world.hpp"
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
using namespace gsplines; using namespace gsplines::collocation;
using sim::draw; using sim::draw_w; using sim::chance; using sim::real;
typedef long double LD;
namespace ww {
namespace {
typedef Eigen::VectorXd Vec; typedef Eigen::MatrixXd Mat; typedef GaussLobattoLagrangeSpline GLL;
struct LM {                                // expected matrix with a rounding scale per entry
  long r = 0, c = 0; std::vector<LD> v, s;
  LM() {} LM(long a, long b) : r(a), c(b), v((size_t)(a * b), 0.0L), s((size_t)(a * b), 0.0L) {}
  void put(long i, long j, LD x, LD sc) { v[(size_t)(i * c + j)] = x; s[(size_t)(i * c + j)] = sc; }
};
LM mul(const LM& a, const LM& b) { LM o(a.r, b.c); for (long i = 0; i < a.r; i++) for (long k = 0; k < a.c; k++) { LD x = a.v[i * a.c + k], y = a.s[i * a.c + k]; if (x == 0 && y == 0) continue; for (long j = 0; j < b.c; j++) { o.v[i * o.c + j] += x * b.v[k * b.c + j]; o.s[i * o.c + j] += y * b.s[k * b.c + j]; } } return o; }
LM add(const LM& a, const LM& b, int sg) { LM o(a); for (size_t i = 0; i < o.v.size(); i++) { o.v[i] += sg * b.v[i]; o.s[i] += b.s[i]; } return o; }
LM scale(const LM& a, double f) { LM o(a); for (size_t i = 0; i < o.v.size(); i++) { o.v[i] *= f; o.s[i] *= std::fabs(f) + 1e-3L; } return o; }
model::BasisM gll(int n) { model::BasisM m; m.kind = 1; m.dim = n; m.pts = gll_nodes(n); return m; }
Vec vec(const std::vector<double>& v) { Vec r((long)v.size()); for (size_t i = 0; i < v.size(); i++) r((long)i) = v[i]; return r; }
std::vector<double> lens(int n) { std::vector<double> t; bool wide = chance(1, 6); for (int i = 0; i < n; i++) t.push_back(wide ? real(0.125, 4, 31) : real(0.25, 2, 14)); return t; }
enum Kind { DER, INT, TRA, MATL, CON, SPARSE, DENSE };
const char* KN[] = {"derivative", "integral", "transpose product", "matrix product", "continuity error", "sparse combination", "dense combination"};
struct Data {                              // all that decides what an operator is
  int kind = 0, n = 3, I = 1, cd = 1, deg = 1, rows = 1;   // rows: matrix codomain for MATL
  std::vector<double> tau;                 // lengths
  std::vector<double> val;                 // TRA: coefficients; MATL: per node, column major
};
LM expect(const Data& d) {
  int n = d.n, I = d.I, cd = d.cd;
  if (d.kind == DER) {
    LM m((long)n * I * cd, (long)n * I * cd); auto b = gll(n);
    for (int i = 0; i < I; i++) for (int p = 0; p < n; p++) { std::vector<LD> sc, x = ref::deriv(b, b.pts[p], d.tau[i], d.deg, &sc); for (int k = 0; k < cd; k++) for (int j = 0; j < n; j++) m.put(((long)i * cd + k) * n + p, ((long)i * cd + k) * n + j, x[j], sc[j]); }
    return m; }
  if (d.kind == INT) {
    LM m(1, (long)n * I); auto b = gll(n);
    for (int i = 0; i < I; i++) for (auto& q : ref::gauss()) { std::vector<LD> sc, x = ref::deriv(b, q.first, d.tau[i], 0, &sc); for (int j = 0; j < n; j++) { m.v[i * n + j] += q.second * x[j] * d.tau[i] / 2; m.s[i * n + j] += q.second * (model::ab(x[j]) + 1e-2L) * d.tau[i] / 2; } }
    return m; }
  if (d.kind == TRA) {
    LM m((long)n * I, (long)n * I * cd);
    for (int i = 0; i < I; i++) for (int k = 0; k < cd; k++) for (int p = 0; p < n; p++) { long j = ((long)i * cd + k) * n + p; LD x = d.val[j]; m.put((long)i * n + p, j, x, model::ab(x) + 1e-6L); }
    return m; }
  if (d.kind == MATL) {
    LM m((long)n * I * d.rows, (long)n * I * cd);
    for (int q = 0; q < n * I; q++) for (int c = 0; c < cd; c++) for (int r = 0; r < d.rows; r++) { LD x = d.val[((size_t)q * cd + c) * d.rows + r]; m.put((long)r * n + (q / n) * (long)n * d.rows + q % n, (long)c * n + (q / n) * (long)n * cd + q % n, x, model::ab(x) + 1e-6L); }
    return m; }
  LM m((long)(I - 1) * cd * (d.deg + 1), (long)n * I * cd); auto b = gll(n);
  for (int g = 0; g <= d.deg; g++) for (int i = 0; i + 1 < I; i++) {
    std::vector<LD> s0, s1, x0 = ref::deriv(b, 1, d.tau[i], g, &s0), x1 = ref::deriv(b, -1, d.tau[i + 1], g, &s1);
    for (int k = 0; k < cd; k++) for (int j = 0; j < n; j++) { long row = (long)cd * (I - 1) * g + (long)i * cd + k; m.put(row, ((long)i * cd + k) * n + j, x0[j], s0[j]); m.put(row, ((long)(i + 1) * cd + k) * n + j, -x1[j], s1[j]); } }
  return m;
}
typedef std::unique_ptr<LinearFunctionalBase> P;
Mat node_matrix(const Data& d, size_t q) { Mat m(d.rows, d.cd); for (int c = 0; c < d.cd; c++) for (int r = 0; r < d.rows; r++) m(r, c) = d.val[(q * d.cd + c) * d.rows + r]; return m; }
std::vector<Mat> node_matrices(const Data& d) { std::vector<Mat> v; for (int q = 0; q < d.n * d.I; q++) v.push_back(node_matrix(d, (size_t)q)); return v; }
GLL make_spline(double t0, int cd, int n, const std::vector<double>& tau, const std::vector<double>& c) {
  double T = t0; for (double x : tau) T += x;
  return GLL({t0, T}, (std::size_t)cd, tau.size(), (std::size_t)n, vec(c), vec(tau)); }
P build(const Data& d, int how) {         // a fresh operator for this data; `how` picks a constructor
  bool uniform = true; double T = 0; for (double x : d.tau) { uniform &= x == d.tau[0]; T += x; }
  switch (d.kind) {
    case DER:
      if (how == 1 && uniform) return std::make_unique<Derivative>(std::pair<double, double>(0.5, 0.5 + T), d.cd, d.n, d.I, d.deg);
      if (how == 2 && d.deg == 1) return std::make_unique<Derivative>(make_spline(0.25, d.cd, d.n, d.tau, std::vector<double>((size_t)d.n * d.I * d.cd, 1.0)));
      return std::make_unique<Derivative>(d.cd, d.n, vec(d.tau), d.deg);
    case INT:
      if (how == 1 && uniform) return std::make_unique<Integral>(std::tuple<double, double>(0.5, 0.5 + T), d.n, d.I);
      return std::make_unique<Integral>(make_spline(0.25, 1, d.n, d.tau, std::vector<double>((size_t)d.n * d.I, 1.0)));
    case TRA: return std::make_unique<TransposeLeftMultiplication>(make_spline(0.25, d.cd, d.n, d.tau, d.val));
    case MATL: { auto p = std::make_unique<MatrixLeftMultiplication>(d.cd, d.n, d.I, d.rows); auto v = node_matrices(d); p->update(v.begin(), v.end()); return p; }
    default:
      if (how == 1) return std::make_unique<ContinuityError>(make_spline(0.25, d.cd, d.n, d.tau, std::vector<double>((size_t)d.n * d.I * d.cd, 1.0)), d.deg);
      return std::make_unique<ContinuityError>(d.n, vec(d.tau), d.cd, d.deg);
  }
}
struct Op { P p; Data d; LM m; std::string txt; int depth = 1; };
template <class T> const T& as(const P& p) { return static_cast<const T&>(*p); }
P copy(const Op& o) {
  switch (o.d.kind) {
    case DER: return std::make_unique<Derivative>(as<Derivative>(o.p));
    case INT: return std::make_unique<Integral>(as<Integral>(o.p));
    case TRA: return std::make_unique<TransposeLeftMultiplication>(as<TransposeLeftMultiplication>(o.p));
    case MATL: return std::make_unique<MatrixLeftMultiplication>(as<MatrixLeftMultiplication>(o.p));
    case CON: return std::make_unique<ContinuityError>(as<ContinuityError>(o.p));
    case SPARSE: return std::make_unique<LinearFunctionalSparse>(as<LinearFunctionalSparse>(o.p));
    default: return std::make_unique<LinearFunctionalDense>(as<LinearFunctionalDense>(o.p));
  }
}
bool sparse_kind(int k) { return k == DER || k == TRA || k == MATL || k == SPARSE; }
bool dense_kind(int k) { return k == INT || k == DENSE; }
struct Boom : std::runtime_error { Boom() : std::runtime_error("user") {} };

struct World {
  struct Held { std::shared_ptr<LinearFunctionalBase> p; LM m; bool con; int depth; };
  std::vector<Held> held;                    // differentials handed out earlier: they stay what they were
  void check_held() {
    for (auto& h : held) {
      Mat x; Outcome r = once([&] { x = h.p->to_dense_matrix(); });
      if (r.failed) sim::violation("wrong-operator", "a differential obtained earlier cannot be read any more: %s", r.what.c_str());
      LM m = h.m; if (h.con && x.rows() == m.r && x.cols() == m.c) { LD dot = 0; for (long i = 0; i < m.r; i++) for (long j = 0; j < m.c; j++) dot += x(i, j) * m.v[i * m.c + j]; if (dot < 0) for (auto& q : m.v) q = -q; }
      same(x, m, "later, its operator having been changed or dropped", "a differential obtained earlier", h.depth);
    }
  }
  Mode mode; std::vector<Op> pool; int n = 3, I = 2, cd = 1;   // usual shape of this run
  explicit World(Mode m) : mode(m) {}
  std::vector<double> values(size_t k) { std::vector<double> v; for (size_t i = 0; i < k; i++) v.push_back(chance(1, 8) ? 0 : real(-2, 2, 16)); return v; }
  std::vector<double> some_lens(int k) { if (chance(1, 4)) return std::vector<double>((size_t)k, real(0.25, 2, 14)); return lens(k); }
  void same(const Mat& x, const LM& m, const char* what, const char* which, int depth) {
    sim::observe(x.data(), (size_t)x.size());
    if (x.rows() != m.r || x.cols() != m.c) sim::violation("wrong-operator", "%s, %s: it is %ldx%ld instead of %ldx%ld", which, what, (long)x.rows(), (long)x.cols(), m.r, m.c);
    for (long i = 0; i < m.r; i++) for (long j = 0; j < m.c; j++) { LD e = m.v[i * m.c + j], s = m.s[i * m.c + j]; if (!(model::ab(x(i, j) - e) <= 1e-7L * depth * s + 1e-12L)) sim::violation("wrong-operator", "%s, %s: entry (%ld,%ld) is %.12g, by definition %.12Lg", which, what, i, j, x(i, j), e); }
  }
  void check(Op& o, const char* what) {
    Mat x; Outcome r = once([&] { x = o.p->to_dense_matrix(); });
    if (r.failed) sim::violation("wrong-operator", "%s, %s: its matrix cannot be read: %s", o.txt.c_str(), what, r.what.c_str());
    // the sign of a jump is a convention of the operator
    LM m = o.m; if (o.d.kind == CON && x.rows() == m.r && x.cols() == m.c) { LD dot = 0; for (long i = 0; i < m.r; i++) for (long j = 0; j < m.c; j++) dot += x(i, j) * m.v[i * m.c + j]; if (dot < 0) for (auto& y : m.v) y = -y; }
    same(x, m, what, o.txt.c_str(), o.depth);
    if ((long)o.p->get_codom_dim() != x.rows()) sim::violation("wrong-operator", "%s, %s: it announces %zu results but gives %ld", o.txt.c_str(), what, o.p->get_codom_dim(), (long)x.rows());
    if (o.d.kind <= CON) {
      P f; Mat y; r = once([&] { f = build(o.d, 0); y = f->to_dense_matrix(); });
      if (!r.failed) { double top = 1; for (long i = 0; i < y.size(); i++) top = std::max(top, std::fabs(y.data()[i])); if (y.rows() != x.rows() || y.cols() != x.cols() || (x.size() && !((x - y).cwiseAbs().maxCoeff() <= 1e-9 * top))) sim::violation("differs-from-fresh", "%s, %s: it differs from one built afresh for the same data", o.txt.c_str(), what); }
      else sim::violation("differs-from-fresh", "%s, %s: one built afresh for the same data fails: %s", o.txt.c_str(), what, r.what.c_str());
    }
  }
  Data draw_data() {
    Data d; d.kind = (int)draw_w({4, 3, 3, 3, 3});
    d.n = chance(2, 3) ? n : 2 + (int)draw(4); d.I = chance(2, 3) ? I : 1 + (int)draw(4); d.cd = d.kind == INT ? 1 : chance(2, 3) ? cd : 1 + (int)draw(3);
    if (d.kind == DER) d.deg = 1 + (int)draw_w({3, 1, 1});
    if (d.kind == CON) d.deg = (int)draw_w({1, 2, 1});
    if (d.kind == MATL) d.rows = 1 + (int)draw(3);
    d.tau = some_lens(d.I);
    if (d.kind == TRA) d.val = values((size_t)d.n * d.I * d.cd);
    if (d.kind == MATL) d.val = values((size_t)d.n * d.I * d.cd * d.rows);
    return d;
  }
  void keep(Op&& o) { if (pool.size() < 6) pool.push_back(std::move(o)); else pool[draw(6)] = std::move(o); }
  std::string name(const Data& d, const char* pre) { char t[120]; snprintf(t, sizeof t, "%s%s(%d nodes, %d intervals, dim %d, degree %d)", pre, KN[d.kind], d.n, d.I, d.cd, d.deg); return t; }
  void make() {
    Op o; o.d = draw_data(); int how = (int)draw(3);
    if (o.d.kind <= INT && chance(1, 3)) { for (auto& t : o.d.tau) t = o.d.tau[0]; how = 1; }
    o.txt = name(o.d, ""); sim::logf("new #%zu: %s", pool.size(), o.txt.c_str());
    Outcome r = attempt(mode, false, [&] { o.p = build(o.d, how); }, [] {});
    if (r.failed) { if (!r.fired) sim::violation("request-failed", "making %s failed: %s", o.txt.c_str(), r.what.c_str()); return; }
    o.m = expect(o.d); check(o, "newly built"); keep(std::move(o));
  }
  void update(size_t at) {
    Op& o = pool[at]; Data nd = o.d; int k = o.d.kind; if (k > CON) return replace(at);
    int bad = chance(1, 4) ? 1 + (int)draw(3) : 0; bool maybe = false; int how = (int)draw(3); bool user = false; bool fn_throws = false; size_t throw_at = 0;
    std::function<void()> f;
    if (k == DER) {
      auto& x = const_cast<Derivative&>(as<Derivative>(o.p));
      if (bad == 1) { bad = 0; maybe = true; nd.I = 0; nd.tau.clear(); f = [&x] { x.update(Vec()); }; }
      else { bad = 0; if (chance(1, 5)) { nd.I = 1 + (int)draw(4); maybe = nd.I != o.d.I; }
        if (how == 0 && !maybe) { double t = real(0.25, 2, 14); nd.tau.assign((size_t)nd.I, t); f = [&x, t] { x.update(t); }; }
        else { nd.tau = vary(o.d.tau, some_lens(nd.I)); f = [&x, &nd] { x.update(vec(nd.tau)); }; } }
    } else if (k == INT) {
      auto& x = const_cast<Integral&>(as<Integral>(o.p));
      if (bad == 1) { int w = o.d.I + 1 + (int)draw(2); f = [&x, w] { x.update(Vec::Constant(w, 0.5)); }; }
      else if (bad == 2) f = [&x] { x.update(Vec()); };
      else { bad = 0;
        if (how == 0) { nd.n = 2 + (int)draw(4); nd.I = 1 + (int)draw(4); double T = real(0.5, 3, 10), t0 = real(-1, 1, 4); nd.tau.assign((size_t)nd.I, T / nd.I); f = [&x, &nd, T, t0] { x.update(std::tuple<double, double>(t0, t0 + T), nd.n, nd.I); }; }
        else { nd.tau = vary(o.d.tau, some_lens(nd.I)); f = [&x, &nd] { x.update(vec(nd.tau)); }; } }
    } else if (k == TRA) {
      auto& x = const_cast<TransposeLeftMultiplication&>(as<TransposeLeftMultiplication>(o.p));
      if (bad) { int c = o.d.cd + (bad == 1), m = o.d.n + (bad == 2), i = o.d.I + (bad == 3);
        if (chance(1, 2)) { c = o.d.cd; m = o.d.n; i = o.d.I; if (bad == 1 && c != i) std::swap(c, i); else if (bad == 2 && c != m && c > 1) std::swap(c, m); else if (bad == 3 && i != m && i > 1) std::swap(i, m); else if (i > 1) { c *= i; i = 1; } else if (c > 1) { i = c; c = 1; } else m++; }   // as many values, arranged otherwise
        std::vector<double> t((size_t)i, 0.5), v((size_t)c * m * i, 0.25);
        if (bad == 1 && c != o.d.cd && chance(1, 2)) f = [&x, c] { x = static_cast<const functions::FunctionBase&>(functions::ConstFunction({0.0, 1.0}, (std::size_t)c, 0.5)); };
        else f = [&x, c, m, t, v] { x = make_spline(0, c, m, t, v); }; }
      else if (how == 0) {                    // a function, sampled at the nodes
        double t0 = real(-1, 1, 4), T = real(0.5, 3, 10); Vec dir((long)o.d.cd); for (long q = 0; q < dir.size(); q++) dir(q) = real(-2, 2, 16);
        auto pts = gll_nodes(o.d.n); nd.tau.assign((size_t)nd.I, T / nd.I);
        for (int i = 0; i < nd.I; i++) for (int c = 0; c < nd.cd; c++) for (int p = 0; p < nd.n; p++) nd.val[((size_t)i * nd.cd + c) * nd.n + p] = std::sin(t0 + T / nd.I * (i + 0.5 * (pts[p] + 1))) * dir(c);
        f = [&x, t0, T, dir]() mutable { std::pair<double, double> D(t0, t0 + T); functions::FunctionExpression g = functions::Sin(D) * functions::ConstFunction(D, dir); x = static_cast<const functions::FunctionBase&>(g); };
      } else { nd.tau = vary(o.d.tau, some_lens(nd.I)); nd.val = vary(o.d.val, values(nd.val.size())); f = [&x, &nd] { x = make_spline(0.5, nd.cd, nd.n, nd.tau, nd.val); }; }
    } else if (k == MATL) {
      auto& x = const_cast<MatrixLeftMultiplication&>(as<MatrixLeftMultiplication>(o.p));
      nd.val = vary(o.d.val, values(nd.val.size()));
      if (bad == 1) { f = [&x, &nd] { auto v = node_matrices(nd); v.pop_back(); x.update(v.begin(), v.end()); }; }
      else if (bad == 2) { size_t w = draw((uint32_t)(nd.n * nd.I)); bool more_rows = chance(1, 2); auto v = node_matrices(nd); v[w] = Mat::Constant(nd.rows + more_rows, nd.cd + !more_rows, 7); f = [&x, v] { x.update(v.begin(), v.end()); }; }
      else if (bad == 3) { int dr = sim::range(-1, 1), dc = dr ? 0 : chance(1, 2) ? 1 : -1; f = [&x, &nd, dr, dc] { x.update(Mat(Mat::Constant(nd.rows + dr, nd.cd + dc, 7))); }; }
      else if (how == 0) { for (int q = 1; q < nd.n * nd.I; q++) for (int e = 0; e < nd.cd * nd.rows; e++) nd.val[(size_t)q * nd.cd * nd.rows + e] = nd.val[e]; f = [&x, &nd] { x.update(node_matrix(nd, 0)); }; }
      else if (how == 1) { f = [&x, &nd] { auto v = node_matrices(nd); x.update(v.begin(), v.end()); }; }
      else { user = true; fn_throws = chance(1, 4); throw_at = draw((uint32_t)(nd.n * nd.I)); f = [&x, &nd, fn_throws, throw_at] { std::vector<size_t> ix; for (size_t q = 0; q < (size_t)(nd.n * nd.I); q++) ix.push_back(q); x.update(ix.begin(), ix.end(), [&](size_t q) -> Mat { fw::user_tick(); if (fn_throws && q == throw_at) throw Boom(); return node_matrix(nd, q); }); }; }
    } else {
      auto& x = const_cast<ContinuityError&>(as<ContinuityError>(o.p));
      if (bad == 1) f = [&x] { x.update(Vec()); };
      else { bad = 0; if (chance(1, 5)) { nd.I = 1 + (int)draw(4); maybe = nd.I != o.d.I; } nd.tau = vary(o.d.tau, some_lens(nd.I)); f = [&x, &nd] { x.update(vec(nd.tau)); }; }
    }
    std::string was = o.txt;
    Outcome r = attempt(mode, user, f, [&] { check(o, "after an update that failed"); });
    sim::logf("update #%zu%s%s -> %s", at, bad ? " (bad data)" : maybe ? " (other number of intervals)" : "", fn_throws ? " (callback throws)" : "", r.failed ? "refused" : "done");
    if (fn_throws) sim::fault("user-function-throws"); if (bad) sim::fault("refused-operands");
    if (r.failed) {
      if (!r.fired && !bad && !maybe && !fn_throws) sim::violation("request-failed", "updating %s failed: %s", was.c_str(), r.what.c_str());
      check(o, "after a refused update"); sim::probe("update-refused"); return; }
    if (bad) sim::violation("refused-accepted", "%s accepted unsuitable data", was.c_str());
    if (fn_throws) sim::violation("failure-swallowed", "a callback of %s threw and the failure did not reach the caller", was.c_str());
    o.d = nd; o.txt = name(o.d, ""); o.m = expect(o.d); check(o, "after an update"); sim::probe("update-accepted"); sim::nontrivial();
  }
  // combinations: computed from operands that may be gone or changed afterwards
  bool combine(Op& out) {
    if (pool.empty()) return false;
    for (int t = 0; t < 6; t++) {
      Op& a = pool[draw((uint32_t)pool.size())]; Op& b = pool[draw((uint32_t)pool.size())]; int op = (int)draw_w({4, 2, 2, 1, 2});
      int ka = a.d.kind, kb = b.d.kind; double f = real(-2, 2, 16); if (a.depth + b.depth > 4) continue;
      std::function<void()> g; LM m; int kind = -1;
      if (op == 0 && a.m.c == b.m.r && sparse_kind(kb) && ka != CON) { m = mul(a.m, b.m); kind = dense_kind(ka) ? DENSE : SPARSE;
        if (dense_kind(ka)) g = [&] { auto x = as<LinearFunctionalDense>(a.p) * as<LinearFunctionalSparse>(b.p); out.p = std::make_unique<decltype(x)>(x); };
        else g = [&] { auto x = as<LinearFunctionalSparse>(a.p) * as<LinearFunctionalSparse>(b.p); out.p = std::make_unique<decltype(x)>(std::move(x)); }; }
      else if ((op == 1 || op == 2) && a.m.r == b.m.r && a.m.c == b.m.c && ((sparse_kind(ka) && sparse_kind(kb)) || (dense_kind(ka) && dense_kind(kb)))) { m = add(a.m, b.m, op == 1 ? 1 : -1); kind = dense_kind(ka) ? DENSE : SPARSE;
        if (dense_kind(ka)) { if (op == 1) g = [&] { auto x = as<LinearFunctionalDense>(a.p) + as<LinearFunctionalDense>(b.p); out.p = std::make_unique<decltype(x)>(x); }; else g = [&] { auto x = as<LinearFunctionalDense>(a.p) - as<LinearFunctionalDense>(b.p); out.p = std::make_unique<decltype(x)>(x); }; }
        else { if (op == 1) g = [&] { auto x = as<LinearFunctionalSparse>(a.p) + as<LinearFunctionalSparse>(b.p); out.p = std::make_unique<decltype(x)>(x); }; else g = [&] { auto x = as<LinearFunctionalSparse>(a.p) - as<LinearFunctionalSparse>(b.p); out.p = std::make_unique<decltype(x)>(std::move(x)); }; } }
      else if (op == 3 && ka != CON) { m = scale(a.m, -1); kind = dense_kind(ka) ? DENSE : SPARSE; if (dense_kind(ka)) g = [&] { auto x = -as<LinearFunctionalDense>(a.p); out.p = std::make_unique<decltype(x)>(x); }; else g = [&] { auto x = -as<LinearFunctionalSparse>(a.p); out.p = std::make_unique<decltype(x)>(x); }; }
      else if (op == 4 && ka != CON) { m = scale(a.m, f); kind = dense_kind(ka) ? DENSE : SPARSE; bool temp = chance(1, 2);
        if (dense_kind(ka)) g = [&, f, temp] { if (temp) { auto x = f * LinearFunctionalDense(as<LinearFunctionalDense>(a.p)); out.p = std::make_unique<decltype(x)>(x); } else { auto x = f * as<LinearFunctionalDense>(a.p); out.p = std::make_unique<decltype(x)>(x); } };
        else g = [&, f, temp] { if (temp) { auto x = f * LinearFunctionalSparse(as<LinearFunctionalSparse>(a.p)); out.p = std::make_unique<decltype(x)>(x); } else { auto x = f * as<LinearFunctionalSparse>(a.p); out.p = std::make_unique<decltype(x)>(x); } }; }
      else continue;
      Outcome r = attempt(mode, false, g, [&] { check(a, "after a combination of it that failed"); check(b, "after a combination of it that failed"); });
      static const char* S[] = {"*", "+", "-", "unary -", "scaled"}; sim::logf("combine %s %s %s%s", a.txt.c_str(), S[op], op <= 2 ? b.txt.c_str() : "", r.failed ? " failed" : "");
      if (r.failed) { if (!r.fired) sim::violation("request-failed", "combining operators failed: %s", r.what.c_str()); return false; }
      check(a, "after being combined"); check(b, "after being combined");
      out.d = Data(); out.d.kind = kind; out.d.n = a.d.n; out.d.I = a.d.I; out.depth = op <= 2 ? a.depth + b.depth : a.depth; out.m = m; out.txt = std::string("combination of ") + KN[ka] + (op <= 2 ? std::string(" and ") + KN[kb] : ""); return true;
    }
    return false;
  }
  void make_combination() { Op o; if (!combine(o)) return; sim::probe("combination"); check(o, "newly combined"); keep(std::move(o)); }
  void replace(size_t at) {                  // set() on a combination
    Op o; if (!combine(o)) return; Op& x = pool[at]; if (x.d.kind < SPARSE) return;
    if (x.d.kind == SPARSE && o.d.kind == DENSE) return;
    bool temp = chance(1, 2);
    Outcome r = attempt(mode, false, [&] {
      if (x.d.kind == SPARSE) { auto& l = const_cast<LinearFunctionalSparse&>(as<LinearFunctionalSparse>(x.p)); if (temp) l.set(LinearFunctionalSparse(as<LinearFunctionalSparse>(o.p))); else l.set(as<LinearFunctionalSparse>(o.p)); }
      else { auto& l = const_cast<LinearFunctionalDense&>(as<LinearFunctionalDense>(x.p)); if (o.d.kind == DENSE) { if (temp) l.set(LinearFunctionalDense(as<LinearFunctionalDense>(o.p))); else l.set(as<LinearFunctionalDense>(o.p)); } else { if (temp) l.set(LinearFunctionalSparse(as<LinearFunctionalSparse>(o.p))); else l.set(as<LinearFunctionalSparse>(o.p)); } }
    }, [&] { check(x, "after a replacement that failed"); });
    sim::logf("set #%zu to %s -> %s", at, o.txt.c_str(), r.failed ? "failed" : "done");
    if (r.failed) { if (!r.fired) sim::violation("request-failed", "replacing a combination failed: %s", r.what.c_str()); check(x, "after a replacement that failed"); return; }
    x.m = o.m; x.d.n = o.d.n; x.d.I = o.d.I; x.depth = o.depth; x.txt = o.txt; sim::probe("combination-replaced"); check(x, "after a replacement"); check(o, "after replacing another");
  }
  void apply(size_t at) {
    Op& o = pool[at]; int nn = o.d.n, ii = o.d.I; if (o.m.c == 0 || o.m.c % (nn * ii)) return;
    int c = (int)(o.m.c / (nn * ii)); auto tau = o.d.kind <= CON && !o.d.tau.empty() && (int)o.d.tau.size() == ii ? o.d.tau : lens(ii); auto v = values((size_t)o.m.c);
    GLL s = make_spline(real(-1, 1, 4), c, nn, tau, v); bool as_spline = chance(1, 2) && !dense_kind(o.d.kind) && o.d.kind != CON && o.m.r && o.m.r % (nn * ii) == 0;
    LM x(o.m.c, 1); for (long i = 0; i < o.m.c; i++) x.put(i, 0, v[(size_t)i], std::fabs(v[(size_t)i]) + 1e-3); LM y = mul(o.m, x);
    Vec got; Mat d1; std::shared_ptr<LinearFunctionalBase> dif; std::vector<double> dom; long rc = 0, ri = 0;
    Outcome r = attempt(mode, false, [&] {
      if (as_spline) { GLL g = as<LinearFunctionalSparse>(o.p) * s; got = g.get_coefficients(); dom = {g.get_domain().first, g.get_domain().second}; Vec l = g.get_interval_lengths(); for (long i = 0; i < l.size(); i++) dom.push_back(l(i)); rc = (long)g.get_codom_dim(); ri = (long)g.get_basis().get_dim(); }
      else { got = (*o.p)(s); dif = o.p->differential(s); d1 = dif->to_dense_matrix(); Mat d2 = Mat(o.p->differential(s)->to_sparse_matrix()); if (d1.rows() != d2.rows() || d1.cols() != d2.cols() || (d1.size() && (d1 - d2).cwiseAbs().maxCoeff() > 1e-12)) { sim::alloc::Outside out; sim::violation("wrong-operator", "%s: the dense and the sparse form of its differential differ", o.txt.c_str()); } }
    }, [&] { check(o, "after a failed application"); });
    sim::logf("apply #%zu%s%s", at, as_spline ? " to a spline" : "", r.failed ? " failed" : "");
    if (r.failed) { if (!r.fired) sim::violation("request-failed", "applying %s failed: %s", o.txt.c_str(), r.what.c_str()); return; }
    if (o.d.kind == CON && got.size() == y.r) { LD dot = 0; for (long i = 0; i < y.r; i++) dot += got(i) * y.v[i]; if (dot < 0) for (auto& q : y.v) q = -q; }
    same(got, y, "applied", o.txt.c_str(), o.depth + 1);
    if (as_spline) {
      if (dom[0] != s.get_domain().first || dom[1] != s.get_domain().second || rc * nn * ii != o.m.r || ri != nn) sim::violation("wrong-operator", "%s: the resulting spline has another shape than its argument", o.txt.c_str());
      for (int i = 0; i < ii; i++) if (dom[2 + i] != tau[i]) sim::violation("wrong-operator", "%s: the resulting spline has other intervals than its argument", o.txt.c_str());
    } else { LM m = o.m; if (o.d.kind == CON && d1.rows() == m.r && d1.cols() == m.c) { LD dot = 0; for (long i = 0; i < m.r; i++) for (long j = 0; j < m.c; j++) dot += d1(i, j) * m.v[i * m.c + j]; if (dot < 0) for (auto& q : m.v) q = -q; } same(d1, m, "its differential", o.txt.c_str(), o.depth); if (held.size() < 3) held.push_back({dif, o.m, o.d.kind == CON, o.depth}); }
    check(o, "after being applied"); sim::probe("applied");
  }
  void copy_op(size_t at) {
    Op o; o.d = pool[at].d; o.m = pool[at].m; o.txt = "copy of " + pool[at].txt; o.depth = pool[at].depth;
    if (o.txt.size() > 90) o.txt = "copy";
    Outcome r = attempt(mode, false, [&] { o.p = copy(pool[at]); }, [&] { check(pool[at], "after a copy of it failed"); });
    sim::logf("copy #%zu%s", at, r.failed ? " failed" : ""); if (r.failed) { if (!r.fired) sim::violation("request-failed", "copying failed: %s", r.what.c_str()); return; }
    check(o, "newly copied"); keep(std::move(o));
  }
  void distance() {                        // squared Sobolev distance to a sampled function, and its differential
    int nn = 2 + (int)draw(4), ii = 1 + (int)draw(3), c = 1 + (int)draw(2); double t0 = real(-1, 1, 4), T = real(0.5, 3, 10); Vec dir((long)c); for (long q = 0; q < c; q++) dir(q) = real(-2, 2, 16);
    std::unique_ptr<SobolevDistance> p;
    Outcome r = attempt(mode, false, [&] { std::pair<double, double> D(t0, t0 + T); functions::FunctionExpression g = functions::Sin(D) * functions::ConstFunction(D, dir); p = std::make_unique<SobolevDistance>(g, nn, ii, 1); }, [] {});
    sim::logf("distance (%d nodes, %d intervals, dim %d)%s", nn, ii, c, r.failed ? " failed" : ""); if (r.failed) { if (!r.fired) sim::violation("request-failed", "making a distance failed: %s", r.what.c_str()); return; }
    std::vector<double> tau((size_t)ii, T / ii); Data dd; dd.kind = DER; dd.n = nn; dd.I = ii; dd.cd = c; dd.tau = tau; LM D = expect(dd); Data di = dd; di.kind = INT; di.cd = 1; LM W = expect(di); auto pts = gll_nodes(nn);
    std::vector<LD> a((size_t)D.r), ad((size_t)D.r); for (int i = 0; i < ii; i++) for (int k = 0; k < c; k++) for (int q = 0; q < nn; q++) { LD t = t0 + T / ii * (i + 0.5L * (pts[q] + 1)); a[((size_t)i * c + k) * nn + q] = std::sin(t) * dir(k); ad[((size_t)i * c + k) * nn + q] = std::cos(t) * dir(k); }
    for (int rep = 0; rep < 2; rep++) {
      auto v = values((size_t)D.r); GLL s = make_spline(t0, c, nn, tau, v); Vec val; Mat dif;
      r = attempt(mode, false, [&] { val = (*p)(s); dif = p->differential(s)->to_dense_matrix(); }, [] {});
      if (r.failed) { if (!r.fired) sim::violation("request-failed", "evaluating a distance failed: %s", r.what.c_str()); return; }
      LM x(D.r, 1); for (long i = 0; i < D.r; i++) x.put(i, 0, v[(size_t)i], std::fabs(v[(size_t)i]) + 1e-3); LM ds = mul(D, x); LM want(1, 1), g(1, D.r);
      for (int i = 0; i < ii; i++) for (int k = 0; k < c; k++) for (int q = 0; q < nn; q++) { size_t j = ((size_t)i * c + k) * nn + q; LD w = W.v[i * nn + q], e0 = a[j] - v[j], e1 = ad[j] - ds.v[j], z = 1 + ds.s[j] + model::ab(ad[j]); want.v[0] += w * (e0 * e0 + e1 * e1); want.s[0] += (w + W.s[i * nn + q]) * (4 + z * z); g.v[j] -= 2 * w * e0; g.s[j] += (w + W.s[i * nn + q]) * 8; for (long h = 0; h < D.c; h++) { g.v[h] -= 2 * w * e1 * D.v[j * D.c + h]; g.s[h] += 2 * (w + W.s[i * nn + q]) * z * D.s[j * D.c + h]; } }
      Mat vv = val; same(vv, want, "its value", "Sobolev distance", 3); same(dif, g, "its differential", "Sobolev distance", 3); sim::probe("distance");
    }
  }
  void rule() {                            // the quadrature rules themselves, over one interval and over many
    int nn = 2 + (int)(chance(2, 3) ? draw(6) : draw(19)), ii = 1 + (int)draw(5); double t0 = real(-2, 2, 8); auto tau = lens(ii); LD T = 0; for (double x : tau) T += x; auto same_len = chance(1, 3); if (same_len) { for (auto& x : tau) x = tau[0]; T = (LD)tau[0] * ii; }
    Vec tv = vec(tau), p1, w1, p2, w2, p3, w3; std::pair<Vec, Vec> pw; std::tuple<double, double> D(t0, t0 + (double)T);
    Outcome r = attempt(mode, false, [&] { pw = legendre_gauss_lobatto_points_and_weights(nn); p1 = legendre_gauss_lobatto_points(nn); w1 = legendre_gauss_lobatto_weights(nn); p2 = legendre_gauss_lobatto_points(D, nn, ii); w2 = legendre_gauss_lobatto_weights(D, nn, ii); p3 = legendre_gauss_lobatto_points(t0, nn, tv); w3 = legendre_gauss_lobatto_weights(nn, tv); }, [] {});
    sim::logf("rule (%d nodes, %d intervals)%s", nn, ii, r.failed ? " failed" : ""); if (r.failed) { if (!r.fired) sim::violation("request-failed", "asking for a rule failed: %s", r.what.c_str()); return; }
    auto x = gll_nodes(nn); std::vector<LD> w; for (int i = 0; i < nn; i++) { LD a = 1, b = x[i]; for (int k = 2; k <= nn - 1; k++) { LD c = ((2 * k - 1) * (LD)x[i] * b - (k - 1) * a) / k; a = b; b = c; } w.push_back(2.0L / ((LD)nn * (nn - 1) * b * b)); }
    auto cmp = [&](const Vec& v, int I, bool weights, int how, const char* what) {   // how: 0 the reference interval, 1 equal parts, 2 the given lengths
      if (v.size() != (long)nn * I) sim::violation("wrong-rule", "%s have %ld entries, should have %d", what, (long)v.size(), nn * I);
      LD left = t0; for (int i = 0; i < I; i++) { LD len = how == 0 ? 2 : how == 1 ? T / ii : (LD)tau[i]; if (how == 0) left = -1; for (int q = 0; q < nn; q++) { LD e = weights ? w[q] * len / 2 : left + (x[q] + 1) * len / 2, g = v((long)i * nn + q); if (!(model::ab(e - g) <= 1e-8L * (1 + model::ab(e)))) sim::violation("wrong-rule", "%s (%d nodes, %d intervals): entry %d of interval %d is %.15Lg, should be %.15Lg", what, nn, I, q, i, g, e); } left += len; } };
    cmp(pw.first, 1, false, 0, "points"); cmp(pw.second, 1, true, 0, "weights"); cmp(p1, 1, false, 0, "points"); cmp(w1, 1, true, 0, "weights"); cmp(p2, ii, false, 1, "points of a domain"); cmp(w2, ii, true, 1, "weights of a domain"); cmp(p3, ii, false, 2, "points of given intervals"); cmp(w3, ii, true, 2, "weights of given intervals"); sim::probe("rule");
  }
  void step() {
    sim::Span sp; sim::steps(1); uint32_t k = pool.size() < 2 ? 0 : draw_w({2, 8, 3, 3, 1, 1, 2, 1, 1});
    uint32_t at = pool.empty() ? 0 : draw((uint32_t)pool.size());
    switch (k) {
      case 0: make(); break;
      case 1: update(at); break;
      case 2: make_combination(); break;
      case 3: apply(at); break;
      case 4: copy_op(at); break;
      case 5: pool.erase(pool.begin() + at); sim::logf("drop #%u", at); break;
      case 6: for (size_t i = 0; i < pool.size(); i++) if (pool[i].d.kind >= SPARSE) { replace(i); break; } break;
      case 7: distance(); break;
      default: rule(); break;
    }
    uint64_t h = 0; for (auto& o : pool) h = sim::mix(h, (uint64_t)o.d.kind * 64 + (uint64_t)o.d.I * 8 + (uint64_t)o.d.n); sim::feature(sim::mix(h, k));
  }
};
}  // namespace
void run_colloc(Mode m, int steps) {
  World w(m); w.n = 2 + (int)draw(4); w.I = 1 + (int)draw(4); w.cd = 1 + (int)draw(3);
  if (wide_run(m)) { switch (draw(3)) { case 0: w.n = 6 + (int)draw(4); w.cd = 1 + (int)draw(2); break; case 1: w.I = 6 + (int)draw(6); w.n = 2 + (int)draw(2); w.cd = 1 + (int)draw(2); break; default: w.cd = 4 + (int)draw(4); } }
  for (int i = 0; i < steps; i++) { w.step(); for (auto& o : w.pool) w.check(o, "later"); w.check_held(); }
}
namespace {
void run_c16() { Mode m = (Mode)draw_w({3, 3, 1}); sim::logf("mode %d", m); run_colloc(m, m == ENUM ? 6 : 14); }
sim::Reg r16("C16", run_c16);
}  // namespace
}  // namespace ww
