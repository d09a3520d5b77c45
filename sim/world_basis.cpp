// Basis world: seeded sequences of matrix and evaluation requests, copies and
// moves on bases, with failures in between; every answer is compared with the
// mathematical definition and with a freshly made basis (C06).
#include "world.hpp"
#include <algorithm>
#include <cstring>
using namespace gsplines;
using sim::draw; using sim::draw_w; using sim::chance; using sim::real;
typedef long double LD;
namespace ww {
namespace {
// a request, and whether it carries the wrong number of lengths
struct Req { uint32_t kind; double s, tau; int deg, n, cd; std::vector<double> tv; bool bad = false; };
struct B { bool gl = false, asked = false; Req last{}; std::unique_ptr<basis::Basis> own; std::unique_ptr<GSpline> holder; model::BasisM m; std::string txt;
  const basis::Basis& get() const { return own ? *own : holder->get_basis(); } };
struct World {
  Mode mode; bool wide; std::vector<B> pool; const char* cls = "wrong-answer";
  explicit World(Mode m) : mode(m), wide(wide_run(m)) {}
  static std::unique_ptr<basis::Basis> fresh(const model::BasisM& m) {
    if (m.kind == 0) return std::make_unique<basis::BasisLegendre>(m.dim);
    if (m.kind == 2) return std::make_unique<basis::Basis0101>(m.alpha);
    return std::make_unique<basis::BasisLagrange>(m.pts);
  }
  // k-th derivative with respect to time of every basis function
  static std::vector<LD> deriv(const model::BasisM& m, LD s, double tau, int k, std::vector<LD>* scale = nullptr) {
    auto j = m.eval(model::E(s), tau, k); LD f = 1; for (int i = 1; i <= k; i++) f *= (LD)i * 2 / tau;
    // a chain of k differentiation matrices rounds relative to the product of their norms
    LD floor_ = 2e-8L; for (int i = 0; i < k; i++) floor_ *= (LD)m.dim * m.dim * 2 / tau;
    std::vector<LD> r; for (auto& x : j) { r.push_back(x[k].v * f); if (scale) scale->push_back(model::ab(x[k].v * f) + 1e4L * x[k].e * f + floor_); } return r;
  }
  void expect(bool ok, const B& b, const char* what, double got, double want) { if (!ok) sim::violation(cls, "%s of %s is %.15g, should be %.15g", what, b.txt.c_str(), got, want); }

  void make() {
    B b; uint32_t k = draw_w({4, 2, 3, 1}); char t[80];
    if (k == 0) { b.m.kind = 0; b.m.dim = 2 + (int)draw(wide ? 11 : 6); snprintf(t, sizeof t, "legendre(%d)", b.m.dim); }
    else if (k == 1) { b.m.kind = 1; b.m.dim = 2 + (int)draw(wide ? 7 : 4); for (int i = 0; i < b.m.dim; i++) { double x = -1 + 2.0 * i / (b.m.dim - 1); b.m.pts.push_back(x + (i && i + 1 < b.m.dim ? real(-0.2, 0.2, 4) / b.m.dim : 0)); } snprintf(t, sizeof t, "lagrange(%d)", b.m.dim); }
    else if (k == 2) { b.gl = true; b.m.kind = 1; b.m.dim = 2 + (int)draw(wide ? 10 : 5); b.m.pts = gll_nodes(b.m.dim); snprintf(t, sizeof t, "gauss-lobatto(%d)", b.m.dim); }
    else { b.m.kind = 2; b.m.dim = 6; b.m.alpha = real(0.1, 0.9, 4); snprintf(t, sizeof t, "basis0101(%g)", b.m.alpha); }
    b.txt = t;
    const bool by_name = k != 2 && chance(1, 3); Eigen::VectorXd prm = b.m.kind == 1 ? vec(b.m.pts) : b.m.kind == 2 ? Eigen::VectorXd(Eigen::VectorXd::Constant(1, b.m.alpha)) : Eigen::VectorXd();
    Outcome o = attempt(mode, false, [&] { if (by_name) b.own = basis::get_basis(b.m.kind == 0 ? "legendre" : b.m.kind == 1 ? "lagrange" : "basis0101", (size_t)b.m.dim, prm)->clone(); else if (k == 2) { b.own = std::make_unique<basis::BasisLagrangeGaussLobatto>(b.m.dim); if (b.own->get_dim() != (size_t)b.m.dim) throw std::runtime_error("dim"); } else b.own = fresh(b.m); }, [] {});
    sim::logf("new #%zu = %s%s", pool.size(), t, o.failed ? " failed" : "");
    if (o.failed) { if (!o.fired) sim::violation(cls, "making %s failed: %s", t, o.what.c_str()); return; }
    if (by_name) { auto q = fresh(b.m); if (!(*q == *b.own)) sim::violation(cls, "%s asked for by name is another basis", t); sim::probe("by name"); }
    // b.m.pts of a Gauss-Lobatto basis are the harness's own nodes
    pool.push_back(std::move(b));
  }
  void copy(size_t i) {
    uint32_t how = draw(4); B& a = pool[i]; B n; n.m = a.m; n.gl = a.gl; n.txt = a.txt + (how == 1 ? "->moved" : how == 2 ? "->in spline" : how == 3 ? "->spline copy" : "->copy");
    if (how == 1 && !a.own) how = 0;
    long nc = 2L * a.m.dim; Eigen::VectorXd c = Eigen::VectorXd::LinSpaced(nc, -1, 1), tau = Eigen::VectorXd::Constant(2, 0.5);
    bool keep = how != 1 || mode == ENUM;
    Outcome o = attempt(mode, false, [&] {
      n.own.reset(); n.holder.reset();
      if (how == 0) n.own = a.get().clone();
      else if (how == 1) { std::unique_ptr<basis::Basis> k; { sim::alloc::Outside q; if (mode == ENUM) k = a.get().clone(); } n.own = k ? k->move_clone() : a.own->move_clone(); }
      else if (how == 2) n.holder = std::make_unique<GSpline>(std::pair<double, double>(0, 1), 1, 2, a.get(), c, tau);
      else if (a.holder) n.holder = std::make_unique<GSpline>(*a.holder); else n.own = a.get().clone();
    }, [&] { if (keep) audit(a, "source of a failed copy"); });
    sim::logf("copy #%zu how=%u%s", i, how, o.failed ? " failed" : ""); sim::probe("copy");
    if (o.failed && !o.fired) sim::violation(cls, "copying %s failed: %s", a.txt.c_str(), o.what.c_str());
    if (!o.failed) { sim::nontrivial(); if (!(n.get() == a.get()) && keep) sim::violation(cls, "a copy of %s differs from it", a.txt.c_str()); audit(n, "copy"); }
    if (!keep) pool.erase(pool.begin() + (long)i);
    if (!o.failed) { if (pool.size() < 6) pool.push_back(std::move(n)); else pool[draw((uint32_t)pool.size())] = std::move(n); }
  }
  std::vector<double> lengths(int n) { std::vector<double> t; for (int i = 0; i < n; i++) t.push_back(real(0.25, 2, 7)); return t; }
  static Eigen::VectorXd vec(const std::vector<double>& v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), (long)v.size()); }
  void compare_fresh(const B& b, const char* what, const Eigen::MatrixXd& x, const Eigen::MatrixXd& y) {
    sim::observe(x.data(), x.size());
    if (x.rows() != y.rows() || x.cols() != y.cols()) sim::violation(cls, "%s of %s is %ldx%ld, from a fresh basis it is %ldx%ld", what, b.txt.c_str(), (long)x.rows(), (long)x.cols(), (long)y.rows(), (long)y.cols());
    const double top = y.size() ? y.cwiseAbs().maxCoeff() : 0;
    for (long i = 0; i < x.rows(); i++) for (long j = 0; j < x.cols(); j++) if (!(std::fabs(x(i, j) - y(i, j)) <= 1e-9 * (1 + top))) sim::violation(cls, "%s of %s: entry (%ld,%ld) is %.15g, from a fresh basis it is %.15g", what, b.txt.c_str(), i, j, x(i, j), y(i, j));
  }
  // a request; often the last one asked of this basis with one thing altered
  Req pick(const B& b) {
    Req r; r.kind = draw_w({3, 3, 2, 4, 6, 6, 2, 1}); r.deg = (int)draw_w({2, 4, 3, 2, 1, 1}); if (wide && chance(1, 4)) r.deg += 3;
    r.n = 1 + (int)draw(wide ? 12 : 4); r.cd = 1 + (int)draw(wide ? 7 : 3); r.tau = real(0.25, 2, 7);
    uint32_t sk = draw(4); r.s = sk == 0 ? -1 : sk == 1 ? 1 : sk == 2 && b.m.kind == 1 ? b.m.pts[draw((uint32_t)b.m.dim)] : real(-0.93, 0.97, 20);
    r.tv = lengths(r.n);
    if (b.asked && chance(1, 2)) {
      Req f = r; r = b.last; r.bad = false; r.tv.resize((size_t)r.n, 1.0);
      static const double E[] = {1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 3e-7};
      switch (draw(8)) {
        case 0: r.kind = f.kind; break;
        case 1: r.deg = f.deg; break;
        case 2: r.deg = r.deg ? r.deg - 1 : 1; break;
        case 3: r.tv = vary(r.tv, lengths(r.n)); break;
        case 4: r.cd = f.cd; break;
        case 5: if (r.n > 1 && chance(1, 2)) { r.n--; r.tv.pop_back(); } else { r.n++; r.tv.push_back(f.tv[0]); } break;
        case 6: std::swap(r.n, r.cd); r.tv.resize((size_t)r.n, f.tv[0]); break;
        default: if (chance(1, 2)) { r.tau *= 1 + E[draw(6)]; r.s *= 1 - E[draw(6)]; } else if (chance(1, 2)) r.tau = f.tau; else r.s = chance(1, 2) ? f.s : -r.s; break;
      }
    }
    if ((r.kind == 4 || r.kind == 5) && chance(1, 8)) { r.bad = true; if (r.n > 1 && chance(1, 2)) r.tv.pop_back(); else r.tv.push_back(1.0); }
    return r;
  }
  // returns false when the request failed from a fault
  bool ask(B& b, const Req& r, Mode md, const char* when) {
    if (!r.bad) { b.last = r; b.asked = true; }
    static const char* N[] = {"evaluation", "derivative evaluation", "evaluation of the derivative by the length", "derivative block", "spline-derivative matrix", "continuity matrix", "energy matrix", "derivative by the length of the energy matrix"};
    long dim = b.m.dim; const basis::Basis& q = b.get(); Eigen::MatrixXd got, ref; auto f0 = b.gl ? std::unique_ptr<basis::Basis>(new basis::BasisLagrangeGaussLobatto(b.m.dim)) : fresh(b.m); std::unique_ptr<basis::Basis> energy_copy;
    if (r.kind >= 6 && !b.own) energy_copy = q.clone();
    // the energies a basis offers for 0101 are those of a few degrees
    const int ed = b.m.kind != 2 ? r.deg : r.kind == 6 ? std::min(r.deg, 3) : r.deg > 1 ? 3 : 1; Eigen::MatrixXd start = Eigen::MatrixXd::Zero(dim, dim);
    if (r.kind >= 6 && r.n % 2 == 0) for (long i = 0; i < dim; i++) for (long j = 0; j < dim; j++) start(i, j) = (double)((i * 3 + j * 5) % 7) - 2;
    auto run = [&](const basis::Basis& y, basis::Basis* mut, Eigen::MatrixXd& out) {
      Eigen::VectorXd v; Eigen::MatrixXd mm; const Eigen::SparseMatrix<double, Eigen::RowMajor>* sp = nullptr; const Eigen::MatrixXd* dp = nullptr;
      { sim::alloc::Outside o; v = Eigen::VectorXd::Constant(dim, 7.5); mm = start; }
      Eigen::VectorXd tv; { sim::alloc::Outside o; tv = vec(r.tv); }
      switch (r.kind) {
        case 0: y.eval_on_window(r.s, r.tau, v); break;
        case 1: y.eval_derivative_on_window(r.s, r.tau, r.deg, v); break;
        case 2: y.eval_derivative_wrt_tau_on_window(r.s, r.tau, r.deg, v); break;
        case 3: dp = &y.get_derivative_matrix_block(r.deg); break;
        case 4: sp = &y.gspline_derivative_matrix(r.n, r.cd, r.deg, tv); break;
        case 5: sp = &y.continuity_matrix(r.n, r.cd, r.deg, tv); break;
        case 6: mut->add_derivative_matrix(r.tau, ed, mm); break;
        default: mut->add_derivative_matrix_deriv_wrt_tau(r.tau, ed, mm); break;
      }
      sim::alloc::Outside o;
      if (r.kind <= 2) out = v; else if (dp) out = *dp; else if (sp) out = Eigen::MatrixXd(*sp); else out = mm;
    };
    Outcome o = attempt(md, false, [&] { run(q, b.own ? b.own.get() : energy_copy.get(), got); }, [&] {});
    if (r.bad) { sim::fault("refused-operands"); if (!o.failed) sim::violation(cls, "%s of %s for %d intervals accepted %zu lengths", N[r.kind], b.txt.c_str(), r.n, r.tv.size()); return false; }
    if (o.failed) { if (!o.fired) sim::violation(cls, "%s: %s of %s failed: %s", when, N[r.kind], b.txt.c_str(), o.what.c_str()); return false; }
    { Outcome of = once([&] { run(*f0, f0.get(), ref); }); if (of.failed) sim::violation(cls, "%s of a fresh %s failed: %s", N[r.kind], b.txt.c_str(), of.what.c_str()); }
    sim::nontrivial(); sim::probe(N[r.kind]);
    char w[160]; snprintf(w, sizeof w, "%s: %s (deg %d, %d intervals, dim %d)", when, N[r.kind], r.deg, r.n, r.cd);
    compare_fresh(b, w, got, ref);
    // against the definition
    const double T = 1e-7;
    if (r.kind <= 2) {
      std::vector<LD> sc, d = r.kind == 0 ? deriv(b.m, r.s, r.tau, 0, &sc) : deriv(b.m, r.s, r.tau, r.deg + (r.kind == 2 && b.m.kind == 2), &sc);
      if (r.kind == 2) for (size_t i = 0; i < d.size(); i++) d[i] *= b.m.kind == 2 ? (LD)r.s / 2 : -(LD)r.deg / r.tau;
      LD g = 0; for (auto x : sc) g += x;
      for (long i = 0; i < dim; i++) expect(std::fabs(got(i, 0) - (double)d[i]) <= T * (1 + (double)g), b, w, got(i, 0), (double)d[i]);
    } else if (r.kind == 3 || r.kind == 4) {
      long n = r.kind == 4 ? r.n : 1, cd = r.kind == 4 ? r.cd : 1; long sz = n * cd * dim;
      if (got.rows() != sz || got.cols() != sz) sim::violation(cls, "%s of %s is %ldx%ld", w, b.txt.c_str(), (long)got.rows(), (long)got.cols());
      Eigen::VectorXd c(sz); for (long i = 0; i < sz; i++) c(i) = ((i * 7 + 3) % 11) / 5.0 - 1; Eigen::VectorXd dc = got * c;
      for (long i = 0; i < n; i++) {
        double tau = r.kind == 4 ? r.tv[i] : b.m.kind == 2 ? r.tau : 2.0;   // blocks are per window length 2
        for (double s : {-1.0, -0.37, 0.6, 1.0}) {
          std::vector<LD> sc; auto v0 = deriv(b.m, s, tau, 0), vk = deriv(b.m, s, tau, r.deg, &sc);
          for (long k = 0; k < cd; k++) { LD x = 0, y = 0, g = 1; for (long j = 0; j < dim; j++) { long ci = (i * cd + k) * dim + j; x += v0[j] * dc(ci); y += vk[j] * c(ci); g += sc[j] * 1.2L + model::ab(v0[j] * dc(ci)); } expect(model::ab(x - y) <= T * g, b, w, (double)x, (double)y); }
        }
      }
    } else if (r.kind == 5) {
      long rows = (long)(r.n - 1) * r.cd * (r.deg + 1), cols = (long)r.n * r.cd * dim;
      if (got.rows() != rows || got.cols() != cols) sim::violation(cls, "%s of %s is %ldx%ld, should be %ldx%ld", w, b.txt.c_str(), (long)got.rows(), (long)got.cols(), rows, cols);
      if (rows) {
        Eigen::VectorXd c(cols); for (long i = 0; i < cols; i++) c(i) = ((i * 5 + 2) % 13) / 6.0 - 1; Eigen::VectorXd j = got * c;
        for (int d = 0; d <= r.deg; d++) for (int i = 0; i + 1 < r.n; i++) {
          std::vector<LD> sr, sl; auto vr = deriv(b.m, 1, r.tv[i], d, &sr), vl = deriv(b.m, -1, r.tv[i + 1], d, &sl);
          for (int k = 0; k < r.cd; k++) { LD x = 0, g = 1; for (long q2 = 0; q2 < dim; q2++) { x += vr[q2] * c((i * r.cd + k) * dim + q2) - vl[q2] * c(((i + 1) * r.cd + k) * dim + q2); g += sr[q2] + sl[q2]; } expect(std::fabs(j(d * (r.n - 1) * r.cd + i * r.cd + k) - (double)x) <= T * (double)g, b, w, j(d * (r.n - 1) * r.cd + i * r.cd + k), (double)x); }
        }
      }
    }
    else if (b.m.kind != 2) {   // the integrals of the products of derivatives, by Gauss-Lobatto quadrature
      const int N = (int)dim + 2; auto x = gll_nodes(N); Eigen::MatrixXd want = Eigen::MatrixXd::Zero(dim, dim), mag = want;
      for (int q2 = 0; q2 < N; q2++) {
        LD p0 = 1, p1 = x[q2]; for (int k = 2; k < N; k++) { LD p = ((2 * k - 1) * (LD)x[q2] * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p; }
        LD wt = 2 / (N * (N - 1) * p1 * p1) * r.tau / 2; std::vector<LD> sc; auto v = deriv(b.m, x[q2], r.tau, ed, &sc);
        for (long i = 0; i < dim; i++) for (long j = 0; j < dim; j++) { want(i, j) += (double)(wt * v[i] * v[j]); mag(i, j) += (double)(wt * sc[i] * sc[j]); }
      }
      double g = mag.cwiseAbs().maxCoeff(); if (r.kind == 7) { double f = -(2.0 * ed - 1) / r.tau; want *= f; g *= std::fabs(f); }
      for (long i = 0; i < dim; i++) for (long j = 0; j < dim; j++) expect(std::fabs(got(i, j) - start(i, j) - want(i, j)) <= T * (10 + g), b, w, got(i, j) - start(i, j), want(i, j));
    }
    return true;
  }
  // a fixed set of questions
  void audit(B& b, const char* when) {
    Req keep = b.last; bool had = b.asked; for (uint32_t k : {1u, 3u, 4u, 5u}) { Req r; r.kind = k; r.s = 0.25; r.tau = 0.75; r.deg = 2; r.n = 2; r.cd = 2; r.tv = {0.5, 1.25}; ask(b, r, NONE, when); }
    b.last = keep; b.asked = had;
  }
  void run(int n) {
    if (wide) n *= 2; make(); if (pool.empty()) make();
    for (int i = 0; i < n; i++) {
      sim::Span sp; sim::steps(1);
      if (pool.empty() || (pool.size() < 4 && chance(1, 8))) { make(); continue; }
      size_t k = draw((uint32_t)pool.size());
      if (chance(1, 6)) { copy(k); continue; }
      Req r = pick(pool[k]);
      sim::logf("ask #%zu kind=%u deg=%d n=%d cd=%d s=%g tau=%g%s", k, r.kind, r.deg, r.n, r.cd, r.s, r.tau, r.bad ? " (wrong number of lengths)" : "");
      sim::feature(sim::mix(sim::mix(r.kind, r.deg), sim::mix(r.n * 8 + r.cd, pool[k].m.kind * 16 + pool[k].m.dim)));
      if (!ask(pool[k], r, mode, "request") && !r.bad) { sim::logf("  failed"); ask(pool[k], r, NONE, "request repeated after a failure"); }
    }
    for (auto& b : pool) audit(b, "end of history");
  }
};
}  // namespace
void run_basis(Mode m, int steps) { World w(m); w.run(2 + (int)draw(steps)); }
static void c06() { Mode m = chance(1, 2) ? SOME : NONE; run_basis(m, 24); }
static sim::Reg r06("C06", c06);
}  // namespace ww
