// Executable reference model: functions as syntax trees evaluated with Taylor
// jets in extended precision, every coefficient carrying a bound on the
// rounding error a correct double implementation may have accumulated.
#pragma once
#include <cmath>
#include <memory>
#include <utility>
#include <vector>

namespace model {
typedef long double LD;
struct E { LD v = 0; LD e = 0; E(LD x = 0, LD er = 0) : v(x), e(er) {} };
static const LD EPS = 4e-16L;
inline LD ab(LD x) { return x < 0 ? -x : x; }
inline E operator+(E a, E b) { LD v = a.v + b.v; return E(v, a.e + b.e + EPS * ab(v)); }
inline E operator-(E a, E b) { LD v = a.v - b.v; return E(v, a.e + b.e + EPS * ab(v)); }
inline E operator*(E a, E b) { LD v = a.v * b.v; return E(v, a.e * ab(b.v) + b.e * ab(a.v) + a.e * b.e + EPS * ab(v)); }
typedef std::vector<E> Jet;            // Taylor coefficients, c[k] = f^(k)/k!
inline Jet jmul(const Jet& a, const Jet& b) {
  Jet r(a.size());
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; i + j < a.size(); j++) r[i + j] = r[i + j] + a[i] * b[j];
  return r;
}
inline Jet jadd(const Jet& a, const Jet& b) { Jet r(a); for (size_t i = 0; i < a.size(); i++) r[i] = r[i] + b[i]; return r; }

// what an evaluation met
struct Ctx { bool ambiguous = false; bool huge = false; };

struct Node;
typedef std::shared_ptr<const Node> P;
struct Node {
  virtual ~Node() {}
  int dim = 1; double lo = 0, hi = 1; int depth = 1; int size = 1;
  bool global = true;      // the value outside the domain is well defined
  // jets of every component at t, order n; t.e is the uncertainty of t
  virtual std::vector<Jet> eval(E t, int n, Ctx& c) const = 0;
};
// helper: builds the jet of an analytic scalar from its exact coefficients of
// order n+1, propagating the uncertainty of the argument
inline Jet leafjet(const std::vector<LD>& c, int n, LD te, LD scale) {
  Jet r(n + 1);
  for (int k = 0; k <= n; k++) r[k] = E(c[k], (k + 1) * ab(c[k + 1]) * te + EPS * (ab(c[k]) + scale));
  return r;
}
struct Const : Node {
  std::vector<double> v;
  std::vector<Jet> eval(E, int n, Ctx&) const override {
    std::vector<Jet> r; for (double x : v) { Jet j(n + 1); j[0] = E(x); r.push_back(j); } return r; }
};
struct Lin : Node {
  double a = 1;
  std::vector<Jet> eval(E t, int n, Ctx&) const override { Jet j(n + 1); j[0] = E(a) * t; if (n > 0) j[1] = E(a); return {j}; }
};
struct Affine : Node {     // a + b t
  LD a = 0, b = 1;
  std::vector<Jet> eval(E t, int n, Ctx&) const override { Jet j(n + 1); j[0] = E(a) + E(b) * t; if (n > 0) j[1] = E(b); return {j}; }
};
struct Trig : Node {       // kind 0 exp 1 cos 2 sin
  int kind = 0;
  std::vector<Jet> eval(E t, int n, Ctx& c) const override {
    if (ab(t.v) > 40) c.huge = true;
    LD d[4]; LD ex = std::exp(t.v > 60 ? 60.0L : t.v), co = std::cos(t.v), si = std::sin(t.v);
    if (kind == 0) { for (auto& x : d) x = ex; }
    else if (kind == 1) { d[0] = co; d[1] = -si; d[2] = -co; d[3] = si; }
    else { d[0] = si; d[1] = co; d[2] = -si; d[3] = -co; }
    std::vector<LD> cf(n + 2); LD f = 1;
    for (int k = 0; k <= n + 1; k++) { if (k) f *= k; cf[k] = d[k % 4] / f; }
    return {leafjet(cf, n, t.e, kind ? 1.0L : 0.0L)}; }
};
struct Poly : Node {       // one polynomial per component, canonical coefficients
  std::vector<std::vector<double>> c;
  std::vector<Jet> eval(E t, int n, Ctx&) const override {
    std::vector<Jet> r;
    for (auto& p : c) {
      std::vector<LD> cf(n + 2, 0.0L); LD sc = 0;
      for (int k = 0; k <= n + 1; k++) {
        LD pw = 1;
        for (size_t i = k; i < p.size(); i++) {
          LD b = 1; for (int q = 0; q < k; q++) b = b * (LD)(i - q) / (LD)(q + 1);
          cf[k] += b * p[i] * pw; if (k <= n) sc += ab(b * p[i] * pw) * 4; pw *= t.v;
        }
      }
      r.push_back(leafjet(cf, n, t.e, sc));
    }
    return r; }
};
// piecewise function given by a per-piece evaluator
struct Pieces : Node {
  std::vector<double> breaks;                       // size pieces+1
  virtual std::vector<Jet> piece(size_t i, E t, int n, Ctx& c) const = 0;
  std::vector<Jet> eval(E t, int n, Ctx& c) const override {
    size_t m = breaks.size() - 1, i = 0;
    LD tol = 1e-6L + 10 * t.e;
    if (t.v < breaks[0] - 0 && t.v < breaks[0] - 1e-12L) c.ambiguous = true;
    if (t.v > breaks[m] + 1e-12L) c.ambiguous = true;
    if (t.e > 1e-9L && (ab(t.v - breaks[0]) < tol || ab(t.v - breaks[m]) < tol)) c.ambiguous = true;
    for (size_t k = 1; k < m; k++) { if (ab(t.v - breaks[k]) < tol) c.ambiguous = true; if (t.v > breaks[k]) i = k; }
    return piece(i, t, n, c); }
};
struct Concat : Pieces {
  std::vector<P> f;
  std::vector<Jet> piece(size_t i, E t, int n, Ctx& c) const override { return f[i]->eval(t, n, c); }
};
// ------------------------------------------------------------- bases
// jets in the window variable s of every basis function
struct BasisM {
  int kind = 0;                         // 0 legendre 1 lagrange 2 basis0101
  int dim = 4; std::vector<double> pts; double alpha = 0.5;
  double k0101() const { return std::sqrt(2.0) / 4.0 * std::pow(alpha, 0.25) / std::pow(1.0 - alpha, 0.25); }
  std::vector<Jet> eval(E s, double tau, int n) const {
    std::vector<Jet> r(dim, Jet(n + 1));
    if (kind == 0) {
      Jet x(n + 1); x[0] = s; if (n > 0) x[1] = E(1);
      r[0][0] = E(1); if (dim > 1) r[1] = x;
      for (int i = 1; i + 1 < dim; i++) {
        Jet a = jmul(x, r[i]);
        for (int k = 0; k <= n; k++) r[i + 1][k] = (E((2.0L * i + 1)) * a[k] - E(i) * r[i - 1][k]) * E(1.0L / (i + 1));
      }
    } else if (kind == 1) {
      // evaluation snaps to a node within 1e-9 of it
      for (double q : pts) if (s.v != q && ab(s.v - q) < 4e-9L) s.e += 4e-12L;
      for (int i = 0; i < dim; i++) {
        Jet a(n + 1); a[0] = E(1);
        for (int j = 0; j < dim; j++) if (j != i) {
          LD d = (LD)pts[i] - pts[j]; Jet l(n + 1); l[0] = E((s.v - pts[j]) / d, s.e / ab(d) + EPS * 2 / ab(d)); if (n > 0) l[1] = E(1 / d);
          a = jmul(a, l);
        }
        r[i] = a;
      }
      // barycentric evaluation near a node loses digits; allow for it
      for (auto& j : r) for (auto& x : j) x.e += 64 * EPS * (1 + ab(x.v));
    } else {
      LD w = (LD)tau * k0101(), p = w * s.v;
      LD ep = std::exp(p), em = 1 / ep, c = std::cos(p), q = std::sin(p);
      LD b[6] = {ep * c, ep * q, em * c, em * q, p, 1};
      std::vector<std::vector<LD>> cf(6, std::vector<LD>(n + 2));
      LD f = 1;
      for (int k = 0; k <= n + 1; k++) {
        if (k) f *= k;
        for (int i = 0; i < 6; i++) cf[i][k] = b[i] / f;
        LD nb[6] = {w * (b[0] - b[1]), w * (b[0] + b[1]), w * (-b[2] - b[3]), w * (b[2] - b[3]), w * b[5], 0};
        for (int i = 0; i < 6; i++) b[i] = nb[i];
      }
      for (int i = 0; i < 6; i++) { r[i] = leafjet(cf[i], n, s.e, 0); for (int k = 0; k <= n; k++) { LD g = (i < 4 ? (i < 2 ? ep : em) : 1 + ab(p)) * 8; for (int q2 = 1; q2 <= k; q2++) g = g * (ab(w) * 2) / q2; r[i][k].e += EPS * g; } }
    }
    return r;
  }
};
struct Spline : Pieces {
  BasisM b; std::vector<double> coef;   // interval-major, then component, then basis
  std::vector<LD> cerr_;                // uncertainty of the coefficients, if any
  std::vector<double> tau;
  std::vector<Jet> piece(size_t i, E t, int n, Ctx&) const override {
    LD h = tau[i], s = 2 * (t.v - breaks[i]) / h - 1;
    LD bm = 0; for (double x : breaks) bm = std::max(bm, (LD)ab(x));
    E se(s, 2 * t.e / h + EPS * 4 * (ab(t.v) + bm) / h + EPS * 4);
    std::vector<Jet> bj = b.eval(se, tau[i], n);
    std::vector<Jet> r(dim, Jet(n + 1));
    for (int d = 0; d < dim; d++) {
      for (int j = 0; j < b.dim; j++) { size_t ci = (i * dim + d) * b.dim + j; E c(coef[ci], cerr_.empty() ? 0.0L : cerr_[ci]); for (int k = 0; k <= n; k++) { E x = c * bj[j][k]; x.e += 64 * EPS * ab(x.v); r[d][k] = r[d][k] + x; } }
      LD sc = 1; for (int k = 0; k <= n; k++) { r[d][k] = r[d][k] * E(sc); sc *= 2 / h; }
    }
    return r; }
  void setup(double t0) { breaks.assign(1, t0); double x = t0; for (double h : tau) breaks.push_back(x += h); lo = t0; global = false; }
};
// ------------------------------------------------------------- operations
struct Sum : Node {
  P a, b; bool minus = false;
  std::vector<Jet> eval(E t, int n, Ctx& c) const override {
    auto x = a->eval(t, n, c), y = b->eval(t, n, c);
    for (size_t d = 0; d < x.size(); d++) for (int k = 0; k <= n; k++) x[d][k] = minus ? x[d][k] - y[d][k] : x[d][k] + y[d][k];
    return x; }
};
struct Mul : Node {
  P a, b;
  std::vector<Jet> eval(E t, int n, Ctx& c) const override {
    auto x = a->eval(t, n, c), y = b->eval(t, n, c);
    if (x.size() < y.size()) std::swap(x, y);
    for (auto& j : x) j = jmul(j, y[0]);
    return x; }
};
struct Neg : Node {
  P a; std::vector<Jet> eval(E t, int n, Ctx& c) const override { auto x = a->eval(t, n, c); for (auto& j : x) for (auto& e : j) e.v = -e.v; return x; }
};
struct Comp : Node {       // outer(inner(t))
  P outer, inner;
  std::vector<Jet> eval(E t, int n, Ctx& c) const override {
    Jet in = inner->eval(t, n, c)[0];
    if (ab(in[0].v) > 1e6L || in[0].e > 1e-3L) { c.huge = true; return std::vector<Jet>(dim, Jet(n + 1)); }
    auto o = outer->eval(in[0], n, c);
    in[0] = E(0);
    std::vector<Jet> r;
    for (auto& j : o) {    // Horner in the inner increment
      Jet acc(n + 1); acc[0] = j[n];
      for (int k = n - 1; k >= 0; k--) { acc = jmul(acc, in); acc[0] = acc[0] + j[k]; }
      r.push_back(acc);
    }
    return r; }
};
struct Dot : Node {
  P a, b;
  std::vector<Jet> eval(E t, int n, Ctx& c) const override {
    auto x = a->eval(t, n, c), y = b->eval(t, n, c); Jet r(n + 1);
    for (size_t d = 0; d < x.size(); d++) r = jadd(r, jmul(x[d], y[d]));
    return {r}; }
};
struct Deriv : Node {
  P a; int k = 1;
  std::vector<Jet> eval(E t, int n, Ctx& c) const override {
    auto x = a->eval(t, n + k, c);
    for (auto& j : x) {
      for (int i = 0; i <= n; i++) { LD f = 1; for (int q = 1; q <= k; q++) f *= (i + q); E y = j[i + k]; y.v *= f; y.e *= f; j[i] = y; }
      j.resize(n + 1);
    }
    return x; }
};
// true when the model can decide the value; then tol is the allowed difference
inline bool decide(const P& p, double t, std::vector<LD>& val, std::vector<LD>& tol) {
  Ctx c; auto r = p->eval(E(t), 0, c);
  if (c.ambiguous || c.huge) return false;
  val.clear(); tol.clear();
  for (auto& j : r) {
    LD v = j[0].v, e = j[0].e;
    if (!(ab(v) < 1e12L) || !(e * 1000 < 1e-4L * (1 + ab(v)))) return false;
    val.push_back(v); tol.push_back(1000 * e + 1e-10L * (1 + ab(v)));
  }
  return true;
}
}  // namespace model
