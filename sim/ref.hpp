// Reference solution of the interpolation problem and of the path cost, in
// extended precision, straight from the definition.
#pragma once
#include "model.hpp"
#include <cmath>
#include <string>
#include <vector>
namespace ref {
typedef long double LD;
using model::BasisM;
// k-th derivative with respect to time of every basis function at window point s
inline std::vector<LD> deriv(const BasisM& m, LD s, double tau, int k, std::vector<LD>* scale = nullptr) {
  auto j = m.eval(model::E(s), tau, k); LD f = 1; for (int i = 1; i <= k; i++) f *= (LD)i * 2 / tau;
  // a chain of k differentiation matrices rounds relative to the product of their norms
  LD floor_ = 2e-8L; for (int i = 0; i < k; i++) floor_ *= (LD)m.dim * m.dim * 2 / tau;
  std::vector<LD> r; for (auto& x : j) { r.push_back(x[k].v * f); if (scale) scale->push_back(model::ab(x[k].v * f) + 1e4L * x[k].e * f + floor_); } return r;
}
// derivative of the above with respect to tau at fixed s
inline std::vector<LD> dderiv(const BasisM& m, LD s, double tau, int k, std::vector<LD>* scale = nullptr) {
  std::vector<LD> sc, d = deriv(m, s, tau, m.kind == 2 ? k + 1 : k, scale ? &sc : nullptr);
  LD f = m.kind == 2 ? s / 2 : -(LD)k / tau;
  for (auto& x : d) x *= f;
  if (scale) for (auto& x : sc) scale->push_back(x * (model::ab(f) + 1e-3L));
  return d;
}
struct Row { int i0 = 0, i1 = -1; std::vector<LD> a0, a1, s0, s1; int wp = -1; };   // a0.c_{i0} - a1.c_{i1} = w_wp or 0
struct Problem {
  BasisM m; std::vector<double> tau; int cd = 1;
  std::vector<std::vector<double>> wp;       // (n+1) x cd
  int n() const { return (int)tau.size(); }
  size_t at(int i, int k, int j) const { return ((size_t)i * cd + k) * m.dim + j; }
  // idx<0: the conditions; otherwise their derivative by tau[idx]
  std::vector<Row> rows(int idx, bool scales) const {
    std::vector<Row> r; int N = n();
    auto ev = [&](int i, LD s, int k, std::vector<LD>* sc) -> std::vector<LD> {
      if (idx < 0) return deriv(m, s, tau[i], k, scales ? sc : nullptr);
      if (idx == i) return dderiv(m, s, tau[i], k, scales ? sc : nullptr);
      if (scales) sc->assign(m.dim, 0.0L);
      return std::vector<LD>(m.dim, 0.0L); };
    auto one = [&](int i, LD s, int k, int w) { Row q; q.i0 = i; q.a0 = ev(i, s, k, &q.s0); q.wp = w; r.push_back(q); };
    for (int i = 0; i < N; i++) { one(i, -1, 0, i); one(i, 1, 0, i + 1); }
    for (int i = 0; i + 1 < N; i++) for (int k = 1; k <= m.dim - 2; k++) { Row q; q.i0 = i; q.i1 = i + 1; q.a0 = ev(i, 1, k, &q.s0); q.a1 = ev(i + 1, -1, k, &q.s1); r.push_back(q); }
    for (int k = 1; k <= m.dim / 2 - 1; k++) { one(0, -1, k, -1); one(N - 1, 1, k, -1); }
    return r;
  }
  // largest violated condition of given coefficients, as a multiple of the rounding allowance
  LD residual(const std::vector<double>& c, std::string* which) const {
    auto R = rows(-1, true); LD worst = 0, top = 0;
    for (int pass = 0; pass < 2; pass++) for (size_t q = 0; q < R.size(); q++) for (int k = 0; k < cd; k++) {
      const Row& w = R[q]; LD x = w.wp >= 0 ? -(LD)wp[w.wp][k] : 0, g = model::ab(x) + 1;
      for (int j = 0; j < m.dim; j++) { LD v = c[at(w.i0, k, j)]; x += w.a0[j] * v; g += w.s0[j] * model::ab(v); if (w.i1 >= 0) { v = c[at(w.i1, k, j)]; x -= w.a1[j] * v; g += w.s1[j] * model::ab(v); } }
      if (!pass) { top = std::max(top, g); continue; }
      // elimination is backward stable relative to the largest row
      LD e = model::ab(x) / (1e-7L * g + 1e-14L * top); if (!(e <= worst)) { worst = e; if (which) { char t[120]; snprintf(t, sizeof t, "%s of interval %d, component %d is off by %.3Lg", w.wp >= 0 ? "waypoint" : w.i1 >= 0 ? "continuity of a derivative at the end" : "derivative at the boundary", w.i0, k, x); *which = t; } }
      if (x != x) return 1e9L;
    }
    return worst;
  }
  // A dc + dA c = 0
  LD sensitivity_residual(const std::vector<double>& c, const std::vector<double>& dc, int idx, std::string* which) const {
    auto R = rows(-1, true), D = rows(idx, true); LD worst = 0, top = 0;
    for (int pass = 0; pass < 2; pass++) for (size_t q = 0; q < R.size(); q++) for (int k = 0; k < cd; k++) {
      LD x = 0, g = 1;
      auto acc = [&](int i, const std::vector<LD>& a, const std::vector<LD>& s, const std::vector<double>& v, int sg) { for (int j = 0; j < m.dim; j++) { LD y = v[at(i, k, j)]; x += sg * a[j] * y; g += s[j] * model::ab(y); } };
      acc(R[q].i0, R[q].a0, R[q].s0, dc, 1); acc(D[q].i0, D[q].a0, D[q].s0, c, 1);
      if (R[q].i1 >= 0) { acc(R[q].i1, R[q].a1, R[q].s1, dc, -1); acc(D[q].i1, D[q].a1, D[q].s1, c, -1); }
      if (!pass) { top = std::max(top, g); continue; }
      // elimination is backward stable relative to the largest row
      LD e = model::ab(x) / (1e-7L * g + 1e-14L * top); if (!(e <= worst)) { worst = e; if (which) { char t[120]; snprintf(t, sizeof t, "condition %zu, component %d is off by %.3Lg", q, k, x); *which = t; } }
      if (x != x) return 1e9L;
    }
    return worst;
  }
  // dense solve in extended precision; rhs per component; false when singular
  bool solve(const std::vector<std::vector<LD>>& rhs, std::vector<LD>& out) const {
    auto R = rows(-1, false); int N = n() * m.dim; std::vector<std::vector<LD>> A(N, std::vector<LD>(N + cd, 0.0L));
    for (int q = 0; q < N; q++) { LD top = 0; for (int j = 0; j < m.dim; j++) { A[q][R[q].i0 * m.dim + j] += R[q].a0[j]; if (R[q].i1 >= 0) A[q][R[q].i1 * m.dim + j] -= R[q].a1[j]; } for (int j = 0; j < N; j++) top = std::max(top, model::ab(A[q][j])); for (int k = 0; k < cd; k++) A[q][N + k] = rhs[q][k]; if (top > 0) for (auto& x : A[q]) x /= top; }
    for (int p = 0; p < N; p++) {
      int b = p; for (int q = p; q < N; q++) if (model::ab(A[q][p]) > model::ab(A[b][p])) b = q;
      if (model::ab(A[b][p]) < 1e-15L) return false;
      std::swap(A[p], A[b]);
      for (int q = 0; q < N; q++) if (q != p && A[q][p] != 0) { LD f = A[q][p] / A[p][p]; for (int j = p; j < N + cd; j++) A[q][j] -= f * A[p][j]; }
    }
    out.assign((size_t)N * cd, 0.0L);
    for (int i = 0; i < n(); i++) for (int k = 0; k < cd; k++) for (int j = 0; j < m.dim; j++) out[at(i, k, j)] = A[i * m.dim + j][N + k] / A[i * m.dim + j][i * m.dim + j];
    return true;
  }
  bool coefficients(std::vector<LD>& c) const {
    auto R = rows(-1, false); std::vector<std::vector<LD>> b(R.size(), std::vector<LD>(cd, 0.0L));
    for (size_t q = 0; q < R.size(); q++) if (R[q].wp >= 0) for (int k = 0; k < cd; k++) b[q][k] = wp[R[q].wp][k];
    return solve(b, c);
  }
  bool dcoefficients(const std::vector<LD>& c, int idx, std::vector<LD>& dc) const {
    auto D = rows(idx, false); std::vector<std::vector<LD>> b(D.size(), std::vector<LD>(cd, 0.0L));
    for (size_t q = 0; q < D.size(); q++) for (int k = 0; k < cd; k++) for (int j = 0; j < m.dim; j++) { b[q][k] -= D[q].a0[j] * c[at(D[q].i0, k, j)]; if (D[q].i1 >= 0) b[q][k] += D[q].a1[j] * c[at(D[q].i1, k, j)]; }
    return solve(b, dc);
  }
};
// 20-point Gauss-Legendre rule
inline const std::vector<std::pair<LD, LD>>& gauss() {
  static std::vector<std::pair<LD, LD>> r;
  if (r.empty()) {
    const int N = 20;
    for (int i = 0; i < N; i++) {
      LD x = std::cos(3.14159265358979323846264338327950288L * (i + 0.75L) / (N + 0.5L)), dp = 1;
      for (int it = 0; it < 60; it++) { LD p0 = 1, p1 = x; for (int k = 2; k <= N; k++) { LD p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } dp = N * (x * p1 - p0) / (x * x - 1); x -= p1 / dp; }
      r.push_back({x, 2 / ((1 - x * x) * dp * dp)});
    }
  }
  return r;
}
typedef std::vector<std::pair<size_t, double>> Weights;
struct Cost { LD value = 0, scale = 0; std::vector<LD> grad, gscale; };
// the weighted sum of squared norms of the derivatives, and its gradient
inline bool cost(const Problem& p, const Weights& w, Cost& out) {
  std::vector<LD> c; if (!p.coefficients(c)) return false;
  int n = p.n(); std::vector<std::vector<LD>> dc(n);
  for (int i = 0; i < n; i++) if (!p.dcoefficients(c, i, dc[i])) return false;
  out.grad.assign(n, 0.0L); out.gscale.assign(n, 0.0L);
  for (auto& term : w) for (int i = 0; i < n; i++) for (auto& q : gauss()) {
    std::vector<LD> s, ds; auto b = deriv(p.m, q.first, p.tau[i], (int)term.first, &s), db = dderiv(p.m, q.first, p.tau[i], (int)term.first, &ds);
    LD h = (LD)p.tau[i] / 2 * q.second;
    for (int k = 0; k < p.cd; k++) {
      LD v = 0, a = 0, e = 0, ea = 0;
      for (int j = 0; j < p.m.dim; j++) { LD y = c[p.at(i, k, j)]; v += b[j] * y; a += s[j] * model::ab(y); e += db[j] * y; ea += ds[j] * model::ab(y); }
      LD W = term.second, AW = model::ab(W);
      out.value += W * h * v * v; out.scale += AW * h * a * a;
      out.grad[i] += W * (q.second / 2 * v * v + 2 * h * v * e); out.gscale[i] += AW * (q.second / 2 * a * a + 2 * h * a * ea);
      for (int t = 0; t < n; t++) { LD d = 0, da = 0; for (int j = 0; j < p.m.dim; j++) { LD y = dc[t][p.at(i, k, j)]; d += b[j] * y; da += s[j] * model::ab(y); } out.grad[t] += W * 2 * h * v * d; out.gscale[t] += AW * 2 * h * a * da; }
    }
  }
  return true;
}
}  // namespace ref
