// Shared oracles and input generators.  Everything here is written from the
// mathematical definitions (Cox-de Boor recursion, quotient rule, ...), not from
// the library's algorithms.
#pragma once
#include "sym.h"
#include <vector>
#include <array>
#include <string>
#include <utility>
#include <tuple>
#include <memory>
#include <stdexcept>

using V = std::vector<double>;
template <size_t D> using P = std::array<double, D>;
template <size_t D> using PV = std::vector<std::array<double, D>>;
inline std::string S_(size_t i) { return std::to_string(i); }

// knots: interior given as (value, mult), clamped ends a,b
inline V clamped(int p, const std::vector<std::pair<double, int>> &in, double a = 0., double b = 1.) {
  V k(p + 1, a);
  for (auto &[x, m] : in)
    for (int i = 0; i < m; ++i) k.push_back(x);
  for (int i = 0; i <= p; ++i) k.push_back(b);
  return k;
}
template <size_t D> PV<D> symPoles(const std::string &n, size_t np, double lo = -10, double hi = 10) {
  PV<D> r(np);
  for (size_t i = 0; i < np; ++i)
    for (size_t d = 0; d < D; ++d) r[i][d] = sym::real(n + S_(i) + "_" + S_(d), lo, hi);
  return r;
}
// a deterministic non-trivial concrete value
inline double conc(size_t i, size_t d = 0) { return double((int)((i * 7 + d * 5 + 3) % 11) - 5) + 0.25 * double((i * 3 + d) % 4); }
template <size_t D> PV<D> concPoles(size_t np, size_t salt = 0) {
  PV<D> r(np);
  for (size_t i = 0; i < np; ++i)
    for (size_t d = 0; d < D; ++d) r[i][d] = conc(i + salt, d + salt);
  return r;
}
// homogeneous poles (w*x, w) with weights given
template <size_t D> PV<D + 1> homog(const PV<D> &x, const V &w) {
  PV<D + 1> r(x.size());
  for (size_t i = 0; i < x.size(); ++i) {
    for (size_t d = 0; d < D; ++d) r[i][d] = x[i][d] * w[i];
    r[i][D] = w[i];
  }
  return r;
}
inline V concWeights(size_t n) {
  V w(n);
  for (size_t i = 0; i < n; ++i) w[i] = 1. + 0.25 * double((i * 3 + i * i + 2) % 5);
  return w;
}
// span: k[j] <= u < k[j+1], last non empty span at the upper end
inline size_t span_ref(double u, const V &k) {
  size_t j = 0, best = 0;
  bool found = false;
  for (j = 0; j + 1 < k.size(); ++j) {
    if (!(k[j] < k[j + 1])) continue;
    if (!found) {
      best = j;
      found = true;
      continue;
    }
    if (u >= k[j]) best = j;
    else break;
  }
  return best;
}
// d-th derivative of N_{i,p} restricted to span s
inline double basis_ref(size_t i, int p, double u, const V &k, size_t s, int d = 0) {
  if (d > p) return 0.;
  if (s < i || s > i + p) return 0.;
  if (p == 0) return 1.;
  double r = 0.;
  double a = k[i + p] - k[i], b = k[i + p + 1] - k[i + 1];
  if (d == 0) {
    if (s >= i && s < i + p && a > 0.) r += (u - k[i]) / a * basis_ref(i, p - 1, u, k, s);
    if (s > i && b > 0.) r += (k[i + p + 1] - u) / b * basis_ref(i + 1, p - 1, u, k, s);
  } else {
    if (s < i + p && a > 0.) r += double(p) / a * basis_ref(i, p - 1, u, k, s, d - 1);
    if (s > i && b > 0.) r -= double(p) / b * basis_ref(i + 1, p - 1, u, k, s, d - 1);
  }
  return r;
}
template <size_t D> P<D> bs_ref_span(double u, const V &k, const PV<D> &P_, int p, size_t s, int d = 0) {
  P<D> r{};
  for (size_t i = 0; i < P_.size(); ++i) {
    if (s < i || s > i + p) continue;
    double b = basis_ref(i, p, u, k, s, d);
    for (size_t c = 0; c < D; ++c) r[c] += b * P_[i][c];
  }
  return r;
}
template <size_t D> P<D> bs_ref(double u, const V &k, const PV<D> &P_, int p, int d = 0) { return bs_ref_span<D>(u, k, P_, p, span_ref(u, k), d); }
inline double binom(int n, int k) {
  double r = 1;
  for (int i = 0; i < k; ++i) r = r * double(n - i) / double(i + 1);
  return r;
}
// rational curve, derivative d, by Leibniz on A = w C
template <size_t D> std::vector<P<D>> rat_ders_span(double u, const V &k, const PV<D + 1> &H, int p, size_t s, int n) {
  std::vector<P<D + 1>> A;
  for (int d = 0; d <= n; ++d) A.push_back(bs_ref_span<D + 1>(u, k, H, p, s, d));
  std::vector<P<D>> C(n + 1);
  for (int d = 0; d <= n; ++d)
    for (size_t c = 0; c < D; ++c) {
      double v = A[d][c];
      for (int i = 1; i <= d; ++i) v -= binom(d, i) * A[i][D] * C[d - i][c];
      C[d][c] = v / A[0][D];
    }
  return C;
}
template <size_t D> P<D> rat_ref(double u, const V &k, const PV<D + 1> &H, int p, int d = 0) { return rat_ders_span<D>(u, k, H, p, span_ref(u, k), d)[d]; }

// tensor-product surface, poles ordered u fastest: S = sum N_i(u) M_j(v) P[i + nu*j]
template <size_t D> P<D> srf_ref_span(double u, double v, const V &ku, const V &kv, const PV<D> &P_, int p, int q, size_t su, size_t sv, int du = 0, int dv = 0) {
  size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
  P<D> r{};
  for (size_t j = 0; j < nv; ++j) {
    if (sv < j || sv > j + q) continue;
    double bv = basis_ref(j, q, v, kv, sv, dv);
    P<D> t{};
    for (size_t i = 0; i < nu; ++i) {
      if (su < i || su > i + p) continue;
      double bu = basis_ref(i, p, u, ku, su, du);
      for (size_t c = 0; c < D; ++c) t[c] += bu * P_[i + nu * j][c];
    }
    for (size_t c = 0; c < D; ++c) r[c] += bv * t[c];
  }
  return r;
}
template <size_t D> P<D> srf_ref(double u, double v, const V &ku, const V &kv, const PV<D> &P_, int p, int q, int du = 0, int dv = 0) {
  return srf_ref_span<D>(u, v, ku, kv, P_, p, q, span_ref(u, ku), span_ref(v, kv), du, dv);
}
template <size_t D> P<D> rsrf_ref(double u, double v, const V &ku, const V &kv, const PV<D + 1> &H, int p, int q, int du = 0, int dv = 0) {
  size_t su = span_ref(u, ku), sv = span_ref(v, kv);
  std::vector<std::vector<P<D>>> C(du + 1, std::vector<P<D>>(dv + 1));
  std::vector<std::vector<P<D + 1>>> A(du + 1, std::vector<P<D + 1>>(dv + 1));
  for (int a = 0; a <= du; ++a)
    for (int b = 0; b <= dv; ++b) A[a][b] = srf_ref_span<D + 1>(u, v, ku, kv, H, p, q, su, sv, a, b);
  for (int a = 0; a <= du; ++a)
    for (int b = 0; b <= dv; ++b)
      for (size_t c = 0; c < D; ++c) {
        double x = A[a][b][c];
        for (int i = 0; i <= a; ++i)
          for (int j = 0; j <= b; ++j)
            if (i + j > 0) x -= binom(a, i) * binom(b, j) * A[i][j][D] * C[a - i][b - j][c];
        C[a][b][c] = x / A[0][0][D];
      }
  return C[du][dv];
}
// the interior knot layouts used for degree p: {value, mult}
inline std::vector<std::vector<std::pair<double, int>>> layouts(int p) {
  std::vector<std::vector<std::pair<double, int>>> r;
  r.push_back({});
  r.push_back({{0.5, 1}});
  r.push_back({{0.25, 1}, {0.625, 1}});
  if (p >= 2) r.push_back({{0.375, 2}, {0.75, 1}});
  if (p >= 1) r.push_back({{0.5, p}});
  if (p >= 3) r.push_back({{0.25, p - 1}, {0.5, 1}, {0.75, p}});
  return r;
}
inline std::string lname(const std::vector<std::pair<double, int>> &l) {
  std::string s = "k";
  for (auto &[x, m] : l) s += "_" + std::to_string((int)(x * 1000)) + "x" + std::to_string(m);
  return s;
}
template <size_t D> void eqp(const P<D> &a, const P<D> &b, const std::string &l, double tol = 1e-7) {
  for (size_t i = 0; i < D; ++i) sym::eq(a[i], b[i], l + "." + "xyzw"[i], tol);
}
