// C17: transfinite interpolation meshes, smoothing, mesh edges.
#include "mock/nlopt.hpp"
#include "common.h"
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
#include <gbs/curveonsurface.h>
#include <gbs-mesh/tfi.h>
#include <gbs-mesh/smoothing.h>
#include <gbs-mesh/mshedge.h>
using namespace gbs;
using Crv = std::shared_ptr<Curve<double, 2>>;
static std::string kname(const V &k) {
  std::string s;
  for (double x : k) s += "_" + std::to_string((int)(x * 1000));
  return s;
}
static double fder(const BSCfunction<double> &f, double u, size_t d) {
  return bs_ref<1>(u, f.basisCurve().knotsFlats(), f.basisCurve().poles(), (int)f.basisCurve().degree(), (int)d)[0];
}
// ------------------------------------------------ blending functions
template <class F> static void blend_check(const F &a, const V &k, size_t P_, size_t nder) {
  sym::check(a.size() == k.size(), "one per line");
  for (size_t i = 0; i < k.size(); ++i)
    for (size_t n = 0; n < P_; ++n)
      for (size_t j = 0; j < k.size(); ++j)
        for (size_t m = 0; m < nder; ++m) sym::eq(fder(a[i][n], k[j], m), i == j && n == m ? 1. : 0., "delta " + S_(n) + S_(m), 1e-6);
  double u = sym::real("u", k.front(), k.back()), s = 0;
  for (size_t i = 0; i < k.size(); ++i) {
    s += a[i][0](u);
    sym::eq(a[i][0](u), bs_ref<1>(u, a[i][0].basisCurve().knotsFlats(), a[i][0].basisCurve().poles(), (int)a[i][0].basisCurve().degree())[0], "value", 1e-6);
  }
  sym::eq(s, 1, "sum", 1e-6);
}
template <size_t P_> static void blend_cases(const V &k) {
  auto n = kname(k);
  sym::add("blend.ders.P" + S_(P_) + n, [=] { blend_check(build_tfi_blend_function_with_derivatives<double, P_>(k), k, P_, P_ + 1); });
  sym::add("blend.slope0.P" + S_(P_) + n, [=] { blend_check(build_tfi_blend_function_with_derivatives<double, P_, false>(k), k, P_, P_); });
  sym::add("blend.slope1.P" + S_(P_) + n, [=] { blend_check(build_tfi_blend_function_with_derivatives<double, P_, true>(k), k, P_, P_ + 1); });
}
static void blend_plain(V k, bool slope, bool symk) {
  if (symk)
    for (size_t i = 0; i < k.size(); ++i) {
      double x = sym::real("k" + S_(i), -3, 3);
      if (i) sym::assume_le(k[i - 1] + 0.01, x);
      k[i] = x;
    }
  auto a = build_tfi_blend_function<double>(k, slope);
  sym::check(a.size() == k.size(), "one per line");
  for (size_t i = 0; i < k.size(); ++i)
    for (size_t j = 0; j < k.size(); ++j) {
      sym::eq(fder(a[i], k[j], 0), i == j ? 1. : 0., "delta", 1e-6);
      if (slope) sym::eq(fder(a[i], k[j], 1), 0., "flat", 1e-6);
    }
  double u = sym::real("u", -3, 3), s = 0;
  sym::assume_le(k.front(), u), sym::assume_le(u, k.back());
  for (auto &f : a) s += f(u);
  sym::eq(s, 1, "sum", 1e-6);
}
// ------------------------------------------------ core mesh: any data that agrees on the crossings
// hI[i], hJ[j]: mesh indices of the hard lines
template <size_t D, size_t P_, size_t Q_, bool SC> static void core_case(const std::vector<size_t> &hI, const std::vector<size_t> &hJ, const V &ksi_i, const V &eth_j) {
  size_t ni = hI.back() + 1, nj = hJ.back() + 1, L = hI.size(), M = hJ.size();
  std::vector<std::vector<std::array<P<D>, P_>>> Xk(nj, std::vector<std::array<P<D>, P_>>(L));
  std::vector<std::vector<std::array<P<D>, Q_>>> Xe(ni, std::vector<std::array<P<D>, Q_>>(M));
  std::vector<std::vector<std::array<std::array<P<D>, Q_>, P_>>> X(L, std::vector<std::array<std::array<P<D>, Q_>, P_>>(M));
  size_t cnt = 0;
  auto val = [&](const std::string &s) {
    P<D> r;
    for (size_t d = 0; d < D; ++d) r[d] = cnt < 56 ? (++cnt, sym::real(s + "_" + S_(d), -10, 10)) : conc(cnt++, d);
    return r;
  };
  for (size_t i = 0; i < L; ++i)
    for (size_t j = 0; j < M; ++j)
      for (size_t n = 0; n < P_; ++n)
        for (size_t m = 0; m < Q_; ++m) X[i][j][n][m] = val("X" + S_(i) + S_(j) + S_(n) + S_(m));
  // on line i the value (n=0) and its cross derivatives n; crossing data along the other direction m=0
  for (size_t j_ = 0; j_ < nj; ++j_)
    for (size_t i = 0; i < L; ++i)
      for (size_t n = 0; n < P_; ++n) Xk[j_][i][n] = val("K" + S_(j_) + "_" + S_(i) + S_(n));
  for (size_t i_ = 0; i_ < ni; ++i_)
    for (size_t j = 0; j < M; ++j)
      for (size_t m = 0; m < Q_; ++m) Xe[i_][j][m] = val("E" + S_(i_) + "_" + S_(j) + S_(m));
  for (size_t i = 0; i < L; ++i)
    for (size_t j = 0; j < M; ++j) {
      for (size_t n = 0; n < P_; ++n) Xk[hJ[j]][i][n] = X[i][j][n][0];
      for (size_t m = 0; m < Q_; ++m) Xe[hI[i]][j][m] = X[i][j][0][m];
    }
  V hi(hI.begin(), hI.end()), hj(hJ.begin(), hJ.end());
  auto ksi = interpolate(ksi_i, hi, 1), eth = interpolate(eth_j, hj, 1);
  auto pts = tfi_mesh_2d<double, D, P_, Q_, SC>(Xk, Xe, X, ksi_i, eth_j, BSCfunction<double>(ksi), BSCfunction<double>(eth));
  sym::check(pts.size() == ni * nj, "size");
  for (size_t i = 0; i < L; ++i)
    for (size_t j_ = 0; j_ < nj; ++j_) eqp<D>(pts[j_ + nj * hI[i]], Xk[j_][i][0], "line ksi" + S_(i), 1e-6);
  for (size_t j = 0; j < M; ++j)
    for (size_t i_ = 0; i_ < ni; ++i_) eqp<D>(pts[hJ[j] + nj * i_], Xe[i_][j][0], "line eth" + S_(j), 1e-6);
}
// ------------------------------------------------ bilinear blending of four boundaries: the closed form of Coons
template <size_t D> static void coons_case(size_t ni, size_t nj) {
  std::vector<std::vector<std::array<P<D>, 1>>> Xk(nj, std::vector<std::array<P<D>, 1>>(2)), Xe(ni, std::vector<std::array<P<D>, 1>>(2));
  std::vector<std::vector<std::array<std::array<P<D>, 1>, 1>>> X(2, std::vector<std::array<std::array<P<D>, 1>, 1>>(2));
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < nj; ++j)
      for (size_t d = 0; d < D; ++d) Xk[j][i][0][d] = sym::real("K" + S_(j) + S_(i) + S_(d), -10, 10);
  for (size_t j = 0; j < 2; ++j)
    for (size_t i = 0; i < ni; ++i)
      for (size_t d = 0; d < D; ++d) Xe[i][j][0][d] = i == 0 ? Xk[j ? nj - 1 : 0][0][0][d] : i == ni - 1 ? Xk[j ? nj - 1 : 0][1][0][d] : sym::real("E" + S_(i) + S_(j) + S_(d), -10, 10);
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 2; ++j) X[i][j][0][0] = Xk[j ? nj - 1 : 0][i][0];
  V k{0, 1};
  auto ksi = interpolate(k, V{0, double(ni - 1)}, 1), eth = interpolate(k, V{0, double(nj - 1)}, 1);
  auto pts = tfi_mesh_2d<double, D, 1, 1, false>(Xk, Xe, X, k, k, BSCfunction<double>(ksi), BSCfunction<double>(eth));
  for (size_t i = 0; i < ni; ++i)
    for (size_t j = 0; j < nj; ++j)
      for (size_t d = 0; d < D; ++d) {
        double a = double(i) / (ni - 1), b = double(j) / (nj - 1);
        double w = (1 - a) * Xk[j][0][0][d] + a * Xk[j][1][0][d] + (1 - b) * Xe[i][0][0][d] + b * Xe[i][1][0][d];
        w -= (1 - a) * ((1 - b) * X[0][0][0][0][d] + b * X[0][1][0][0][d]) + a * ((1 - b) * X[1][0][0][0][d] + b * X[1][1][0][0][d]);
        sym::eq(pts[j + nj * i][d], w, "coons", 1e-6);
      }
}
// ------------------------------------------------ points of a set of curves
static PV<2> moved(PV<2> x, const std::string &n, double &a, double &b) {
  a = sym::real(n + "x", -10, 10), b = sym::real(n + "y", -10, 10);
  for (auto &p : x) p[0] += a, p[1] += b;
  return x;
}
static const std::vector<std::pair<int, PV<2>>> shapes{{1, {{0, 0}, {3, 1}}}, {2, {{0, 0}, {1, 2}, {4, 1}}}, {3, {{0, 1}, {1, 3}, {3, -1}, {4, 2}}}};
static void set_case(int s0, int n_, const V &u, const std::vector<size_t> &nui, bool lists, double o = 0) { // curves over [o,o+1]
  std::vector<Crv> cs;
  std::vector<std::pair<double, double>> off;
  std::vector<PV<2>> xs;
  for (int c = 0; c < n_; ++c) {
    double a, b;
    xs.push_back(moved(shapes[(s0 + c) % 3].second, "c" + S_(c), a, b));
    off.push_back({a, b});
    cs.push_back(std::make_shared<BSCurve<double, 2>>(xs.back(), clamped(shapes[(s0 + c) % 3].first, {}, o, o + 1), (size_t)shapes[(s0 + c) % 3].first));
  }
  std::vector<V> us(n_, u);
  if (lists)
    for (int c = 1; c < n_; ++c)
      for (size_t i = 1; i + 1 < u.size(); ++i) us[c][i] = o + (u[i] - o) * (1 - 0.1 * c);
  auto X = lists ? msh_curves_set<double, 2, 2>(cs, nui, us) : msh_curves_set<double, 2, 2>(cs, nui, u);
  size_t tot = 1;
  std::vector<size_t> h{0};
  for (auto n : nui) tot += n - 1, h.push_back(tot - 1);
  sym::check(X.size() == tot, "count");
  if (X.size() != tot) return;
  for (int c = 0; c < n_; ++c) {
    int p = shapes[(s0 + c) % 3].first;
    V k = clamped(p, {}, o, o + 1);
    sym::check(true, "");
    for (size_t i = 0; i < u.size(); ++i) {
      eqp<2>(X[h[i]][c][0], bs_ref<2>(us[c][i], k, xs[c], p), "hard point", 1e-6);
      eqp<2>(X[h[i]][c][1], bs_ref<2>(us[c][i], k, xs[c], p, 1), "hard derivative", 1e-6);
    }
    // between hard points: equal arc steps (a straight line shows it exactly)
    if (p == 1)
      for (size_t i = 0; i + 1 < u.size(); ++i)
        for (size_t j = h[i]; j <= h[i + 1]; ++j) {
          double r = double(j - h[i]) / double(h[i + 1] - h[i]), t = us[c][i] + r * (us[c][i + 1] - us[c][i]);
          eqp<2>(X[j][c][0], bs_ref<2>(t, k, xs[c], p), "even", 1e-5);
        }
  }
}
static void sizes_case(int n_, const V &u, double o = 0) {
  // horizontal segments of symbolic length: the section size follows from the mean length
  std::vector<Crv> cs;
  double m = 0;
  for (int c = 0; c < n_; ++c) {
    double a = sym::real("l" + S_(c), 1, 4);
    m += a / n_;
    cs.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{0, double(c)}, {a, double(c)}}, clamped(1, {}, o, o + 1), 1ul));
  }
  double dm = 1.;
  auto r = msh_curves_set_sizes<double, 2>(cs, u, dm);
  std::vector<V> us(n_, u);
  auto r2 = msh_curves_set_sizes<double, 2>(cs, us, dm);
  sym::check(r.size() + 1 == u.size() && r2.size() + 1 == u.size(), "count");
  for (size_t i = 0; i + 1 < u.size() && i < r.size(); ++i) {
    double x = m * (u[i + 1] - u[i]) / dm;
    sym::le(x - 0.5, double(r[i]) - 1, "size lo", 1e-5), sym::le(double(r[i]) - 1, x + 0.5, "size hi", 1e-5);
    sym::le(x - 0.5, double(r2[i]) - 1, "size lo2", 1e-5), sym::le(double(r2[i]) - 1, x + 0.5, "size hi2", 1e-5);
  }
}
static void set_reject() {
  std::vector<Crv> cs;
  cs.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{0, 0}, {1, 0}}, clamped(1, {}), 1ul));
  double b = sym::real("b", 0.5, 2);
  cs.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{0, 1}, {1, 1}}, V{0, 0, b, b}, 1ul));
  std::vector<size_t> n{4};
  V u{0, 0.5};
  int t = 0;
  try { msh_curves_set<double, 2, 1>(cs, n, u); } catch (const std::invalid_argument &) { t = 1; }
  if (t) sym::check(!(b == 1.), "rejects only other bounds");
  else sym::le(std::fabs(b - 1.), 1e-5, "accepts only equal bounds");
  std::vector<Crv> one{cs[0]};
  sym::throws_as<std::out_of_range>([&] { msh_curves_set<double, 2, 1>(one, std::vector<size_t>{4, 4}, u); }, "sizes");
  sym::throws_as<std::out_of_range>([&] { msh_curves_set<double, 2, 1>(one, std::vector<size_t>{4, 4}, std::vector<V>{u}); }, "sizes lists");
  sym::throws_as<std::invalid_argument>([&] { msh_curves_set<double, 2, 1>(one, n, std::vector<V>{}); }, "no parameters");
  sym::throws_as<std::invalid_argument>([&] { msh_curves_set<double, 2, 1>(cs, n, std::vector<V>{u, V{0, 0.5, 1}}); }, "ragged parameters");
  sym::throws_as<std::invalid_argument>([&] { msh_curves_set_sizes<double, 2>(std::vector<Crv>{}, std::vector<V>{}, 1.); }, "no curves");
  sym::throws_as<std::invalid_argument>([&] { msh_curves_set_sizes<double, 2>(cs, std::vector<V>{u}, 1.); }, "list count");
  sym::throws_as<std::invalid_argument>([&] { msh_curves_set_sizes<double, 2>(cs, std::vector<V>{u, V{0, 0.5, 1}}, 1.); }, "ragged sizes");
}
// ------------------------------------------------ full pipeline on a network / a surface
static void pipe_curves(int lists, size_t n1, size_t n2, const V &ks, const V &es, double o = 0, double q = 0) { // ksi in [o,o+1], eth in [q,q+1]
  // iso lines of a bilinear patch, moved rigidly
  double a = sym::real("tx", -10, 10), b = sym::real("ty", -10, 10);
  PV<2> c{{0 + a, 0 + b}, {4 + a, 1 + b}, {1 + a, 3 + b}, {6 + a, 5 + b}}; // (u0v0, u1v0, u0v1, u1v1)
  auto S = [&](double u, double v) {
    P<2> r;
    u -= o, v -= q;
    for (size_t d = 0; d < 2; ++d) r[d] = (1 - u) * (1 - v) * c[0][d] + u * (1 - v) * c[1][d] + (1 - u) * v * c[2][d] + u * v * c[3][d];
    return r;
  };
  std::vector<Crv> ik, ie;
  for (double u : ks) ik.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{S(u, q), S(u, q + 1)}, V{q, q, q + 1, q + 1}, 1ul));
  for (double v : es) ie.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{S(o, v), S(o + 1, v)}, V{o, o, o + 1, o + 1}, 1ul));
  sym::check(check_curve_lattice<double, 2>(ik, ie, ks, es, 1e-6), "lattice");
  points_vector<double, 2> pts;
  size_t nj, ni;
  std::vector<size_t> nk, ne;
  if (lists == 2) { // crossings computed by the library (NLopt answers with the best of the crossings)
    nlopt::reset();
    for (double u : ks)
      for (double v : es) nlopt::tr().cand.push_back({u, v});
    auto [ki, ej] = lattice_intersections<double, 2>(ik, ie, 1e-4);
    sym::check(ki.size() == es.size() && ej.size() == ks.size(), "crossing lists");
    for (auto &k : ki) sym::eqv(k, ks, "crossings along eth lines", 1e-9);
    for (auto &e : ej) sym::eqv(e, es, "crossings along ksi lines", 1e-9);
    auto [p_, a_, b_, c_, d_] = tfi_mesh_2d<double, 2, 1, 1, false>(ik, ie, n1, n2, 1e-4);
    pts = p_, nj = a_, ni = b_, nk = c_, ne = d_;
  } else if (lists) {
    std::vector<V> kk(es.size(), ks), ee(ks.size(), es);
    auto [p_, a_, b_, c_, d_] = tfi_mesh_2d<double, 2, 1, 1, false>(ik, ie, kk, ee, n1, n2);
    pts = p_, nj = a_, ni = b_, nk = c_, ne = d_;
  } else {
    auto [p_, a_, b_, c_, d_] = tfi_mesh_2d<double, 2, 1, 1, false>(ik, ie, ks, es, n1, n2);
    pts = p_, nj = a_, ni = b_, nk = c_, ne = d_;
  }
  sym::check(pts.size() == ni * nj, "size");
  size_t I = 0;
  for (size_t i = 0; i < ks.size(); ++i) {
    size_t J = 0;
    for (size_t j = 0; j < es.size(); ++j) {
      eqp<2>(pts[J + nj * I], S(ks[i], es[j]), "crossing", 1e-6);
      if (j < nk.size()) J += nk[j] - 1;
    }
    sym::check(J == nj - 1, "lines");
    if (i < ne.size()) I += ne[i] - 1;
  }
  sym::check(I == ni - 1, "columns");
  // straight lines are divided evenly in a straight patch: every mesh point on an iso line of the family
  I = 0;
  for (size_t i = 0; i < ks.size(); ++i) {
    size_t J = 0;
    for (size_t j = 0; j + 1 < es.size(); ++j) {
      for (size_t k = 0; k < nk[j]; ++k) eqp<2>(pts[J + k + nj * I], S(ks[i], es[j] + (es[j + 1] - es[j]) * double(k) / double(nk[j] - 1)), "on line ksi", 1e-5);
      J += nk[j] - 1;
    }
    if (i < ne.size()) I += ne[i] - 1;
  }
  size_t J = 0;
  for (size_t j = 0; j < es.size(); ++j) {
    I = 0;
    for (size_t i = 0; i + 1 < ks.size(); ++i) {
      for (size_t k = 0; k < ne[i]; ++k) eqp<2>(pts[J + nj * (I + k)], S(ks[i] + (ks[i + 1] - ks[i]) * double(k) / double(ne[i] - 1), es[j]), "on line eth", 1e-5);
      I += ne[i] - 1;
    }
    if (j < nk.size()) J += nk[j] - 1;
  }
}
template <size_t P_, size_t Q_, bool SC> static void pipe_surf(size_t n1, size_t n2, const V &ks, const V &es, double o = 0, double q = 0) {
  double a = sym::real("tx", -10, 10), b = sym::real("ty", -10, 10);
  PV<2> x{{0, 0}, {2.5, 1}, {5.5, 2}, {1, 2}, {3, 2.5}, {6, 3.5}, {0.5, 3.5}, {3, 4}, {5.5, 5}};
  for (auto &p : x) p[0] += a, p[1] += b;
  V k = clamped(2, {}, o, o + 1), l = clamped(2, {}, q, q + 1);
  auto s = std::make_shared<BSSurface<double, 2>>(x, k, l, 2ul, 2ul);
  auto [pts, nj, ni, nk, ne] = tfi_mesh_2d<double, 2, P_, Q_, SC>(std::static_pointer_cast<Surface<double, 2>>(s), ks, es, n1, n2);
  sym::check(pts.size() == ni * nj, "size");
  size_t I = 0;
  for (size_t i = 0; i < ks.size(); ++i) {
    size_t J = 0;
    for (size_t j = 0; j < es.size(); ++j) {
      eqp<2>(pts[J + nj * I], srf_ref<2>(ks[i], es[j], k, l, x, 2, 2), "crossing", 1e-6);
      if (j < nk.size()) J += nk[j] - 1;
    }
    sym::check(J == nj - 1, "lines");
    if (i < ne.size()) I += ne[i] - 1;
  }
  sym::check(I == ni - 1, "columns");
  // the hard lines carry the points of the iso curves of the surface, whatever derivatives are blended
  std::vector<Crv> ik, ie;
  for (double e : es) ie.push_back(std::make_shared<CurveOnSurface<double, 2>>(std::make_shared<BSCurve<double, 2>>(PV<2>{{ks.front(), e}, {ks.back(), e}}, V{ks.front(), ks.front(), ks.back(), ks.back()}, 1ul), s));
  for (double x : ks) ik.push_back(std::make_shared<CurveOnSurface<double, 2>>(std::make_shared<BSCurve<double, 2>>(PV<2>{{x, es.front()}, {x, es.back()}}, V{es.front(), es.front(), es.back(), es.back()}, 1ul), s));
  auto Lk = msh_curves_set<double, 2, 1>(ik, nk, es), Le = msh_curves_set<double, 2, 1>(ie, ne, ks);
  sym::check(Lk.size() == nj && Le.size() == ni, "line sizes");
  if (Lk.size() != nj || Le.size() != ni) return;
  I = 0;
  for (size_t i = 0; i < ks.size(); ++i) {
    for (size_t J = 0; J < nj; ++J) eqp<2>(pts[J + nj * I], Lk[J][i][0], "line ksi", 1e-6);
    if (i < ne.size()) I += ne[i] - 1;
  }
  size_t J = 0;
  for (size_t j = 0; j < es.size(); ++j) {
    for (I = 0; I < ni; ++I) eqp<2>(pts[J + nj * I], Le[I][j][0], "line eth", 1e-6);
    if (j < nk.size()) J += nk[j] - 1;
  }
}
// curves that do not meet are no lattice
static void lattice_apart() {
  nlopt::reset();
  std::vector<Crv> ik, ie;
  double g = sym::real("g", 0, 1);
  ik.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{0, 0}, {0, 1}}, V{0, 0, 1, 1}, 1ul));
  ie.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{g, 0.5}, {2, 0.5}}, V{0, 0, 1, 1}, 1ul));
  nlopt::tr().cand.push_back({0, 0.5});
  int t = 0;
  try { lattice_intersections<double, 2>(ik, ie, 0.25); } catch (const std::invalid_argument &) { t = 1; }
  if (t) sym::le(0.25, g, "refused only when apart", 1e-6);
  else sym::le(g, 0.25, "accepted only in contact", 1e-6);
}
static void lattice_case() {
  V ks{0, 1}, es{0, 0.5, 1};
  std::vector<Crv> ik, ie;
  double w = sym::real("w", -2, 2);
  for (double u : ks) ik.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{u, 0}, {u, 1}}, V{0, 0, 1, 1}, 1ul));
  for (size_t i = 0; i < 3; ++i) ie.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{0, es[i]}, {1, es[i] + (i == 1 ? w : 0)}}, V{0, 0, 1, 1}, 1ul));
  bool r = check_curve_lattice<double, 2>(ik, ie, ks, es, 0.5);
  if (r) sym::le(std::fabs(w), 0.5, "accepted in tolerance");
  else sym::le(0.5, std::fabs(w), "refused out of tolerance");
}
// ------------------------------------------------ smoothing
static void smooth_frame(size_t ni, size_t nj, size_t i1, size_t i2, size_t j1, size_t j2, size_t nit) {
  // only the points strictly inside the window move; one step solves the elliptic equation there
  PV<2> x(ni * nj);
  size_t cnt = 0;
  for (size_t i = 0; i < ni; ++i)
    for (size_t j = 0; j < nj; ++j) x[j + nj * i] = {double(i) + 0.1 * conc(i, j), double(j) + 0.07 * conc(j, i)};
  // neighbours of the window centre are symbolic
  for (size_t i = i1; i <= i2; ++i)
    for (size_t j = j1; j <= j2; ++j)
      if (cnt < 5 && (i != i1 || j != j1)) {
        x[j + nj * i][0] = sym::real("x" + S_(i) + S_(j), double(i) - 0.25, double(i) + 0.25), ++cnt;
        if (cnt < 4) x[j + nj * i][1] = sym::real("y" + S_(i) + S_(j), double(j) - 0.25, double(j) + 0.25);
      }
  auto y = x;
  auto [it, err] = elliptic_structured_smoothing<double>(y, nj, i1, i2, j1, j2, nit);
  sym::check(it >= 1 && it <= nit, "iterations");
  sym::check(y.size() == x.size(), "size");
  for (size_t i = 0; i < ni; ++i)
    for (size_t j = 0; j < nj; ++j)
      if (i <= i1 || i >= i2 || j <= j1 || j >= j2) eqp<2>(y[j + nj * i], x[j + nj * i], "frame fixed");
  if (nit > 1) return;
  double dk = 1. / (ni - 1), de = 1. / (nj - 1);
  for (size_t i = i1 + 1; i < i2; ++i)
    for (size_t j = j1 + 1; j < j2; ++j) {
      auto X = [&](size_t a, size_t b, size_t d) { return x[b + nj * a][d]; };
      double xk = (X(i + 1, j, 0) - X(i - 1, j, 0)) / (2 * dk), yk = (X(i + 1, j, 1) - X(i - 1, j, 1)) / (2 * dk);
      double xe = (X(i, j + 1, 0) - X(i, j - 1, 0)) / (2 * de), ye = (X(i, j + 1, 1) - X(i, j - 1, 1)) / (2 * de);
      double A = xe * xe + ye * ye, B = xk * xe + yk * ye, C = xk * xk + yk * yk;
      for (size_t d = 0; d < 2; ++d) {
        double kk = (X(i + 1, j, d) - 2 * y[j + nj * i][d] + X(i - 1, j, d)) / (dk * dk), ee = (X(i, j + 1, d) - 2 * y[j + nj * i][d] + X(i, j - 1, d)) / (de * de);
        double ke = (X(i + 1, j + 1, d) - X(i + 1, j - 1, d) - X(i - 1, j + 1, d) + X(i - 1, j - 1, d)) / (4 * dk * de);
        sym::eq(A * kk - 2 * B * ke + C * ee, 0, "elliptic", 1e-2);
      }
    }
}
static void smooth_affine(size_t ni, size_t nj) {
  double c[6];
  PV<2> x(ni * nj);
  for (int i = 0; i < 6; ++i) c[i] = sym::real("c" + S_(i), i == 0 || i == 4 ? 1 : -0.4, i == 0 || i == 4 ? 2 : 0.4);
  for (size_t i = 0; i < ni; ++i)
    for (size_t j = 0; j < nj; ++j) x[j + nj * i] = {c[0] * i + c[1] * j + c[2], c[3] * i + c[4] * j + c[5]};
  auto y = x;
  auto [it, err] = elliptic_structured_smoothing<double>(y, nj, 0, ni - 1, 0, nj - 1, 1);
  for (size_t k = 0; k < x.size(); ++k) eqp<2>(y[k], x[k], "affine grid is a fixed point", 1e-6);
}
// ------------------------------------------------ mesh edge
static void edge_case(size_t n, int law, double o = 0) {
  double tx = sym::real("tx", -10, 10), ty = sym::real("ty", -10, 10);
  std::shared_ptr<Curve<double, 2>> c = std::make_shared<BSCurve<double, 2>>(PV<2>{{tx, ty}, {tx + 3, ty + 4}}, V{o, o, o + 1, o + 1}, 1ul); // length 5
  msh_edge<double, 2> e(c);
  e.set_n_points(n);
  double h1 = law ? sym::real("h1", 0.0625, 0.125) : 0.1, h2 = law ? sym::real("h2", 0.125, 0.25) : 0.2;
  if (law == 1) e.update_law(h1, h2);
  if (law == 2) e.update_law(h1, h2, 0.2, 0.1);
  e.compute_pnts();
  auto &p = e.points();
  sym::check(p.size() == n, "count");
  eqp<2>(p.front(), {tx, ty}, "first"), eqp<2>(p.back(), {tx + 3, ty + 4}, "last");
  for (size_t i = 0; i < n; ++i) {
    sym::eq((p[i][0] - tx) * 4, (p[i][1] - ty) * 3, "on curve", 1e-6);
    if (law == 0) sym::eq(p[i][0] - tx, 3. * i / (n - 1), "even", 1e-6);
  }
  if (law) {
    sym::eq(p[1][0] - tx, 3 * h1 / 5, "first step", 1e-6);
    sym::eq(tx + 3 - p[n - 2][0], 3 * h2 / 5, "last step", 1e-6);
  }
  if (law == 2 && n > 5) { // growth ratios of the second steps
    sym::eq(p[2][0] - p[1][0], 0.2 * 3 * h1 / 5, "second step", 1e-6);
    sym::eq(p[n - 2][0] - p[n - 3][0], 0.1 * 3 * h2 / 5, "last but one step", 1e-6);
  }
}
static void edge_bounds(size_t n, double o = 0) {
  double tx = sym::real("tx", -10, 10);
  std::shared_ptr<Curve<double, 2>> c = std::make_shared<BSCurve<double, 2>>(PV<2>{{tx, 0}, {tx + 3, 4}}, V{o, o, o + 1, o + 1}, 1ul);
  msh_edge<double, 2> e(c, {o + 0.2, o + 0.8});
  e.set_n_points(n);
  e.compute_pnts();
  auto &p = e.points();
  for (size_t i = 0; i < n; ++i) sym::eq(p[i][0] - tx, 0.6 + 1.8 * i / (n - 1), "even on range", 1e-6);
}
void sym_register() {
  for (auto k : std::vector<V>{{0, 1}, {0, 0.3, 1}, {-1, 0.5, 0.75, 2}, {0, 0.1, 0.4, 0.6, 1}}) {
    blend_cases<1>(k), blend_cases<2>(k);
    if (k.size() < 4) blend_cases<3>(k);
    for (bool s : {false, true}) sym::add(std::string("blend.plain") + (s ? ".slope" : "") + kname(k), [=] { blend_plain(k, s, false); });
  }
  sym::add("blend.plain.sym2", [] { blend_plain({0, 1}, false, true); });
  sym::add("blend.plain.slope.sym2", [] { blend_plain({0, 1}, true, true); });
  sym::add("core.1d.2x2", [] { core_case<1, 1, 1, false>({0, 4}, {0, 3}, {0, 1}, {0, 1}); });
  sym::add("core.2d.2x2", [] { core_case<2, 1, 1, false>({0, 3}, {0, 4}, {0, 1}, {0, 1}); });
  sym::add("core.3d.2x2.slope", [] { core_case<3, 1, 1, true>({0, 2}, {0, 3}, {0, 1}, {-1, 1}); });
  sym::add("core.1d.3x2", [] { core_case<1, 1, 1, false>({0, 2, 5}, {0, 3}, {0, 0.3, 1}, {0, 1}); });
  sym::add("core.1d.3x4.slope", [] { core_case<1, 1, 1, true>({0, 2, 5}, {0, 1, 3, 4}, {0, 0.3, 1}, {0, 0.25, 0.5, 2}); });
  sym::add("core.1d.P2Q1", [] { core_case<1, 2, 1, false>({0, 2, 4}, {0, 2, 5}, {0, 0.4, 1}, {0, 0.5, 1}); });
  sym::add("core.1d.P1Q2", [] { core_case<1, 1, 2, false>({0, 2, 4}, {0, 2, 5}, {0, 0.4, 1}, {0, 0.5, 1}); });
  sym::add("core.1d.P2Q2", [] { core_case<1, 2, 2, false>({0, 3}, {0, 2, 4}, {0, 1}, {0, 0.5, 1}); });
  sym::add("core.1d.P2Q2.slope", [] { core_case<1, 2, 2, true>({0, 2, 4}, {0, 3}, {0, 0.4, 1}, {0, 2}); });
  sym::add("core.1d.P3Q1", [] { core_case<1, 3, 1, false>({0, 3}, {0, 4}, {0, 1}, {0, 1}); });
  sym::add("coons.2d", [] { coons_case<2>(4, 5); });
  sym::add("coons.3d", [] { coons_case<3>(5, 3); });
  for (int s = 0; s < 3; ++s)
    for (int n : {1, 2, 3})
      for (bool l : {false, true}) {
        sym::add("set." + S_(s) + "." + S_(n) + (l ? ".lists" : ""), [=] { set_case(s, n, {0, 1}, {5}, l); });
        sym::add("set3." + S_(s) + "." + S_(n) + (l ? ".lists" : ""), [=] { set_case(s, n, {0, 0.4, 1}, {4, 3}, l); });
        sym::add("set4." + S_(s) + "." + S_(n) + (l ? ".lists" : ""), [=] { set_case(s, n, {0, 0.2, 0.6, 0.9}, {2, 5, 3}, l); });
      }
  for (int n : {1, 2}) sym::add("sizes." + S_(n), [=] { sizes_case(n, {0, 0.25, 1}); });
  sym::add("set.reject", set_reject);
  for (bool l : {false, true}) {
    sym::add(std::string("pipe.curves.2x2") + (l ? ".lists" : ""), [=] { pipe_curves(l, 4, 5, {0, 1}, {0, 1}); });
    sym::add(std::string("pipe.curves.2x3") + (l ? ".lists" : ""), [=] { pipe_curves(l, 5, 6, {0, 1}, {0, 0.5, 1}); });
    sym::add(std::string("pipe.curves.3x2") + (l ? ".lists" : ""), [=] { pipe_curves(l, 6, 4, {0, 0.5, 1}, {0, 1}); });
    if (!l) sym::add("pipe.curves.2x2.cross", [] { pipe_curves(2, 4, 5, {0, 1}, {0, 1}); }), sym::add("pipe.curves.2x3.cross", [] { pipe_curves(2, 5, 6, {0, 1}, {0, 0.5, 1}); });
  }
  sym::add("pipe.surf.11", [] { pipe_surf<1, 1, false>(4, 5, {0, 1}, {0, 1}); });
  sym::add("pipe.surf.11s", [] { pipe_surf<1, 1, true>(5, 4, {0, 0.5, 1}, {0, 1}); });
  sym::add("pipe.surf.22", [] { pipe_surf<2, 2, false>(5, 6, {0, 0.3, 1}, {0, 0.6, 1}); });
  sym::add("pipe.surf.21", [] { pipe_surf<2, 1, false>(4, 5, {0, 1}, {0, 0.4, 1}); });
  sym::add("pipe.surf.12", [] { pipe_surf<1, 2, false>(5, 4, {0, 0.6, 1}, {0, 1}); });
  sym::add("pipe.surf.31", [] { pipe_surf<3, 1, false>(4, 4, {0, 1}, {0, 1}); });
  sym::add("lattice", lattice_case);
  sym::add("lattice.apart", lattice_apart);
  sym::add("smooth.3x3", [] { smooth_frame(3, 3, 0, 2, 0, 2, 1); });
  sym::add("smooth.4x3", [] { smooth_frame(4, 3, 0, 3, 0, 2, 1); });
  sym::add("smooth.window", [] { smooth_frame(5, 5, 1, 3, 1, 3, 1); });
  sym::add("smooth.window2", [] { smooth_frame(4, 6, 0, 2, 2, 4, 1); });
  sym::add("smooth.it3", [] { smooth_frame(3, 4, 0, 2, 0, 2, 3); });
  sym::add("smooth.affine.3x3", [] { smooth_affine(3, 3); });
  sym::add("smooth.affine.3x4", [] { smooth_affine(3, 4); });
  for (size_t n : {3, 6, 9})
    for (int l = 0; l < 3; ++l)
      if (l == 0 || n > 4) sym::add("edge." + S_(n) + ".law" + S_(l), [=] { edge_case(n, l); });
  sym::add("edge.bounds", [] { edge_bounds(5); });
  // parameter ranges anywhere
  for (int s = 0; s < 3; ++s)
    for (bool l : {false, true}) sym::add("set3.at." + S_(s) + (l ? ".lists" : ""), [=] { set_case(s, 2, {-2.5, -2.25, -1.5}, {4, 3}, l, -2.5); });
  for (double o : {-2.5, 3.25}) {
    std::string n = o < 0 ? ".neg" : ".pos";
    sym::add("sizes.at" + n, [=] { sizes_case(2, {o, o + 0.25, o + 1}, o); });
    for (bool l : {false, true}) sym::add("pipe.curves.at" + n + (l ? ".lists" : ""), [=] { pipe_curves(l, 5, 6, {o, o + 1}, {1 - o, 1.5 - o, 2 - o}, o, 1 - o); });
    sym::add("pipe.curves.at.cross" + n, [=] { pipe_curves(2, 4, 5, {o, o + 1}, {1 - o, 2 - o}, o, 1 - o); });
    sym::add("pipe.surf.at.11" + n, [=] { pipe_surf<1, 1, true>(5, 4, {o, o + 0.5, o + 1}, {1 - o, 2 - o}, o, 1 - o); });
    sym::add("pipe.surf.at.part" + n, [=] { pipe_surf<1, 1, false>(4, 5, {o + 0.25, o + 0.5, o + 0.875}, {1.125 - o, 1.75 - o}, o, 1 - o); }); // a part of the surface
    sym::add("pipe.surf.at.22" + n, [=] { pipe_surf<2, 2, false>(4, 5, {o, o + 1}, {1 - o, 1.5 - o, 2 - o}, o, 1 - o); });
    for (int l = 0; l < 3; ++l) sym::add("edge.at" + n + ".law" + S_(l), [=] { edge_case(6, l, o); });
    sym::add("edge.bounds.at" + n, [=] { edge_bounds(5, o); });
  }
}
