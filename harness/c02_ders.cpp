// C02: curve derivatives are the true derivatives.
#include "common.h"
#include <gbs/bscurve.h>
using namespace gbs;

template <size_t D> static void nonrational(int p, V k, int nd) {
  auto poles = symPoles<D>("P", k.size() - p - 1);
  BSCurve<double, D> c(poles, k, p);
  double u = sym::real("u", k.front(), k.back());
  size_t s = span_ref(u, k);
  std::vector<P<D>> CK(nd + 1);
  c.derivatives(u, nd, CK.data());
  for (int d = 0; d <= nd; ++d) {
    auto r = bs_ref_span<D>(u, k, poles, p, s, d);
    eqp<D>(c.value(u, d), r, "value.d" + S_(d));
    eqp<D>(CK[d], r, "ders.d" + S_(d));
  }
  if (!sym::native) { // independent of the reference recursion: differentiate the evaluated polynomial
    auto v = c.value(u);
    for (int d = 1; d <= std::min(nd, 3); ++d) {
      auto dv = c.value(u, d);
      for (size_t i = 0; i < D; ++i) {
        v[i] = __sym_deriv(v[i], sym::real("u", k.front(), k.back()));
        if (u < k.back()) sym::eq(dv[i], v[i], "symderiv.d" + S_(d));
      }
    }
  }
}
template <size_t D> static void rational(int p, V k, int nd, bool symw) {
  size_t n = k.size() - p - 1;
  auto x = symPoles<D>("P", n);
  V w = concWeights(n);
  if (symw)
    for (size_t i = 0; i < n; ++i) w[i] = sym::real("w" + S_(i), 0.5, 2.);
  BSCurveRational<double, D> c(x, k, w, p);
  double u = sym::real("u", k.front(), k.back());
  auto H = homog<D>(x, w);
  auto ref = rat_ders_span<D>(u, k, H, p, span_ref(u, k), nd);
  std::vector<P<D>> CK(nd + 1);
  c.derivatives(u, nd, CK.data());
  for (int d = 0; d <= nd; ++d) {
    eqp<D>(c.value(u, d), ref[d], "rvalue.d" + S_(d), 1e-6);
    eqp<D>(CK[d], ref[d], "rders.d" + S_(d), 1e-6);
  }
}
void sym_register() {
  for (int p = 1; p <= 5; ++p)
    for (auto &l : layouts(p)) {
      std::string nm = "p" + S_(p) + "." + lname(l);
      sym::add("poly." + nm, [=] { nonrational<2>(p, clamped(p, l), p + 2); }, p > 4 ? 1 : 0);
      if (p <= 3) sym::add("rat." + nm, [=] { rational<1>(p, clamped(p, l), 3, false); }, p > 2 ? 1 : 0);
    }
  sym::add("rat.p3.q", [=] { rational<1>(3, clamped(3, {{0.5, 1}}), 2, false); });
  sym::add("rat.p2.2d.n4", [=] { rational<2>(2, clamped(2, {}), 4, false); });
  sym::add("rat.symw.p1", [=] { rational<1>(1, clamped(1, {{0.5, 1}}), 3, true); });
  sym::add("rat.symw.p2", [=] { rational<1>(2, clamped(2, {}), 2, true); });
  sym::add("rat.symw.p2.n3", [=] { rational<1>(2, clamped(2, {{0.5, 1}}), 3, true); }, 1);
  sym::add("poly.3d.range", [] { nonrational<3>(3, clamped(3, {{-0.5, 1}, {1.5, 3}}, -2., 4.), 5); });
  // symbolic knots
  for (int p = 1; p <= 3; ++p)
    sym::add("symknots.p" + S_(p), [=] {
      double a = sym::real("a", 0.1, 0.4), b = sym::real("b", 0.5, 0.9);
      V k = clamped(p, {{a, 1}, {b, 1}});
      auto poles = symPoles<1>("P", k.size() - p - 1);
      BSCurve<double, 1> c(poles, k, p);
      double u = sym::real("u", 0, 1);
      size_t s = span_ref(u, k);
      for (int d = 1; d <= p; ++d) sym::eq(c.value(u, d)[0], bs_ref_span<1>(u, k, poles, p, s, d)[0], "value.d" + S_(d), 1e-6);
    });
  // end derivatives
  for (int p = 1; p <= 4; ++p)
    sym::add("ends.p" + S_(p), [=] {
      V k = clamped(p, {{0.5, 1}});
      size_t n = k.size() - p - 1;
      auto poles = symPoles<2>("P", n);
      BSCurve<double, 2> c(poles, k, p);
      for (int i = 0; i < 2; ++i) {
        sym::eq(c.begin(1)[i], p * (poles[1][i] - poles[0][i]) / (k[p + 1] - k[1]), "begin1");
        sym::eq(c.end(1)[i], p * (poles[n - 1][i] - poles[n - 2][i]) / (k[n + p - 1] - k[n - 1]), "end1");
      }
    });
  // basis function derivatives
  for (int p = 1; p <= 4; ++p)
    for (auto &l : layouts(p))
      sym::add("basis." + S_(p) + "." + lname(l), [=] {
        V k = clamped(p, l);
        size_t n = k.size() - p - 1;
        double u = sym::real("u", 0, 1);
        size_t s = span_ref(u, k);
        for (int d = 1; d <= p + 1; ++d)
          for (size_t i = 0; i < n; ++i) sym::eq(basis_function(u, i, p, d, k), basis_ref(i, p, u, k, s, d), "N" + S_(i) + ".d" + S_(d));
      }, p > 3 ? 1 : 0);
  // arc-length derivatives
  sym::add("darc", [] {
    V k = clamped(2, {});
    auto poles = symPoles<2>("P", 3);
    BSCurve<double, 2> c(poles, k, 2);
    double u = sym::real("u", 0, 1);
    auto d1 = bs_ref<2>(u, k, poles, 2, 1), d2 = bs_ref<2>(u, k, poles, 2, 2);
    double n2 = d1[0] * d1[0] + d1[1] * d1[1];
    sym::assume_lt(0.01, n2);
    auto t = c.d_dm(u);
    double n = std::sqrt(n2);
    sym::eq(t[0] * n, d1[0], "dm.x");
    sym::eq(t[1] * n, d1[1], "dm.y");
    auto q = c.d_dm2(u);
    double s = d1[0] * d2[0] + d1[1] * d2[1];
    for (int i = 0; i < 2; ++i) sym::eq(q[i], d2[i] / n2 - d1[i] * s / (n2 * n2), "dm2", 1e-6);
    V us{0., u, 1.};
    sym::assume_lt(0.01, std::pow(poles[1][0] - poles[0][0], 2));
    sym::assume_lt(0.01, std::pow(poles[1][0] - poles[2][0], 2));
    auto ts = c.d_dms(us);
    auto qs = c.d_dm2s(us);
    sym::check(ts.size() == 3 && qs.size() == 3, "bulk.size");
    for (int i = 0; i < 2; ++i) sym::eq(ts[1][i], t[i], "dms"), sym::eq(qs[1][i], q[i], "dm2s");
  });
  for (int p : {6, 9, 24})
    sym::add("high.p" + S_(p), [=] {
      V k = clamped(p, {});
      auto poles = concPoles<1>(p + 1);
      for (int i : {0, 1, p / 2, p}) poles[i][0] = sym::real("P" + S_(i), -10, 10);
      BSCurve<double, 1> c(poles, k, p);
      double u = sym::real("u", 0, 1);
      for (int d = 1; d <= 3; ++d) {
        // derivative of a Bezier curve through differences of poles
        PV<1> q = poles;
        double f = 1;
        for (int e = 0; e < d; ++e) {
          PV<1> r(q.size() - 1);
          for (size_t i = 0; i + 1 < q.size(); ++i) r[i][0] = q[i + 1][0] - q[i][0];
          f *= (p - e);
          q = r;
        }
        int m = p - d;
        double r = 0;
        for (int i = 0; i <= m; ++i) {
          double b = binom(m, i) * f;
          for (int j = 0; j < i; ++j) b *= u;
          for (int j = i; j < m; ++j) b *= (1. - u);
          r += b * q[i][0];
        }
        sym::eq(c.value(u, d)[0], r, "bernstein.d" + S_(d), 1e-4);
      }
    }, p == 24 ? 1 : 0);
}
