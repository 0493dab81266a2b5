// C01: curve evaluation equals the B-spline / NURBS definition.
#include "common.h"
#include <gbs/bscurve.h>
using namespace gbs;

template <size_t D> static void nonrational(int p, V k) {
  size_t n = k.size() - p - 1;
  auto poles = symPoles<D>("P", n);
  BSCurve<double, D> c(poles, k, p);
  double a = k.front(), b = k.back();
  double u = sym::real("u", a, b);
  eqp<D>(c.value(u), bs_ref<D>(u, k, poles, p), "value");
  eqp<D>(c(u), bs_ref<D>(u, k, poles, p), "call");
}
template <size_t D> static void rational(int p, V k, bool symw) {
  size_t n = k.size() - p - 1;
  auto x = symPoles<D>("P", n);
  V w = concWeights(n);
  if (symw)
    for (size_t i = 0; i < n; ++i) w[i] = sym::real("w" + S_(i), 0.5, 2.);
  BSCurveRational<double, D> c(x, k, w, p);
  double u = sym::real("u", k.front(), k.back());
  auto H = homog<D>(x, w);
  auto ref = rat_ref<D>(u, k, H, p);
  eqp<D>(c.value(u), ref, "rvalue");
  eqp<D>(BSCurveRational<double, D>(H, k, p).value(u), ref, "rvalue_homog");
}
void sym_register() {
  for (int p = 1; p <= 5; ++p)
    for (auto &l : layouts(p)) {
      int tier = p > 3 ? 1 : 0;
      std::string nm = "p" + S_(p) + "." + lname(l);
      sym::add("eval2d." + nm, [=] { nonrational<2>(p, clamped(p, l)); }, p > 4 ? 1 : 0);
      sym::add("evalrat." + nm, [=] { rational<1>(p, clamped(p, l), false); }, tier);
    }
  // shifted, negative parameter range, 1d and 3d
  sym::add("eval3d.range", [] { nonrational<3>(3, clamped(3, {{-0.5, 1}, {1.5, 2}}, -2., 4.)); });
  sym::add("eval1d.range", [] { nonrational<1>(2, clamped(2, {{10.5, 1}}, 10., 12.)); });
  for (int p = 1; p <= 2; ++p)
    sym::add("evalrat.symw.p" + S_(p), [=] { rational<2>(p, clamped(p, {{0.5, 1}}), true); });
  sym::add("evalrat.symw.p3", [=] { rational<1>(3, clamped(3, {{0.5, 2}}), true); }, 1);
  // symbolic interior knots (any non-decreasing positions, possibly coincident)
  for (int p = 1; p <= 3; ++p)
    sym::add("symknots.p" + S_(p), [=] {
      double a = sym::real("a", 0.05, 0.95), b = sym::real("b", 0.05, 0.95);
      sym::assume_le(a, b);
      if (p == 1) sym::assume_lt(a, b - 1e-3); // multiplicity <= degree
      // knots closer than the library's knot tolerance but distinct are outside the claim
      V k = clamped(p, {{a, 1}, {b, 1}});
      size_t n = k.size() - p - 1;
      if (p > 1 && a < b) sym::assume_lt(a, b - 1e-3);
      PV<1> poles = symPoles<1>("P", n);
      BSCurve<double, 1> c(poles, k, p);
      double u = sym::real("u", 0, 1);
      eqp<1>(c.value(u), bs_ref<1>(u, k, poles, p), "value");
    });
  // symbolic end knots
  sym::add("symends.p2", [] {
    double a = sym::real("a", -5, 0), b = sym::real("b", 1, 6), m = sym::real("m", 0.25, 0.75);
    V k = clamped(2, {{m, 1}}, a, b);
    auto poles = symPoles<1>("P", 4);
    BSCurve<double, 1> c(poles, k, 2);
    double u = sym::real("u", -5, 6);
    sym::assume_le(a, u);
    sym::assume_le(u, b);
    eqp<1>(c.value(u), bs_ref<1>(u, k, poles, 2), "value");
  });
  // end point interpolation, for every clamped curve
  for (int p = 1; p <= 5; ++p)
    sym::add("ends.p" + S_(p), [=] {
      double a = sym::real("a", -5, 0), b = sym::real("b", 1, 6), m = sym::real("m", 0.25, 0.75);
      V k = clamped(p, {{m, 1}}, a, b);
      auto poles = symPoles<2>("P", k.size() - p - 1);
      BSCurve<double, 2> c(poles, k, p);
      eqp<2>(c.begin(), poles.front(), "begin");
      eqp<2>(c.end(), poles.back(), "end");
      sym::eq(c.bounds()[0], a, "b0");
      sym::eq(c.bounds()[1], b, "b1");
      sym::eq(c.midPosition(), (a + b) / 2, "mid");
    });
  // basis functions: definition, non-negativity, partition of unity
  for (int p = 1; p <= 4; ++p)
    for (auto &l : layouts(p))
      sym::add("basis.p" + S_(p) + "." + lname(l), [=] {
        V k = clamped(p, l);
        size_t n = k.size() - p - 1;
        double u = sym::real("u", 0, 1);
        size_t s = span_ref(u, k);
        double sum = 0;
        for (size_t i = 0; i < n; ++i) {
          double b = basis_function(u, i, p, 0, k);
          sym::eq(b, basis_ref(i, p, u, k, s), "N" + S_(i));
          sym::le(0., b, "nonneg" + S_(i));
          sum += b;
        }
        sym::eq(sum, 1., "unity");
        size_t sp = find_span(n, p, u, k) - k.begin();
        sym::check(sp == s, "span");
      }, p > 3 ? 1 : 0);
  // multi-span span search
  sym::add("span.many", [] {
    V k = clamped(2, {{1, 1}, {2, 2}, {3, 1}, {4, 1}, {5, 2}, {6, 1}, {7, 1}, {8, 2}, {9, 1}}, 0, 10);
    double u = sym::real("u", 0, 10);
    size_t n = k.size() - 3;
    size_t sp = find_span(n, 2, u, k) - k.begin();
    sym::check(sp == span_ref(u, k), "span");
    sym::check(k[sp] <= u, "lower");
    sym::check(sp <= n - 1 && sp >= 2, "range");
  });
  // degrees around the fixed-size work-array limit
  for (int p : {6, 8, 12, 23, 24})
    sym::add("high.p" + S_(p), [=] {
      V k = clamped(p, {});
      auto poles = concPoles<1>(p + 1);
      for (int i : {0, 1, p / 2, p}) poles[i][0] = sym::real("P" + S_(i), -10, 10);
      BSCurve<double, 1> c(poles, k, p);
      double u = sym::real("u", 0, 1);
      // Bernstein form
      double r = 0;
      for (int i = 0; i <= p; ++i) {
        double b = binom(p, i);
        for (int j = 0; j < i; ++j) b *= u;
        for (int j = i; j < p; ++j) b *= (1. - u);
        r += b * poles[i][0];
      }
      sym::eq(c.value(u)[0], r, "bernstein");
    }, (p == 24 || p == 6) ? 0 : 1);
  // bulk evaluation is pointwise evaluation, in order, on both sides of the size gate
  for (int d = 0; d <= 2; ++d)
    sym::add("bulk.d" + S_(d), [=] {
      V k = clamped(3, {{0.5, 1}});
      auto poles = symPoles<2>("P", 5);
      BSCurve<double, 2> c(poles, k, 3);
      V us{0., 0.125, sym::real("u", 0, 1), 0.5, 1.};
      auto r = c.values(us, d);
      sym::check(r.size() == us.size(), "size");
      for (size_t i = 0; i < us.size(); ++i) eqp<2>(r[i], bs_ref<2>(us[i], k, poles, 3, d), "bulk");
    });
  sym::add("bulk.large", [=] {
    V k = clamped(1, {});
    auto poles = symPoles<1>("P", 2);
    BSCurve<double, 1> c(poles, k, 1);
    size_t n = parallel_min_size + 3;
    V us(n);
    for (size_t i = 0; i < n; ++i) us[i] = double(i % 1024) / 1024.;
    auto r = c.values(us);
    sym::check(r.size() == n, "size");
    for (size_t i = 0; i < n; i += (i < 10 || i + 10 > n) ? 1 : 37) sym::eq(r[i][0], poles[0][0] * (1 - us[i]) + poles[1][0] * us[i], "bulk");
  });
  // scalar function wrapper
  sym::add("cfunction", [] {
    V k = clamped(2, {{0.5, 1}});
    V po;
    PV<1> pa;
    for (int i = 0; i < 4; ++i) po.push_back(sym::real("P" + S_(i), -10, 10)), pa.push_back({po.back()});
    BSCfunction<double> f(po, k, 2);
    double u = sym::real("u", 0, 1);
    sym::eq(f(u), bs_ref<1>(u, k, pa, 2)[0], "f");
    sym::eq(f(u, 1), bs_ref<1>(u, k, pa, 2, 1)[0], "f1");
    sym::eq(f.begin(), po.front(), "begin");
    sym::eq(f.end(), po.back(), "end");
  });
}
