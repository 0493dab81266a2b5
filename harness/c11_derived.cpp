// C11: derivative and integral curves, lengths, arc-length derivatives and directions.
#include "common.h"
#include <gbs/bscbuild.h>
#include <gbs/bscanalysis.h>
#include <gbs/bssurf.h>
#include <gbs/curveline.h>
#include <gbs/curvetrimmed.h>
using namespace gbs;
template <size_t D> static double dot_(const P<D> &a, const P<D> &b) {
  double s = 0;
  for (size_t i = 0; i < D; ++i) s += a[i] * b[i];
  return s;
}
// definite integral of the curve's coordinate polynomial on one span by exact
// interpolation-free Boole/Newton-Cotes is not exact for all degrees, hence the
// antiderivative through the Bernstein form: used for Bezier curves only.
template <size_t D> static void deriv_case(int p, std::vector<std::pair<double, int>> l, double a, double b) {
  V k = clamped(p, l, a, b);
  for (size_t i = 0; i < k.size(); ++i)
    if (k[i] > 0 && k[i] < 1) k[i] = a + (b - a) * k[i];
  auto poles = symPoles<D>("P", k.size() - p - 1);
  BSCurve<double, D> c(poles, k, p);
  auto d = build_derivate(c);
  sym::check(d.degree() == size_t(p - 1), "der.degree");
  sym::check(d.poles().size() + 1 == poles.size(), "der.poles");
  sym::eq(d.bounds()[0], a, "der.b0", 0);
  sym::eq(d.bounds()[1], b, "der.b1", 0);
  double u = sym::real("u", a, b);
  auto x = d.value(u);
  auto y = bs_ref<D>(u, k, poles, p, 1);
  eqp<D>(x, y, "der.value");
  // and derivatives of it are higher derivatives of the original
  if (p >= 2) eqp<D>(d.value(u, 1), bs_ref<D>(u, k, poles, p, 2), "der.value1", 1e-6);
  auto dd = c;
  for (int i = 1; i <= p; ++i) {
    dd = build_derivate(dd);
    if (dd.degree() == 0) break;
    if (std::any_of(l.begin(), l.end(), [&](auto &m) { return m.second > p - i; })) break;
    eqp<D>(dd.value(u), bs_ref<D>(u, k, poles, p, i), "der.repeat" + S_(i), 1e-5);
  }
}
template <size_t D> static void integ_case(int p, std::vector<std::pair<double, int>> l, double a, double b) {
  V k = clamped(p, l, a, b);
  for (size_t i = 0; i < k.size(); ++i)
    if (k[i] > 0 && k[i] < 1) k[i] = a + (b - a) * k[i];
  auto poles = symPoles<D>("P", k.size() - p - 1);
  P<D> P0;
  for (size_t i = 0; i < D; ++i) P0[i] = sym::real("O" + S_(i), -10, 10);
  BSCurve<double, D> c(poles, k, p);
  auto I = build_integrate(c, P0);
  sym::check(I.degree() == size_t(p + 1), "int.degree");
  sym::check(I.poles().size() == poles.size() + 1, "int.poles");
  eqp<D>(I.begin(), P0, "int.begin");
  double u = sym::real("u", a, b);
  eqp<D>(bs_ref<D>(u, I.knotsFlats(), I.poles(), p + 1, 1), bs_ref<D>(u, k, poles, p), "int.derivative");
  eqp<D>(I.value(u, 1), bs_ref<D>(u, k, poles, p), "int.value1");
  auto I0 = build_integrate(c);
  eqp<D>(I0.begin(), P<D>{}, "int.default.begin");
  auto b0 = build_derivate(I);
  sym::check(b0.knotsFlats() == k, "int.der.knots");
  for (size_t i = 0; i < poles.size(); ++i) eqp<D>(b0.poles()[i], poles[i], "int.der.pole");
  // definite integral over a whole Bezier segment: mean of the poles
  if (l.empty())
    for (size_t d = 0; d < D; ++d) {
      double m = 0;
      for (auto &q : poles) m += q[d];
      sym::eq(I.end()[d] - P0[d], (b - a) * m / double(poles.size()), "int.total");
    }
  auto c2 = c; // continuity of the antiderivative at interior knots comes with its multiplicity
  for (auto &[x, m] : l) {
    double t = a + (b - a) * x;
    size_t s = span_ref(t, I.knotsFlats());
    size_t s0 = s - m;
    eqp<D>(bs_ref_span<D>(t, I.knotsFlats(), I.poles(), p + 1, s), bs_ref_span<D>(t, I.knotsFlats(), I.poles(), p + 1, s0), "int.continuous");
  }
}
template <size_t D> static BSCurve<double, D> straight(const P<D> &A, const P<D> &B, int p, const V &k) {
  // poles at the Greville points of a linear map: a straight segment with constant speed
  PV<D> poles(k.size() - p - 1);
  for (size_t i = 0; i < poles.size(); ++i) {
    double g = 0;
    for (int j = 1; j <= p; ++j) g += k[i + j];
    g /= p;
    double t = (g - k.front()) / (k.back() - k.front());
    for (size_t d = 0; d < D; ++d) poles[i][d] = A[d] + t * (B[d] - A[d]);
  }
  return BSCurve<double, D>(poles, k, p);
}
template <size_t D> static void length_straight(int p, std::vector<std::pair<double, int>> l, bool adaptive, double o = 0.) { // parameters in [o,o+1]
  for (auto &[x, m] : l) x += o;
  V k = clamped(p, l, o, o + 1.);
  P<D> A, B;
  for (size_t i = 0; i < D; ++i) A[i] = sym::real("A" + S_(i), -10, 10), B[i] = sym::real("B" + S_(i), -10, 10);
  double n2 = 0;
  for (size_t i = 0; i < D; ++i) n2 += (B[i] - A[i]) * (B[i] - A[i]);
  sym::assume_lt(0.01, n2);
  auto c = straight<D>(A, B, p, k);
  double u1 = o + 0.125, u2 = o + 0.75, um = o + 0.5;
  if (!adaptive && p == 1) {
    u1 = sym::real("u1", o, o + 0.25), um = sym::real("um", o + 0.25, o + 0.5), u2 = sym::real("u2", o + 0.5, o + 1);
  }
  double L = std::sqrt(n2);
  double a = length<double, D>(c, u1, u2, 0, adaptive);
  sym::eq(a, (u2 - u1) * L, "length", 1e-6);
  sym::le(0, a, "length.nonneg");
  sym::eq(length<double, D>(c, size_t(0), adaptive), L, "length.full", 1e-6);
  sym::eq(length<double, D>(c, u1, um, 0, adaptive) + length<double, D>(c, um, u2, 0, adaptive), a, "length.additive", 1e-6);
  sym::eq(length<double, D>(c, u1, u2, 1), L, "length.d1", 1e-6);
  sym::eq(length<double, D>(c, u1, u2, 2), 0, "length.d2", 1e-6);
}
void sym_register() {
  for (int p = 1; p <= 5; ++p)
    for (auto &l : layouts(p)) {
      if (p == 5 && l.size() > 2) continue;
      std::string n = "p" + S_(p) + "." + lname(l);
      if (p > 1 || l.empty() || l[0].second < p || p == 1) sym::add("derivate." + n, [=] { p <= 3 ? deriv_case<2>(p, l, -1, 3) : deriv_case<1>(p, l, 0, 2); });
      sym::add("integrate." + n, [=] { p <= 3 ? integ_case<2>(p, l, -1, 3) : integ_case<1>(p, l, 0, 2); });
    }
  sym::add("derivate.knot", [] { // symbolic interior knots
    double x = sym::real("x", 0, 1), y = sym::real("y", 0, 1);
    sym::assume_lt(0, x);
    sym::assume_lt(x, y);
    sym::assume_lt(y, 1);
    V k{0, 0, 0, x, y, 1, 1, 1};
    auto poles = symPoles<1>("P", 5);
    BSCurve<double, 1> c(poles, k, 2);
    auto d = build_derivate(c);
    auto I = build_integrate(c, {0.5});
    double u = sym::real("u", 0, 1);
    sym::eq(d.value(u)[0], bs_ref<1>(u, k, poles, 2, 1)[0], "der", 1e-6);
    sym::eq(bs_ref<1>(u, I.knotsFlats(), I.poles(), 3, 1)[0], bs_ref<1>(u, k, poles, 2)[0], "int");
  });
  sym::add("derivate.domain", [] { // symbolic domain
    double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4);
    sym::assume_le(a + 0.25, b);
    V k{a, a, a, a, b, b, b, b};
    auto poles = symPoles<1>("P", 4);
    BSCurve<double, 1> c(poles, k, 3);
    double u = sym::real("u", -4, 4);
    sym::assume_le(a, u);
    sym::assume_le(u, b);
    auto d = build_derivate(c);
    auto I = build_integrate(c, {0.5});
    sym::eq(d.value(u)[0], bs_ref<1>(u, k, poles, 3, 1)[0], "der", 1e-6);
    sym::eq(bs_ref<1>(u, I.knotsFlats(), I.poles(), 4, 1)[0], bs_ref<1>(u, k, poles, 3)[0], "int");
    sym::eq(I.end()[0] - 0.5, (b - a) * (poles[0][0] + poles[1][0] + poles[2][0] + poles[3][0]) / 4., "int.total");
  });
  for (int ad = 0; ad < 2; ++ad) {
    std::string s = ad ? ".adaptive" : ".fixed";
    sym::add("length.straight.p1" + s, [=] { length_straight<2>(1, {}, ad); });
    sym::add("length.straight.p2" + s, [=] { length_straight<2>(2, {}, ad); });
    sym::add("length.straight.p3k" + s, [=] { length_straight<2>(3, {{0.5, 1}}, ad); });
    sym::add("length.straight.at.p1" + s, [=] { length_straight<2>(1, {}, ad, -2.5); });
    sym::add("length.straight.at.p2" + s, [=] { length_straight<2>(2, {{0.5, 1}}, ad, 3.25); });
    sym::add("length.straight3.p1" + s, [=] { length_straight<3>(1, {}, ad); });
    // monotone scalar curves: the length is the difference of the end values
    for (int p = ad ? 2 : 3; p <= 3; ++p)
      sym::add("length.monotone.p" + S_(p) + s, [=] {
        V k = clamped(p, {});
        PV<1> poles(p + 1);
        double x = sym::real("P0", -5, 5);
        for (int i = 0; i <= p; ++i) {
          poles[i][0] = x;
          x += sym::real("d" + S_(i), 0.125, 4);
        }
        BSCurve<double, 1> c(poles, k, p);
        sym::eq(length<double, 1>(c, size_t(0), bool(ad)), poles.back()[0] - poles.front()[0], "full", 1e-6);
        sym::eq(length<double, 1>(c, 0.25, 0.75, size_t(0), bool(ad)), bs_ref<1>(0.75, k, poles, p)[0] - bs_ref<1>(0.25, k, poles, p)[0], "part", 1e-6);
      });
  }
  for (int p = 2; p <= 4; ++p)
    sym::add("length.ders.p" + S_(p), [=] { // derivatives of the length with respect to its upper end
      auto ll = p == 2 ? std::vector<std::pair<double, int>>{{0.5, 1}} : std::vector<std::pair<double, int>>{};
      V k = clamped(p, ll);
      PV<2> poles = p == 2 ? symPoles<2>("P", k.size() - p - 1) : concPoles<2>(k.size() - p - 1);
      if (p > 2)
        for (size_t i : {size_t(0), size_t(2)}) poles[i] = {sym::real("Px" + S_(i), -5, 5), sym::real("Py" + S_(i), -5, 5)};
      BSCurve<double, 2> c(poles, k, p);
      double u = sym::real("u", 0, 1);
      auto d1 = bs_ref<2>(u, k, poles, p, 1), d2 = bs_ref<2>(u, k, poles, p, 2);
      double n2 = dot_<2>(d1, d1);
      sym::assume_lt(0.01, n2);
      double l1 = length<double, 2>(c, 0., u, 1);
      sym::eq(l1 * l1, n2, "d1", 1e-6);
      sym::le(0, l1, "d1.pos");
      sym::eq(length<double, 2>(c, 0., u, 2) * l1, dot_<2>(d1, d2), "d2", 1e-5);
      sym::throws([&] { length<double, 2>(c, 0., u, 3); }, "d3.refused");
    });
  sym::add("length.rational", [] { // rational re-parametrised segment: C' parallel to the segment
    PV<1> x{{sym::real("P0", -5, 5)}, {0}};
    x[1][0] = x[0][0] + sym::real("d", 0.25, 4);
    double w = sym::real("w", 0.5, 2);
    BSCurveRational<double, 1> c(homog<1>(x, {1., w}), {0, 0, 1, 1}, 1);
    double u = sym::real("u", 0, 1);
    double l1 = length<double, 1>(c, 0., u, 1);
    auto r = rat_ders_span<1>(u, {0, 0, 1, 1}, homog<1>(x, {1., w}), 1, 1, 2);
    sym::eq(l1, r[1][0], "d1");
    sym::eq(length<double, 1>(c, 0., u, 2), r[2][0], "d2", 1e-6);
  });
  // abscissa laws of straight segments with constant speed
  for (double o : {0., -2.5, 3.25}) // parameters anywhere
   for (int n : {2, 5, 12})
    sym::add("abs_curv.n" + S_(n) + (o == 0 ? "" : o < 0 ? ".neg" : ".pos"), [=] {
      double L = 2.5; // concrete norm: 3-4-5
      PV<2> q{{1, 2}, {1 + 1.5, 2 + 2.0}};
      auto c = straight<2>(q[0], q[1], 2, clamped(2, {}, o, o + 1));
      auto f = abs_curv<double, 2>(c, size_t(n));
      sym::eq(f.bounds()[0], 0, "m0");
      sym::eq(f.bounds()[1], L, "m1", 1e-6);
      double m = sym::real("m", 0, 2.4999);
      sym::eq(f(m), o + m / L, "law", 1e-6);
      auto g = abs_curv_adaptive<double, 2>(c, n);
      (void)g;
      auto h = uniform_distrib_params<double, 2>(c, (size_t)n + 1);
      size_t i = 0;
      for (auto u : h) sym::eq(u, o + double(i++) / n, "uniform", 1e-6);
      sym::check(i == size_t(n) + 1, "uniform.size");
      double a = sym::real("a", o, o + 0.5), b = sym::real("b", o + 0.625, o + 1);
      auto fp = abs_curv<double, 2>(c, a, b, n);
      sym::eq(fp.bounds()[1], L * (b - a), "part.m1", 1e-6);
    });
  sym::add("abs_curv.segment", [] { // symbolic length along x
    double L = sym::real("L", 0.5, 8);
    auto c = build_segment<double, 2>({1, 2}, {1 + L, 2});
    sym::eq(c.bounds()[1], L, "bounds");
    auto f = abs_curv<double, 2>(c, size_t(4), size_t(1));
    sym::eq(f.bounds()[1], L, "total", 1e-6);
    double t = sym::real("t", 0, 0.999);
    sym::eq(f(t * f.bounds()[1]), t * L, "law", 1e-5);
    auto [u, m] = abs_curv_adaptive_discretzation<double, 2>(c, 0., L, 4);
    sym::check(u.size() == m.size() && u.size() >= 4, "adaptive.size");
    for (size_t i = 0; i < u.size(); ++i) sym::eq(m[i], u[i], "adaptive.m", 1e-6);
    sym::eq(m.back(), L, "adaptive.total", 1e-6);
  });
  for (double o : {0., -2.5, 3.25}) sym::add(std::string("abs_curv.lengthfunction") + (o == 0 ? "" : o < 0 ? ".neg" : ".pos"), [=] {
    double L = 2.5;
    auto c = straight<2>({1, 2}, {2.5, 4}, 2, clamped(2, {{o + 0.5, 1}}, o, o + 1));
    auto f = curve_length_function<double, 2>(c, 6);   // parameter -> length
    double u = sym::real("u", o, o + 1);
    sym::eq(f(u), L * (u - o), "law", 1e-6);
    auto g = abs_curv_adaptive<double, 2>(c, 6);        // length -> parameter
    double m = sym::real("m", 0, 2.4999);
    sym::eq(g(m), o + m / L, "inverse", 1e-6);
    auto fp = curve_length_function<double, 2>(c, o + 0.25, o + 0.75, 4);
    double v = sym::real("v", o + 0.25, o + 0.75);
    sym::eq(fp(v), L * (v - o - 0.25), "part", 1e-6);
  });
  // unit tangent, curvature vector, normals
  for (int D3 = 0; D3 < 2; ++D3)
    for (int p = 2; p <= 3; ++p)
      sym::add(std::string("direction.") + (D3 ? "3d" : "2d") + ".p" + S_(p), [=] {
        auto run = [&](auto tag) {
          constexpr size_t D = decltype(tag)::value;
          V k = clamped(p, p == 2 ? std::vector<std::pair<double, int>>{{0.5, 1}} : std::vector<std::pair<double, int>>{});
          auto poles = concPoles<D>(k.size() - p - 1, 1);
          for (size_t d = 0; d < 2; ++d) poles[1][d] = sym::real("P1" + S_(d), -5, 5);
          BSCurve<double, D> c(poles, k, p);
          double u = D == 2 ? sym::real("u", 0, 1) : 0.3125;
          auto d1 = bs_ref<D>(u, k, poles, p, 1), d2 = bs_ref<D>(u, k, poles, p, 2);
          double n2 = dot_<D>(d1, d1);
          sym::assume_lt(0.01, n2);
          double n = std::sqrt(n2);
          auto t = tangential_direction<double, D>(c, u);
          auto dm = c.d_dm(u);
          for (size_t d = 0; d < D; ++d) sym::eq(t[d] * n, d1[d], "tangent"), sym::eq(dm[d] * n, d1[d], "dm");
          auto tl = tangential_line<double, D>(c, u);
          for (size_t d = 0; d < D; ++d) sym::eq(tl[0][d], bs_ref<D>(u, k, poles, p)[d], "line.origin"), sym::eq(tl[1][d], t[d], "line.dir");
          auto q = c.d_dm2(u);
          double s = dot_<D>(d1, d2);
          for (size_t d = 0; d < D; ++d) sym::eq(q[d] * n2 * n2, d2[d] * n2 - d1[d] * s, "dm2", 1e-6);
          sym::eq(dot_<D>(q, d1), 0, "dm2.normal", 1e-6);
          if constexpr (D == 3) {
            double cx = d1[1] * d2[2] - d1[2] * d2[1], cy = d1[2] * d2[0] - d1[0] * d2[2], cz = d1[0] * d2[1] - d1[1] * d2[0];
            sym::assume_lt(0.01, cx * cx + cy * cy + cz * cz);
          }
          auto nd = normal_direction(c, u);
          sym::eq(dot_<D>(nd, nd), 1, "normal.unit", 1e-6);
          sym::eq(dot_<D>(nd, d1), 0, "normal.orthogonal", 1e-6);
          if constexpr (D == 2) sym::le(0, d1[0] * nd[1] - d1[1] * nd[0], "normal.left");
          if constexpr (D == 3) {
            double cx = d1[1] * d2[2] - d1[2] * d2[1], cy = d1[2] * d2[0] - d1[0] * d2[2], cz = d1[0] * d2[1] - d1[1] * d2[0];
            sym::eq(cx * nd[0] + cy * nd[1] + cz * nd[2], 0, "normal.osculating", 1e-5);
          }
          auto nl = normal_line<double, D>(c, u);
          for (size_t d = 0; d < D; ++d) sym::eq(nl[0][d], tl[0][d], "normalline.origin"), sym::eq(nl[1][d], nd[d], "normalline.dir");
        };
        if (D3) run(std::integral_constant<size_t, 3>{});
        else run(std::integral_constant<size_t, 2>{});
      });
  for (int q = 1; q <= 2; ++q)
    sym::add("surface.q" + S_(q), [=] {
      int p = 2;
      V ku = clamped(p, {{0.5, 1}}), kv = clamped(q, {{0.25, 1}}, 0, 1);
      auto poles = concPoles<3>((ku.size() - p - 1) * (kv.size() - q - 1), 2);
      for (size_t d = 0; d < 2; ++d) poles[1][d] = sym::real("P1" + S_(d), -5, 5), poles[5][d + 1] = sym::real("P5" + S_(d), -5, 5);
      BSSurface<double, 3> s(poles, ku, kv, p, q);
      double u = sym::real("u", 0, 1), v = 0.375;
      auto r = [&](int a, int b) { return srf_ref<3>(u, v, ku, kv, poles, p, q, a, b); };
      auto su = r(1, 0), sv = r(0, 1), suu = r(2, 0), svv = r(0, 2);
      double nu = dot_<3>(su, su), nv = dot_<3>(sv, sv);
      sym::assume_lt(0.01, nu);
      sym::assume_lt(0.01, nv);
      auto a = s.d_dmu(u, v), b = s.d_dmv(u, v), a2 = s.d_dmu2(u, v), b2 = s.d_dmv2(u, v);
      double du = sym::real("du", -2, 2), dv = sym::real("dv", -2, 2);
      auto t = s.tangent(u, v, du, dv);
      std::vector<std::array<double, 2>> uv{{0.125, 0.5}, {u, v}};
      auto la = s.d_dmus(uv), lb = s.d_dmvs(uv), la2 = s.d_dmu2s(uv), lb2 = s.d_dmv2s(uv);
      sym::check(la.size() == 2 && lb.size() == 2 && la2.size() == 2 && lb2.size() == 2, "bulk.size");
      for (size_t d = 0; d < 3; ++d) {
        sym::eq(a[d] * std::sqrt(nu), su[d], "dmu");
        sym::eq(b[d] * std::sqrt(nv), sv[d], "dmv");
        sym::eq(a2[d] * nu * nu, suu[d] * nu - su[d] * dot_<3>(su, suu), "dmu2", 1e-5);
        sym::eq(b2[d] * nv * nv, svv[d] * nv - sv[d] * dot_<3>(sv, svv), "dmv2", 1e-5);
        sym::eq(t[d], su[d] * du + sv[d] * dv, "tangent");
        sym::eq(la[1][d], a[d], "dmus");
        sym::eq(lb[1][d], b[d], "dmvs");
        sym::eq(la2[1][d], a2[d], "dmu2s");
        sym::eq(lb2[1][d], b2[d], "dmv2s");
      }
    });
}
