// C03: surface values and mixed partials equal the tensor-product definition.
#include "common.h"
#include <gbs/bssurf.h>
#include <list>
using namespace gbs;

// symbolic net; large nets keep one coordinate symbolic per point
template <size_t D> static void poly(int p, int q, V ku, V kv, int nu, int nv) {
  size_t n = ku.size() - p - 1, m = kv.size() - q - 1;
  auto poles = symPoles<D>("P", n * m);
  BSSurface<double, D> s(poles, ku, kv, p, q);
  double u = sym::real("u", ku.front(), ku.back()), v = sym::real("v", kv.front(), kv.back());
  size_t su = span_ref(u, ku), sv = span_ref(v, kv);
  std::vector<P<D>> SK((nu + 1) * (nv + 1));
  s.derivatives(u, v, nu, nv, SK.data());
  for (int a = 0; a <= nu; ++a)
    for (int b = 0; b <= nv; ++b) {
      auto r = srf_ref_span<D>(u, v, ku, kv, poles, p, q, su, sv, a, b);
      eqp<D>(s.value(u, v, a, b), r, "S" + S_(a) + S_(b));
      eqp<D>(SK[a * (nv + 1) + b], r, "SKL" + S_(a) + S_(b));
    }
  sym::check(s.degreeU() == (size_t)p && s.degreeV() == (size_t)q && s.nPolesU() == n && s.nPolesV() == m && s.orderU() == (size_t)p + 1 && s.orderV() == (size_t)q + 1, "sizes");
}
template <size_t D> static void rat(int p, int q, V ku, V kv, int nu, int nv, bool symw) {
  size_t n = ku.size() - p - 1, m = kv.size() - q - 1;
  auto x = symPoles<D>("P", n * m);
  V w = concWeights(n * m);
  if (symw)
    for (size_t i = 0; i < n * m; ++i) w[i] = sym::real("w" + S_(i), 0.5, 2.);
  BSSurfaceRational<double, D> s(x, w, ku, kv, p, q);
  double u = sym::real("u", ku.front(), ku.back()), v = sym::real("v", kv.front(), kv.back());
  auto H = homog<D>(x, w);
  std::vector<P<D>> SK((nu + 1) * (nv + 1));
  s.derivatives(u, v, nu, nv, SK.data());
  for (int a = 0; a <= nu; ++a)
    for (int b = 0; b <= nv; ++b) {
      auto r = rsrf_ref<D>(u, v, ku, kv, H, p, q, a, b);
      eqp<D>(s.value(u, v, a, b), r, "R" + S_(a) + S_(b), 1e-6);
      eqp<D>(SK[a * (nv + 1) + b], r, "RSKL" + S_(a) + S_(b), 1e-6);
    }
}
void sym_register() {
  struct L { int p, q; V ku, kv; std::string n; int tier; };
  std::vector<L> ls;
  auto A = [&](int p, int q, std::vector<std::pair<double, int>> a, std::vector<std::pair<double, int>> b, int tier = 0) {
    ls.push_back({p, q, clamped(p, a), clamped(q, b), "p" + S_(p) + "q" + S_(q) + "." + lname(a) + "." + lname(b), tier});
  };
  for (int p = 1; p <= 3; ++p)
    for (int q = 1; q <= 3; ++q) {
      A(p, q, {}, {});
      A(p, q, {{0.5, 1}}, {});
      A(p, q, {}, {{0.25, q}});
      A(p, q, {{0.5, p}}, {{0.375, 1}, {0.75, 1}}, p + q > 4);
      A(p, q, {{0.125, 1}, {0.5, 1}, {0.75, p}}, {{0.375, q}}, 1);
    }
  A(4, 2, {}, {{0.5, 1}});
  A(1, 5, {{0.5, 1}}, {});
  A(5, 4, {{0.5, 1}}, {{0.5, 2}}, 1);
  for (auto &l : ls) {
    sym::add("poly." + l.n, [=] { poly<1>(l.p, l.q, l.ku, l.kv, std::min(l.p + 1, 4), std::min(l.q + 1, 4)); }, l.tier);
    if (l.p + l.q <= 4) sym::add("rat." + l.n, [=] { rat<1>(l.p, l.q, l.ku, l.kv, 2, 2, false); }, l.p + l.q > 3 ? 1 : l.tier);
  }
  sym::add("poly.3d", [] { poly<3>(2, 3, clamped(2, {{0.5, 1}}, -1, 2), clamped(3, {{3., 1}}, 1, 4), 2, 2); });
  sym::add("rat.3d", [] { rat<3>(1, 2, clamped(1, {}, -1, 2), clamped(2, {}, 1, 4), 1, 1, false); });
  sym::add("rat.2d.p2q2", [] { rat<2>(2, 2, clamped(2, {}), clamped(2, {}), 1, 2, false); });
  sym::add("rat.p3q2", [] { rat<1>(3, 2, clamped(3, {}), clamped(2, {}), 2, 1, false); });
  sym::add("rat.symw", [] { rat<1>(1, 1, clamped(1, {{0.5, 1}}), clamped(1, {}), 2, 1, true); });
  sym::add("rat.symw.p2q1", [] { rat<1>(2, 1, clamped(2, {}), clamped(1, {}), 1, 1, true); });
  sym::add("rat.n33", [] { rat<1>(1, 1, clamped(1, {}), clamped(1, {}), 3, 3, false); });
  // symbolic knots
  for (int p = 1; p <= 2; ++p)
    for (int q = 1; q <= 2; ++q)
      sym::add("symknots.p" + S_(p) + "q" + S_(q), [=] {
        V ku = clamped(p, {{sym::real("a", 0.1, 0.9), 1}}), kv = clamped(q, {{sym::real("b", 0.1, 0.9), 1}});
        poly<1>(p, q, ku, kv, 1, 1);
      });
  // corners interpolate the corner poles, u index fastest
  sym::add("corners", [] {
    V ku = clamped(2, {{0.5, 1}}, 0, 2), kv = clamped(3, {{1., 1}, {2., 1}}, 0, 3);
    size_t n = 4, m = 6;
    auto poles = symPoles<2>("P", n * m);
    BSSurface<double, 2> s(poles, ku, kv, 2, 3);
    eqp<2>(s(0, 0), poles[0], "c00");
    eqp<2>(s(2, 0), poles[n - 1], "c10");
    eqp<2>(s(0, 3), poles[n * (m - 1)], "c01");
    eqp<2>(s(2, 3), poles[n * m - 1], "c11");
    auto b = s.bounds();
    sym::check(b[0] == 0 && b[1] == 2 && b[2] == 0 && b[3] == 3, "bounds");
    for (size_t j = 0; j < m; ++j) {
      auto r = s.polesU(j);
      sym::check(r.size() == n, "polesU.size");
      for (size_t i = 0; i < n; ++i) eqp<2>(r[i], poles[i + n * j], "polesU");
    }
    for (size_t i = 0; i < n; ++i) {
      auto r = s.polesV(i);
      sym::check(r.size() == m, "polesV.size");
      for (size_t j = 0; j < m; ++j) eqp<2>(r[j], poles[i + n * j], "polesV");
    }
    auto info = s.info();
    BSSurface<double, 2> s2(info);
    double u = sym::real("u", 0, 2), v = sym::real("v", 0, 3);
    eqp<2>(s2(u, v), s(u, v), "info");
    BSSurface<double, 2> s3(poles, V{0, 0.5, 2}, V{0, 1, 2, 3}, std::vector<size_t>{3, 1, 3}, std::vector<size_t>{4, 1, 1, 4}, 2, 3);
    eqp<2>(s3(u, v), s(u, v), "mults");
    eqp<2>(s(std::array<double, 2>{u, v}), s(u, v), "uvarray");
    eqp<2>(s(std::array<double, 2>{u, v}, 1, 1), s.value(u, v, 1, 1), "uvarray11");
    double du = sym::real("du", -1, 1), dv = sym::real("dv", -1, 1);
    auto t = s.tangent(u, v, du, dv);
    auto su = s.value(u, v, 1, 0), sv = s.value(u, v, 0, 1);
    for (int i = 0; i < 2; ++i) sym::eq(t[i], su[i] * du + sv[i] * dv, "tangent");
  });
  // bulk evaluation, in order, every derivative
  sym::add("bulk", [] {
    V ku = clamped(2, {{0.5, 1}}), kv = clamped(1, {{0.5, 1}});
    auto poles = symPoles<2>("P", 12);
    BSSurface<double, 2> s(poles, ku, kv, 2, 1);
    double u = sym::real("u", 0, 1), v = sym::real("v", 0, 1), u2 = sym::real("u2", 0, 1);
    std::vector<std::array<double, 2>> uv{{u, v}, {0.25, v}, {u2, 0.75}, {1., 0.}};
    V us{u, 0.25, u2, 1.}, vs{v, v, 0.75, 0.};
    std::list<std::array<double, 2>> uvl(uv.begin(), uv.end());
    for (int a = 0; a <= 1; ++a)
      for (int b = 0; b <= 1; ++b) {
        auto r1 = s.values(uv, a, b);
        auto r2 = s.values(us, vs, a, b);
        auto r3 = s.values(uvl, a, b);
        sym::check(r1.size() == 4 && r2.size() == 4 && r3.size() == 4, "size");
        for (size_t i = 0; i < 4; ++i) {
          auto r = srf_ref<2>(uv[i][0], uv[i][1], ku, kv, poles, 2, 1, a, b);
          eqp<2>(r1[i], r, "uvlist");
          eqp<2>(r2[i], r, "u_v");
          eqp<2>(r3[i], r, "list");
        }
      }
  });
  // arc-length derivatives along iso curves
  sym::add("darc", [] {
    V ku = clamped(2, {}), kv = clamped(2, {});
    PV<2> poles = concPoles<2>(9);
    poles[0] = {sym::real("x0", -3, 3), sym::real("y0", -3, 3)};
    poles[4] = {sym::real("x4", -3, 3), 1.};
    BSSurface<double, 2> s(poles, ku, kv, 2, 2);
    double u = sym::real("u", 0, 1), v = sym::real("v", 0, 1);
    auto d = [&](int a, int b) { return srf_ref<2>(u, v, ku, kv, poles, 2, 2, a, b); };
    auto su = d(1, 0), sv = d(0, 1), suu = d(2, 0), svv = d(0, 2);
    double nu = su[0] * su[0] + su[1] * su[1], nv = sv[0] * sv[0] + sv[1] * sv[1];
    sym::assume_lt(0.01, nu);
    sym::assume_lt(0.01, nv);
    auto tu = s.d_dmu(u, v), tv = s.d_dmv(u, v), qu = s.d_dmu2(u, v), qv = s.d_dmv2(u, v);
    double eu = suu[0] * su[0] + suu[1] * su[1], ev = svv[0] * sv[0] + svv[1] * sv[1];
    for (int i = 0; i < 2; ++i) {
      sym::eq(tu[i] * std::sqrt(nu), su[i], "dmu");
      sym::eq(tv[i] * std::sqrt(nv), sv[i], "dmv");
      sym::eq(qu[i], suu[i] / nu - su[i] * eu / (nu * nu), "dmu2", 1e-6);
      sym::eq(qv[i], svv[i] / nv - sv[i] * ev / (nv * nv), "dmv2", 1e-6);
    }
    std::vector<std::array<double, 2>> uv{{u, v}};
    auto a = s.d_dmus(uv), b = s.d_dmvs(uv), c = s.d_dmu2s(uv), e = s.d_dmv2s(uv);
    for (int i = 0; i < 2; ++i) sym::eq(a[0][i], tu[i], "dmus"), sym::eq(b[0][i], tv[i], "dmvs"), sym::eq(c[0][i], qu[i], "dmu2s"), sym::eq(e[0][i], qv[i], "dmv2s");
  });
  sym::add("rat.accessors", [] {
    V ku = clamped(1, {{0.5, 1}}), kv = clamped(2, {});
    auto x = symPoles<2>("P", 9);
    V w(9);
    for (int i = 0; i < 9; ++i) w[i] = sym::real("w" + S_(i), 0.5, 2);
    BSSurfaceRational<double, 2> s(x, w, ku, kv, 1, 2);
    auto pp = s.polesProjected();
    auto ww = s.weights();
    sym::check(pp.size() == 9 && ww.size() == 9, "size");
    for (int i = 0; i < 9; ++i) eqp<2>(pp[i], x[i], "proj"), sym::eq(ww[i], w[i], "w");
    BSSurfaceRational<double, 2> s2(x, w, V{0, 0.5, 1}, V{0, 1}, std::vector<size_t>{2, 1, 2}, std::vector<size_t>{3, 3}, 1, 2);
    double u = sym::real("u", 0, 1), v = 0.25;
    eqp<2>(s2(u, v), s(u, v), "mults");
  });
  sym::add("function", [] {
    V ku = clamped(1, {{0.5, 1}}), kv = clamped(2, {});
    V x(9);
    PV<1> pl(9);
    for (int i = 0; i < 9; ++i) pl[i][0] = x[i] = sym::real("x" + S_(i), -5, 5);
    BSSfunction<double> f(x, ku, kv, 1, 2);
    double u = sym::real("u", 0, 1), v = sym::real("v", 0, 1);
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 3; ++b) sym::eq(f(u, v, a, b), srf_ref<1>(u, v, ku, kv, pl, 1, 2, a, b)[0], "f");
  });
}
