// C09: interpolated surfaces satisfy every imposed constraint.
#include "common.h"
#include <gbs/bssinterp.h>
using namespace gbs;
template <size_t D> static void hits(const BSSurface<double, D> &s, double u, double v, int du, int dv, const P<D> &x, const std::string &l, double tol = 1e-6) {
  auto &ku = s.knotsFlatsU();
  auto &kv = s.knotsFlatsV();
  if (u > ku.back()) u = ku.back();
  if (v > kv.back()) v = kv.back();
  eqp<D>(srf_ref<D>(u, v, ku, kv, s.poles(), (int)s.degreeU(), (int)s.degreeV(), du, dv), x, l, tol);
}
template <size_t D> static void shape(const BSSurface<double, D> &s, size_t nu, size_t nv, size_t p, size_t q, std::array<double, 4> b) {
  sym::check(s.degreeU() == p && s.degreeV() == q && s.nPolesU() == nu && s.nPolesV() == nv && s.poles().size() == nu * nv, "shape");
  auto bb = s.bounds();
  for (int i = 0; i < 4; ++i) sym::eq(bb[i], b[i], "bounds");
}
static V avg(const PV<2> &Q, size_t nu, size_t nv, bool alongU, int mode) {
  size_t n = alongU ? nu : nv, m = alongU ? nv : nu;
  V r(n, 0.);
  for (size_t j = 0; j < m; ++j) {
    V u(n, 0.);
    for (size_t i = 1; i < n; ++i) {
      auto &a = alongU ? Q[i + nu * j] : Q[j + nu * i];
      auto &b = alongU ? Q[i - 1 + nu * j] : Q[j + nu * (i - 1)];
      double L = mode == 0 ? 1. : std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]));
      if (mode == 2) L = std::sqrt(L);
      u[i] = u[i - 1] + L;
    }
    for (size_t i = 0; i < n; ++i) r[i] += u[i] / u[n - 1] / double(m);
  }
  double d = r.back();
  for (auto &x : r) x /= d;
  r.back() = 1.;
  return r;
}
void sym_register() {
  struct G { size_t nu, nv, p, q; };
  std::vector<G> gs{{2, 2, 1, 1}, {3, 2, 2, 1}, {2, 4, 1, 3}, {4, 3, 2, 2}, {3, 5, 2, 3}, {5, 4, 3, 3}, {6, 3, 4, 1}, {4, 7, 1, 2}, {3, 3, 2, 2}, {4, 4, 3, 3}, {5, 5, 3, 3}, {8, 6, 3, 2}};
  for (auto g : gs)
    for (int mode = 0; mode < 3; ++mode) {
      std::string nm = S_(g.nu) + "x" + S_(g.nv) + ".p" + S_(g.p) + "q" + S_(g.q) + ".m" + S_(mode);
      sym::add("grid." + nm, [=] {
        auto md = mode == 0 ? KnotsCalcMode::EQUALLY_SPACED : mode == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL;
        PV<2> Q = mode == 0 ? symPoles<2>("Q", g.nu * g.nv) : concPoles<2>(g.nu * g.nv);
        for (size_t i = 0; mode && i < Q.size(); ++i) Q[i][0] += 3. * double(i % g.nu), Q[i][1] += 2.5 * double(i / g.nu);
        auto s = interpolate<double, 2>(Q, g.nv, g.p, g.q, md);
        shape<2>(s, g.nu, g.nv, g.p, g.q, {0, 1, 0, 1});
        V u = avg(Q, g.nu, g.nv, true, mode), v = avg(Q, g.nu, g.nv, false, mode);
        for (size_t j = 0; j < g.nv; ++j)
          for (size_t i = 0; i < g.nu; ++i) hits<2>(s, u[i], v[j], 0, 0, Q[i + g.nu * j], "grid");
      }, g.nu * g.nv > 40);
    }
  // equal counts, degrees and knots, different parameters in the two directions
  for (int n = 2; n <= 5; ++n)
    for (int p = 1; p < n; ++p)
      sym::add("square.n" + S_(n) + "p" + S_(p), [=] {
        V u(n), v(n);
        for (int i = 0; i < n; ++i) {
          double t = double(i) / double(n - 1);
          u[i] = t, v[i] = 0.25 * t + 0.75 * t * t;
        }
        V k = build_simple_mult_flat_knots<double>(u, p);
        if (n > p + 1) for (auto &x : v) x = 0.75 * x + 0.25 * u[&x - &v[0]];
        auto Q = symPoles<1>("Q", n * n);
        auto pl = build_poles<double, 1>(Q, k, k, u, v, p, p), pt = build_poles<double, 1>(Q, k, k, v, u, p, p);
        for (int j = 0; j < n; ++j)
          for (int i = 0; i < n; ++i) eqp<1>(srf_ref<1>(u[i], v[j], k, k, pl, p, p), Q[i + n * j], "uv"), eqp<1>(srf_ref<1>(v[i], u[j], k, k, pt, p, p), Q[i + n * j], "vu");
      });
  // pole solve on given knots and parameters (both ranges arbitrary), equal to the full collocation system
  for (auto g : std::vector<G>{{3, 4, 2, 1}, {4, 3, 3, 2}, {5, 3, 2, 2}}) {
    std::string nm = S_(g.nu) + "x" + S_(g.nv);
    sym::add("poles." + nm, [=] {
      V u(g.nu), v(g.nv);
      for (size_t i = 0; i < g.nu; ++i) u[i] = -1 + 3. * double(i * i + i) / double(g.nu * g.nu - g.nu);
      for (size_t i = 0; i < g.nv; ++i) v[i] = 2 + 2. * double(i) / double(g.nv - 1);
      V ku = build_simple_mult_flat_knots<double>(u, g.p), kv = build_simple_mult_flat_knots<double>(v, g.q);
      auto Q = symPoles<1>("Q", g.nu * g.nv);
      auto pl = build_poles<double, 1>(Q, ku, kv, u, v, g.p, g.q);
      for (size_t j = 0; j < g.nv; ++j)
        for (size_t i = 0; i < g.nu; ++i) eqp<1>(srf_ref<1>(u[i], v[j], ku, kv, pl, g.p, g.q), Q[i + g.nu * j], "poles");
      MatrixX<double> N(g.nu * g.nv, g.nu * g.nv);
      fill_poles_matrix<double>(N, ku, kv, u, v, g.p, g.q);
      size_t su, sv;
      for (size_t j = 0; j < g.nv; ++j)
        for (size_t i = 0; i < g.nu; ++i)
          for (size_t b = 0; b < g.nv; ++b)
            for (size_t a = 0; a < g.nu; ++a) {
              su = span_ref(u[i], ku), sv = span_ref(v[j], kv);
              sym::eq(N(i + g.nu * j, a + g.nu * b), basis_ref(a, g.p, u[i], ku, su) * basis_ref(b, g.q, v[j], kv, sv), "matrix", 1e-9);
            }
    });
  }
  // located constraints
  struct K { double u, v; size_t du, dv; };
  struct C { std::string n; std::vector<K> k; size_t nv, p, q; std::array<double, 4> b; std::array<size_t, 2> m; };
  std::vector<C> cs;
  cs.push_back({"corner.tangents", {}, 4, 3, 3, {0, 1, 0, 1}, {1, 1}});
  for (double u : {0., 1.})
    for (double v : {0., 1.})
      for (size_t a : {0, 1})
        for (size_t b : {0, 1}) cs.back().k.push_back({u, v, a, b});
  cs.push_back({"grid.shuffled", {}, 4, 1, 2, {-1, 3, 2, 5}, {1, 1}}); // 3 x 4
  {
    std::vector<K> t;
    for (size_t j = 0; j < 4; ++j)
      for (size_t i = 0; i < 3; ++i) t.push_back({-1 + 2. * double(i), 2 + double(j), 0, 0});
    for (size_t i = 0; i < t.size(); ++i) cs.back().k.push_back(t[(i * 5 + 2) % t.size()]);
  }
  cs.push_back({"rows.dv", {}, 3, 2, 2, {0, 1, 0, 2}, {1, 1}}); // 4 x 3: values at both v ends, dv at v=0
  for (double u : {0., 0.25, 0.75, 1.}) {
    cs.back().k.push_back({u, 0, 0, 0});
    cs.back().k.push_back({u, 2, 0, 0});
    cs.back().k.push_back({u, 0, 0, 1});
  }
  cs.push_back({"cols.du2", {}, 2, 2, 1, {0, 1, 0, 1}, {1, 1}}); // 3 x 2
  for (double v : {0., 1.}) {
    cs.back().k.push_back({0, v, 0, 0});
    cs.back().k.push_back({0, v, 1, 0});
    cs.back().k.push_back({1, v, 2, 0});
  }
  cs.push_back({"mult2", {}, 2, 3, 1, {0, 2, 0, 1}, {2, 1}}); // 6 x 2, one double knot
  for (double v : {0., 1.})
    for (double u : {0., 1., 2.})
      for (size_t a : {0, 1}) cs.back().k.push_back({u, v, a, 0});
  for (auto &c : cs)
    sym::add("cstr." + c.n, [=] {
      std::vector<bss_constraint<double, 1>> Q;
      for (size_t i = 0; i < c.k.size(); ++i) Q.push_back({c.k[i].u, c.k[i].v, P<1>{sym::real("x" + S_(i), -10, 10)}, c.k[i].du, c.k[i].dv});
      auto s = interpolate<double, 1>(Q, c.nv, c.p, c.q, c.b, c.m);
      shape<1>(s, c.k.size() / c.nv, c.nv, c.p, c.q, c.b);
      for (auto &[u, v, x, du, dv] : Q) hits<1>(s, u, v, (int)du, (int)dv, x, "cstr" + S_(du) + S_(dv));
    });
  sym::add("cstr.3d", [] {
    std::vector<bss_constraint<double, 3>> Q;
    int i = 0;
    for (double v : {0., 0.5, 1.})
      for (double u : {0., 1.}) {
        Q.push_back({u, v, P<3>{sym::real("x" + S_(i), -10, 10), sym::real("y" + S_(i), -10, 10), sym::real("z" + S_(i), -10, 10)}, 0, 0});
        ++i;
      }
    auto s = interpolate<double, 3>(Q, 3, 1, 2);
    for (auto &[u, v, x, du, dv] : Q) eqp<3>(s.value(u, v), x, "3d");
  });
  // refused
  sym::add("refuse.grid", [] {
    size_t n = (size_t)sym::choose("n", 1, 9), nv = (size_t)sym::choose("nv", 1, 4), p = (size_t)sym::choose("p", 1, 3), q = (size_t)sym::choose("q", 1, 3);
    auto Q = concPoles<2>(n);
    bool ok = n % nv == 0 && n / nv > p && nv > q;
    auto f = [&] { return interpolate<double, 2>(Q, nv, p, q, KnotsCalcMode::EQUALLY_SPACED); };
    if (ok) {
      auto s = f();
      eqp<2>(s.value(1, 1), Q.back(), "last");
      eqp<2>(s.value(1, 0), Q[n / nv - 1], "end of first row");
    } else
      sym::throws(f, "refused");
  });
  sym::add("refuse.cstr", [] {
    int w = sym::choose("case", 0, 7);
    auto mk = [&](size_t n) {
      std::vector<bss_constraint<double, 1>> Q;
      for (size_t i = 0; i < n; ++i) Q.push_back({double(i % 3) / 2, double(i / 3) / 2, P<1>{double(i)}, 0, 0});
      return Q;
    };
    std::array<double, 4> b{0, 1, 0, 1};
    auto Q = mk(9);
    if (w < 4) {
      double e = sym::real("e", 1e-6, 2);
      if (w == 0) std::get<0>(Q[4]) = 0 - e;
      if (w == 1) std::get<0>(Q[4]) = 1 + e;
      if (w == 2) std::get<1>(Q[4]) = 0 - e;
      if (w == 3) std::get<1>(Q[4]) = 1 + e;
      sym::throws_as<std::invalid_argument>([&] { interpolate<double, 1>(Q, 3, 2, 2, b); }, "out of bounds");
    }
    if (w == 4) sym::throws([&] { interpolate<double, 1>(mk(8), 3, 1, 1, b); }, "not a grid");
    if (w == 5) sym::throws([&] { interpolate<double, 1>(mk(9), 3, 3, 1, b); }, "too few for degree u");
    if (w == 6) sym::throws([&] { interpolate<double, 1>(mk(9), 3, 1, 4, b); }, "too few for degree v");
    if (w == 7) {
      std::get<0>(Q[4]) = 0, std::get<1>(Q[4]) = 0; // same place twice
      sym::throws([&] { interpolate<double, 1>(Q, 3, 2, 2, b); }, "conflicting");
    }
  });
}
