// C08: interpolated curves satisfy every imposed point and derivative.
#include "common.h"
#include <gbs/bscinterp.h>
#include <gbs/bsctools.h>
using namespace gbs;
// strictly increasing non uniform parameters in [a,b]
static V params(size_t n, double a = 0., double b = 1.) {
  V u(n);
  double s = 0;
  for (size_t i = 0; i < n; ++i) {
    u[i] = s;
    s += 1. + 0.375 * double((i * 5 + 1) % 4);
  }
  double L = u.back();
  for (auto &x : u) x = a + (b - a) * (x / L);
  u.back() = b;
  return u;
}
template <class C> static void sane(const C &c, size_t p, size_t n, double a, double b, const std::string &l) {
  sym::check(c.degree() == p, l + ".degree");
  sym::check(c.poles().size() == n && c.knotsFlats().size() == n + p + 1, l + ".counts");
  auto &k = c.knotsFlats();
  for (size_t i = 0; i + 1 < k.size(); ++i) sym::le(k[i], k[i + 1], l + ".sorted");
  for (size_t i = 0; i <= p; ++i) sym::eq(k[i], a, l + ".k0"), sym::eq(k[k.size() - 1 - i], b, l + ".k1");
  sym::eq(c.bounds()[0], a, l + ".b0");
  sym::eq(c.bounds()[1], b, l + ".b1");
}
// the curve takes the imposed values, by the definition of its own knots and poles
template <size_t D> static void hits(const BSCurve<double, D> &c, double u, size_t d, const P<D> &v, const std::string &l, double tol = 1e-6) {
  auto &k = c.knotsFlats();
  double uu = u > k.back() ? k.back() : u < k.front() ? k.front() : u;
  eqp<D>(bs_ref<D>(uu, k, c.poles(), (int)c.degree(), (int)d), v, l, tol);
}
template <size_t D> static void points(size_t n, size_t p, double a, double b) {
  auto Q = symPoles<D>("Q", n);
  V u = params(n, a, b);
  auto c = interpolate<double, D>(Q, u, p);
  sane(c, p, n, a, b, "pts");
  for (size_t i = 0; i < n; ++i) hits<D>(c, u[i], 0, Q[i], "point");
}
template <size_t nc, size_t D> static void hermite(size_t n, double a, double b, bool comp) {
  std::vector<constrType<double, D, nc>> Q(n);
  for (size_t i = 0; i < n; ++i)
    for (size_t c = 0; c < nc; ++c)
      for (size_t d = 0; d < D; ++d) Q[i][c][d] = sym::real("Q" + S_(i) + "_" + S_(c) + "_" + S_(d), -10, 10);
  V u = params(n, a, b);
  auto c = interpolate<double, D, nc>(Q, u, comp);
  size_t N = nc + comp;
  sane(c, 2 * N - 1, n * N, a, b, "herm");
  for (size_t i = 0; i < n; ++i)
    for (size_t d = 0; d < nc; ++d) hits<D>(c, u[i], d, Q[i][d], "order" + S_(d), d > 1 ? 1e-4 : 1e-6);
}
struct Cs { double u; size_t d; };
static void general(std::vector<Cs> cs, V k, size_t p, bool shuffled) {
  if (shuffled) { // parameters anywhere
    for (auto &c : cs) c.u -= 2.5;
    for (auto &x : k) x -= 2.5;
  }
  // build_poles on located constraints, any order
  size_t n = cs.size();
  std::vector<constrPoint<double, 2>> Q;
  for (size_t i = 0; i < n; ++i) {
    P<2> v{sym::real("x" + S_(i), -10, 10), sym::real("y" + S_(i), -10, 10)};
    Q.push_back({v, cs[i].u, cs[i].d});
  }
  if (shuffled) {
    auto R = Q;
    for (size_t i = 0; i < n; ++i) R[(i * 7 + 3) % n] = Q[i];
    if (n % 7) Q = R;
  }
  auto poles = build_poles<double, 2>(Q, k, p);
  sym::check(poles.size() == n, "count");
  for (auto &q : Q) eqp<2>(bs_ref<2>(q.u, k, poles, (int)p, (int)q.d), q.v, "constraint" + S_(q.d), 1e-5);
}
void sym_register() {
  for (size_t p = 1; p <= 5; ++p)
    for (size_t n : {p + 1, p + 2, p + 4, size_t(11)})
      sym::add("points.p" + S_(p) + ".n" + S_(n), [=] { points<2>(n, p, 0, 1); }, p > 3 && n > 9);
  sym::add("points.range", [] { points<1>(6, 3, -2, 5); });
  sym::add("points.p9", [] { points<1>(12, 9, 0, 1); });
  sym::add("points.p12", [] { points<1>(14, 12, 0, 1); }, 1);
  sym::add("points.n40", [] { points<1>(40, 3, 0, 1); });
  sym::add("points.n120", [] { points<1>(120, 3, 0, 1); }, 1);
  sym::add("points.3d", [] { points<3>(5, 2, 1, 4); });
  // one symbolic interior parameter (value away from its neighbours)
  for (size_t p = 1; p <= 2; ++p)
    sym::add("points.symu.p" + S_(p), [=] {
      auto Q = symPoles<1>("Q", 4);
      double t = sym::real("t", 0.1, 0.7);
      V u{0, t, 0.8, 1};
      auto c = interpolate<double, 1>(Q, u, p);
      for (size_t i = 0; i < 4; ++i) eqp<1>(c(u[i]), Q[i], "point", 1e-6);
    });
  for (int comp = 0; comp <= 1; ++comp) {
    std::string s = comp ? ".comp" : "";
    for (size_t n : {2, 3, 4, 7}) {
      if (comp && n < 3) continue;
      sym::add("hermite.nc1.n" + S_(n) + s, [=] { hermite<1, 2>(n, 0, 1, comp); });
      sym::add("hermite.nc2.n" + S_(n) + s, [=] { hermite<2, 2>(n, -1, 3, comp); });
      sym::add("hermite.nc3.n" + S_(n) + s, [=] { hermite<3, 1>(n, 0, 2, comp); }, comp && n > 4);
    }
    sym::add("hermite.nc4.n3" + s, [=] { hermite<4, 1>(3, 0, 1, comp); });
  }
  sym::add("hermite.nc2.n60", [] { hermite<2, 1>(60, 0, 10, false); }, 1);
  // parametrised by the points: concrete points, every mode; values hit at the curve's own parameters
  for (int mode = 0; mode < 3; ++mode) {
    auto md = mode == 0 ? KnotsCalcMode::EQUALLY_SPACED : mode == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL;
    std::string ms = ".m" + S_(mode);
    sym::add("mode.points" + ms, [=] {
      size_t n = 5, p = (size_t)sym::choose("p", 1, 4);
      auto Q = concPoles<2>(n);
      double s = sym::real("s", 0.5, 2);
      if (mode == 0) Q = symPoles<2>("Q", n);
      (void)s;
      auto c = interpolate<double, 2>(Q, p, md);
      sane(c, p, n, 0, 1, "mode");
      // reference parametrisation
      V u(n, 0.);
      for (size_t i = 1; i < n; ++i) {
        double dx = Q[i][0] - Q[i - 1][0], dy = Q[i][1] - Q[i - 1][1];
        double L = mode == 0 ? 1. : std::sqrt(dx * dx + dy * dy);
        if (mode == 2) L = std::sqrt(L);
        u[i] = u[i - 1] + L;
      }
      for (size_t i = 0; i < n; ++i) u[i] = i + 1 == n ? 1. : u[i] / u[n - 1];
      for (size_t i = 0; i < n; ++i) hits<2>(c, u[i], 0, Q[i], "point");
      // batch building gives the same curves
      auto R = concPoles<2>(n, 4);
      std::vector<points_vector<double, 2>> lst{Q, R, Q};
      auto cs = interpolate<double, 2>(lst, p, md);
      sym::check(cs.size() == 3, "batch size");
      for (size_t i = 0; i < n; ++i) {
        eqp<2>(cs[0].poles()[i], c.poles()[i], "batch0", 1e-9);
        eqp<2>(cs[2].poles()[i], c.poles()[i], "batch2", 1e-9);
      }
      auto c1 = interpolate<double, 2>(R, p, md);
      for (size_t i = 0; i < n; ++i) eqp<2>(cs[1].poles()[i], c1.poles()[i], "batch1", 1e-9);
      sym::eqv(cs[1].knotsFlats(), c1.knotsFlats(), "batch knots");
    });
    sym::add("mode.hermite" + ms, [=] {
      size_t n = 4;
      auto X = mode == 0 ? symPoles<2>("Q", n) : concPoles<2>(n);
      auto T = symPoles<2>("T", n);
      std::vector<constrType<double, 2, 2>> Q(n);
      for (size_t i = 0; i < n; ++i) Q[i] = {X[i], T[i]};
      auto c = interpolate<double, 2, 2>(Q, md);
      V u(n, 0.);
      for (size_t i = 1; i < n; ++i) {
        double dx = X[i][0] - X[i - 1][0], dy = X[i][1] - X[i - 1][1];
        double L = mode == 0 ? 1. / double(n - 1) : std::sqrt(dx * dx + dy * dy);
        if (mode == 2) L = std::sqrt(L);
        u[i] = u[i - 1] + L;
      }
      sane(c, 3, 2 * n, 0, u.back(), "mh");
      for (size_t i = 0; i < n; ++i) hits<2>(c, u[i], 0, X[i], "point"), hits<2>(c, u[i], 1, T[i], "tangent");
    });
  }
  sym::add("batch.many", [] { // above the parallel threshold
    std::vector<points_vector<double, 1>> lst;
    for (size_t j = 0; j < 11; ++j) lst.push_back(symPoles<1>("Q" + S_(j) + "_", 4));
    auto cs = interpolate<double, 1>(lst, 2, KnotsCalcMode::EQUALLY_SPACED);
    sym::check(cs.size() == lst.size(), "size");
    for (size_t j = 0; j < lst.size(); ++j)
      for (size_t i = 0; i < 4; ++i) hits<1>(cs[j], double(i) / 3., 0, lst[j][i], "curve");
  });
  sym::add("batch.cols", [] {
    V u = params(5), k = build_simple_mult_flat_knots<double>(u, 3);
    std::vector<std::vector<constrType<double, 2, 1>>> cols(3, std::vector<constrType<double, 2, 1>>(5));
    for (size_t c = 0; c < 3; ++c)
      for (size_t i = 0; i < 5; ++i) cols[c][i] = {P<2>{sym::real("x" + S_(c) + S_(i), -10, 10), sym::real("y" + S_(c) + S_(i), -10, 10)}};
    auto all = build_poles<double, 2, 1>(cols, k, u, 3);
    sym::check(all.size() == 15, "size");
    for (size_t c = 0; c < 3; ++c) {
      PV<2> pl(all.begin() + 5 * c, all.begin() + 5 * c + 5);
      for (size_t i = 0; i < 5; ++i) eqp<2>(bs_ref<2>(u[i], k, pl, 3), cols[c][i][0], "col");
    }
  });
  sym::add("batch.cols.hermite", [] {
    V u = params(3), k = clamped(3, {{u[1], 2}});
    std::vector<std::vector<constrType<double, 2, 2>>> cols(2, std::vector<constrType<double, 2, 2>>(3));
    for (size_t c = 0; c < 2; ++c)
      for (size_t i = 0; i < 3; ++i)
        for (size_t o = 0; o < 2; ++o) cols[c][i][o] = P<2>{sym::real("x" + S_(c) + S_(i) + S_(o), -10, 10), sym::real("y" + S_(c) + S_(i) + S_(o), -10, 10)};
    auto all = build_poles<double, 2, 2>(cols, k, u, 3);
    sym::check(all.size() == 12, "size");
    for (size_t c = 0; c < 2; ++c) {
      PV<2> pl(all.begin() + 6 * c, all.begin() + 6 * c + 6);
      for (size_t i = 0; i < 3; ++i)
        for (int o = 0; o < 2; ++o) eqp<2>(bs_ref<2>(u[i], k, pl, 3, o), cols[c][i][o], "col" + S_(o));
    }
  });
  // located constraints of mixed orders, small (dense) and large (band) systems, any order
  for (int sh = 0; sh <= 1; ++sh) {
    std::string s = sh ? ".shuffled" : "";
    sym::add("general.small" + s, [=] { general({{0, 0}, {0, 1}, {0.5, 0}, {0.5, 1}, {1, 0}, {1, 2}}, clamped(3, {{0.4, 1}, {0.6, 1}}), 3, sh); });
    sym::add("general.p2" + s, [=] { general({{0, 0}, {0.25, 0}, {0.75, 1}, {1, 0}, {1, 1}}, clamped(2, {{0.5, 1}, {0.75, 1}}), 2, sh); });
    sym::add("general.p5" + s, [=] { general({{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {1, 2}}, clamped(5, {}), 5, sh); });
    for (size_t n : {15, 24}) {
      sym::add("general.band.n" + S_(n) + s, [=] {
        std::vector<Cs> cs;
        V u = params(n - 2);
        cs.push_back({0, 0}), cs.push_back({0, 1});
        for (size_t i = 1; i + 3 < n; ++i) cs.push_back({u[i], 0});
        cs.push_back({1, 0}), cs.push_back({1, 1});
        V uu{0};
        for (auto x : u) uu.push_back(x);
        uu.push_back(1);
        general(cs, build_simple_mult_flat_knots<double>(uu, 3), 3, sh);
      });
      sym::add("general.band.derivs.n" + S_(n) + s, [=] { // interior tangents as well
        std::vector<Cs> cs;
        size_t m = (n + 1) / 2;
        V u = params(m), uu;
        for (size_t i = 0; i < m; ++i) cs.push_back({u[i], 0}), cs.push_back({u[i], 1}), uu.push_back(u[i]), uu.push_back(u[i]);
        V k = clamped(3, {});
        k.resize(4);
        for (size_t i = 1; i + 1 < m; ++i) k.push_back(u[i]), k.push_back(u[i]);
        for (int i = 0; i < 4; ++i) k.push_back(1);
        general(cs, k, 3, sh);
      });
    }
  }
  sym::add("general.n105", [] {
    std::vector<Cs> cs;
    V u = params(105);
    for (auto x : u) cs.push_back({x, 0});
    general(cs, build_simple_mult_flat_knots<double>(u, 3), 3, true);
  }, 1);
  // end points plus constraints
  struct G { V u; std::vector<size_t> d; size_t p; };
  std::vector<G> gs{{{0, 1}, {1, 1}, 3}, {{0.5}, {0}, 2}, {{0, 0, 1}, {1, 2, 1}, 4}, {{0.25, 0.5, 0.5}, {0, 0, 1}, 3}, {{1, 0.5, 0}, {1, 0, 1}, 3}, {{0, 1, 0.3, 0.6}, {1, 1, 0, 0}, 3}, {{}, {}, 1}};
  for (size_t g = 0; g < gs.size(); ++g)
    sym::add("bounds." + S_(g), [=] {
      auto &G_ = gs[g];
      double a = -1, b = 3;
      bsc_bound<double, 1> B0{a, {sym::real("x0", -10, 10)}}, B1{b, {sym::real("x1", -10, 10)}};
      std::vector<bsc_constraint<double, 1>> cl;
      for (size_t i = 0; i < G_.u.size(); ++i) cl.push_back({a + (b - a) * G_.u[i], P<1>{sym::real("cx" + S_(i), -10, 10)}, G_.d[i]});
      auto c = interpolate<double, 1>(B0, B1, cl, G_.p);
      sane(c, G_.p, cl.size() + 2, a, b, "bounds");
      hits<1>(c, a, 0, B0.second, "begin");
      hits<1>(c, b, 0, B1.second, "end");
      for (auto &[u, v, d] : cl) hits<1>(c, u, d, v, "cstr" + S_(d), 1e-5);
    });
  sym::add("function", [] {
    V q(5), u = params(5);
    for (size_t i = 0; i < 5; ++i) q[i] = sym::real("q" + S_(i), -10, 10);
    for (auto &x : u) x = 3 * x - 2; // in [-2,1]
    auto f = interpolate<double>(q, u, 3);
    for (size_t i = 0; i < 5; ++i) sym::eq(f(u[i]), q[i], "f", 1e-6);
  });
  // three point tangents: exact on parabolas (Bessel)
  sym::add("tangents", [] {
    size_t n = (size_t)sym::choose("n", 3, 6);
    V u = params(n, -1, 2);
    P<2> A{sym::real("ax", -5, 5), sym::real("ay", -5, 5)}, B{sym::real("bx", -5, 5), sym::real("by", -5, 5)}, C{sym::real("cx", -5, 5), sym::real("cy", -5, 5)};
    PV<2> pts(n);
    for (size_t i = 0; i < n; ++i)
      for (int c = 0; c < 2; ++c) pts[i][c] = A[c] + B[c] * u[i] + C[c] * u[i] * u[i];
    auto D = build_3pt_tg_vec<double, 2>(pts, u);
    sym::check(D.size() == n, "size");
    for (size_t i = 0; i < n; ++i)
      for (int c = 0; c < 2; ++c) sym::eq(D[i][c], B[c] + 2 * C[c] * u[i], "bessel");
  });
  // ill posed requests are refused
  sym::add("refuse.points", [] {
    size_t n = (size_t)sym::choose("n", 0, 6), p = (size_t)sym::choose("p", 0, 7), m = (size_t)sym::choose("m", 0, 6);
    auto Q = concPoles<2>(n);
    V u(m);
    for (size_t i = 0; i < m; ++i) u[i] = double(i) / 4;
    bool ok = m == n && p < n && p >= 1;
    if (p == 0) return sym::check(true, "degree 0 not considered");
    if (ok) {
      auto c = interpolate<double, 2>(Q, u, p);
      for (size_t i = 0; i < n; ++i) eqp<2>(c(u[i]), Q[i], "point", 1e-6);
    } else
      sym::throws([&] { interpolate<double, 2>(Q, u, p); }, "refused");
  });
  sym::add("refuse.mode", [] {
    size_t n = (size_t)sym::choose("n", 1, 5), p = (size_t)sym::choose("p", 1, 7);
    int md = sym::choose("mode", 0, 2);
    auto Q = concPoles<2>(n);
    auto f = [&] { return interpolate<double, 2>(Q, p, md == 0 ? KnotsCalcMode::EQUALLY_SPACED : md == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL); };
    if (p < n) {
      auto c = f();
      eqp<2>(c.end(), Q.back(), "end", 1e-6);
    } else
      sym::throws_as<std::domain_error>(f, "refused");
  });
  sym::add("refuse.repeated", [] { // a repeated parameter with degree <= 3 cannot take two points
    size_t p = (size_t)sym::choose("p", 1, 3), i = (size_t)sym::choose("i", 0, 3);
    V u{0, 0.25, 0.5, 0.75, 1};
    u[i] = u[i + 1];
    auto Q = concPoles<2>(5);
    sym::throws([&] { interpolate<double, 2>(Q, u, p); }, "repeated parameter");
  });
  sym::add("refuse.general", [] {
    int w = sym::choose("case", 0, 3);
    bsc_bound<double, 1> B0{0., {1.}}, B1{1., {2.}};
    if (w == 0) sym::throws([&] { interpolate<double, 1>(B0, B1, {}, 2); }, "too few");
    if (w == 1) sym::throws([&] { interpolate<double, 1>(B0, B1, {{0.5, {3.}, 0}, {0.5, {4.}, 0}}, 3); }, "conflicting");
    if (w == 2) sym::throws([&] { interpolate<double, 1>(B0, B1, {{0.5, {3.}, 4}, {0.25, {4.}, 0}}, 3); }, "order above degree");
    if (w == 3) sym::throws([&] { build_poles<double, 1>(std::vector<constrPoint<double, 1>>{{{1.}, 0., 0}, {{1.}, 0.5, 0}}, clamped(2, {}), 2); }, "count");
  });
}
