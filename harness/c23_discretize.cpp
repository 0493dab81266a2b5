// C23: discretisations of curves and surfaces.
#include "common.h"
#include <algorithm>
#include <list>
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
#include <gbs/curvetrimmed.h>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
using namespace gbs;
// constants are exact rationals in the engine: round them where the oracle only needs doubles
static double rnd(double x) { return __sym_is_symbolic(x) ? x : __sym_witness(x); }
template <size_t D> static P<D> rnd_(P<D> a) {
  for (auto &x : a) x = rnd(x);
  return a;
}
static int pick(const char *n, int k) { return sym::choose(n, 0, k - 1); }
template <class F> static bool thr(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
static double cr_(const P<2> &a, const P<2> &b) { return std::fabs(a[0] * b[1] - a[1] * b[0]); }
static double cr_(const P<3> &a, const P<3> &b) {
  double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
  return std::sqrt(x * x + y * y + z * z);
}
template <size_t D> static double nr_(const P<D> &a) {
  double s = 0;
  for (auto x : a) s = rnd(s + x * x);
  return std::sqrt(s);
}
template <size_t D> static P<D> sub_(P<D> a, const P<D> &b) {
  for (size_t i = 0; i < D; ++i) a[i] -= b[i];
  return a;
}
// sine of the angle between the chord and the direction to the middle parameter; -1 where the chord has no direction
template <size_t D, class F> static double sine(F &&f, double a, double b) {
  P<D> p0 = f(a), v1 = sub_<D>(f(0.5 * (a + b)), p0), v2 = sub_<D>(f(b), p0);
  double n = nr_<D>(v1) * nr_<D>(v2);
  if (n < 1e-9) return nr_<D>(v1) > 1e-7 ? -1. : 0.;
  return cr_(v1, v2) / n;
}
// what a deviation driven parameter list has to satisfy; f: concrete oracle of the geometry
template <size_t D, class F> static void dev_list(const std::list<double> &l, double a, double b, size_t n, const V &knots, double dev, size_t nmax, F &&f, bool closed_ok) {
  V u(l.begin(), l.end());
  sym::check(u.size() >= n, "at least the requested points");
  size_t hard = n;
  auto has = [&](double x) { return std::any_of(u.begin(), u.end(), [&](double y) { return std::fabs(x - y) < 1e-9; }); };
  for (size_t i = 0; i < n; ++i) sym::check(has(a + (b - a) * double(i) / double(n - 1)), "requested points kept");
  V hk;
  for (auto k : knots)
    if (k > a && k < b) {
      bool dup = std::any_of(hk.begin(), hk.end(), [&](double x) { return x == k; });
      if (!dup) {
        hk.push_back(k);
        sym::check(has(k), "interior knots kept");
      }
    }
  hard += hk.size();
  sym::eq(u.front(), a, "first", 0);
  sym::eq(u.back(), b, "last", 1e-12);
  bool inc = true;
  for (size_t i = 0; i + 1 < u.size(); ++i) inc = inc && u[i] < u[i + 1];
  sym::check(inc, "strictly increasing");
  sym::check(u.size() <= std::max(nmax, hard), "at most the requested maximum");
  if (u.size() >= nmax) return;
  for (size_t i = 0; i + 1 < u.size(); ++i) {
    if (u[i + 1] - u[i] < 1e-9) continue;
    double s = sine<D>(f, u[i], u[i + 1]);
    if (s < 0) sym::check(closed_ok, "closed arc is refined");
    else sym::le(s, dev, "deviation respected", 1e-9);
  }
}
// length by a fine polyline
template <size_t D, class F> static double length_(F &&f, double a, double b) {
  double s = 0;
  P<D> p = rnd_<D>(f(a));
  for (int i = 1; i <= 200; ++i) {
    P<D> q = rnd_<D>(f(rnd(a + (b - a) * i / 200.)));
    s = rnd(s + nr_<D>(sub_<D>(q, p)));
    p = q;
  }
  return s;
}
template <size_t D> struct Geo {
  const char *n;
  int p;
  V k;
  PV<D> P_;
};
static std::vector<Geo<2>> geos() {
  return {
      {"arc", 2, {0, 0, 0, 1, 1, 1}, {{0, 0}, {2, 4}, {6, 0}}},
      {"wave", 3, {1, 1, 1, 1, 2.25, 3, 3, 3, 3}, {{0, 0}, {1, 3}, {3, -3}, {4, 2}, {6, 0}}},
      {"corner", 1, {0, 0, 0.3, 1, 1}, {{0, 0}, {4, 0}, {4, 3}}},
      {"closed", 2, {0, 0, 0, 0.5, 0.5, 1, 1, 1}, {{0, 0}, {4, 0}, {4, 3}, {0, 3}, {0, 0}}},
      {"loop", 3, {-1, -1, -1, -1, 2, 2, 2, 2}, {{0, 0}, {5, 1}, {1, 5}, {0, 0}}},
      {"line", 2, {0, 0, 0, 2, 2, 2}, {{0, 0}, {1, 1}, {4, 4}}},
  };
}
template <size_t D> static PV<D> moved(PV<D> p, const P<D> &t) {
  for (auto &x : p)
    for (size_t d = 0; d < D; ++d) x[d] += t[d];
  return p;
}
static P<2> shift2() { return {sym::real("tx", -8, 8), sym::real("ty", -8, 8)}; }

void sym_register() {
  // ---- surfaces on a grid -------------------------------------------------
  for (auto [nu, nv] : {std::pair<size_t, size_t>{2, 2}, {3, 2}, {2, 4}, {5, 3}, {4, 6}})
    for (int kind = 0; kind < 4; ++kind)
      sym::add("grid." + S_(kind) + "." + S_(nu) + "x" + S_(nv), [=, nu = nu, nv = nv] {
        int p = kind % 2 ? 3 : 1, q = kind >= 2 ? 2 : 1;
        V ku = clamped(p, {}, -1., 3.), kv = q == 2 ? clamped(q, {{2.5, 1}}, 2., 3.) : clamped(q, {}, 2., 3.);
        size_t n = (ku.size() - p - 1) * (kv.size() - q - 1);
        auto check = [&](const Surface<double, 3> &s, auto &&ref) {
          auto pts = discretize(s, nu, nv);
          sym::check(pts.size() == nu * nv, "grid.size");
          for (size_t j = 0; j < nv; ++j)
            for (size_t i = 0; i < nu; ++i) {
              double u = -1. + 4. * double(i) / double(nu - 1), v = 2. + double(j) / double(nv - 1);
              eqp<3>(pts[i + nu * j], ref(u, v), "grid.point");
            }
        };
        if (kind == 3) {
          PV<3> x = concPoles<3>(n);
          P<3> t{sym::real("tx", -8, 8), sym::real("ty", -8, 8), sym::real("tz", -8, 8)};
          x = moved<3>(x, t);
          auto H = homog<3>(x, concWeights(n));
          BSSurfaceRational<double, 3> s(H, ku, kv, p, q);
          check(s, [&](double u, double v) { return rsrf_ref<3>(u, v, ku, kv, H, p, q); });
        } else {
          auto poles = symPoles<3>("P", n);
          BSSurface<double, 3> s(poles, ku, kv, p, q);
          check(s, [&](double u, double v) { return srf_ref<3>(u, v, ku, kv, poles, p, q); });
        }
      });
  sym::add("grid.large", [] { // past the parallel threshold
    V ku = clamped(1, {}), kv = clamped(1, {});
    auto poles = symPoles<3>("P", 4);
    BSSurface<double, 3> s(poles, ku, kv, 1, 1);
    size_t nu = 41, nv = 33;
    auto pts = discretize(s, nu, nv);
    sym::check(pts.size() == nu * nv, "grid.size");
    for (size_t k = 0; k < nu * nv; k += 37) eqp<3>(pts[k], srf_ref<3>(double(k % nu) / double(nu - 1), double(k / nu) / double(nv - 1), ku, kv, poles, 1, 1), "grid.point");
  });
  sym::add("grid.reject", [] {
    size_t nu = pick("nu", 4), nv = pick("nv", 4);
    V ku = clamped(1, {}), kv = clamped(1, {});
    BSSurface<double, 3> s(symPoles<3>("P", 4), ku, kv, 1, 1);
    bool th = thr([&] { discretize(s, nu, nv); });
    sym::check(th == (nu < 2 || nv < 2), "fewer than two points per direction refused");
  });
  // ---- points at given parameters ----------------------------------------
  for (int p = 1; p <= 3; ++p)
    for (int d = 0; d <= 2; ++d)
      sym::add("points.p" + S_(p) + ".d" + S_(d), [=] {
        V k = clamped(p, {{0.5, 1}});
        auto poles = symPoles<3>("P", k.size() - p - 1);
        BSCurve<double, 3> c(poles, k, p);
        double ua = sym::real("ua", 0, 1), ub = sym::real("ub", 0, 0.5);
        V u{0.25, ua, ub, 1., 0., ua};
        std::list<double> l(u.begin(), u.end());
        auto a = make_points(c, u, size_t(d)), b = make_points(c, l, size_t(d));
        sym::check(a.size() == u.size() && b.size() == u.size(), "points.size");
        for (size_t i = 0; i < u.size(); ++i) {
          auto r = bs_ref<3>(u[i], k, poles, p, d);
          eqp<3>(a[i], r, "points.vector");
          eqp<3>(b[i], r, "points.list");
        }
      });
  sym::add("points.outside", [] {
    V k = clamped(2, {}, 0., 2.);
    BSCurve<double, 2> c(symPoles<2>("P", 3), k, 2);
    double e = sym::real("e", 0.0625, 3);
    bool left = pick("left", 2);
    V u{0.5, left ? -e : 2. + e, 1.};
    sym::check(thr([&] { make_points(c, u); }), "points outside refused");
  });
  sym::add("points.empty", [] {
    BSCurve<double, 2> c(symPoles<2>("P", 3), clamped(2, {}), 2);
    sym::check(make_points(c, V{}).empty(), "points.empty");
  });
  // ---- deviation driven ---------------------------------------------------
  for (auto &g : geos())
    for (size_t n : {2, 3, 5})
      for (size_t nmax : {6, 14}) {
        sym::add(std::string("dev.") + g.n + ".n" + S_(n) + ".m" + S_(nmax), [=] {
          auto t = shift2();
          double dev = sym::real("dev", 0.03125, 0.9375);
          BSCurve<double, 2> c(moved<2>(g.P_, t), g.k, g.p);
          auto f = [&](double u) { return bs_ref<2>(u, g.k, g.P_, g.p); };
          auto [pts, us] = discretize_with_params(c, n, dev, nmax);
          std::list<double> l(us.begin(), us.end());
          dev_list<2>(l, g.k.front(), g.k.back(), n, g.k, dev, nmax, f, false);
          sym::check(pts.size() == us.size(), "with params sizes");
          for (size_t i = 0; i < std::min(pts.size(), us.size()); ++i) eqp<2>(pts[i], bs_ref<2>(us[i], g.k, c.poles(), g.p), "with params point");
        });
      }
  for (auto &g : geos())
    sym::add(std::string("dev.same.") + g.n, [=] { // the overloads agree
      auto t = shift2();
      double dev = 0.0625 * double(1 + pick("dev", 6));
      BSCurve<double, 2> c(moved<2>(g.P_, t), g.k, g.p);
      auto l = deviation_based_params<double, 2>(c, 3, dev, 20);
      auto l2 = deviation_based_params<double, 2>(c, g.k.front(), g.k.back(), 3, dev, 20);
      auto pts = discretize<double, 2>(c, 3, dev, 20);
      sym::check(l.size() == l2.size() && pts.size() == l.size(), "same.size");
      auto i1 = l.begin(), i2 = l2.begin();
      for (size_t i = 0; i < pts.size(); ++i, ++i1, ++i2) {
        sym::eq(*i1, *i2, "same.param", 0);
        eqp<2>(pts[i], bs_ref<2>(*i1, g.k, c.poles(), g.p), "same.point");
      }
    });
  for (auto &g : geos())
    sym::add(std::string("dev.part.") + g.n, [=] { // a part of the curve, ends symbolic in position only by choice
      auto t = shift2();
      double L = g.k.back() - g.k.front();
      double a = g.k.front() + L * 0.125 * double(pick("a", 3)), b = g.k.back() - L * 0.125 * double(pick("b", 3));
      double dev = sym::real("dev", 0.0625, 0.9375);
      BSCurve<double, 2> c(moved<2>(g.P_, t), g.k, g.p);
      auto f = [&](double u) { return bs_ref<2>(u, g.k, g.P_, g.p); };
      dev_list<2>(deviation_based_params<double, 2>(c, a, b, 3, dev, 12), a, b, 3, g.k, dev, 12, f, false);
    });
  sym::add("dev.rational", [] {
    auto t = shift2();
    double dev = sym::real("dev", 0.03125, 0.9375);
    V k{0, 0, 0, 0.375, 0.375, 1, 1, 1}, w{1, 0.75, 1, 2, 1};
    PV<2> x{{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}};
    auto H0 = homog<2>(x, w), H = homog<2>(moved<2>(x, t), w);
    BSCurveRational<double, 2> c(H, k, 2);
    auto f = [&](double u) { return rat_ref<2>(u, k, H0, 2); };
    dev_list<2>(deviation_based_params<double, 2>(c, 2, dev, 12), 0, 1, 2, k, dev, 12, f, false);
  });
  sym::add("dev.trimmed", [] { // not a B-spline type: uniform points only
    auto g = geos()[1];
    auto t = shift2();
    double dev = sym::real("dev", 0.03125, 0.9375);
    auto c = std::make_shared<BSCurve<double, 2>>(moved<2>(g.P_, t), g.k, g.p);
    CurveTrimmed<double, 2> ct(c, 1.5, 2.75);
    auto f = [&](double u) { return bs_ref<2>(u, g.k, g.P_, g.p); };
    dev_list<2>(deviation_based_params<double, 2>(ct, 2, dev, 12), 1.5, 2.75, 2, {}, dev, 12, f, false);
  });
  for (size_t D : {3})
    for (size_t n : {2, 3})
      sym::add("dev.3d.n" + S_(n), [=] {
        P<3> t{sym::real("tx", -8, 8), sym::real("ty", -8, 8), sym::real("tz", -8, 8)};
        double dev = sym::real("dev", 0.03125, 0.9375);
        V k = clamped(3, {{0.25, 1}, {0.75, 2}});
        PV<3> x{{0, 0, 0}, {1, 2, 0}, {2, 0, 2}, {3, -2, 1}, {4, 0, 3}, {5, 3, 0}, {6, 1, 1}};
        BSCurve<double, 3> c(moved<3>(x, t), k, 3);
        auto f = [&](double u) { return bs_ref<3>(u, k, x, 3); };
        dev_list<3>(deviation_based_params<double, 3>(c, n, dev, 16), 0, 1, n, k, dev, 16, f, false);
      });
  sym::add("dev.shape", [] { // symbolic apex of an arc: refined exactly when too high
    double h = sym::real("h", 0, 4), dev = sym::real("dev", 0.0625, 0.875);
    V k = clamped(2, {});
    PV<2> x{{0, 0}, {2, h}, {4, 0}};
    BSCurve<double, 2> c(x, k, 2);
    auto l = deviation_based_params<double, 2>(c, 2, dev, 3);
    // middle point (2,h/2): sine = (h/2)/sqrt(4+h^2/4)
    sym::check(l.size() == 2 || l.size() == 3, "shape.size");
    double s2 = h * h / 4., lim = dev * dev * (4. + h * h / 4.);
    if (l.size() == 2) sym::le(s2, lim, "shape.flat enough", 1e-7);
    else sym::le(lim, s2, "shape.refined only when needed", 1e-7);
  });
  sym::add("dev.count", [] {
    size_t n = pick("n", 4), nmax = pick("m", 5);
    auto g = geos()[0];
    BSCurve<double, 2> c(moved<2>(g.P_, shift2()), g.k, g.p);
    bool th = thr([&] { deviation_based_params<double, 2>(c, n, 0.125, nmax); });
    sym::check(th == (n < 2), "count.refused");
    bool th2 = thr([&] { discretize<double, 2>(c, n, 0.125, nmax); });
    sym::check(th2 == (n < 2), "count.discretize refused");
    if (n >= 2) {
      auto l = deviation_based_params<double, 2>(c, n, 0.125, nmax);
      sym::check(l.size() <= std::max(n, nmax), "count.max");
      sym::check(l.size() >= n, "count.min");
    }
  });
  // ---- surface isoparametric lines ----------------------------------------
  for (int dir = 0; dir < 2; ++dir)
    for (size_t n : {2, 3})
      for (size_t nmax : {5, 12})
        sym::add("iso." + S_(dir) + ".n" + S_(n) + ".m" + S_(nmax), [=] {
          P<3> t{sym::real("tx", -8, 8), sym::real("ty", -8, 8), sym::real("tz", -8, 8)};
          double dev = sym::real("dev", 0.03125, 0.9375);
          V ku = clamped(2, {{1., 1}}, 0., 2.), kv = clamped(2, {}, -1., 1.);
          PV<3> x;
          for (int j = 0; j < 3; ++j)
            for (int i = 0; i < 4; ++i) x.push_back({double(2 * i), double(3 * j), double((i * 5 + j * 7) % 6)});
          BSSurface<double, 3> s(moved<3>(x, t), ku, kv, 2, 2);
          double o = dir ? 0.75 : 0.25;
          if (dir == 0) {
            auto f = [&](double u) { return srf_ref<3>(u, o, ku, kv, x, 2, 2); };
            dev_list<3>(deviation_based_u_params<double, 3>(s, 0., 2., o, n, dev, nmax), 0, 2, n, {}, dev, nmax, f, true);
          } else {
            auto f = [&](double v) { return srf_ref<3>(o, v, ku, kv, x, 2, 2); };
            dev_list<3>(deviation_based_v_params<double, 3>(s, -1., 1., o, n, dev, nmax), -1, 1, n, {}, dev, nmax, f, true);
          }
        });
  sym::add("iso.count", [] {
    size_t n = pick("n", 4), nmax = pick("m", 6);
    bool dir = pick("dir", 2);
    V ku = clamped(2, {}), kv = clamped(1, {});
    P<3> t{sym::real("tx", -8, 8), 0, 0};
    PV<3> x{{0, 0, 0}, {1, 0, 3}, {2, 0, 0}, {0, 2, 0}, {1, 3, 3}, {2, 2, 1}};
    BSSurface<double, 3> s(moved<3>(x, t), ku, kv, 2, 1);
    std::list<double> l;
    bool th = thr([&] { l = dir ? deviation_based_u_params<double, 3>(s, 0., 1., 0.5, n, 0.0625, nmax) : deviation_based_v_params<double, 3>(s, 0., 1., 0.5, n, 0.0625, nmax); });
    sym::check(th == (n < 2), "iso.refused");
    if (!th) sym::check(l.size() >= n && l.size() <= std::max(n, nmax), "iso.count");
  });
  // ---- equally spaced along the curve -------------------------------------
  for (size_t n = 2; n <= 6; ++n)
    sym::add("uniform.segment.n" + S_(n), [=] {
      double a = sym::real("a", -4, 4), L = sym::real("L", 1, 8);
      BSCurve<double, 1> c(PV<1>{{a}, {a + L}}, V{0, 0, 2, 2}, 1);
      auto l = uniform_distrib_params<double, 1>(c, 0., 2., n, 2);
      sym::check(l.size() == n, "uniform.size");
      size_t i = 0;
      for (auto u : l) sym::eq(u, 2. * double(i++) / double(n - 1), "uniform.param", 1e-7);
    });
  for (auto &g : geos())
    for (size_t n : {2, 5, 9}) {
      if (std::string(g.n) == "corner" || std::string(g.n) == "closed") continue; // the arc-length law is smooth
      sym::add(std::string("uniform.") + g.n + ".n" + S_(n), [=] {
        auto t = shift2();
        auto P_ = moved<2>(g.P_, t);
        BSCurve<double, 2> c(P_, g.k, g.p);
        auto l = uniform_distrib_params<double, 2>(c, n, 40);
        V u(l.begin(), l.end());
        sym::check(u.size() == n, "uniform.size");
        sym::eq(u.front(), g.k.front(), "uniform.first", 0);
        sym::eq(u.back(), g.k.back(), "uniform.last", 0);
        auto len = [&](double a, double b) { return rnd(length_<2>([&](double x) { return bs_ref<2>(x, g.k, g.P_, g.p); }, rnd(a), rnd(b))); };
        double tot = len(g.k.front(), g.k.back());
        for (size_t i = 0; i + 1 < n; ++i) {
          sym::check(u[i] < u[i + 1], "uniform.increasing");
          sym::eq(len(u[i], u[i + 1]), tot / double(n - 1), "uniform.spacing", 0.03);
        }
        auto pts = discretize(c, n);
        auto l30 = uniform_distrib_params<double, 2>(c, n);
        V u30(l30.begin(), l30.end());
        sym::check(pts.size() == n && u30.size() == n, "uniform.points");
        for (size_t i = 0; i < n; ++i) eqp<2>(pts[i], bs_ref<2>(u30[i], g.k, P_, g.p), "uniform.point");
      });
    }
  sym::add("uniform.count", [] {
    size_t n = pick("n", 5);
    BSCurve<double, 1> c(PV<1>{{sym::real("a", -4, 4)}, {5.}}, V{0, 0, 2, 2}, 1);
    bool th = thr([&] { uniform_distrib_params<double, 1>(c, 0., 2., n, 2); });
    sym::check(th == (n < 2), "uniform.refused");
  });
  // ---- adaptive arc length -------------------------------------------------
  for (size_t n : {2, 3, 5})
    for (int e : {3, 6, 9})
      for (auto &g : geos()) {
        if (std::string(g.n) == "closed" || std::string(g.n) == "loop" || (e == 9 && std::string(g.n) == "corner")) continue;
        sym::add(std::string("adaptive.") + g.n + ".n" + S_(n) + ".t" + S_(e), [=] {
          auto t = shift2();
          BSCurve<double, 2> c(moved<2>(g.P_, t), g.k, g.p);
          auto [u, m] = abs_curv_adaptive_discretzation<double, 2, 15>(c, g.k.front(), g.k.back(), n, 3, e == 3 ? 1e-3 : e == 6 ? 1e-6 : 1e-9);
          sym::check(u.size() == m.size() && u.size() >= n, "adaptive.size");
          sym::eq(u.front(), g.k.front(), "adaptive.first", 0);
          sym::eq(u.back(), g.k.back(), "adaptive.last", 0);
          sym::eq(m.front(), 0., "adaptive.zero", 0);
          for (size_t i = 0; i + 1 < u.size(); ++i) {
            sym::check(u[i] < u[i + 1], "adaptive.increasing");
            double s = length_<2>([&](double x) { return bs_ref<2>(x, g.k, g.P_, g.p); }, u[i], u[i + 1]);
            sym::eq(m[i + 1] - m[i], s, "adaptive.length", 5e-3);
          }
        });
      }

}
