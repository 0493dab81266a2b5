// C13: segments, circles, ellipses, lines and surfaces of revolution are exact.
#include "common.h"
#include <gbs/bscbuild.h>
#include <gbs/curvecircle.h>
#include <gbs/curveline.h>
#include <gbs/surfaceofrevolution.h>
using namespace gbs;
template <size_t D> static double dot_(const P<D> &a, const P<D> &b) {
  double s = 0;
  for (size_t i = 0; i < D; ++i) s += a[i] * b[i];
  return s;
}
static P<3> cr(const P<3> &a, const P<3> &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
template <size_t D> static P<D> symPt(const std::string &n, double lo = -10, double hi = 10) {
  P<D> r;
  for (size_t i = 0; i < D; ++i) r[i] = sym::real(n + S_(i), lo, hi);
  return r;
}
static P<3> mulv(const P<3> &a, double k) { return {a[0] * k, a[1] * k, a[2] * k}; }
static P<3> unit(const P<3> &v) { return mulv(v, 1. / std::sqrt(dot_<3>(v, v))); }
template <size_t D> static void segment_case() {
  auto a = symPt<D>("a"), b = symPt<D>("b");
  double n2 = 0;
  for (size_t i = 0; i < D; ++i) n2 += (a[i] - b[i]) * (a[i] - b[i]);
  sym::assume_lt(0.01, n2);
  auto c = build_segment<double, D>(a, b, true);
  double u = sym::real("u", 0, 1);
  sym::eq(c.bounds()[0], 0, "n.b0");
  sym::eq(c.bounds()[1], 1, "n.b1");
  auto x = c.value(u);
  for (size_t i = 0; i < D; ++i) sym::eq(x[i], a[i] + u * (b[i] - a[i]), "n.value");
  auto s = build_segment<double, D>(a, b);
  double L = s.bounds()[1];
  sym::eq(s.bounds()[0], 0, "b0");
  sym::eq(L * L, n2, "b1", 1e-6);
  sym::le(0, L, "b1.positive");
  auto y = s.value(u * L);
  for (size_t i = 0; i < D; ++i) sym::eq(y[i], a[i] + u * (b[i] - a[i]), "value", 1e-6);
  auto d = s.value(u * L, 1);
  double dd = 0;
  for (size_t i = 0; i < D; ++i) dd += d[i] * d[i];
  sym::eq(dd, 1, "unit speed", 1e-6);
  eqp<D>(s.begin(), a, "begin");
  eqp<D>(s.end(), b, "end");
  sym::check(s.degree() == 1 && s.poles().size() == 2, "shape");
}
template <size_t D> static void ellipse_case(bool circ, bool center, bool span) {
  double r1 = sym::real("r1", 0.125, 8), r2 = circ ? r1 : sym::real("r2", 0.125, 8);
  P<D> C{};
  if (center) C = symPt<D>("c");
  auto e = circ ? (center ? build_circle<double, D>(r1, C) : build_circle<double, D>(r1)) : (center ? build_ellipse<double, D>(r1, r2, C) : build_ellipse<double, D>(r1, r2));
  sym::eq(e.bounds()[0], 0, "b0");
  sym::eq(e.bounds()[1], 1, "b1");
  double u = sym::real("u", 0, 1);
  auto x = e.value(u), t = e.value(u, 1);
  double X = (x[0] - C[0]) / r1, Y = (x[1] - C[1]) / r2;
  sym::eq(X * X + Y * Y, 1, "locus", 1e-6);
  for (size_t d = 2; d < D; ++d) sym::eq(x[d], C[d], "plane"), sym::eq(t[d], 0, "plane.der");
  sym::le(1, (X * t[1] / r2 - Y * t[0] / r1), "counterclockwise");
  sym::eq(X * t[0] / r1 + Y * t[1] / r2, 0, "tangent", 1e-6);
  for (int i = 0; i <= 4; ++i) {
    auto q = e.value(0.25 * i);
    sym::eq(q[0], C[0] + r1 * (i % 4 == 0 ? 1 : i == 2 ? -1 : 0), "quadrant.x");
    sym::eq(q[1], C[1] + r2 * (i == 1 ? 1 : i == 3 ? -1 : 0), "quadrant.y");
  }
  // the quarter the point lies in follows from the parameter
  int k = sym::choose("quarter", 0, 3);
  double v = sym::real("v", 0, 1);
  auto z = e.value(0.25 * (k + v));
  double zx = z[0] - C[0], zy = z[1] - C[1];
  sym::le(0, (k == 0 || k == 3) ? zx : -zx, "quarter.x", 1e-9);
  sym::le(0, k < 2 ? zy : -zy, "quarter.y", 1e-9);
  // mirror symmetry of a quarter
  auto w = e.value(0.25 * (k + 1 - v));
  double a = k % 2 ? zy / r2 : zx / r1, b = k % 2 ? (w[0] - C[0]) / r1 : (w[1] - C[1]) / r2;
  sym::eq(a * a, b * b, "quarter.symmetric", 1e-6);
  // continuous first derivative at the joints of a circle (equal weights on both sides)
  (void)span;
}
template <size_t D> static void line_case() {
  auto a = symPt<D>("a"), b = symPt<D>("b");
  double n2 = 0;
  for (size_t i = 0; i < D; ++i) n2 += (a[i] - b[i]) * (a[i] - b[i]);
  sym::assume_lt(0.01, n2);
  double n = std::sqrt(n2), u = sym::real("u", -100, 100);
  for (int ax = 0; ax < 2; ++ax) {
    P<D> dir;
    for (size_t i = 0; i < D; ++i) dir[i] = b[i] - a[i];
    auto l = ax ? Line<double, D>(ax1<double, D>{a, dir}) : Line<double, D>(a, b);
    std::string s = ax ? "ax." : "pts.";
    auto x = l.value(u), y = l.value(n), d1 = l.value(u, 1), d2 = l.value(u, 2), d3 = l.value(u, 3);
    for (size_t i = 0; i < D; ++i) {
      sym::eq((x[i] - a[i]) * n, u * (b[i] - a[i]), s + "value", 1e-5);
      sym::eq(y[i], b[i], s + "second point", 1e-6);
      sym::eq(d1[i] * n, b[i] - a[i], s + "d1", 1e-6);
      sym::eq(d2[i], 0, s + "d2");
      sym::eq(d3[i], 0, s + "d3");
    }
    eqp<D>(l.value(0), a, s + "first point");
    auto B = l.bounds();
    sym::check(B[0] <= -1e100 && B[1] >= 1e100, s + "unbounded");
    auto A = l.getAx();
    for (size_t i = 0; i < D; ++i) sym::eq(A[0][i], a[i], s + "ax0"), sym::eq(A[1][i] * n, b[i] - a[i], s + "ax1", 1e-6);
  }
}
struct Fr { P<3> z, x; };
static std::vector<Fr> frames() { return {{{0, 0, 1}, {1, 0, 0}}, {{1, 0, 0}, {0, 1, 0}}, {{0, 0, -1}, {0, 1, 0}}, {{1, 2, 2}, {2, 1, -2}}, {{-2, 2, -1}, {1, 2, 2}}, {{3, 0, 4}, {0, 2, 0}}, {{0, -1, 0}, {3, 0, -4}}}; }
static void circle3(const Circle3d<double> &c, const P<3> &C, const P<3> &z, double r, const std::string &s) {
  double u = sym::real("u", -7, 7);
  auto x = c.value(u), d1 = c.value(u, 1), d2 = c.value(u, 2), d3 = c.value(u, 3), d4 = c.value(u, 4);
  P<3> q{x[0] - C[0], x[1] - C[1], x[2] - C[2]};
  sym::eq(dot_<3>(q, q), r * r, s + "radius", 1e-5);
  sym::eq(dot_<3>(q, z), 0, s + "plane", 1e-6);
  auto w = cr(z, q);
  for (int i = 0; i < 3; ++i) sym::eq(d1[i], w[i], s + "d1", 1e-6), sym::eq(d2[i], -q[i], s + "d2", 1e-6), sym::eq(d3[i], -w[i], s + "d3", 1e-6), sym::eq(d4[i], q[i], s + "d4", 1e-6);
  sym::eq(c.bounds()[0], 0, s + "b0");
  sym::eq(c.bounds()[1], 2 * M_PI, s + "b1", 1e-9);
  eqp<3>(c.begin(), c.end(), s + "closed", 1e-6);
  sym::eq(c.getR(), r, s + "getR");
  eqp<3>(c.getC(), C, s + "getC");
  // start point and direction of rotation
  auto X = c.getX();
  for (int i = 0; i < 3; ++i) sym::eq(c.begin()[i] - C[i], X[i], s + "start", 1e-6);
  auto Y = cr(z, X);
  for (int i = 0; i < 3; ++i) sym::eq(q[i], std::cos(u) * X[i] + std::sin(u) * Y[i], s + "angle", 1e-6);
}
void sym_register() {
  sym::add("segment.1", [] { segment_case<1>(); });
  sym::add("segment.2", [] { segment_case<2>(); });
  sym::add("segment.3", [] { segment_case<3>(); });
  for (int circ = 0; circ < 2; ++circ)
    for (int cen = 0; cen < 2; ++cen) {
      std::string n = std::string(circ ? "circle" : "ellipse") + (cen ? ".center" : ".origin");
      sym::add(n + ".2d", [=] { ellipse_case<2>(circ, cen, false); });
      sym::add(n + ".3d", [=] { ellipse_case<3>(circ, cen, false); });
    }
  sym::add("line.2d", [] { line_case<2>(); });
  sym::add("line.3d", [] { line_case<3>(); });
  sym::add("circle2d", [] {
    double r = sym::real("r", 0.125, 8), u = sym::real("u", -7, 7);
    auto C = symPt<2>("c");
    Circle2d<double> c(r, C);
    auto go = [&](double rr, const std::string &s) {
      for (int d = 0; d <= 5; ++d) {
        auto x = c.value(u, d);
        double a = std::cos(u), b = std::sin(u);
        double ex = d % 4 == 0 ? a : d % 4 == 1 ? -b : d % 4 == 2 ? -a : b, ey = d % 4 == 0 ? b : d % 4 == 1 ? a : d % 4 == 2 ? -b : -a;
        sym::eq(x[0], rr * ex + (d ? 0. : C[0]), s + "x" + S_(d), 1e-6);
        sym::eq(x[1], rr * ey + (d ? 0. : C[1]), s + "y" + S_(d), 1e-6);
      }
      sym::eq(c.getR(), rr, s + "getR");
    };
    go(r, "");
    sym::eq(c.bounds()[1], 2 * M_PI, "b1", 1e-9);
    double r2 = sym::real("r2", 0.125, 8);
    c.setR(r2);
    go(r2, "setR.");
    Circle2d<double> d0;
    eqp<2>(d0.value(0.), {1, 0}, "default");
  });
  for (size_t i = 0; i < frames().size(); ++i) {
    sym::add("circle3d.ax2." + S_(i), [=] {
      auto F = frames()[i];
      double r = sym::real("r", 0.125, 8), s = sym::real("s", 0.5, 3), t = sym::real("t", 0.5, 3);
      auto C = symPt<3>("c");
      Circle3d<double> c(r, ax2<double, 3>{C, mulv(F.z, s), mulv(F.x, t)});
      circle3(c, C, unit(F.z), r, "");
      auto X = unit(F.x);
      for (int d = 0; d < 3; ++d) sym::eq(c.begin()[d], C[d] + r * X[d], "start point", 1e-6);
      double r2 = sym::real("r2", 0.125, 8);
      c.setR(r2);
      circle3(c, C, unit(F.z), r2, "setR.");
    });
    sym::add("circle3d.ax1." + S_(i), [=] {
      for (auto z : {frames()[i].z, frames()[i].x, P<3>{-frames()[i].z[0], -frames()[i].z[1], -frames()[i].z[2]}}) {
        double r = sym::real("r", 0.125, 8);
        auto C = symPt<3>("c");
        Circle3d<double> c(r, ax1<double, 3>{C, z});
        circle3(c, C, unit(z), r, "");
      }
    });
  }
  sym::add("circle3d.default", [] {
    Circle3d<double> c(sym::real("r", 0.125, 8));
    circle3(c, {0, 0, 0}, {0, 0, 1}, c.getR(), "");
  });
  sym::add("circle3d.ax1.symdir", [] { // any rational direction of the axis
    double a = sym::real("a", -2, 2), b = sym::real("b", -2, 2);
    double n = 1 + a * a + b * b;
    P<3> z{2 * a / n, 2 * b / n, (1 - a * a - b * b) / n};
    double r = sym::real("r", 0.125, 8);
    Circle3d<double> c(r, ax1<double, 3>{{{0, 0, 0}, z}});
    auto X = c.getX();
    sym::eq(dot_<3>(X, z), 0, "plane", 1e-6);
    sym::eq(dot_<3>(X, X), r * r, "radius", 1e-5);
  });
  for (size_t i = 0; i < frames().size(); ++i)
    for (int p = 1; p <= 3; ++p)
      sym::add("revolution.f" + S_(i) + ".p" + S_(p), [=] {
        auto F = frames()[i];
        auto O = symPt<3>("o");
        V k = clamped(p, p == 2 ? std::vector<std::pair<double, int>>{{0.5, 1}} : std::vector<std::pair<double, int>>{});
        auto q = symPoles<2>("P", k.size() - p - 1);
        double a1 = sym::real("a1", -3, 0), a2 = sym::real("a2", 0.5, 6);
        double s = sym::real("s", 0.5, 3), t = sym::real("t", 0.5, 3);
        SurfaceOfRevolution<double> S(std::make_shared<BSCurve<double, 2>>(q, k, p), ax2<double, 3>{O, mulv(F.z, s), mulv(F.x, t)}, a1, a2);
        auto B = S.bounds();
        sym::eq(B[0], 0, "b0"), sym::eq(B[1], 1, "b1"), sym::eq(B[2], a1, "b2"), sym::eq(B[3], a2, "b3");
        double u = sym::real("u", 0, 1), v = p == 1 ? sym::real("v", -13, 13) : sym::real("v", 0, 6);
        auto Z = unit(F.z), X = unit(F.x), Y = cr(Z, X);
        double c = std::cos(v), sn = std::sin(v);
        for (int du = 0; du <= 2; ++du)
          for (int dv = 0; dv <= (p == 2 ? 4 : 2); ++dv) {
            auto xy = bs_ref<2>(u, k, q, p, du);
            auto r = S.value(u, v, du, dv);
            double C = dv % 4 == 0 ? c : dv % 4 == 1 ? -sn : dv % 4 == 2 ? -c : sn, N = dv % 4 == 0 ? sn : dv % 4 == 1 ? c : dv % 4 == 2 ? -sn : -c;
            for (int d = 0; d < 3; ++d) {
              double e = xy[1] * (C * X[d] + N * Y[d]);
              if (dv == 0) e += xy[0] * Z[d];
              if (dv == 0 && du == 0) e += O[d];
              sym::eq(r[d], e, "S" + S_(du) + S_(dv), 1e-5);
            }
          }
        auto w = S(u, v);
        eqp<3>(w, S.value(u, v), "call");
      });
  sym::add("revolution.default", [] { // full turn, from a plain curve, standard placement
    auto q = symPoles<2>("P", 2);
    BSCurve<double, 2> c(q, V{0, 0, 1, 1}, 1);
    SurfaceOfRevolution<double> S(c, ax2<double, 3>{{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}});
    auto B = S.bounds();
    sym::eq(B[2], 0, "v0");
    sym::eq(B[3], 2 * M_PI, "v1", 1e-9);
    double u = sym::real("u", 0, 1), v = sym::real("v", 0, 6.28);
    auto x = S(u, v);
    auto y = bs_ref<2>(u, {0, 0, 1, 1}, q, 1);
    sym::eq(x[2], y[0], "axial");
    sym::eq(x[0] * x[0] + x[1] * x[1], y[1] * y[1], "radial", 1e-5);
    eqp<3>(S(u, 0.), S(u, 2 * M_PI), "closed", 1e-6);
  });
}
