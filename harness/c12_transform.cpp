// C12: transforms commute with evaluation; vector operations.
#include "common.h"
#include <gbs/bsstools.h>
#include <gbs/transform.h>
#include <gbs/bsctools.h>
using namespace gbs;
template <size_t D> static double dot_(const P<D> &a, const P<D> &b) {
  double s = 0;
  for (size_t i = 0; i < D; ++i) s += a[i] * b[i];
  return s;
}
static P<3> cr(const P<3> &a, const P<3> &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
template <size_t D> static P<D> symPt(const std::string &n, double lo = -10, double hi = 10) {
  P<D> r;
  for (size_t i = 0; i < D; ++i) r[i] = sym::real(n + S_(i), lo, hi);
  return r;
}
// rotation about the unit axis k by the angle (c,s)
static P<3> rodrigues(const P<3> &x, double c, double s, const P<3> &k) {
  auto w = cr(k, x);
  double d = dot_<3>(k, x);
  P<3> r;
  for (int i = 0; i < 3; ++i) r[i] = x[i] * c + w[i] * s + k[i] * d * (1 - c);
  return r;
}
static const double PI_ = 3.14159265358979323846;
// a unit axis and a non-unit multiple of it
struct Ax { P<3> dir, unit; };
static std::vector<Ax> axes() {
  return {{{0, 0, 1}, {0, 0, 1}}, {{2, 0, 0}, {1, 0, 0}}, {{0, -3, 0}, {0, -1, 0}}, {{1, 2, 2}, {1. / 3, 2. / 3, 2. / 3}}, {{-6, 3, 2}, {-6. / 7, 3. / 7, 2. / 7}}, {{3, 0, -4}, {0.6, 0, -0.8}}};
}
// point maps used on objects: (library action on object, reference on points)
template <size_t D, class C> static void curve_ops(C c0, const std::function<P<D>(double)> &ref, double u, const std::string &w) {
  auto same = [&](const C &c, const std::function<P<D>(const P<D> &)> &f, const std::string &l) {
    sym::check(c.degree() == c0.degree() && c.knotsFlats() == c0.knotsFlats() && c.poles().size() == c0.poles().size(), w + l + ".shape");
    eqp<D>(c.value(u), f(ref(u)), w + l, 1e-6);
  };
  {
    auto v = symPt<D>("t");
    auto c = c0;
    translate(c, v);
    same(c, [&](const P<D> &x) { auto r = x; for (size_t i = 0; i < D; ++i) r[i] += v[i]; return r; }, "translate");
  }
  {
    double k = sym::real("k", -3, 3);
    auto o = symPt<D>("o");
    auto c = c0;
    scale(c, k, o);
    same(c, [&](const P<D> &x) { auto r = x; for (size_t i = 0; i < D; ++i) r[i] = (x[i] - o[i]) * k + o[i]; return r; }, "scale");
    auto d = c0;
    scale(d, k);
    same(d, [&](const P<D> &x) { auto r = x; for (size_t i = 0; i < D; ++i) r[i] = x[i] * k; return r; }, "scale0");
    for (size_t j = 0; j < D; ++j) {
      auto e = c0;
      scale(e, k, j, o);
      same(e, [&](const P<D> &x) { auto r = x; r[j] = (x[j] - o[j]) * k + o[j]; return r; }, "scalecoord");
    }
    // a general affine map through transform / transformed
    auto aff = [&](const P<D> &x) { P<D> r; for (size_t i = 0; i < D; ++i) r[i] = k * x[i] + 0.5 * x[(i + 1) % D] + o[i]; return r; };
    auto f = c0;
    transform(f, aff);
    same(f, aff, "affine");
    auto g = transformed(c0, aff);
    same(g, aff, "transformed");
    same(c0, [](const P<D> &x) { return x; }, "original");
  }
}
template <class S, size_t D> static void surf_ops(S s0, const std::function<P<D>(double, double)> &ref, double u, double v, const std::string &w) {
  auto same = [&](const S &s, const std::function<P<D>(const P<D> &)> &f, const std::string &l) {
    sym::check(s.degreeU() == s0.degreeU() && s.degreeV() == s0.degreeV() && s.knotsFlatsU() == s0.knotsFlatsU() && s.knotsFlatsV() == s0.knotsFlatsV() && s.poles().size() == s0.poles().size(), w + l + ".shape");
    eqp<D>(s.value(u, v), f(ref(u, v)), w + l, 1e-6);
  };
  double k = sym::real("k", -3, 3);
  auto o = symPt<D>("o");
  auto s = s0;
  scale(s, k, o);
  same(s, [&](const P<D> &x) { auto r = x; for (size_t i = 0; i < D; ++i) r[i] = (x[i] - o[i]) * k + o[i]; return r; }, "scale");
  auto aff = [&](const P<D> &x) { P<D> r; for (size_t i = 0; i < D; ++i) r[i] = k * x[i] - 0.25 * x[(i + 1) % D] + o[i]; return r; };
  auto f = s0;
  transform(f, aff);
  same(f, aff, "affine");
  auto g = transformed(s0, aff);
  same(g, aff, "transformed");
  if constexpr (D == 3) {
    double a = sym::real("a", -7, 7);
    for (auto &A : axes()) {
      auto r = s0;
      rotate(r, a, A.dir);
      same(r, [&](const P<3> &x) { return rodrigues(x, std::cos(a), std::sin(a), A.unit); }, "rotate");
    }
  }
}
void sym_register() {
  sym::add("point.2d", [] {
    auto x = symPt<2>("x"), v = symPt<2>("v"), o = symPt<2>("o");
    double a = sym::real("a", -7, 7), k = sym::real("k", -3, 3);
    double c = std::cos(a), s = std::sin(a);
    auto y = x;
    translate(y, v);
    eqp<2>(y, {x[0] + v[0], x[1] + v[1]}, "translate");
    eqp<2>(translated(x, v), y, "translated");
    y = x;
    rotate(y, a);
    P<2> rx{c * x[0] - s * x[1], s * x[0] + c * x[1]};
    eqp<2>(y, rx, "rotate");
    eqp<2>(rotated(x, a), rx, "rotated");
    sym::eq(dot_<2>(y, y), dot_<2>(x, x), "rotate.norm", 1e-6);
    auto z = y;
    rotate(z, -a);
    eqp<2>(z, x, "rotate.back", 1e-6);
    double b = sym::real("b", -7, 7);
    z = y;
    rotate(z, b);
    auto z2 = x;
    rotate(z2, a + b);
    eqp<2>(z, z2, "rotate.compose", 1e-6);
    z = x;
    rotate(z, a, o);
    eqp<2>(z, {c * (x[0] - o[0]) - s * (x[1] - o[1]) + o[0], s * (x[0] - o[0]) + c * (x[1] - o[1]) + o[1]}, "rotate.origin", 1e-6);
    z = o;
    rotate(z, a, o);
    eqp<2>(z, o, "rotate.fixedpoint");
    z = x;
    scale(z, k);
    eqp<2>(z, {k * x[0], k * x[1]}, "scale");
    z = x;
    scale(z, k, o);
    eqp<2>(z, {k * (x[0] - o[0]) + o[0], k * (x[1] - o[1]) + o[1]}, "scale.center");
    eqp<2>(scaled(x, k, o), z, "scaled");
    for (size_t i = 0; i < 2; ++i) {
      z = x;
      scale(z, k, i, o);
      auto r = x;
      r[i] = k * (x[i] - o[i]) + o[i];
      eqp<2>(z, r, "scale.coord");
      eqp<2>(scaled(x, k, i, o), r, "scaled.coord");
    }
    // homogeneous pole: translation scales with the weight
    double w = sym::real("w", 0.25, 4);
    P<3> h{x[0] * w, x[1] * w, w};
    translate<double, 2>(h, v);
    eqp<3>(h, {(x[0] + v[0]) * w, (x[1] + v[1]) * w, w}, "translate.homogeneous");
    auto d3 = add_dimension<double, 2>(x, k);
    eqp<3>(d3, {x[0], x[1], k}, "add_dimension");
  });
  for (size_t i = 0; i < axes().size(); ++i)
    sym::add("point.3d.axis" + S_(i), [=] {
      auto A = axes()[i];
      auto x = symPt<3>("x"), v = symPt<3>("v");
      double a = sym::real("a", -7, 7), k = sym::real("k", -3, 3);
      double c = std::cos(a), s = std::sin(a);
      auto y = x;
      rotate(y, a, A.dir);
      eqp<3>(y, rodrigues(x, c, s, A.unit), "rotate", 1e-6);
      eqp<3>(rotated(x, a, A.dir), y, "rotated");
      sym::eq(dot_<3>(y, y), dot_<3>(x, x), "rotate.norm", 1e-6);
      sym::eq(dot_<3>(y, A.unit), dot_<3>(x, A.unit), "rotate.axial", 1e-6);
      auto z = y;
      rotate(z, -a, A.dir);
      eqp<3>(z, x, "rotate.back", 1e-5);
      // products of points keep their scalar product and handedness
      auto vy = rotated(v, a, A.dir);
      sym::eq(dot_<3>(y, vy), dot_<3>(x, v), "rotate.dot", 1e-5);
      y = x;
      translate(y, v);
      eqp<3>(y, {x[0] + v[0], x[1] + v[1], x[2] + v[2]}, "translate");
      scale(y, k, v);
      eqp<3>(y, {k * x[0] + v[0], k * x[1] + v[1], k * x[2] + v[2]}, "scale.center");
    });
  sym::add("point.3d.symaxis", [] { // any axis direction: lengths and the axial part are kept
    auto x = symPt<3>("x"), ax = symPt<3>("d", -2, 2);
    sym::assume_lt(0.1, dot_<3>(ax, ax));
    double n2 = dot_<3>(ax, ax);
    for (double a : {PI_ / 2, PI_, -PI_ / 2}) {
      auto y = x;
      rotate(y, a, ax);
      sym::eq(dot_<3>(y, ax), dot_<3>(x, ax), "axial", 1e-5);
      double xx = dot_<3>(x, ax);
      auto w = cr(ax, x);
      double n = std::sqrt(n2);
      double c = std::cos(a), s = std::sin(a);
      for (int i = 0; i < 3; ++i) sym::eq(y[i] * n2, x[i] * n2 * c + w[i] * s * n + ax[i] * xx * (1 - c), "rodrigues", 1e-4);
    }
  });
  // frames
  static const std::vector<std::pair<P<3>, P<3>>> F{{{0, 0, 1}, {1, 0, 0}}, {{1, 0, 0}, {0, 1, 0}}, {{0, 0, -1}, {0, 1, 0}}, {{1, 2, 2}, {2, 1, -2}}, {{2, -2, 1}, {1, 2, 2}}, {{3, 0, 4}, {0, 2, 0}}, {{-4, 0, 3}, {3, 0, 4}}};
  for (size_t i = 0; i < F.size(); ++i)
    for (size_t j = 0; j < F.size(); ++j)
      sym::add("frame." + S_(i) + "to" + S_(j), [=] {
        auto O1 = symPt<3>("a"), O2 = symPt<3>("b"), x = symPt<3>("x");
        double s1 = sym::real("s", 0.5, 2), t1 = sym::real("t", 0.5, 2);
        auto mul = [](const P<3> &v, double k) { return P<3>{v[0] * k, v[1] * k, v[2] * k}; };
        ax2<double, 3> A{O1, mul(F[i].first, s1), F[i].second}, B{O2, F[j].first, mul(F[j].second, t1)};
        auto unit = [](const P<3> &v) { double n = std::sqrt(dot_<3>(v, v)); return P<3>{v[0] / n, v[1] / n, v[2] / n}; };
        auto frame = [&](const P<3> &o, const std::pair<P<3>, P<3>> &f, const P<3> &c) { // coordinates (x,y,z) in the frame -> point
          auto X = unit(f.second), Z = unit(f.first), Y = cr(Z, X);
          P<3> r;
          for (int d = 0; d < 3; ++d) r[d] = o[d] + c[0] * X[d] + c[1] * Y[d] + c[2] * Z[d];
          return r;
        };
        auto pa = frame(O1, F[i], x), pb = frame(O2, F[j], x);
        if (i == j) {
          auto M = build_trf_matrix<double>(A);
          eqp<3>(transformed(x, M), pa, "frame.point", 1e-6);
          auto [L, R] = build_trf_loc_and_matrix<double>(A);
          eqp<3>(transformed(x, L, R), pa, "frame.locmatrix", 1e-6);
          auto y = x;
          transform(y, M);
          eqp<3>(y, pa, "frame.inplace", 1e-6);
        }
        auto M = build_trf_matrix<double>(A, B);
        eqp<3>(transformed(O1, M), O2, "origin", 1e-6);
        eqp<3>(transformed(pa, M), pb, "point", 1e-6);
        auto [L, R] = build_trf_loc_and_matrix<double>(A, B);
        eqp<3>(transformed(pa, L, R), pb, "locmatrix", 1e-6);
        auto Mi = build_trf_matrix<double>(B, A);
        eqp<3>(transformed(transformed(x, M), Mi), x, "inverse", 1e-5);
      });
  // objects
  for (int p = 1; p <= 3; ++p)
    for (auto &l : layouts(p)) {
      std::string n = "p" + S_(p) + "." + lname(l);
      sym::add("curve.poly." + n, [=] {
        V k = clamped(p, l);
        double u = sym::real("u", 0, 1);
        auto x = symPoles<2>("P", k.size() - p - 1);
        curve_ops<2>(BSCurve<double, 2>(x, k, p), [=](double t) { return bs_ref<2>(t, k, x, p); }, u, "");
        double a = sym::real("a", -7, 7);
        BSCurve<double, 2> c(x, k, p);
        rotate(c, a);
        auto y = bs_ref<2>(u, k, x, p);
        eqp<2>(c.value(u), {std::cos(a) * y[0] - std::sin(a) * y[1], std::sin(a) * y[0] + std::cos(a) * y[1]}, "rotate", 1e-6);
      });
      sym::add("curve.rat." + n, [=] {
        V k = clamped(p, l);
        double u = sym::real("u", 0, 1);
        auto x = symPoles<2>("P", k.size() - p - 1);
        auto h = homog<2>(x, concWeights(x.size()));
        auto ref = [=](double t) { return rat_ref<2>(t, k, h, p); };
        curve_ops<2>(BSCurveRational<double, 2>(h, k, p), ref, u, "");
        double a = sym::real("a", -7, 7);
        BSCurveRational<double, 2> c(h, k, p);
        rotate(c, a);
        auto y = ref(u);
        eqp<2>(c.value(u), {std::cos(a) * y[0] - std::sin(a) * y[1], std::sin(a) * y[0] + std::cos(a) * y[1]}, "rotate", 1e-6);
      });
    }
  sym::add("curve.rat.weights", [] {
    V k = clamped(2, {});
    double u = sym::real("u", 0, 1);
    auto x = symPoles<3>("P", 3);
    V w{1., sym::real("w1", 0.5, 2), sym::real("w2", 0.5, 2)};
    auto h = homog<3>(x, w);
    auto ref = [=](double t) { return rat_ref<3>(t, k, h, 2); };
    curve_ops<3>(BSCurveRational<double, 3>(h, k, 2), ref, u, "");
  });
  for (size_t i = 0; i < axes().size(); ++i)
    sym::add("curve3d.rotate.axis" + S_(i), [=] {
      auto A = axes()[i];
      double u = sym::real("u", 0, 1), a = sym::real("a", -7, 7);
      V k = clamped(2, {{0.5, 1}});
      auto x = symPoles<3>("P", 4);
      BSCurve<double, 3> c(x, k, 2);
      rotate(c, a, A.dir);
      eqp<3>(c.value(u), rodrigues(bs_ref<3>(u, k, x, 2), std::cos(a), std::sin(a), A.unit), "poly", 1e-6);
      auto h = homog<3>(x, concWeights(4));
      BSCurveRational<double, 3> r(h, k, 2);
      rotate(r, a, A.dir);
      eqp<3>(r.value(u), rodrigues(rat_ref<3>(u, k, h, 2), std::cos(a), std::sin(a), A.unit), "rational", 1e-6);
      // sequence of operations
      auto v = symPt<3>("v");
      translate(c, v);
      scale(c, 2.);
      auto y = rodrigues(bs_ref<3>(u, k, x, 2), std::cos(a), std::sin(a), A.unit);
      for (int d = 0; d < 3; ++d) y[d] = 2. * (y[d] + v[d]);
      eqp<3>(c.value(u), y, "sequence", 1e-6);
    });
  for (int p = 1; p <= 3; ++p)
    for (int q = 1; q <= 2; ++q) {
      std::string n = S_(p) + S_(q);
      sym::add("surface.poly." + n, [=] {
        V ku = clamped(p, p == 2 ? std::vector<std::pair<double, int>>{{0.5, 1}} : std::vector<std::pair<double, int>>{}), kv = clamped(q, {});
        auto x = symPoles<3>("P", (ku.size() - p - 1) * (kv.size() - q - 1));
        double u = sym::real("u", 0, 1), v = sym::real("v", 0, 1);
        surf_ops<BSSurface<double, 3>, 3>(BSSurface<double, 3>(x, ku, kv, p, q), [=](double a, double b) { return srf_ref<3>(a, b, ku, kv, x, p, q); }, u, v, "");
      });
      sym::add("surface.rat." + n, [=] {
        V ku = clamped(p, {}), kv = clamped(q, {});
        auto x = symPoles<3>("P", (ku.size() - p - 1) * (kv.size() - q - 1));
        auto h = homog<3>(x, concWeights(x.size()));
        double u = sym::real("u", 0, 1), v = 0.375;
        surf_ops<BSSurfaceRational<double, 3>, 3>(BSSurfaceRational<double, 3>(h, ku, kv, p, q), [=](double a, double b) { return rsrf_ref<3>(a, b, ku, kv, h, p, q); }, u, v, "");
      });
    }
  for (int rat = 0; rat < 2; ++rat)
    sym::add(std::string("add_dimension.surface.") + (rat ? "rat" : "poly"), [=] {
      double u = sym::real("u", 0, 1), v = sym::real("v", 0, 1), z = sym::real("z", -10, 10);
      V ku = clamped(2, {}), kv = clamped(1, {{0.5, 1}});
      auto x = symPoles<2>("P", 9);
      P<3> r;
      P<2> y;
      if (rat) {
        auto h = homog<2>(x, concWeights(9));
        r = gbs::add_dimension(BSSurfaceRational<double, 2>(h, ku, kv, 2, 1), z).value(u, v);
        y = rsrf_ref<2>(u, v, ku, kv, h, 2, 1);
      } else {
        r = gbs::add_dimension(BSSurface<double, 2>(x, ku, kv, 2, 1), z).value(u, v);
        y = srf_ref<2>(u, v, ku, kv, x, 2, 1);
      }
      eqp<3>(r, {y[0], y[1], z}, "lifted", 1e-6);
    });
  // lifting a curve to one more dimension
  for (int rat = 0; rat < 2; ++rat)
    for (int D1 = 0; D1 < 2; ++D1)
      sym::add(std::string("add_dimension.") + (rat ? "rat" : "poly") + (D1 ? "1d" : "2d"), [=] {
        double u = sym::real("u", 0, 1), z = sym::real("z", -10, 10);
        V k = clamped(2, {{0.5, 1}});
        auto go = [&](auto tag) {
          constexpr size_t D = decltype(tag)::value;
          auto x = symPoles<D>("P", 4);
          if (rat) {
            auto h = homog<D>(x, concWeights(4));
            auto c = gbs::add_dimension(BSCurveRational<double, D>(h, k, 2), z);
            auto y = rat_ref<D>(u, k, h, 2);
            auto r = c.value(u);
            for (size_t d = 0; d < D; ++d) sym::eq(r[d], y[d], "coord");
            sym::eq(r[D], z, "new");
          } else {
            auto c = gbs::add_dimension(BSCurve<double, D>(x, k, 2), z);
            auto y = bs_ref<D>(u, k, x, 2);
            auto r = c.value(u);
            for (size_t d = 0; d < D; ++d) sym::eq(r[d], y[d], "coord");
            sym::eq(r[D], z, "new");
          }
        };
        if (D1) go(std::integral_constant<size_t, 1>{});
        else go(std::integral_constant<size_t, 2>{});
      });
  // vector operations
  sym::add("vec.ops", [] {
    auto a = symPt<3>("a"), b = symPt<3>("b"), c = symPt<3>("c");
    double k = sym::real("k", 0.125, 5);
    auto s = a + b, d = a - b, m = a * k, m2 = k * a, q = a / k;
    for (int i = 0; i < 3; ++i) sym::eq(s[i], a[i] + b[i], "add"), sym::eq(d[i], a[i] - b[i], "sub"), sym::eq(m[i], a[i] * k, "mul"), sym::eq(m2[i], a[i] * k, "mul2"), sym::eq(q[i] * k, a[i], "div");
    for (int i = 0; i < 3; ++i) sym::eq((a / 2)[i], a[i] / 2., "div.int"), sym::eq((a / size_t(4))[i], a[i] / 4., "div.size"), sym::eq((a * 3)[i], a[i] * 3., "mul.int"), sym::eq((a - k)[i], a[i] - k, "sub.scalar"), sym::eq((k - a)[i], k - a[i], "scalar.sub");
    auto t = a;
    t += b;
    eqp<3>(t, s, "addassign");
    sym::eq(a * b, dot_<3>(a, b), "dot");
    eqp<3>(cross(a, b), cr(a, b), "cross");
    eqp<3>(a ^ b, cr(a, b), "wedge");
    sym::eq(cross(a, b) * a, 0, "cross.orthogonal", 1e-6);
    sym::eq((a ^ b) * c, a * (b ^ c), "triple", 1e-5);
    sym::eq(sq_norm(a), dot_<3>(a, a), "sq_norm");
    sym::eq(norm(a) * norm(a), dot_<3>(a, a), "norm");
    sym::eq(sq_distance(a, b), dot_<3>(d, d), "sq_distance");
    sym::eq(distance(a, b) * distance(a, b), dot_<3>(d, d), "distance");
    sym::assume_lt(0.01, dot_<3>(a, a));
    auto n = normalized(a), n2 = a, n3 = a;
    normalize(n2);
    adim(n3);
    for (int i = 0; i < 3; ++i) sym::eq(n[i] * norm(a), a[i], "normalized"), sym::eq(n2[i], n[i], "normalize"), sym::eq(n3[i], n[i], "adim");
    PV<2> u{{1, 2}, {1.5, -1}};
    P<2> x{a[0], a[1]}, y{b[0], b[1]};
    sym::eq((x ^ y)[0], a[0] * b[1] - a[1] * b[0], "cross2");
    sym::eq(cross(x, y)[0], a[0] * b[1] - a[1] * b[0], "cross2f");
    V v{a[0], a[1], a[2], b[0]}, w{b[0], b[1], b[2], c[0]};
    auto dv = delta(v);
    sym::check(dv.size() == 3, "delta.size");
    for (int i = 0; i < 3; ++i) sym::eq(dv[i], v[i + 1] - v[i], "delta");
    auto dw = delta(v, w);
    sym::check(dw.size() == 4, "delta2.size");
    for (int i = 0; i < 4; ++i) sym::eq(dw[i], w[i] - v[i], "delta2");
  });
  sym::add("vec.angle", [] {
    auto y = symPt<2>("y");
    double n2 = dot_<2>(y, y);
    sym::assume_lt(0.01, n2);
    double n = std::sqrt(n2);
    auto is = [&](double t, double c, double s, const std::string &l) { sym::eq(n * std::cos(t), c, l + ".cos", 1e-6), sym::eq(n * std::sin(t), s, l + ".sin", 1e-6); };
    is(angle(P<2>{2., 0.}, y), y[0], y[1], "x");
    is(angle(P<2>{0., 3.}, y), y[1], -y[0], "y");
    is(angle(y, P<2>{2., 0.}), y[0], -y[1], "reverse");
    P<3> Y{y[0], y[1], 0.};
    double t = angle(P<3>{2., 0., 0.}, Y);
    is(t, y[0], std::abs(y[1]), "3d");
    is(angle(Y, P<3>{2., 0., 0.}), y[0], std::abs(y[1]), "3d.sym");
  });
  sym::add("vec.polyline", [] { // axis aligned polyline
    double a = sym::real("a", 0.1, 4), b = sym::real("b", 0.1, 4), c = sym::real("c", 0.1, 4);
    PV<2> q{{0, 0}, {a, 0}, {a, -b}, {a + c, -b}};
    sym::eq(gbs::length(q), a + b + c, "length");
    sym::eq(gbs::length(PV<2>{{1, 2}, {4, 6}}), 5, "length.2");
  });
}
