// C29: vector algebra, ranges and scalar helpers against their definitions.
#include "common.h"
#include <gbs/vecop.ixx>
#include <gbs/curves>
#include <gbs/bsctools.h>
#include <gbs/curvescheck.h>
#include <gbs/math.ixx>
using namespace gbs;
template <size_t D> static P<D> vec(const std::string &n, double lo = -10, double hi = 10) {
  P<D> r;
  for (size_t d = 0; d < D; ++d) r[d] = sym::real(n + S_(d), lo, hi);
  return r;
}
template <size_t D> static void algebra() {
  auto a = vec<D>("a"), b = vec<D>("b");
  double s = sym::real("s", -5, 5), t = sym::real("t", 0.5, 4);
  auto c = a;
  c += b;
  auto p = a + b, m = a - b, as = a - s, sa = s - a, k = a * s, k2 = s * a, q = a / t;
  double dot = 0, nn = 0, dd = 0;
  for (size_t d = 0; d < D; ++d) {
    sym::eq(p[d], a[d] + b[d], "sum"), sym::eq(c[d], a[d] + b[d], "sum in place"), sym::eq(m[d], a[d] - b[d], "difference");
    sym::eq(as[d], a[d] - s, "minus scalar"), sym::eq(sa[d], s - a[d], "scalar minus"), sym::eq(k[d], s * a[d], "scaled"), sym::eq(k2[d], s * a[d], "scaled left");
    sym::eq(q[d] * t, a[d], "divided", 1e-9);
    dot += a[d] * b[d], nn += a[d] * a[d], dd += (a[d] - b[d]) * (a[d] - b[d]);
  }
  sym::eq(a * b, dot, "dot"), sym::eq(sq_norm(a), nn, "sq_norm"), sym::eq(sq_distance(a, b), dd, "sq_distance");
  double n = norm(a), e = distance(a, b);
  sym::le(0, n, "norm sign"), sym::eq(n * n, nn, "norm", 1e-9), sym::le(0, e, "distance sign"), sym::eq(e * e, dd, "distance", 1e-9);
}
static void products() {
  auto a = vec<3>("a"), b = vec<3>("b");
  for (auto c : {cross(a, b), a ^ b}) {
    sym::eq(c[0], a[1] * b[2] - a[2] * b[1], "x"), sym::eq(c[1], a[2] * b[0] - a[0] * b[2], "y"), sym::eq(c[2], a[0] * b[1] - a[1] * b[0], "z");
  }
  P<2> u{a[0], a[1]}, v{b[0], b[1]};
  sym::eq((u ^ v)[0], u[0] * v[1] - u[1] * v[0], "2d"), sym::eq(cross(u, v)[0], u[0] * v[1] - u[1] * v[0], "2d cross");
  P<1> x{a[2]}, y{b[2]};
  sym::eq((x ^ y)[0], 0, "1d");
  sym::eq(det<double>({a[0], a[1], a[2], b[0]}), a[0] * b[0] - a[1] * a[2], "determinant");
}
template <size_t D> static void unit() {
  auto a = vec<D>("a", 0.25, 8), x = a, y = a, z = normalized(a);
  adim(x), normalize(y);
  for (auto &r : {x, y, z}) {
    double s = 0;
    for (size_t d = 0; d < D; ++d) s += r[d] * r[d], sym::eq(r[d] * a[0], r[0] * a[d], "direction", 1e-9), sym::le(0, r[d], "sense");
    sym::eq(s, 1, "length", 1e-9);
  }
}
// angle: cos and sin of the result through a right triangle along the axes and a turned copy
static void angles() {
  const double pi = std::acos(-1.);
  auto a = vec<3>("a"), b = vec<3>("b");
  P<2> u{a[0], a[1]}, v{b[0], b[1]};
  auto is = [](double t, double sn, double cs, const std::string &l) { // t has the direction (cs, sn)
    sym::eq(std::sin(t) * cs, std::cos(t) * sn, l, 1e-6), sym::le(0, std::sin(t) * sn + std::cos(t) * cs, l + " sense", 1e-6);
  };
  is(angle(u, v), u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1], "signed angle in the plane");
  double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
  is(angle(a, b), std::sqrt(x * x + y * y + z * z), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "angle in space");
  double r = 1.5, s = 2.75;
  sym::eq(angle(P<2>{r, 0}, P<2>{0, s}), pi / 2, "quarter turn", 1e-9);
  sym::eq(angle(P<2>{0, s}, P<2>{r, 0}), -pi / 2, "quarter turn back", 1e-9);
  sym::eq(angle(P<2>{r, 0}, P<2>{-s, s}), 3 * pi / 4, "three eighths", 1e-9);
  sym::eq(angle(P<3>{r, 0, 0}, P<3>{0, 0, s}), pi / 2, "quarter turn in space", 1e-9);
  sym::eq(angle(P<3>{0, r, 0}, P<3>{0, -s, s}), 3 * pi / 4, "obtuse in space", 1e-9);
  double d = sym::real("d", -720, 720);
  sym::eq(radians(d) * 180, d * pi, "radians", 1e-9), sym::eq(degrees(radians(d)), d, "there and back", 1e-9);
}
template <size_t D> static void lists(size_t n) {
  PV<D> x;
  V u, w;
  double L = 0;
  for (size_t i = 0; i < n; ++i) {
    x.push_back(vec<D>("x" + S_(i))), u.push_back(sym::real("u" + S_(i), -10, 10)), w.push_back(sym::real("w" + S_(i), 0.5, 2));
    if (i) {
      double s = 0;
      for (size_t d = 0; d < D; ++d) s += (x[i][d] - x[i - 1][d]) * (x[i][d] - x[i - 1][d]);
      L += std::sqrt(s);
    }
  }
  sym::eq(length(x), L, "length of a polyline", 1e-9);
  auto d = delta(u), e = delta(u, w);
  auto q = x / w;
  sym::check(d.size() + 1 == n && e.size() == n && q.size() == n, "sizes");
  for (size_t i = 0; i < n; ++i) {
    if (i + 1 < n) sym::eq(d[i], u[i + 1] - u[i], "step");
    sym::eq(e[i], w[i] - u[i], "difference of lists");
    for (size_t k = 0; k < D; ++k) sym::eq(q[i][k] * w[i], x[i][k], "divided list", 1e-9);
  }
  if (n > 2) {
    V r(n, 0.);
    blend(u, w, r, u.begin(), std::next(u.end(), -1), w.begin(), r.begin());
    for (size_t i = 0; i + 1 < n; ++i) sym::eq(r[i], (1 - w[i]) * u[i] + w[i] * u[i + 1], "blended");
  }
  auto c = vector_of_doubles(u);
  sym::check(c.size() == n, "copy size");
  for (size_t i = 0; i < n && i < c.size(); ++i) sym::eq(c[i], u[i], "copy");
}
static void range1(size_t n) {
  double a = sym::real("a", -10, 10), b = sym::real("b", -10, 10);
  for (auto r : {make_range(a, b, n), make_range(std::array<double, 2>{a, b}, n)}) {
    sym::check(r.size() == n, "size");
    if (r.size() != n) return;
    sym::check(r.front() == a && r.back() == b, "ends are exact");
    for (size_t i = 0; i < n; ++i) sym::eq(r[i] * double(n - 1), a * double(n - 1 - i) + b * double(i), "even", 1e-9);
  }
  if (n > 2) {
    sym::assume_lt(a, b - 0.001);
    auto r = make_range(a, b, n);
    for (size_t i = 1; i < n; ++i) sym::le(r[i - 1], r[i], "ordered");
  }
}
static void range23(size_t nu, size_t nv, size_t nw) {
  double a = sym::real("a", -10, 10), b = sym::real("b", -10, 10), c = sym::real("c", -10, 10), d = sym::real("d", -10, 10), e = sym::real("e", -10, 10), f = sym::real("f", -10, 10);
  auto U = [&](size_t i) { return a + (b - a) * double(i) / double(nu - 1); };
  auto W = [&](size_t i) { return c + (d - c) * double(i) / double(nv - 1); };
  auto Z = [&](size_t i) { return e + (f - e) * double(i) / double(nw - 1); };
  for (auto r : {make_range(a, b, c, d, nu, nv), make_range(std::array<double, 4>{a, b, c, d}, nu, nv)}) {
    sym::check(r.size() == nu * nv, "size");
    if (r.size() != nu * nv) return;
    for (size_t i = 0; i < nu; ++i)
      for (size_t j = 0; j < nv; ++j) sym::eq(r[j + nv * i].first, U(i), "u", 1e-9), sym::eq(r[j + nv * i].second, W(j), "v", 1e-9);
  }
  for (auto r : {make_range(a, b, c, d, e, f, nu, nv, nw), make_range(std::array<double, 4>{a, b, c, d}, std::array<double, 2>{e, f}, nu, nv, nw)}) {
    sym::check(r.size() == nu * nv * nw, "size 3");
    if (r.size() != nu * nv * nw) return;
    for (size_t i = 0; i < nu; ++i)
      for (size_t j = 0; j < nv; ++j)
        for (size_t k = 0; k < nw; ++k) {
          auto [x, y, z] = r[k + nw * (j + nv * i)];
          sym::eq(x, U(i), "u 3", 1e-9), sym::eq(y, W(j), "v 3", 1e-9), sym::eq(z, Z(k), "w 3", 1e-9);
        }
  }
}
static void range_reject() {
  double a = sym::real("a", -10, 10);
  for (size_t n : {0, 1}) {
    sym::throws_as<std::length_error>([&] { make_range(a, a + 1, n); }, "one line");
    sym::throws_as<std::length_error>([&] { make_range(a, a + 1, a, a + 1, n, 3ul); }, "no u");
    sym::throws_as<std::length_error>([&] { make_range(a, a + 1, a, a + 1, 3ul, n); }, "no v");
    sym::throws_as<std::length_error>([&] { make_range(a, a + 1, a, a + 1, a, a + 1, 3ul, 3ul, n); }, "no w");
    sym::throws_as<std::length_error>([&] { make_range(a, a + 1, a, a + 1, a, a + 1, 3ul, n, 3ul); }, "no v 3");
    sym::throws_as<std::length_error>([&] { make_range(a, a + 1, a, a + 1, a, a + 1, n, 3ul, 3ul); }, "no u 3");
  }
}
static void counting() {
  int a = sym::choose("a", -3, 3), n = sym::choose("n", 1, 5);
  auto r = make_range<int>(a, a + n);
  sym::check((int)r.size() == n + 1, "size");
  for (int i = 0; i < (int)r.size(); ++i) sym::check(r[i] == a + i, "counted");
  sym::throws_as<std::length_error>([&] { make_range<int>(a, a); }, "single");
  // Pascal's rule from the definition
  double f = 1;
  for (size_t m = 0; m < 13; ++m) {
    if (m) f *= m;
    for (size_t k = 0; k <= m; ++k) sym::eq(binomial_law<double>(m, k), binom(m, k), "binomial", 1e-9);
    sym::eq((double)factorial(m), f, "factorial");
  }
}
static void signs() {
  double x = sym::real("x", -1, 1);
  int s = sgn(x);
  sym::check(s == 1 ? x > 0 : s == -1 ? x < 0 : x == 0, "sign");
  int i = sym::choose("i", 0, 3), j = sym::choose("j", 0, 3);
  sym::eq(kronecker<double>(i, j), i == j, "kronecker");
}
// least squares root of a line in the plane: one Newton step is exact, and the iteration stops there
static void newton(bool plane) {
  double a = sym::real("a", -5, 5), u0 = sym::real("u0", -5, 5), m = 2, r;
  if (plane) {
    P<2> q{a, sym::real("b", -5, 5)};
    auto f = [](double u, int d = 0) { return d == 0 ? P<2>{2 * u, 1 - u} : d == 1 ? P<2>{2, -1} : P<2>{0, 0}; };
    r = newton_solve<double>(f, q, u0);
    sym::eq(2 * (2 * r - q[0]) - (1 - r - q[1]), 0, "closest parameter", 1e-3);
  } else {
    auto f = [m](double u, int d = 0) { return d == 0 ? m * u : d == 1 ? m : 0.; };
    r = newton_solve<double>(f, a, u0);
    sym::eq(m * r, a, "root", 1e-3);
  }
}
// a slope estimated 25% too high divides the error by five at every step: the iteration goes on until the step is small,
// from either side
static void newton_steps(bool left) {
  double a = sym::real("a", -5, 5), u0 = sym::real("u0", -5, 5);
  if (left) sym::assume_le(2 * u0, a);
  else sym::assume_le(a, 2 * u0);
  auto f = [](double u, int d = 0) { return d == 0 ? 2 * u : d == 1 ? 2.5 : 0.; };
  double r = newton_solve<double>(f, a, u0);
  sym::eq(2 * r, a, "root", 1e-3);
  // and never makes more steps than allowed
  int n = 0;
  auto g = [&n](double u, int d = 0) { if (d == 1) ++n; return d == 0 ? 2 * u : d == 1 ? 2.5 : 0.; };
  newton_solve<double>(g, a, u0, 1e-3, 1e-4, 3);
  sym::check(n <= 3, "steps allowed");
}
// weights scaled to a mean value; the projected points stay
template <size_t D> static void weights(size_t n) {
  std::vector<std::array<double, D>> x(n);
  double m = sym::real("m", 0.5, 4), s = 0, k = sym::real("k", -4, 4);
  for (size_t i = 0; i < n; ++i) x[i] = vec<D>("x" + S_(i)), x[i][D - 1] = sym::real("w" + S_(i), 0.5, 2), s += x[i][D - 1];
  auto one = x, two = x;
  scale_weights(one), scale_weights(two, m);
  auto y = scaled_weights(x), z = scaled_weights(x, m), q = scaled_poles(x, k);
  sym::check(one.size() == n && two.size() == n && y.size() == n && z.size() == n && q.size() == n, "sizes");
  for (size_t i = 0; i < n; ++i)
    for (size_t d = 0; d < D; ++d) {
      sym::eq(one[i][d] * s, x[i][d] * double(n), "mean one", 1e-6), sym::eq(y[i][d] * s, x[i][d] * double(n), "mean one, copy", 1e-6);
      sym::eq(two[i][d] * s, x[i][d] * double(n) * m, "mean asked for", 1e-6), sym::eq(z[i][d] * s, x[i][d] * double(n) * m, "mean asked for, copy", 1e-6);
      sym::eq(q[i][d], k * x[i][d], "scaled", 1e-9);
    }
}
// the other evaluators agree with the recursive definition
template <size_t D> static void evaluators(int p, int lay) {
  V k = clamped(p, lay == 0 ? std::vector<std::pair<double, int>>{} : lay == 1 ? std::vector<std::pair<double, int>>{{0.5, 1}} : std::vector<std::pair<double, int>>{{0.25, p}, {0.625, 1}});
  auto x = symPoles<D>("a", k.size() - p - 1);
  static const double U[]{0, 0.25, 0.375, 0.5, 0.625, 0.875, 1};
  double u = D == 1 ? sym::real("u", 0, 1) : U[sym::choose("u", 0, 6)];
  auto e = bs_ref<D>(u, k, x, p);
  auto a = eval_value_deboor_cox(u, k, x, p);
  for (size_t i = 0; i < D; ++i) sym::eq(a[i], e[i], "basis row", 1e-6);
}
static void bounds_check() {
  double a = sym::real("a", -1, 1), b = sym::real("b", 2, 4);
  auto crv = [](double x, double y) { return BSCurve<double, 2>{PV<2>{{0, 0}, {1, 1}}, V{x, x, y, y}, 1}; };
  std::vector<BSCurve<double, 2>> l{crv(0, 3), crv(0, 3), crv(a, b)};
  std::vector<std::shared_ptr<Curve<double, 2>>> q;
  for (auto &c : l) q.push_back(std::make_shared<BSCurve<double, 2>>(c));
  bool r = check_curves_bounds<double, 2>(l.begin(), l.end()), s = check_p_curves_bounds<double, 2>(q.begin(), q.end());
  sym::check(r == s, "pointers or values");
  if (r) sym::le(std::fabs(a), 1e-5, "same start"), sym::le(std::fabs(b - 3), 1e-5, "same end");
  else sym::check(a != 0 || b != 3, "refused only when different");
  sym::check(check_curves_bounds<double, 2>(l.begin(), std::next(l.begin(), 2)), "equal bounds");
}
static void nurbs() {
  BSCurve<double, 2> a{PV<2>{{0, 0}, {1, 1}}, V{0, 0, 1, 1}, 1};
  BSCurveRational<double, 2> r{PV<2>{{0, 0}, {1, 1}}, V{0, 0, 1, 1}, V{1, 2}, 1};
  int k = sym::choose("k", 0, 4);
  std::list<Curve<double, 2> *> l;
  for (int i = 0; i < 4; ++i) l.push_back(i == k ? (Curve<double, 2> *)&r : &a);
  sym::check(has_nurbs(l) == (k < 4), "a rational curve in the list");
  sym::check(r.isRational() && !a.isRational(), "kind");
}
void sym_register() {
  sym::add("weights.2", [] { weights<2>(3); }), sym::add("weights.3", [] { weights<3>(2); }), sym::add("weights.4", [] { weights<4>(4); });
  for (int p = 1; p < 4; ++p)
    for (int lay = 0; lay < 3; ++lay) {
      std::string n = S_(p) + S_(lay);
      sym::add("evaluators.1." + n, [=] { evaluators<1>(p, lay); }), sym::add("evaluators.2." + n, [=] { evaluators<2>(p, lay); }), sym::add("evaluators.3." + n, [=] { evaluators<3>(p, lay); }), sym::add("evaluators.4." + n, [=] { evaluators<4>(p, lay); }, p > 2);
    }
  sym::add("bounds.check", bounds_check), sym::add("nurbs", nurbs);
  sym::add("algebra.1", algebra<1>), sym::add("algebra.2", algebra<2>), sym::add("algebra.3", algebra<3>), sym::add("algebra.4", algebra<4>);
  sym::add("products", products), sym::add("unit.1", unit<1>), sym::add("unit.2", unit<2>), sym::add("unit.3", unit<3>), sym::add("angles", angles);
  for (size_t n : {2, 3, 5}) sym::add("lists.1." + S_(n), [n] { lists<1>(n); }), sym::add("lists.2." + S_(n), [n] { lists<2>(n); }), sym::add("lists.3." + S_(n), [n] { lists<3>(n); });
  for (size_t n : {2, 3, 4, 7, 11}) sym::add("range." + S_(n), [n] { range1(n); });
  sym::add("range.grid.234", [] { range23(2, 3, 4); }), sym::add("range.grid.422", [] { range23(4, 2, 2); }), sym::add("range.grid.353", [] { range23(3, 5, 3); });
  sym::add("range.reject", range_reject), sym::add("counting", counting), sym::add("signs", signs);
  sym::add("newton.line", [] { newton(false); }), sym::add("newton.plane", [] { newton(true); });
  sym::add("newton.left", [] { newton_steps(true); }), sym::add("newton.right", [] { newton_steps(false); });
}
