// C22: knot vectors, ranges and parametrisations.
#include "common.h"
#include <gbs/bscurve.h>
#include <gbs/bscinterp.h>
#include <gbs/knotsfunctions.ixx>
using namespace gbs;
// increasing symbolic values, at least 1/64 apart
static V incr(const std::string &n, size_t k, double lo = -10, double hi = 10) {
  V r(k);
  for (size_t i = 0; i < k; ++i) {
    r[i] = sym::real(n + S_(i), lo, hi);
    if (i) sym::assume_le(r[i - 1] + 1. / 64, r[i]);
  }
  return r;
}
// knots <-> flat knots
static void flat(int nk) {
  V k = incr("k", nk);
  std::vector<size_t> m(nk);
  V ref;
  for (int i = 0; i < nk; ++i) {
    m[i] = sym::choose("m" + S_(i), 1, 3);
    for (size_t j = 0; j < m[i]; ++j) ref.push_back(k[i]);
  }
  V f = flat_knots(k, m);
  sym::eqv(f, ref, "flat", 0);
  V k1, k2;
  std::vector<int> m1;
  unflat_knots(f, m1, k1);
  unflat_knots(f, k2);
  auto [k3, m3] = knots_and_mults(f);
  auto pr = unflat_knots(f);
  sym::eqv(k1, k, "knots", 0), sym::eqv(k2, k, "knots only", 0), sym::eqv(k3, k, "knots_and_mults", 0);
  sym::check(m1.size() == m.size() && m3 == m && pr.size() == m.size(), "count");
  for (int i = 0; i < nk; ++i) {
    sym::check(m1[i] == int(m[i]), "mult");
    sym::check(pr[i].second == m[i], "pair mult"), sym::eq(pr[i].first, k[i], "pair knot", 0);
    sym::check(multiplicity(f, k[i]) == m[i], "multiplicity");
    sym::check(size_t(multiplicity<double>(k[i], f)) == m[i], "multiplicity of ordered");
  }
  double u = sym::real("u", -10, 10);
  size_t c = 0;
  bool far = true;
  for (int i = 0; i < nk; ++i) {
    if (u == k[i]) c = m[i];
    else if (std::abs(u - k[i]) < 1e-9) far = false;
  }
  if (far) {
    sym::check(multiplicity(f, u) == c, "multiplicity of u");
    sym::check(size_t(multiplicity<double>(u, f)) == c, "ordered multiplicity of u");
  }
}
// values closer than knot_eps are one knot
static void near_equal() {
  double a = sym::real("a", -1, 1), e = sym::real("e", 0, 0x1p-20), b = sym::real("b", 2, 4);
  constexpr double E = knot_eps<double>;
  bool same;
  if (e < E / 2) same = true;
  else if (e > 2 * E) same = false;
  else { sym::assume(false); return; }
  if (sym::native && e > 0 && e < 8 * E) return; // rounding of a+e
  V f{a, a, a + e, b, b};
  V k1, k2;
  std::vector<size_t> m1;
  unflat_knots(f, m1, k1), unflat_knots(f, k2);
  auto pr = unflat_knots(f);
  sym::check(k1.size() == (same ? 2 : 3) && k2.size() == k1.size() && pr.size() == k1.size() && m1.size() == k1.size(), "knots merged iff closer than the tolerance");
  sym::check(m1[0] == (same ? 3u : 2u) && m1.back() == 2 && pr[0].second == m1[0], "multiplicities");
  sym::eq(k1[0], a, "first", 0), sym::eq(k1.back(), b, "last", 0);
  sym::check(multiplicity(f, a) == m1[0], "multiplicity");
  sym::eq(snap_to_knot(a + e, V{a, a, b, b}), same ? a : a + e, "snap up", 0);
  sym::eq(snap_to_knot(a, V{a + e, b, b}), same ? a + e : a, "snap down", 0);
  sym::eq(snap_to_knot(b + e, V{a, b}), same ? b : b + e, "snap above the last", 0);
}
static void flat_refuse() {
  int nk = sym::choose("nk", 0, 4), nm = sym::choose("nm", 0, 4);
  V k = incr("k", nk);
  std::vector<int> m(nm, 2);
  if (nk != nm) sym::throws([&] { flat_knots(k, m); }, "different sizes refused");
  else sym::check(flat_knots(k, m).size() == size_t(2 * nk), "size");
}
static void chk_clamped(const V &f, int p, size_t n, double a, double b, bool strict) {
  sym::check(f.size() == n + p + 1, "size is poles + degree + 1");
  if (f.size() != n + p + 1) return;
  for (int i = 0; i <= p; ++i) sym::eq(f[i], a, "start", 1e-12), sym::eq(f[f.size() - 1 - i], b, "end", 1e-12);
  for (size_t i = p; i + 1 < f.size() - p; ++i) {
    if (strict) sym::le(f[i] + 1. / 4096, f[i + 1], "increasing", 1e-12);
    else sym::le(f[i], f[i + 1], "ordered", 1e-12);
  }
}
// averaged knots
static void averaged(int n, int p) {
  V u = incr("u", n);
  V f = build_simple_mult_flat_knots(u, size_t(p));
  chk_clamped(f, p, n, u.front(), u.back(), true);
  for (int j = 1; j < n - p; ++j) {
    double s = 0;
    for (int i = j; i < j + p; ++i) s += u[i];
    sym::eq(f[j + p], s / p, "average of p parameters", 1e-9);
  }
  // Schoenberg-Whitney
  for (int i = 0; i < n; ++i) {
    if (i) sym::le(f[i] + 1. / 4096, u[i], "u_i above its support start", 1e-12);
    if (i + 1 < n) sym::le(u[i] + 1. / 4096, f[i + p + 1], "u_i below its support end", 1e-12);
  }
}
static void uniform(int n, int p) {
  double a = sym::real("a", -10, 10), b = sym::real("b", -10, 10);
  sym::assume_le(a + 1, b);
  V f = build_simple_mult_flat_knots(a, b, size_t(n), size_t(p));
  chk_clamped(f, p, n, a, b, true);
  for (int j = 2; j < n - p; ++j) sym::eq(f[j + p] - f[j + p - 1], f[p + 1] - f[p], "equal spacing", 1e-9);
}
static void too_few() {
  int n = sym::choose("n", 0, 5), p = sym::choose("p", 1, 5);
  V u = incr("u", n, 0, 8);
  double a = sym::real("a", 0, 1);
  auto f1 = [&] { return build_simple_mult_flat_knots(u, size_t(p)); };
  auto f2 = [&] { return build_simple_mult_flat_knots(a, a + 1, size_t(n), size_t(p)); };
  if (n <= p) {
    sym::throws(f1, "less than degree + 1 parameters refused");
    sym::throws(f2, "less than degree + 1 poles refused");
  } else {
    sym::check(f1().size() == size_t(n + p + 1), "size"), sym::check(f2().size() == size_t(n + p + 1), "size");
  }
}
static void mults(int nk, int p) {
  V k = incr("k", nk);
  int m = sym::choose("m", 1, p);
  V f = build_mult_flat_knots(k, size_t(p), size_t(m));
  sym::check(f.size() == size_t(2 * (p + 1) + m * (nk - 2)), "size");
  auto [k1, m1] = knots_and_mults(f);
  sym::eqv(k1, k, "knots", 0);
  for (int i = 0; i < nk && i < int(m1.size()); ++i) sym::check(m1[i] == size_t(i == 0 || i == nk - 1 ? p + 1 : m), "mult");
  double a = k.front(), b = k.back();
  V g = build_mult_flat_knots(a, b, size_t(nk), size_t(p), size_t(m));
  auto [k2, m2] = knots_and_mults(g);
  sym::check(k2.size() == size_t(nk) && m2 == m1, "range mults");
  for (int i = 0; i < nk && i < int(k2.size()); ++i) sym::eq(k2[i], a + (b - a) * i / (nk - 1.), "equally spaced", 1e-9);
}
static void mults_few() {
  int n = sym::choose("n", 0, 2);
  V k = incr("k", n);
  double a = sym::real("a", 0, 1);
  if (n < 2) {
    sym::throws([&] { build_mult_flat_knots(k, 2, 1); }, "less than two knots refused");
    sym::throws([&] { build_mult_flat_knots(a, a + 1, size_t(n), 2, 1); }, "less than two range knots refused");
  } else sym::check(build_mult_flat_knots(k, 2, 1).size() == 6, "size");
}
static void adim_bounds(int n) {
  V k = incr("k", n);
  V a = k, b = k;
  adimension(a);
  sym::eq(a.front(), 0, "0", 1e-12), sym::eq(a.back(), 1, "1", 1e-12);
  double s = sym::real("s", -10, 10), e = sym::real("e", -10, 10);
  change_bounds(s, e, b);
  sym::eq(b.front(), s, "start", 1e-9), sym::eq(b.back(), e, "end", 1e-9);
  for (int i = 0; i < n; ++i) {
    sym::eq(a[i] * (k.back() - k.front()), k[i] - k.front(), "affine", 1e-9);
    sym::eq((b[i] - s) * (k.back() - k.front()), (e - s) * (k[i] - k.front()), "bounds affine", 1e-9);
  }
}
// parametrisation of points along a line: distances are exact
template <size_t D> static void param(int n, int mode) {
  V x = incr("x", n);
  double t = sym::real("t", -8, 8);
  PV<D> pts(n);
  for (int i = 0; i < n; ++i) {
    pts[i].fill(t);
    pts[i][0] = x[i] * (D > 1 ? 3 : 1);
    if (D > 1) pts[i][1] = x[i] * 4 + t;
  }
  double sc = D > 1 ? 5 : 1;
  bool ad = sym::choose("adim", 0, 1);
  auto km = mode == 0 ? KnotsCalcMode::EQUALLY_SPACED : mode == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL;
  V k = curve_parametrization(pts, km, ad);
  sym::check(k.size() == size_t(n), "size");
  sym::eq(k[0], 0, "starts at 0", 1e-12);
  if (ad) sym::eq(k.back(), 1, "ends at 1", 1e-9);
  for (int i = 1; i < n; ++i) sym::check(k[i] > k[i - 1], "increasing");
  for (int i = 0; i < n; ++i) {
    if (mode == 0) sym::eq(k[i] * (n - 1), i, "equally spaced", 1e-9);
    if (mode == 1) sym::eq(ad ? k[i] * (x.back() - x[0]) : k[i], (x[i] - x[0]) * (ad ? 1 : sc), "chord length", 1e-9);
  }
  if (mode == 2) { // spacing is the square root of the distance
    double f = ad ? 0 : 1;
    for (int i = 1; i < n; ++i) {
      double d = k[i] - k[i - 1], d1 = k[1];
      if (f) sym::eq(d * d, (x[i] - x[i - 1]) * sc, "centripetal", 1e-9);
      else sym::eq(d * d * (x[1] - x[0]), d1 * d1 * (x[i] - x[i - 1]), "centripetal ratio", 1e-9);
    }
  }
}
// chord lengths in the plane against the definition
static void param_plane(int n, int mode) {
  auto pts = concPoles<2>(n);
  int w = sym::choose("which", 0, n - 1);
  double x = sym::real("x", -4, 4), y = sym::real("y", -4, 4);
  pts[w] = {x + 1. / 3, y + 40};
  auto km = mode == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL;
  V k = curve_parametrization(pts, km, false);
  sym::eq(k[0], 0, "starts at 0", 0);
  for (int i = 1; i < n; ++i) {
    double dx = pts[i][0] - pts[i - 1][0], dy = pts[i][1] - pts[i - 1][1], d = k[i] - k[i - 1];
    double s = d * d;
    if (mode == 2) s = s * s;
    sym::check(d > 0, "increasing");
    sym::eq(s, dx * dx + dy * dy, "step", 1e-6);
  }
}
static void param_few() {
  int n = sym::choose("n", 0, 2), m = sym::choose("mode", 0, 2);
  double x = sym::real("x", 1, 2);
  PV<2> p;
  for (int i = 0; i < n; ++i) p.push_back({x * i, 1});
  auto f = [&] { return curve_parametrization(p, m == 0 ? KnotsCalcMode::EQUALLY_SPACED : m == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL, true); };
  if (n == 0) { // nothing to parametrise
    bool ok = true;
    try { ok = f().empty(); } catch (const std::exception &) {}
    sym::check(ok, "no points");
    return;
  }
  V k = f();
  sym::check(k.size() == size_t(n), "size");
  sym::eq(k[0], 0, "0", 0);
  if (n == 2) sym::eq(k[1], 1, "1", 1e-12);
}
static void ranges() {
  double a = sym::real("a", -10, 10), b = sym::real("b", -10, 10), c = sym::real("c", -10, 10), d = sym::real("d", -10, 10), e = sym::real("e", -10, 10), g = sym::real("g", -10, 10);
  size_t n = sym::choose("n", 0, 6), m = sym::choose("m", 0, 4);
  auto at = [](double lo, double hi, size_t i, size_t n) { return lo + (hi - lo) * i / (n - 1.); };
  auto chk1 = [&](auto f, const std::string &l) {
    if (n < 2) return sym::throws(f, l + " needs two");
    V v = f();
    sym::check(v.size() == n, l + " size");
    for (size_t i = 0; i < n; ++i) sym::eq(v[i], at(a, b, i, n), l, 1e-9);
    sym::eq(v.front(), a, l + " start", 0), sym::eq(v.back(), b, l + " end", 0);
  };
  chk1([&] { return make_range<double>(a, b, n); }, "range");
  chk1([&] { return make_range<double>(std::array<double, 2>{a, b}, n); }, "range of bounds");
  for (int k = 0; k < 2; ++k) {
    auto f = [&] { return k ? make_range<double>(std::array<double, 4>{a, b, c, d}, n, m) : make_range<double>(a, b, c, d, n, m); };
    if (n < 2 || m < 2) { sym::throws(f, "range 2 needs two"); continue; }
    auto v = f();
    sym::check(v.size() == n * m, "range 2 size");
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < m; ++j) sym::eq(v[j + m * i].first, at(a, b, i, n), "range 2 u", 1e-9), sym::eq(v[j + m * i].second, at(c, d, j, m), "range 2 v", 1e-9);
  }
  size_t w = sym::choose("w", 1, 3);
  for (int k = 0; k < 2; ++k) {
    auto f = [&] { return k ? make_range<double>(std::array<double, 4>{a, b, c, d}, std::array<double, 2>{e, g}, n, m, w) : make_range<double>(a, b, c, d, e, g, n, m, w); };
    if (n < 2 || m < 2 || w < 2) { sym::throws(f, "range 3 needs two"); continue; }
    auto v = f();
    sym::check(v.size() == n * m * w, "range 3 size");
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < m; ++j)
        for (size_t l = 0; l < w; ++l) {
          auto [x, y, z] = v[l + w * (j + m * i)];
          sym::eq(x, at(a, b, i, n), "range 3 u", 1e-9), sym::eq(y, at(c, d, j, m), "range 3 v", 1e-9), sym::eq(z, at(e, g, l, w), "range 3 w", 1e-9);
        }
  }
}
static void range_points() {
  P<2> a{sym::real("ax", -5, 5), sym::real("ay", -5, 5)}, b{sym::real("bx", -5, 5), sym::real("by", -5, 5)};
  size_t n = sym::choose("n", 2, 5);
  auto v = make_range(a, b, n);
  for (size_t i = 0; i < n; ++i)
    for (int d = 0; d < 2; ++d) sym::eq(v[i][d], a[d] + (b[d] - a[d]) * i / (n - 1.), "points on the segment", 1e-9);
  int lo = sym::choose("lo", -2, 2), hi = sym::choose("hi", -2, 3);
  if (hi <= lo) sym::throws([&] { make_range(lo, hi); }, "integer range needs two");
  else {
    auto r = make_range(lo, hi);
    sym::check(int(r.size()) == hi - lo + 1, "integer range size");
    for (size_t i = 0; i < r.size(); ++i) sym::check(r[i] == lo + int(i), "integer range");
  }
}
static void insertion(int n) {
  V k = incr("k", n);
  double u = sym::real("u", -11, 11);
  V o = k;
  insert_ordered(o, u);
  sym::check(o.size() == k.size() + 1, "one more");
  for (size_t i = 1; i < o.size(); ++i) sym::check(o[i - 1] <= o[i], "ordered");
  size_t j = 0;
  bool used = false;
  for (double x : o) { // the old values plus u
    if (j < k.size() && x == k[j]) ++j;
    else sym::check(!used && x == u, "values"), used = true;
  }
  double tol = sym::real("tol", 0, 1. / 256);
  V q = k;
  insert_unique_ordered(q, u, tol);
  bool close = false;
  for (double x : k) close = close || std::abs(x - u) <= tol;
  sym::check(q.size() == k.size() + (close ? 0 : 1), "inserted iff no value within the tolerance");
  for (size_t i = 1; i < q.size(); ++i) sym::check(q[i - 1] < q[i], "unique ordered");
}
// Bessel tangents: exact on parabolas
template <size_t D> static void bessel(int n) {
  V u = incr("u", n, 0, 4);
  PV<D> a = symPoles<D>("a", 3, -3, 3), pts(n);
  for (int i = 0; i < n; ++i)
    for (size_t d = 0; d < D; ++d) pts[i][d] = a[0][d] + a[1][d] * u[i] + a[2][d] * u[i] * u[i];
  auto T = build_3pt_tg_vec(pts, u);
  sym::check(T.size() == size_t(n), "size");
  for (int i = 0; i < n; ++i)
    for (size_t d = 0; d < D; ++d) sym::eq(T[i][d], a[1][d] + 2 * a[2][d] * u[i], "exact on parabolas", 1e-6);
}
static void bessel_any(int n) {
  V u(n);
  for (int i = 0; i < n; ++i) u[i] = i + (i % 3) * 0.25;
  auto pts = symPoles<2>("q", n);
  auto T = build_3pt_tg_vec(pts, u);
  for (int i = 0; i < n; ++i) {
    int c = i == 0 ? 1 : i == n - 1 ? n - 2 : i; // derivative at u_i of the parabola through c-1, c, c+1
    for (int d = 0; d < 2; ++d) {
      double r = 0;
      for (int j = c - 1; j <= c + 1; ++j) {
        int k = c - 1, l = c, m = c + 1, o1 = j == k ? l : k, o2 = j == m ? l : m;
        r += pts[j][d] * ((u[i] - u[o1]) + (u[i] - u[o2])) / ((u[j] - u[o1]) * (u[j] - u[o2]));
      }
      sym::eq(T[i][d], r, "derivative of the local parabola", 1e-6);
    }
  }
}
void sym_register() {
  for (int n = 2; n < 5; ++n) sym::add("flat." + S_(n), [=] { flat(n); }), sym::add("affine." + S_(n), [=] { adim_bounds(n); }), sym::add("insert." + S_(n), [=] { insertion(n); });
  sym::add("insert.0", [] { insertion(0); }), sym::add("insert.1", [] { insertion(1); });
  sym::add("near", near_equal), sym::add("flat.refuse", flat_refuse), sym::add("few", too_few), sym::add("mults.few", mults_few), sym::add("param.few", param_few);
  for (int p = 1; p < 6; ++p)
    for (int n = p + 1; n < 9; ++n) sym::add("averaged." + S_(n) + "." + S_(p), [=] { averaged(n, p); }), sym::add("uniform." + S_(n) + "." + S_(p), [=] { uniform(n, p); });
  for (int p : {1, 2, 3, 9})
    for (int n = 10; n < 25; n += 7) sym::add("averaged." + S_(n) + "." + S_(p), [=] { averaged(n, p); }, n > 10), sym::add("uniform." + S_(n) + "." + S_(p), [=] { uniform(n, p); });
  for (int nk = 2; nk < 7; ++nk)
    for (int p = 1; p < 5; ++p) sym::add("mults." + S_(nk) + "." + S_(p), [=] { mults(nk, p); });
  for (int m = 0; m < 3; ++m)
    for (int n = 2; n < 6; ++n) sym::add("param.1." + S_(n) + "." + S_(m), [=] { param<1>(n, m); }), sym::add("param.2." + S_(n) + "." + S_(m), [=] { param<2>(n, m); }), sym::add("param.3." + S_(n) + "." + S_(m), [=] { param<3>(n, m); });
  for (int m = 1; m < 3; ++m)
    for (int n = 2; n < 6; ++n) sym::add("plane." + S_(n) + "." + S_(m), [=] { param_plane(n, m); });
  sym::add("ranges", ranges), sym::add("range.points", range_points);
  for (int n = 3; n < 7; ++n) sym::add("bessel.1." + S_(n), [=] { bessel<1>(n); }), sym::add("bessel.2." + S_(n), [=] { bessel<2>(n); }, n > 4), sym::add("bessel.any." + S_(n), [=] { bessel_any(n); });
}
