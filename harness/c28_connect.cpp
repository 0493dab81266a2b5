// C28: connecting curves and extensions of curves and surfaces.
#include "common.h"
#include <gbs/curves>
#include <gbs/bscbuild.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
using namespace gbs;
using std::optional;
// poles: those listed in fixed move rigidly with t, the others are free
template <size_t D> static PV<D> semi(const std::string &nm, size_t n, const std::vector<size_t> &fixed, const P<D> &t, size_t salt, double free = 4) {
  auto x = concPoles<D>(n, salt);
  std::vector<bool> f(n, false);
  for (auto i : fixed) f[i] = true;
  for (size_t i = 0; i < n; ++i)
    for (size_t d = 0; d < D; ++d) x[i][d] = f[i] ? x[i][d] + t[d] : sym::real(nm + S_(i) + "_" + S_(d), -free, free);
  return x;
}
template <size_t D> static P<D> shift(const char *n = "T") {
  P<D> t;
  for (size_t d = 0; d < D; ++d) t[d] = sym::real(std::string(n) + S_(d), -8, 8);
  return t;
}
template <size_t D> static double dist(const P<D> &a, const P<D> &b) {
  double s = 0;
  for (size_t d = 0; d < D; ++d) s += (a[d] - b[d]) * (a[d] - b[d]);
  return std::sqrt(s);
}
template <size_t D, class C1, class C2, class R> static void joins(const R &c, const C1 &a, const C2 &b, int n, double tol = 1e-6) {
  for (int d = 0; d <= n; ++d) {
    eqp<D>(c.begin(d), a.end(d), "start.der" + S_(d), tol);
    eqp<D>(c.end(d), b.begin(d), "end.der" + S_(d), tol);
  }
}
template <size_t D> static void connect_case(int p, int q, bool rat) {
  auto t = shift<D>();
  V ka = clamped(p, {{1, 1}}, 0, 2), kb = clamped(q, {{1.5, 1}}, 1, 3);
  size_t na = p + 2, nb = q + 2;
  auto xa = semi<D>("A", na, {na - 1}, t, 1), xb = semi<D>("B", nb, {0}, t, 4);
  auto go = [&](const auto &a, const auto &b) {
    const Curve<double, D> &A = a, &B = b;
    joins<D>(c2_connect<double, D>(A, B), A, B, 2);
    joins<D>(c3_connect<double, D>(A, B), A, B, 3, 1e-5);
    double k1 = 0.5, k2 = 2;
    auto c = c2_connect<double, D>(A, B, k1, k2);
    joins<D>(c, A, B, 2);
    auto x = A.end(3), y = B.begin(3);
    for (auto &v : x) v *= k1;
    for (auto &v : y) v *= k2;
    eqp<D>(c.begin(3), x, "start.der3", 1e-5);
    eqp<D>(c.end(3), y, "end.der3", 1e-5);
  };
  if (rat) go(BSCurveRational<double, D>(xa, ka, concWeights(na), p), BSCurveRational<double, D>(xb, kb, concWeights(nb), q));
  else go(BSCurve<double, D>(xa, ka, p), BSCurve<double, D>(xb, kb, q));
}
// derivative d of the result on the left and on the right of knot s
template <size_t D, class R> static std::pair<P<D>, P<D>> seam(const R &r, double s, int d) {
  const V &k = r.knotsFlats();
  size_t l = 0, h = 0;
  for (size_t i = 0; i + 1 < k.size(); ++i)
    if (k[i + 1] - k[i] > 1e-9) {
      if (std::fabs(k[i + 1] - s) < 1e-9) l = i;
      if (std::fabs(k[i] - s) < 1e-9) h = i;
    }
  sym::check(l != 0 && h != 0, "knot at the seam");
  int p = r.degree();
  if constexpr (std::is_same_v<R, BSCurveRational<double, D>>) {
    auto a = rat_ders_span<D>(k[l + 1], k, r.poles(), p, l, d), b = rat_ders_span<D>(k[h], k, r.poles(), p, h, d);
    return {a[d], b[d]};
  } else
    return {bs_ref_span<D>(k[l + 1], k, r.poles(), p, l, d), bs_ref_span<D>(k[h], k, r.poles(), p, h, d)};
}
template <bool rat, size_t D> using crv_t = std::conditional_t<rat, BSCurveRational<double, D>, BSCurve<double, D>>;
template <bool rat, size_t D> static crv_t<rat, D> mkc(const PV<D> &x, const V &k, int p) {
  if constexpr (rat) return crv_t<rat, D>(x, k, concWeights(x.size()), p);
  else return crv_t<rat, D>(x, k, p);
}
template <bool rat, size_t D> static P<D> refc(const PV<D> &x, const V &k, int p, double u, int d = 0) {
  if constexpr (rat) return rat_ref<D>(u, k, homog<D>(x, concWeights(x.size())), p, d);
  else return bs_ref<D>(u, k, x, p, d);
}
static optional<size_t> cont(int p) {
  int m = sym::choose("max_cont", -1, p);
  return m < 0 ? std::nullopt : optional<size_t>(m);
}
static int order(int p, optional<size_t> m) { return m ? std::min<int>(p - 1, *m) : p - 1; }
template <bool rat, size_t D> static void ext_point_case(int p) {
  V k = clamped(p, {{1, 1}}, 0, 2);
  auto x = symPoles<D>("P", p + 2, -4, 4);
  P<D> pt;
  for (size_t d = 0; d < D; ++d) pt[d] = sym::real("pt" + S_(d), -9, 9);
  auto c = mkc<rat, D>(x, k, p);
  int w = sym::choose("from", 0, 2);
  double u = w == 0 ? 2. : w == 1 ? 0.5 : 1.;
  double un = sym::choose("far", 0, 1) ? u + 3 : u + 0.5;
  bool nat = sym::choose("natural", 0, 1);
  auto m = cont(p);
  auto e = extention_to_point(c, pt, u, un, nat, m);
  auto b = e.bounds();
  sym::eq(b[0], u, "starts at u");
  sym::eq(b[1], un, "ends at u_new");
  for (int d = 0; d <= order(p, m); ++d) eqp<D>(e.begin(d), refc<rat, D>(x, k, p, u, d), "start.der" + S_(d), 1e-6);
  eqp<D>(e.end(), pt, "reaches the point", 1e-6);
  if (nat && p > 2) eqp<D>(e.end(2), P<D>{}, "natural end", 1e-6);
}
// the extension's parameter range follows from the distance and the speed at u
template <bool rat, size_t D> static void ext_speed_case(int p) {
  auto t = shift<D>();
  V k = clamped(p, {{0.5, 1}, {1, 1}, {1.5, 1}}, 0, 2);
  size_t n = p + 4;
  int w = sym::choose("from", 0, 1);
  // at the end the last two poles decide value and speed, at 0.25 the first p+1
  std::vector<size_t> fx{n - 2, n - 1};
  if (w) {
    fx.clear();
    for (int i = 0; i <= p; ++i) fx.push_back(i);
  }
  auto x = semi<D>("P", n, fx, t, 2);
  auto c = mkc<rat, D>(x, k, p);
  double u = w ? 0.25 : 2.;
  auto q = refc<rat, D>(x, k, p, u);
  P<D> pt = q;
  pt[0] += sym::choose("far", 0, 1) ? 6 : 0.75;
  pt[1] -= 1;
  bool nat = sym::choose("natural", 0, 1);
  auto m = cont(p);
  auto e = extention_to_point(c, pt, u, nat, m);
  auto b = e.bounds();
  double sp = 0;
  for (auto v : refc<rat, D>(x, k, p, u, 1)) sp += v * v;
  sym::eq(b[0], u, "starts at u");
  sym::eq((b[1] - b[0]) * std::sqrt(sp), dist<D>(pt, q), "advances by the distance over the speed", 1e-6);
  for (int d = 0; d <= order(p, m); ++d) eqp<D>(e.begin(d), refc<rat, D>(x, k, p, u, d), "start.der" + S_(d), 1e-5);
  eqp<D>(e.end(), pt, "reaches the point", 1e-5);
  if (nat && p > 2) eqp<D>(e.end(2), P<D>{}, "natural end", 1e-5);
}
template <bool rat, size_t D> static void extended_case(int p, int at_end, int byl) {
  auto t = shift<D>();
  V k = clamped(p, {{1, 1}}, 0.5, 2);
  size_t n = p + 2;
  std::vector<size_t> fx = at_end ? std::vector<size_t>{n - 2, n - 1} : std::vector<size_t>{0, 1};
  auto x = semi<D>("P", n, fx, t, 3, 2);
  auto c = mkc<rat, D>(x, k, p);
  double u1 = 0.5, u2 = 2, ue = at_end ? u2 : u1;
  auto q = refc<rat, D>(x, k, p, ue);
  auto tg = refc<rat, D>(x, k, p, ue, 1);
  bool nat = sym::choose("natural", 0, 1);
  auto m = cont(p);
  double l = sym::choose("far", 0, 1) ? 5 : 0.5;
  P<D> pt = q;
  if (byl) {
    double n_ = dist<D>(tg, P<D>{});
    for (size_t d = 0; d < D; ++d) pt[d] += (at_end ? 1 : -1) * l * tg[d] / n_;
  } else pt[0] += l, pt[1] -= 0.25;
  auto r = byl ? extended(c, l, (bool)at_end, false, nat, m) : at_end && l > 1 ? extended_to_point(c, pt, nat, m) : extended_to_point(c, pt, (bool)at_end, nat, m);
  auto b = r.bounds();
  sym::check((int)r.degree() == p, "degree");
  sym::eq(at_end ? b[0] : b[1], at_end ? u1 : u2, "other bound kept");
  sym::check(at_end ? b[1] > u2 : b[0] < u1, "domain grows");
  double u = sym::real("u", 0.5, 2);
  eqp<D>(r(u), refc<rat, D>(x, k, p, u), "curve kept", 1e-5);
  eqp<D>(at_end ? r.end() : r.begin(), pt, "reaches the point", 1e-5);
  for (int d = 0; d <= order(p, m); ++d) {
    auto [a, z] = seam<D>(r, ue, d);
    eqp<D>(a, z, "continuous.der" + S_(d), 1e-4);
  }
}
template <bool rat> using srf_t = std::conditional_t<rat, BSSurfaceRational<double, 3>, BSSurface<double, 3>>;
struct Srf { V ku, kv; int p, q; PV<3> x; V w; bool rat;
  P<3> at(double u, double v, int du = 0, int dv = 0) const { return rat ? rsrf_ref<3>(u, v, ku, kv, homog<3>(x, w), p, q, du, dv) : srf_ref<3>(u, v, ku, kv, x, p, q, du, dv); }
};
// the two u rows next to u_end are rigid, some of the others free
static Srf mks(int p, int q, bool rat, int sym_rows) {
  Srf s;
  s.p = p, s.q = q, s.rat = rat;
  s.ku = clamped(p, {}, 0, 1), s.kv = clamped(q, {{1, 1}}, 0, 2);
  size_t nu = p + 1, nv = q + 2;
  auto t = shift<3>();
  for (size_t j = 0; j < nv; ++j)
    for (size_t i = 0; i < nu; ++i) {
      P<3> a{1. * i + 0.25 * j, 1. * j, 0.5 * ((i + 2 * j) % 3)};
      for (int d = 0; d < 3; ++d)
        if (i + 2 >= nu || (int)i < (int)nu - 2 - sym_rows) a[d] += t[d];
        else if (d < 2) a[d] += sym::real("P" + S_(i) + "_" + S_(j) + "_" + S_(d), -2, 2);
      s.x.push_back(a);
      s.w.push_back(1 + 0.25 * ((i + j * 2) % 3));
    }
  return s;
}
template <bool rat> static srf_t<rat> real_srf(const Srf &s) {
  if constexpr (rat) return srf_t<rat>(s.x, s.w, s.ku, s.kv, s.p, s.q);
  else return srf_t<rat>(s.x, s.ku, s.kv, s.p, s.q);
}
template <bool rat> static void srf_curve_case(int p, int q, bool whole) {
  auto s = mks(p, q, rat, 1);
  auto S = real_srf<rat>(s);
  size_t nv = q + 2, nu = p + 1;
  PV<3> g;
  V w;
  for (size_t j = 0; j < nv; ++j) {
    P<3> a = s.x[j * nu + nu - 1];
    a[0] += 1 + 0.25 * j, a[1] += 0.5, a[2] -= 0.25 * (j % 2);
    g.push_back(a), w.push_back(1 + 0.5 * (j % 2));
  }
  auto C = [&] { if constexpr (rat) return crv_t<rat, 3>(g, s.kv, w, q); else return crv_t<rat, 3>(g, s.kv, q); }();
  auto cref = [&](double v) { if constexpr (rat) return rat_ref<3>(v, s.kv, homog<3>(g, w), q); else return bs_ref<3>(v, s.kv, g, q); };
  bool nat = sym::choose("natural", 0, 1);
  auto m = cont(p);
  double v = sym::real("v", 0, 2);
  if (whole) {
    auto e = extended_to_curve(S, C, nat, m);
    auto b = e.bounds();
    sym::eq(b[0], 0, "u start"), sym::eq(b[2], 0, "v start"), sym::eq(b[3], 2, "v end");
    sym::check(b[1] > 1.0625, "domain grows");
    double u = sym::real("u", 0, 1);
    eqp<3>(e(u, v), s.at(u, v), "surface kept", 1e-5);
    eqp<3>(e(b[1], v), cref(v), "reaches the curve", 1e-5);
    auto x = extention_to_curve(S, C, nat, m);
    eqp<3>(e(1.0625, v), x(1.0625, v), "extension appended", 1e-5);
  } else {
    auto e = extention_to_curve(S, C, nat, m);
    auto b = e.bounds();
    sym::eq(b[0], 1, "starts at the edge"), sym::eq(b[2], 0, "v start"), sym::eq(b[3], 2, "v end");
    eqp<3>(e(b[1], v), cref(v), "reaches the curve", 1e-5);
    for (int d = 0; d <= order(p, m); ++d) eqp<3>(e(1, v, d, 0), s.at(1, v, d, 0), "edge.der" + S_(d), 1e-4);
    if (nat && p > 2 && !rat) eqp<3>(e(b[1], v, 2, 0), P<3>{}, "natural end", 1e-4);
  }
}
// extension by a length: the tangents at every border have one direction
template <bool rat> static void srf_length_case(int loc, int degs) {
  int p = degs / 10, q = degs % 10;
  Srf s;
  s.p = p, s.q = q, s.rat = rat;
  s.ku = clamped(p, {}, 0, 1), s.kv = clamped(q, {{1, 1}}, 0, 2);
  size_t nu = p + 1, nv = q + 2;
  auto t = shift<3>();
  // a translation surface: every u row is the same profile, moved along another
  auto wu = concWeights(nu), wv = concWeights(nv);
  V gv{0, 0.75, 2, 3, 3.5, 5}, hu{0, 1, 2.5, 3, 4.5};
  for (size_t j = 0; j < nv; ++j)
    for (size_t i = 0; i < nu; ++i) {
      P<3> a{hu[i] + t[0], gv[j] + t[1], 0.25 * (i % 2) + 0.5 * (j % 2) + t[2]};
      s.x.push_back(a);
      s.w.push_back(wu[i] * wv[j]);
    }
  auto S = real_srf<rat>(s);
  bool nat = sym::choose("natural", 0, 1);
  auto m = cont(std::min(p, q));
  double l = sym::choose("far", 0, 1) ? 2 : 0.5;
  auto L = (SurfaceBound)loc;
  auto r = extended(S, l, L, nat, m);
  auto b = r.bounds();
  bool ud = loc < 2, st = loc == 0 || loc == 2;
  double du = b[1] - 1, dv = b[3] - 2;
  sym::eq(b[0], 0, "u start", 1e-9), sym::eq(b[2], 0, "v start", 1e-9);
  sym::check(ud ? du > 0.0625 : dv > 0.0625, "domain grows");
  sym::eq(ud ? dv : du, 0, "other direction kept", 1e-9);
  double c = 0.375;
  double u = sym::choose("iu", 0, 4) * 0.25, v = sym::choose("iv", 0, 4) * 0.5;
  eqp<3>(r(u + (st ? du : 0), v + (st ? dv : 0)), s.at(u, v), "surface kept", 1e-5);
  // new border
  double bu = loc == 0 ? 0 : loc == 1 ? 1 : u, bv = loc == 2 ? 0 : loc == 3 ? 2 : v;
  auto q0 = s.at(bu, bv), tg = ud ? s.at(bu, bv, 1, 0) : s.at(bu, bv, 0, 1);
  double n_ = dist<3>(tg, P<3>{});
  for (int d = 0; d < 3; ++d) q0[d] += (st ? -1 : 1) * l * tg[d] / n_;
  (void)c;
  double ru = loc == 0 ? b[0] : loc == 1 ? b[1] : u, rv = loc == 2 ? b[2] : loc == 3 ? b[3] : v;
  if (!rat) eqp<3>(r(ru, rv), q0, "border at the length", 1e-5);
  auto e = extention(S, l, L, nat, m);
  auto be = e.bounds();
  double w = ud ? v : u, edge = ud ? 1 : 2;
  eqp<3>(e(edge, w), s.at(bu, bv), "extension starts on the border", 1e-5);
  if (!rat) eqp<3>(e(be[1], w), q0, "extension ends at the length", 1e-5);
}
void sym_register() {
  for (auto [p, q] : {std::pair{2, 3}, {3, 3}, {3, 4}, {4, 2}}) {
    sym::add("connect.d2." + S_(p) + S_(q), [=, p = p, q = q] { connect_case<2>(p, q, false); });
    sym::add("connect.d3." + S_(p) + S_(q), [=, p = p, q = q] { connect_case<3>(p, q, false); }, q == 4);
    if (p + q < 7) sym::add("connect.rat." + S_(p) + S_(q), [=, p = p, q = q] { connect_case<2>(p, q, true); });
  }
  for (int n = 1; n <= 4; ++n)
    for (int rat = 0; rat < 2; ++rat)
      sym::add("cn_connect.n" + S_(n) + (rat ? ".rat" : ""), [=] {
        V ka = clamped(3, {{1, 1}}, 0, 2), kb = clamped(4, {{1.5, 1}}, 1, 3);
        auto xa = symPoles<2>("A", 5, -4, 4), xb = symPoles<2>("B", 6, -4, 4);
        size_t p = sym::choose("p", n + 1, 2 * n + 2);
        double du = sym::choose("du", 0, 2) * 0.75 + 0.5;
        auto go = [&](const Curve<double, 2> &a, const Curve<double, 2> &b) {
          auto c = cn_connect<double, 2>(a, b, du, p, n);
          sym::check(c.degree() == std::min<size_t>(p, 2 * n + 1), "degree");
          sym::eq(c.bounds()[0], 0, "from 0"), sym::eq(c.bounds()[1], du, "to du");
          joins<2>(c, a, b, n, 1e-4);
        };
        if (rat) go(BSCurveRational<double, 2>(xa, ka, concWeights(5), 3), BSCurveRational<double, 2>(xb, kb, concWeights(6), 4));
        else go(BSCurve<double, 2>(xa, ka, 3), BSCurve<double, 2>(xb, kb, 4));
      }, n == 4);
  // ellipse-like connections: a leaves to the right, b comes back from it
  auto facing = [](PV<2> &xa, PV<2> &xb, bool third) {
    double tx = sym::real("tx", -8, 8), ty = sym::real("ty", -8, 8);
    xa = {{-2, 1}, {-1.5, 1.5}, {-1, 1}, {0, 1}};
    xb = {{0.5, -1}, {-0.5, -1}, {-1, -1.5}, {-2, -1}};
    xa[1][1] += sym::real("a1", -0.25, 0.25), xb[2][1] += sym::real("b2", -0.25, 0.25);
    xa[2][0] += sym::real("a2", -0.25, 0.25), xb[1][0] += sym::real("b1", -0.25, 0.25);
    if (third) xa[0][0] += sym::real("a0", -0.25, 0.25), xb[3][1] += sym::real("b3", -0.25, 0.25);
    for (auto *x : {&xa, &xb})
      for (auto &y : *x) y[0] += tx, y[1] += ty;
  };
  const V K3 = clamped(3, {});
  for (int e = 1; e <= 2; ++e) {
    sym::add("ellipse.c2.e" + S_(e), [=] {
      PV<2> xa, xb;
      facing(xa, xb, true);
      BSCurve<double, 2> a(xa, K3, 3), b(xb, K3, 3);
      joins<2>(c2_connect(a, b, (double)e), a, b, 2);
    });
    sym::add("ellipse.c3.e" + S_(e), [=] {
      PV<2> xa, xb;
      facing(xa, xb, true);
      BSCurve<double, 2> a(xa, K3, 3), b(xb, K3, 3);
      joins<2>(c3_connect<double, 2>(a, b, (double)e), a, b, 3, 1e-5);
    });
    sym::add("ellipse.general.e" + S_(e), [=] {
      PV<2> xa, xb;
      facing(xa, xb, true);
      PV<3> ya, yb;
      for (auto &x : xa) ya.push_back({x[0], x[1], x[0]});
      for (auto &x : xb) yb.push_back({x[0], x[1], x[0]});
      BSCurve<double, 3> a(ya, K3, 3), b(yb, K3, 3);
      joins<3>(c2_connect<double, 3>(a, b, (double)e), a, b, 2);
    });
    // at chosen parameters and on chosen sides: as for the curve run backwards
    sym::add("ellipse.sides.e" + S_(e), [=] {
      PV<2> xa, xb;
      facing(xa, xb, true);
      int s = sym::choose("sides", 0, 3);
      bool s1 = s & 1, s2 = s & 2;
      if (!s1) std::reverse(xa.begin(), xa.end());
      if (!s2) std::reverse(xb.begin(), xb.end());
      BSCurve<double, 2> a(xa, K3, 3), b(xb, K3, 3);
      double u1 = s1 ? 1 : 0, u2 = s2 ? 0 : 1;
      auto c = c2_connect(a, b, u1, u2, s1, s2, (double)e);
      for (int d = 0; d <= 2; ++d) {
        auto x = bs_ref<2>(u1, K3, xa, 3, d), y = bs_ref<2>(u2, K3, xb, 3, d);
        if (d == 1) for (int i = 0; i < 2; ++i) x[i] *= s1 ? 1 : -1, y[i] *= s2 ? 1 : -1;
        eqp<2>(c.begin(d), x, "start.der" + S_(d), 1e-6);
        eqp<2>(c.end(d), y, "end.der" + S_(d), 1e-6);
      }
    });
  }
  for (int p = 1; p <= 4; ++p) {
    int hi = p == 4;
    sym::add("extension.point." + S_(p), [=] { ext_point_case<false, 2>(p); });
    sym::add("extension.point.rat." + S_(p), [=] { ext_point_case<true, 2>(p); }, hi);
    sym::add("extension.point.d3." + S_(p), [=] { ext_point_case<false, 3>(p); }, p != 2);
    sym::add("extension.speed." + S_(p), [=] { ext_speed_case<false, 2>(p); });
    sym::add("extension.speed.rat." + S_(p), [=] { ext_speed_case<true, 2>(p); }, hi);
    for (int at_end = 0; at_end < 2; ++at_end)
      for (int byl = 0; byl < 2; ++byl) {
        std::string nm = std::string(byl ? "length." : "point.") + (at_end ? "end." : "begin.") + S_(p);
        sym::add("extended." + nm, [=] { extended_case<false, 2>(p, at_end, byl); });
        sym::add("extended.rat." + nm, [=] { extended_case<true, 2>(p, at_end, byl); }, hi);
        sym::add("extended.d3." + nm, [=] { extended_case<false, 3>(p, at_end, byl); }, p != 3);
      }
    // a straight line goes on as the same line; relative lengths are parts of its length
    if (p > 1)
      sym::add("extended.line." + S_(p), [=] {
        double tx = sym::real("tx", -8, 8), ty = sym::real("ty", -8, 8);
        PV<2> x;
        for (int i = 0; i <= p; ++i) x.push_back({tx + 3. * i, ty - 4. * i});
        BSCurve<double, 2> c(x, clamped(p, {}), p);
        bool at_end = sym::choose("at_end", 0, 1), rel = sym::choose("relative", 0, 1), nat = sym::choose("natural", 0, 1);
        double f = sym::choose("far", 0, 1) ? 1.5 : 0.25, l = rel ? f : f * 5 * p;
        auto r = extended(c, l, at_end, rel, nat);
        double u = sym::real("u", 0, 1);
        double v = at_end ? u * (1 + f) : (u - 1) * f + u;
        eqp<2>(r(v), {tx + 3 * p * v, ty - 4 * p * v}, "same line", 1e-4);
        sym::eq(r.bounds()[0], at_end ? 0 : -f, "start", 1e-6);
        sym::eq(r.bounds()[1], at_end ? 1 + f : 1, "end", 1e-6);
      });
  }
  for (auto [p, q] : {std::pair{1, 1}, {2, 1}, {3, 1}, {3, 2}})
    for (int whole = 0; whole < 2; ++whole) {
      std::string nm = std::string(whole ? "extended." : "extension.") + S_(p) + S_(q);
      sym::add("surface.curve." + nm, [=, p = p, q = q] { srf_curve_case<false>(p, q, whole); });
      sym::add("surface.curve.rat." + nm, [=, p = p, q = q] { srf_curve_case<true>(p, q, whole); }, p == 3 && q == 2);
    }
  sym::add("surface.curve.incompatible", [] {
    auto s = mks(2, 2, false, 0);
    auto S = real_srf<false>(s);
    auto y = symPoles<3>("Q", 4, -4, 4);
    PV<3> z(y.begin(), y.begin() + 3);
    int k = sym::choose("kind", 0, 2);
    BSCurve<double, 3> c = k == 0 ? BSCurve<double, 3>(z, clamped(2, {}, 0, 2), 2) : k == 1 ? BSCurve<double, 3>(y, clamped(2, {{1.25, 1}}, 0, 2), 2) : BSCurve<double, 3>(z, clamped(1, {{1, 1}}, 0, 2), 1);
    sym::throws([&] { extention_to_curve(S, c, false); }, "curve of another spline space");
    sym::throws([&] { extended_to_curve(S, c, false); }, "curve of another spline space");
  });
  for (int loc = 0; loc < 4; ++loc)
    for (int d : {11, 21, 22, 32}) {
      sym::add("surface.length." + S_(loc) + "." + S_(d), [=] { srf_length_case<false>(loc, d); }, d == 32);
      sym::add("surface.length.rat." + S_(loc) + "." + S_(d), [=] { srf_length_case<true>(loc, d); }, d == 32);
    }
}
