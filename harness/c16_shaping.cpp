// C16: moving a point or located constraints of a curve / surface.
#include "common.h"
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
#include <gbs/bscshaping.h>
#include <gbs/bssshaping.h>
using namespace gbs;
using L_ = std::vector<std::pair<double, int>>;
// least norm solution of B x = d (B concrete, full row rank)
static V leastNorm(const std::vector<V> &B, const V &d) {
  size_t m = B.size(), n = B[0].size();
  std::vector<V> A(m, V(m));
  V b = d;
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < m; ++j)
      for (size_t c = 0; c < n; ++c) A[i][j] += B[i][c] * B[j][c];
  for (size_t i = 0; i < m; ++i)
    for (size_t j = i + 1; j < m; ++j) {
      double f = A[j][i] / A[i][i];
      for (size_t c = i; c < m; ++c) A[j][c] -= f * A[i][c];
      b[j] -= f * b[i];
    }
  V l(m);
  for (size_t i = m; i-- > 0;) {
    double s = b[i];
    for (size_t c = i + 1; c < m; ++c) s -= A[i][c] * l[c];
    l[i] = s / A[i][i];
  }
  V x(n);
  for (size_t c = 0; c < n; ++c)
    for (size_t i = 0; i < m; ++i) x[c] += B[i][c] * l[i];
  return x;
}
static L_ shifted(L_ l, double o) {
  for (auto &[x, m] : l) x += o;
  return l;
}
template <size_t D> static void curve_point_case(int p, const L_ &l, double uc, bool fix, int mode) {
  const double o = fix ? -3.25 : 0; // parameters anywhere
  V k = clamped(p, shifted(l, o), o, o + 2);
  size_t n = k.size() - p - 1;
  bool symU = uc < 0;
  auto x = symU ? concPoles<D>(n) : symPoles<D>("P", n);
  P<D> t;
  for (size_t d = 0; d < D; ++d) t[d] = sym::real("t" + S_(d), -10, 10);
  double u = symU ? sym::real("u", o + 0.125, o + 1.875) : o + uc;
  BSCurve<double, D> c{x, k, (size_t)p};
  BSCurve<double, D> r = c;
  if (mode) move_to_point<double, D>(r, t, u, fix);
  else r = moved_to_point<double, D>(c, t, u, fix);
  eqp<D>(bs_ref<D>(u, k, r.poles(), p), t, "target", 1e-6);
  sym::check(r.degree() == (size_t)p && r.poles().size() == n, "shape");
  sym::eqv(r.knotsFlats(), k, "knots");
  sym::eq(r.bounds()[0], o, "b0"), sym::eq(r.bounds()[1], o + 2, "b1");
  size_t s = span_ref(u, k);
  V N(n);
  double q = 0;
  for (size_t i = 0; i < n; ++i) {
    N[i] = fix && (i == 0 || i + 1 == n) ? 0. : basis_ref(i, p, u, k, s);
    q += N[i] * N[i];
  }
  auto c0 = bs_ref<D>(u, k, x, p);
  for (size_t i = 0; i < n; ++i)
    for (size_t d = 0; d < D; ++d) sym::eq((r.poles()[i][d] - x[i][d]) * q, N[i] * (t[d] - c0[d]), "least move", 1e-6);
  for (size_t i = 0; i < n; ++i)
    if (s < i || s > i + p || (fix && (i == 0 || i + 1 == n))) eqp<D>(r.poles()[i], x[i], "local");
}
template <size_t D> struct Cs {
  double u;
  size_t d;
};
template <size_t D> static void curve_cstr_case(int p, const L_ &l, std::vector<std::pair<double, int>> cs, bool fix, int mode) {
  const double o = fix ? -3.25 : 0;
  for (auto &c : cs) c.first += o;
  V k = clamped(p, shifted(l, o), o, o + 2);
  size_t n = k.size() - p - 1, m = cs.size();
  auto x = symPoles<D>("P", n);
  std::vector<bsc_constraint<double, D>> c;
  std::vector<P<D>> t(m);
  for (size_t i = 0; i < m; ++i) {
    for (size_t d = 0; d < D; ++d) t[i][d] = sym::real("t" + S_(i) + "_" + S_(d), -10, 10);
    c.push_back({cs[i].first, t[i], (size_t)cs[i].second});
  }
  BSCurve<double, D> b{x, k, (size_t)p};
  BSCurve<double, D> r = b;
  bool delta = mode == 2; // the targets are increments
  if (mode == 0) r = moved_to_constraints<double, D>(b, c, fix);
  if (mode == 1) move_to_constraints<double, D>(r, c, fix);
  size_t i1 = fix ? 1 : 0, i2 = fix ? n - 2 : n - 1;
  if (mode == 2) r = moved_to_constraints_delta<double, D>(b, c, i1, i2);
  std::vector<V> B(m, V(n));
  for (size_t i = 0; i < m; ++i) {
    auto [u, d] = cs[i];
    auto y = bs_ref<D>(u, k, r.poles(), p, d), y0 = bs_ref<D>(u, k, x, p, d);
    for (size_t a = 0; a < D; ++a) sym::eq(y[a], delta ? y0[a] + t[i][a] : t[i][a], "target" + S_(i), 1e-5);
    for (size_t j = i1; j <= i2; ++j) B[i][j] = basis_ref(j, p, u, k, span_ref(u, k), d);
  }
  sym::check(r.degree() == (size_t)p && r.poles().size() == n, "shape");
  sym::eqv(r.knotsFlats(), k, "knots");
  sym::eq(r.bounds()[0], o, "b0"), sym::eq(r.bounds()[1], o + 2, "b1");
  for (size_t a = 0; a < D; ++a) {
    V d(m);
    for (size_t i = 0; i < m; ++i) d[i] = delta ? t[i][a] : t[i][a] - bs_ref<D>(cs[i].first, k, x, p, cs[i].second)[a];
    auto dx = leastNorm(B, d);
    for (size_t j = 0; j < n; ++j) sym::eq(r.poles()[j][a], x[j][a] + dx[j], "least move", 1e-5);
  }
  if (mode != 1) eqp<D>(b.poles()[0], x[0], "source untouched");
}
struct SC {
  double u, v;
  size_t du, dv;
};
template <size_t D> static void surf_case(int p, int q, const L_ &lu, const L_ &lv, const std::vector<SC> &cs, bool fix, int mode) {
  V ku = clamped(p, lu, 0, 2), kv = clamped(q, lv, -1, 1);
  size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1, m = cs.size();
  bool few = nu * nv * D > 40;
  auto x = few ? concPoles<D>(nu * nv) : symPoles<D>("P", nu * nv);
  std::vector<bss_constraint<double, D>> c;
  std::vector<P<D>> t(m);
  for (size_t i = 0; i < m; ++i) {
    for (size_t d = 0; d < D; ++d) t[i][d] = sym::real("t" + S_(i) + "_" + S_(d), -10, 10);
    c.push_back({cs[i].u, cs[i].v, t[i], cs[i].du, cs[i].dv});
  }
  BSSurface<double, D> s{x, ku, kv, (size_t)p, (size_t)q};
  BSSurface<double, D> r = s;
  bool delta = mode == 2;
  if (mode == 0) r = m == 1 && cs[0].du + cs[0].dv == 0 ? moved_to_point<double, D>(s, t[0], cs[0].u, cs[0].v, fix) : moved_to_constraints<double, D>(s, c, fix);
  if (mode == 1) move_to_point<double, D>(r, t[0], cs[0].u, cs[0].v, fix);
  size_t f = fix ? 1 : 0;
  if (mode == 2) r = moved_to_constraints_delta<double, D>(s, c, f, nu - 1 - f, f, nv - 1 - f);
  if (mode == 3) r = moved_to_constraints<double, D>(s, c, fix);
  std::vector<V> B(m, V(nu * nv));
  std::vector<P<D>> o(m);
  for (size_t i = 0; i < m; ++i) {
    auto &z = cs[i];
    auto y = srf_ref<D>(z.u, z.v, ku, kv, r.poles(), p, q, z.du, z.dv);
    o[i] = srf_ref<D>(z.u, z.v, ku, kv, x, p, q, z.du, z.dv);
    for (size_t a = 0; a < D; ++a) sym::eq(y[a], delta ? o[i][a] + t[i][a] : t[i][a], "target" + S_(i), 1e-5);
    for (size_t b = f; b < nv - f; ++b)
      for (size_t a = f; a < nu - f; ++a) B[i][a + nu * b] = basis_ref(a, p, z.u, ku, span_ref(z.u, ku), z.du) * basis_ref(b, q, z.v, kv, span_ref(z.v, kv), z.dv);
  }
  sym::check(r.degreeU() == (size_t)p && r.degreeV() == (size_t)q && r.nPolesU() == nu && r.nPolesV() == nv, "shape");
  sym::eqv(r.knotsFlatsU(), ku, "knots u");
  sym::eqv(r.knotsFlatsV(), kv, "knots v");
  for (size_t a = 0; a < D; ++a) {
    V d(m);
    for (size_t i = 0; i < m; ++i) d[i] = delta ? t[i][a] : t[i][a] - o[i][a];
    auto dx = leastNorm(B, d);
    for (size_t j = 0; j < nu * nv; ++j) sym::eq(r.poles()[j][a], x[j][a] + dx[j], "least move", 1e-5);
  }
}
void sym_register() {
  for (int p = 1; p <= 4; ++p)
    for (auto &l : layouts(p)) {
      L_ s = l;
      for (auto &[x, m] : s) x *= 2;
      size_t n = p + 1;
      for (auto &[x, m] : s) n += m;
      std::string nm = "p" + S_(p) + lname(l);
      for (double u : {0., 0.3, 1., 1.5, 1.875, 2.}) sym::add("curve.point." + nm + ".u" + S_((int)(100 * u)), [=] { curve_point_case<2>(p, s, u, false, 0); });
      sym::add("curve.point." + nm + ".inplace", [=] { curve_point_case<1>(p, s, 1.25, false, 1); });
      if (n >= 3) {
        sym::add("curve.point." + nm + ".fix", [=] { curve_point_case<2>(p, s, 1.125, true, 0); });
        sym::add("curve.point." + nm + ".fix.inplace", [=] { curve_point_case<1>(p, s, 0.375, true, 1); });
      }
      if (p < 4) {
        sym::add("curve.point." + nm + ".symu", [=] { curve_point_case<1>(p, s, -1, false, 0); });
        if (n >= 3 && p == 2) sym::add("curve.point." + nm + ".symu.fix", [=] { curve_point_case<1>(p, s, -1, true, 1); });
      }
    }
  struct C {
    std::string n;
    int p;
    L_ l;
    std::vector<std::pair<double, int>> c;
  };
  L_ k4{{0.5, 1}, {1, 1}, {1.5, 1}}, k5{{0.25, 1}, {0.75, 1}, {1, 1}, {1.25, 2}, {1.5, 1}};
  std::vector<C> cs{{"one", 2, k4, {{0.6, 0}}}, {"one.d1", 2, k4, {{1.25, 1}}}, {"one.d2", 3, k4, {{0.75, 2}}}, {"two", 3, k4, {{0.6, 0}, {1.75, 0}}}, {"two.same", 3, k4, {{0.75, 0}, {0.75, 1}}}, {"three", 3, k5, {{0.2, 0}, {1, 1}, {1.75, 0}}}, {"unsorted", 2, k5, {{1.75, 0}, {0.2, 0}, {1.1, 1}}}, {"four", 2, k5, {{0.3, 0}, {0.6, 0}, {1.1, 0}, {1.8, 0}}}, {"bezier", 3, {}, {{0.5, 0}, {1.5, 0}}}, {"knot", 2, k4, {{1, 0}, {1, 1}}}};
  for (auto &c : cs)
    for (int m = 0; m < 3; ++m)
      for (int fix = 0; fix < 2; ++fix) sym::add("curve." + c.n + ".m" + S_(m) + (fix ? ".fix" : ""), [=] { curve_cstr_case<1>(c.p, c.l, c.c, fix, m); });
  sym::add("curve.two.3d", [=] { curve_cstr_case<3>(3, {{1, 1}}, {{0.6, 0}, {1.75, 1}}, false, 0); });
  sym::add("curve.square", [=] { curve_cstr_case<1>(2, {}, {{0.25, 0}, {1, 0}, {1.5, 0}}, false, 0); });
  sym::add("curve.square.d", [=] { curve_cstr_case<1>(3, {}, {{0.25, 0}, {1, 1}, {1.5, 0}, {0.25, 1}}, false, 0); });
  sym::add("curve.ends", [=] { curve_cstr_case<1>(3, k4, {{0, 0}, {2, 0}, {0, 1}}, false, 0); });
  for (int mode = 0; mode < 4; ++mode)
    for (int fix = 0; fix < 2; ++fix) {
      std::string n = ".m" + S_(mode) + (fix ? ".fix" : "");
      sym::add("surf.point.22" + n, [=] { surf_case<2>(2, 2, {{1, 1}}, {}, {{0.6, 0.25, 0, 0}}, fix, mode); });
      sym::add("surf.point.21" + n, [=] { surf_case<1>(2, 1, {{0.5, 2}}, {{0, 1}, {0.5, 1}}, {{1.3, 0.3, 0, 0}}, fix, mode); });
      sym::add("surf.point.13" + n, [=] { surf_case<1>(1, 3, {{0.5, 1}, {1, 1}}, {}, {{0.7, -0.3, 0, 0}}, fix, mode); });
      if (mode == 1) continue;
      sym::add("surf.two" + n, [=] { surf_case<1>(2, 2, {{1, 1}}, {{0, 1}}, {{0.6, 0.25, 0, 0}, {1.5, -0.5, 0, 0}}, fix, mode); });
      sym::add("surf.du" + n, [=] { surf_case<1>(2, 2, {{1, 1}}, {{0, 1}}, {{0.6, 0.25, 1, 0}}, fix, mode); });
      sym::add("surf.dv" + n, [=] { surf_case<1>(2, 3, {{1, 1}}, {}, {{0.6, 0.25, 0, 1}}, fix, mode); });
      sym::add("surf.mixed" + n, [=] { surf_case<1>(2, 2, {{1, 1}}, {{0, 1}}, {{0.6, 0.25, 0, 0}, {0.6, 0.25, 1, 0}, {0.6, 0.25, 0, 1}}, fix, mode); });
      sym::add("surf.duv" + n, [=] { surf_case<1>(3, 2, {}, {{0, 1}}, {{0.6, 0.25, 1, 1}, {1.3, -0.25, 0, 0}}, fix, mode); });
    }
  sym::add("surf.large", [=] { surf_case<2>(3, 3, {{0.5, 1}, {1, 1}}, {{0, 1}}, {{0.6, 0.25, 0, 0}, {1.3, -0.25, 0, 0}, {0.3, 0.6, 0, 0}}, false, 0); });
}
