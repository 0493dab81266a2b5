// C15: lofted and Gordon surfaces contain their curves.
// The closest-point search between two curves (NLopt, binary) is replaced by its
// contract: the parameters of the (known) crossing and their distance.  The
// crossing is recognised geometrically, see stub_extrema.
#include "common.h"
#include <gbs/bscurve.h>
#include <gbs/bscinterp.h>
#include <gbs/bssurf.h>
#include <gbs/bsctools.h>
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
#include <gbs/bscanalysis.h>
#include <gbs/extrema.h>
#include <gbs/bsstools.h>
#include <list>
#include <map>
static std::function<std::array<double, 3>(const void *, const void *)> g_stub;
namespace gbs {
template <typename T, size_t dim> std::array<T, 3> verif_crossing(const Curve<T, dim> &a, const Curve<T, dim> &b, T) { return g_stub(&a, &b); }
} // namespace gbs
#define extrema_curve_curve verif_crossing
#include <gbs/bssbuild.h>
#undef extrema_curve_curve
using namespace gbs;
using L_ = std::vector<std::pair<double, int>>;
template <size_t D> struct Sec {
  V k;
  PV<D> x;
  V w;
  int p;
  double a, b;
  P<D> at(double t, int d = 0) const { // t in [0,1]
    double u = a + t * (b - a);
    return w.empty() ? bs_ref<D>(u, k, x, p, d) : rat_ref<D>(u, k, homog<D>(x, w), p, d);
  }
};
struct SD {
  int p;
  L_ l;
  double a = 0, b = 1;
};
template <size_t D> static Sec<D> sec(const std::string &n, const SD &d, bool rat, bool symbolic, bool symw = false) {
  Sec<D> s;
  s.p = d.p, s.a = d.a, s.b = d.b;
  auto l = d.l;
  for (auto &[x, m] : l) x = d.a + x * (d.b - d.a);
  s.k = clamped(d.p, l, d.a, d.b);
  size_t np = s.k.size() - d.p - 1;
  s.x = symbolic ? symPoles<D>(n, np) : concPoles<D>(np, 3 * n.size() + (size_t)n.back());
  if (rat) {
    s.w = concWeights(np);
    if (symw)
      for (size_t i = 0; i < np; ++i) s.w[i] = sym::real(n + "w" + S_(i), 0.5, 2);
  }
  return s;
}
template <size_t D, bool R> using Crv = std::conditional_t<R, BSCurveRational<double, D>, BSCurve<double, D>>;
template <size_t D, bool R> static Crv<D, R> crv(const Sec<D> &s) {
  if constexpr (R) return Crv<D, R>(homog<D>(s.x, s.w), s.k, (size_t)s.p);
  else return Crv<D, R>(s.x, s.k, (size_t)s.p);
}
template <size_t D, class S> static void contains(const S &srf, const std::vector<Sec<D>> &secs, const V &v, const std::string &lab, double tol = 1e-6) {
  auto [u1, u2, v1, v2] = srf.bounds();
  double t = sym::real("t", 0, 1);
  sym::eq(v1, v.front(), lab + "v begin"), sym::eq(v2, v.back(), lab + "v end");
  sym::eq(u1, secs[0].a, lab + "u begin"), sym::eq(u2, secs[0].b, lab + "u end");
  for (size_t j = 0; j < secs.size(); ++j) eqp<D>(srf.value(u1 + t * (u2 - u1), v[j]), secs[j].at(t), lab + "section" + S_(j), tol);
}
template <size_t D, bool R> static void loft_v_case(const std::vector<SD> &ds, V v, size_t q, int mode) {
  std::vector<Sec<D>> secs;
  std::vector<Crv<D, R>> cs;
  for (size_t i = 0; i < ds.size(); ++i) secs.push_back(sec<D>("P" + S_(i) + "_", ds[i], R, true)), cs.push_back(crv<D, R>(secs.back()));
  size_t qe = std::min(q, ds.size() - 1), pe = 0;
  for (auto &d : ds) pe = std::max(pe, (size_t)d.p);
  auto run = [&](const auto &s, const std::string &l) {
    contains<D>(s, secs, v, l);
    sym::check(s.degreeV() == qe, l + "degree v"), sym::check(s.degreeU() == pe, l + "degree u");
    sym::check(s.nPolesV() == ds.size(), l + "poles v");
  };
  if (mode == 0) run(loft(cs, v, q), "");
  if (mode == 1) {
    std::list<Crv<D, R>> lst(cs.begin(), cs.end());
    run(loft(lst, v, q), "list.");
  }
  if (mode == 2) run(loft_generic<double, D>(cs, v, build_simple_mult_flat_knots(v, qe), q), "flat.");
  if (mode == 3) {
    if constexpr (!R) {
      std::vector<std::shared_ptr<Curve<double, D>>> ps;
      for (auto &c : cs) ps.push_back(std::make_shared<BSCurve<double, D>>(c));
      run(loft<double, D>(ps, v, q), "ptr.");
    }
  }
  // sources untouched
  for (size_t j = 0; j < cs.size(); ++j) sym::check(cs[j].degree() == (size_t)secs[j].p && cs[j].knotsFlats() == secs[j].k, "source untouched");
}
// averaged chord length over the aligned pole rows (computed parameters), concrete sections
template <size_t D, bool R> static void loft_auto_case(const std::vector<SD> &ds, size_t q, bool dflt, int flat) {
  std::vector<Sec<D>> secs;
  std::vector<Crv<D, R>> cs;
  for (size_t i = 0; i < ds.size(); ++i) {
    secs.push_back(sec<D>("P" + S_(i), ds[i], R, false));
    if (flat) // poles of all sections coincide: no parametrisation information
      for (auto &x : secs.back().x) x = P<D>{};
    else
      for (auto &x : secs.back().x) x[D - 1] += 6. * double(i * i + i);
    cs.push_back(crv<D, R>(secs.back()));
  }
  auto s = dflt ? loft(cs) : loft(cs, q);
  size_t qe = std::min(dflt ? (size_t)3 : q, ds.size() - 1);
  sym::check(s.degreeV() == qe, "degree v");
  // the parameters of the sections: recomputed from the definition
  std::vector<BSCurveInfo<double, D + R>> info;
  for (auto &c : cs) info.push_back(c.info());
  unify_degree(info), unify_knots(info);
  size_t n = ds.size(), nu = std::get<0>(info[0]).size(), used = 0;
  V v(n, 0.);
  for (size_t i = 0; i < nu; ++i) {
    V c(n, 0.);
    for (size_t j = 1; j < n; ++j) {
      double d2 = 0;
      for (size_t d = 0; d < D + R; ++d) {
        double e = std::get<0>(info[j])[i][d] - std::get<0>(info[j - 1])[i][d];
        d2 += e * e;
      }
      c[j] = c[j - 1] + std::sqrt(d2);
    }
    if (c.back() <= 0) continue;
    ++used;
    for (size_t j = 0; j < n; ++j) v[j] += c[j] / c.back();
  }
  for (size_t j = 0; j < n; ++j) v[j] = used ? v[j] / double(used) : double(j) / double(n - 1);
  contains<D>(s, secs, v, "");
}
static void ruled_case(int p, const L_ &l) {
  auto a = sec<2>("A", {p, l}, false, true), b = sec<2>("B", {2, {{0.5, 1}}}, false, true);
  auto s = loft(std::vector<BSCurve<double, 2>>{crv<2, false>(a), crv<2, false>(b)}, V{0, 1}, 1);
  double u = sym::real("u", 0, 1), v = sym::real("v", 0, 1);
  auto y = s.value(u, v), x0 = a.at(u), x1 = b.at(u);
  for (int i = 0; i < 2; ++i) sym::eq(y[i], x0[i] + v * (x1[i] - x0[i]), "ruled", 1e-6);
}
// spine loft: sections at height y = h_j (concrete tag in the last coordinate), spine
// rising with symbolic sideways poles; the foot of a section on the spine is known
template <size_t D, bool R> static void spine_case(const std::vector<SD> &ds, const V &feet, size_t vdeg, int ps) {
  size_t n = ds.size();
  std::vector<Sec<D>> secs;
  std::vector<Crv<D, R>> cs;
  V tag;
  for (size_t i = 0; i < n; ++i) {
    secs.push_back(sec<D>("P" + S_(i), ds[i], R, false));
    tag.push_back(10. * feet[i]);
    for (auto &x : secs.back().x) x[D - 1] = tag.back();
    cs.push_back(crv<D, R>(secs.back()));
  }
  const double o = R ? 0 : -2.5; // the spine's parameters lie anywhere
  V ks = clamped(ps, {}, o, o + 1);
  PV<D> sp(ps + 1);
  for (int i = 0; i <= ps; ++i)
    for (size_t d = 0; d < D; ++d) sp[i][d] = d + 1 < D ? sym::real("s" + S_(i) + "_" + S_(d), -3, 3) : 10. * i / ps;
  BSCurve<double, D> spine{sp, ks, (size_t)ps};
  g_stub = [&](const void *, const void *b) {
    auto y = static_cast<const Curve<double, D> *>(b)->begin()[D - 1];
    size_t j = 0;
    for (size_t i = 0; i < n; ++i)
      if (std::fabs(tag[i] - y) < std::fabs(tag[j] - y)) j = i;
    return std::array<double, 3>{o + feet[j], 0., 0.};
  };
  std::list<BSCurveGeneral<double, D, R> *> pl;
  for (auto &c : cs) pl.push_back(&c);
  auto s = loft<double, D, R>(pl, spine, vdeg);
  auto [u1, u2, v1, v2] = s.bounds();
  double t = sym::real("t", 0, 1), u = u1 + t * (u2 - u1);
  // section parameters: chord length of pole rows (as the computed ones above)
  auto poles_info = [&] {
    std::vector<BSCurveInfo<double, D + R>> info;
    for (auto &c : cs) info.push_back(c.info());
    unify_degree(info), unify_knots(info);
    return info;
  }();
  V v(n, 0.);
  size_t nu = std::get<0>(poles_info[0]).size();
  for (size_t i = 0; i < nu; ++i) {
    V c(n, 0.);
    for (size_t j = 1; j < n; ++j) {
      double d2 = 0;
      for (size_t d = 0; d < D + R; ++d) {
        double e = std::get<0>(poles_info[j])[i][d] - std::get<0>(poles_info[j - 1])[i][d];
        d2 += e * e;
      }
      c[j] = c[j - 1] + std::sqrt(d2);
    }
    for (size_t j = 0; j < n; ++j) v[j] += c[j] / c.back() / double(nu);
  }
  for (size_t j = 0; j < n; ++j) {
    eqp<D>(s.value(u, v[j]), secs[j].at(t), "section" + S_(j), 1e-5);
    auto d = s.value(u, v[j], 0, 1), g = bs_ref<D>(o + feet[j], ks, sp, ps, 1);
    for (size_t a = 0; a < D; ++a)
      for (size_t b = 0; b < a; ++b) sym::eq(d[a] * g[b], d[b] * g[a], "along spine" + S_(j), 1e-4);
    double dot = 0;
    for (size_t a = 0; a < D; ++a) dot += d[a] * g[a];
    (void)dot;
  }
  sym::check(s.degreeV() == std::max<size_t>(1, std::min(vdeg, n - 1)), "degree v");
}
// least squares loft: exact when the target basis holds the sections
template <size_t D, bool R> static void approx_case(const std::vector<SD> &ds, const V &feet, int mode) {
  size_t n = ds.size();
  std::vector<Sec<D>> secs;
  std::vector<Crv<D, R>> cs;
  V tag;
  for (size_t i = 0; i < n; ++i) {
    secs.push_back(sec<D>("P" + S_(i) + "_", ds[i], R, true));
    tag.push_back(10. * feet[i]);
    for (auto &x : secs.back().x) x[D - 1] = tag.back();
    cs.push_back(crv<D, R>(secs.back()));
  }
  PV<D> sp(2);
  for (size_t d = 0; d < D; ++d) sp[0][d] = 0, sp[1][d] = d + 1 < D ? 0 : 10.;
  const double o = R ? 3.25 : -2.5;
  BSCurve<double, D> spine{sp, clamped(1, {}, o, o + 1), 1};
  g_stub = [&](const void *, const void *b) {
    auto y = static_cast<const Curve<double, D> *>(b)->begin()[D - 1];
    size_t j = 0;
    for (size_t i = 0; i < n; ++i)
      if (std::fabs(tag[i] - y) < std::fabs(tag[j] - y)) j = i;
    return std::array<double, 3>{o + feet[j], 0., 0.};
  };
  V v(n);
  for (size_t j = 0; j < n; ++j) v[j] = (feet[j] - feet[0]) / (feet[n - 1] - feet[0]);
  std::list<BSCurveGeneral<double, D, R> *> pl;
  for (auto &c : cs) pl.push_back(&c);
  if (mode == 0) {
    if constexpr (R) contains<D>(loft_approx<double, D, R>(pl, spine, 2), secs, v, "", 1e-4);
    else {
      std::list<BSCurve<double, D>> lst(cs.begin(), cs.end());
      contains<D>(loft_approx<double, D>(lst, spine, 2), secs, v, "", 1e-4);
    }
  } else {
    size_t p = ds[0].p;
    contains<D>(loft_approx<double, D, R>(pl, spine, p, n - 1, secs[0].x.size(), n, 2 * secs[0].x.size()), secs, v, "", 1e-4);
  }
}
static void few_case() {
  auto a = sec<2>("A", {2, {}}, false, true);
  auto c = crv<2, false>(a);
  BSCurve<double, 2> spine{concPoles<2>(2), clamped(1, {}), 1};
  std::list<BSCurve<double, 2>> one{c}, none;
  std::list<BSCurveGeneral<double, 2, false> *> p1{&c}, p0;
  g_stub = [](const void *, const void *) { return std::array<double, 3>{0, 0, 0}; };
  sym::throws([&] { loft(one, spine, 3); }, "spine loft of one curve refused");
  sym::throws([&] { loft(none, spine, 3); }, "spine loft of no curve refused");
  sym::throws([&] { loft_approx(one, spine, 3); }, "approximating loft of one curve refused");
  sym::throws([&] { loft_approx(none, spine, 3); }, "approximating loft of no curve refused");
  sym::throws([&] { loft_approx<double, 2, false>(p1, spine, 2, 1, 3, 2, 9); }, "approximating loft of one curve refused");
  sym::throws([&] { loft_approx<double, 2, false>(p1, spine, clamped(2, {}), 2, 1, 2, 9); }, "approximating loft of one curve refused");
}
// height field network: u curves (u, v_j, z), v curves (u_i, v, z)
struct Net {
  V us, vs;
  int p, q; // degrees of the u and v curves
};
static V greville(const V &k, int p) {
  V g;
  for (size_t i = 0; i + p + 1 < k.size(); ++i) {
    double s = 0;
    for (int j = 1; j <= p; ++j) s += k[i + j];
    g.push_back(s / p);
  }
  return g;
}
// heights of a curve of degree p (one piece per gap between stations up to degree, Bezier otherwise)
// with prescribed values at the stations: poles are symbolic except those solved from the values
static PV<3> netcurve(const std::string &n, const V &k, int p, const V &st, const V &val, bool alongU, double fixed, bool zeroFree) {
  V g = greville(k, p);
  size_t np = g.size(), m = st.size();
  V z(np);
  // interior stations 1..m-2 are solved by interior poles 1..m-2; the rest is free
  for (size_t i = 0; i < np; ++i) z[i] = 0;
  z[0] = val.front(), z[np - 1] = val.back();
  for (size_t i = m - 1; i + 1 < np; ++i) z[i] = zeroFree ? conc(i, n.size()) : sym::real(n + "f" + S_(i), -5, 5);
  // dense solve (concrete matrix) of the interior poles
  size_t r = m - 2;
  std::vector<V> A(r, V(r));
  V b(r);
  for (size_t i = 0; i < r; ++i) {
    size_t s = span_ref(st[i + 1], k);
    b[i] = val[i + 1];
    for (size_t c = 0; c < np; ++c) {
      double N = basis_ref(c, p, st[i + 1], k, s);
      if (c >= 1 && c <= r) A[i][c - 1] = N;
      else b[i] -= N * z[c];
    }
  }
  for (size_t i = 0; i < r; ++i) { // elimination without pivoting: collocation matrices are totally positive
    for (size_t j = i + 1; j < r; ++j) {
      double f = A[j][i] / A[i][i];
      for (size_t c = i; c < r; ++c) A[j][c] -= f * A[i][c];
      b[j] -= f * b[i];
    }
  }
  for (size_t i = r; i-- > 0;) {
    double s = b[i];
    for (size_t c = i + 1; c < r; ++c) s -= A[i][c] * z[c + 1];
    z[i + 1] = s / A[i][i];
  }
  PV<3> x(np);
  for (size_t i = 0; i < np; ++i) x[i] = alongU ? P<3>{g[i], fixed, z[i]} : P<3>{fixed, g[i], z[i]};
  return x;
}
static void gordon_case(const V &us, const V &vs, int p, int q, const L_ &lu, const L_ &lv, bool free, double gap) {
  size_t nu = us.size(), nv = vs.size();
  V ku = clamped(p, lu, us.front(), us.back()), kv = clamped(q, lv, vs.front(), vs.back());
  std::vector<V> Q(nu, V(nv));
  for (size_t i = 0; i < nu; ++i)
    for (size_t j = 0; j < nv; ++j) Q[i][j] = sym::real("Q" + S_(i) + S_(j), -5, 5);
  std::vector<BSCurve<double, 3>> cu, cv;
  std::vector<PV<3>> xu, xv;
  for (size_t j = 0; j < nv; ++j) {
    V val;
    for (size_t i = 0; i < nu; ++i) val.push_back(Q[i][j]);
    xu.push_back(netcurve("u" + S_(j), ku, p, us, val, true, vs[j], !free));
    cu.emplace_back(xu.back(), ku, (size_t)p);
  }
  for (size_t i = 0; i < nu; ++i) {
    xv.push_back(netcurve("v" + S_(i), kv, q, vs, Q[i], false, us[i], !free));
    if (gap != 0 && i == 1)
      for (auto &x : xv.back()) x[2] += gap;
    cv.emplace_back(xv.back(), kv, (size_t)q);
  }
  g_stub = [&](const void *a, const void *b) {
    auto A = static_cast<const Curve<double, 3> *>(a), B = static_cast<const Curve<double, 3> *>(b);
    auto a0 = A->begin(), a1 = A->end(), b0 = B->begin();
    bool alongU = std::fabs(a1[0] - a0[0]) > std::fabs(a1[1] - a0[1]);
    double s = alongU ? b0[0] : b0[1], t = alongU ? a0[1] : a0[0];
    auto pa = A->value(s), pb = B->value(t);
    double z = pa[2] - pb[2];
    return std::array<double, 3>{s, t, z < 0 ? -z : z};
  };
  if (gap != 0) {
    sym::throws_as<std::invalid_argument>([&] { gordon<double, 3>(cu.begin(), cu.end(), cv.begin(), cv.end(), 1e-6); }, "curves which do not meet are refused");
    return;
  }
  auto s = gordon<double, 3>(cu.begin(), cu.end(), cv.begin(), cv.end(), 1e-6);
  auto [u1, u2, v1, v2] = s.bounds();
  sym::eq(u1, us.front(), "u1"), sym::eq(u2, us.back(), "u2"), sym::eq(v1, vs.front(), "v1"), sym::eq(v2, vs.back(), "v2");
  double t = sym::real("t", 0, 1), u = u1 + t * (u2 - u1), v = v1 + t * (v2 - v1);
  for (size_t j = 0; j < nv; ++j) eqp<3>(s.value(u, vs[j]), bs_ref<3>(u, ku, xu[j], p), "u curve" + S_(j), 1e-5);
  for (size_t i = 0; i < nu; ++i) eqp<3>(s.value(us[i], v), bs_ref<3>(v, kv, xv[i], q), "v curve" + S_(i), 1e-5);
}
void sym_register() {
  SD b1{1, {}}, b2{2, {}}, b3{3, {}}, k2{2, {{0.5, 1}}}, k2b{2, {{0.25, 2}}}, k1{1, {{0.5, 1}}}, k3{3, {{0.25, 1}, {0.625, 2}}}, w2{2, {{0.5, 1}}, -1, 3}, w1{1, {{0.25, 1}}, 2, 2.5};
  struct C {
    std::string n;
    std::vector<SD> d;
    V v;
    size_t q;
  };
  std::vector<C> cs{{"two", {b2, b2}, {0, 1}, 1}, {"two.q3", {b2, b1}, {0, 1}, 3}, {"mixed3", {b1, k2, b3}, {0, 0.375, 1}, 2}, {"mixed3.q1", {k2, b1, k2b}, {0, 0.375, 1}, 1}, {"four", {b1, k1, b1, b2}, {0, 0.25, 0.5, 1}, 3}, {"four.q2", {k2, b1, b2, k2}, {-1, 0.25, 0.5, 2}, 2}, {"bounds", {w2, b1, w1}, {0, 0.5, 1}, 2}, {"knots", {k3, b1}, {1, 4}, 1}, {"knots2", {b1, k3, w1}, {1, 2, 4}, 2}, {"six", {b1, b1, b1, b1, b1, b1}, {0, 0.125, 0.375, 0.5, 0.75, 1}, 3}};
  for (auto &c : cs) {
    for (int m = 0; m < 4; ++m) {
      if (m && c.n != "mixed3" && c.n != "bounds" && c.n != "two.q3") continue;
      sym::add("loft." + c.n + ".m" + S_(m), [=] { loft_v_case<2, false>(c.d, c.v, c.q, m); });
      if (m < 3) sym::add("loft." + c.n + ".rat.m" + S_(m), [=] { loft_v_case<1, true>(c.d, c.v, c.q, m); });
    }
    if (c.n == "two.q3" || c.n == "mixed3") sym::add("loft." + c.n + ".3d", [=] { loft_v_case<3, false>(c.d, c.v, c.q, 0); });
    for (size_t q = 1; q <= 3; ++q) {
      sym::add("auto." + c.n + ".q" + S_(q), [=] { loft_auto_case<2, false>(c.d, q, false, 0); });
      sym::add("auto." + c.n + ".rat.q" + S_(q), [=] { loft_auto_case<2, true>(c.d, q, false, 0); });
    }
    sym::add("auto." + c.n + ".default", [=] { loft_auto_case<2, false>(c.d, 3, true, 0); });
    sym::add("auto." + c.n + ".coincident", [=] { loft_auto_case<2, false>(c.d, 2, false, 1); });
  }
  for (int p = 1; p <= 3; ++p) sym::add("ruled.p" + S_(p), [=] { ruled_case(p, {}); }), sym::add("ruled.knot.p" + S_(p), [=] { ruled_case(p, {{0.25, p}}); });
  for (size_t vd = 1; vd <= 3; ++vd) {
    sym::add("spine.two.v" + S_(vd), [=] { spine_case<2, false>({b2, b1}, {0, 1}, vd, 2); });
    sym::add("spine.three.v" + S_(vd), [=] { spine_case<2, false>({b1, k2, b1}, {0, 0.375, 1}, vd, 2); });
    sym::add("spine.four.v" + S_(vd), [=] { spine_case<2, false>({b1, b1, b2, b1}, {0, 0.25, 0.75, 1}, vd, 3); });
    sym::add("spine.uneven.v" + S_(vd), [=] { spine_case<2, false>({b1, b1, b1, b1, b1}, {0, 0.0625, 0.125, 0.1875, 1}, vd, 1); });
    sym::add("spine.three.rat.v" + S_(vd), [=] { spine_case<2, true>({b1, b2, b1}, {0, 0.375, 1}, vd, 2); });
    sym::add("spine.two.3d.v" + S_(vd), [=] { spine_case<3, false>({b2, b1}, {0, 1}, vd, 2); });
  }
  for (int m = 0; m < 2; ++m) {
    sym::add("approx.two.m" + S_(m), [=] { approx_case<2, false>({b2, b2}, {0, 1}, m); }, 0, 20000, 90);
    sym::add("approx.three.m" + S_(m), [=] { approx_case<2, false>({b2, b2, b2}, {0, 0.375, 1}, m); }, 0, 20000, 90);
    sym::add("approx.three.shifted.m" + S_(m), [=] { approx_case<2, false>({b1, b1, b1}, {0.25, 0.375, 0.75}, m); }, 0, 20000, 90);
    sym::add("approx.two.rat.m" + S_(m), [=] { approx_case<2, true>({b2, b2}, {0, 1}, m); }, 0, 20000, 90);
  }
  sym::add("approx.mixed", [=] { approx_case<2, false>({b1, k2, b1}, {0, 0.375, 1}, 0); }, 0, 20000, 90);
  sym::add("few", few_case);
  sym::add("gordon.2x2.p1", [] { gordon_case({0, 1}, {0, 1}, 1, 1, {}, {}, true, 0); });
  sym::add("gordon.2x2.p3", [] { gordon_case({0, 1}, {0, 1}, 3, 2, {}, {}, true, 0); });
  sym::add("gordon.3x2", [] { gordon_case({0, 0.375, 1}, {0, 1}, 3, 2, {}, {}, true, 0); });
  sym::add("gordon.3x3", [] { gordon_case({0, 0.375, 1}, {0, 0.5, 1}, 3, 3, {}, {}, true, 0); });
  sym::add("gordon.2x4", [] { gordon_case({0, 2}, {0, 0.25, 0.625, 1}, 2, 3, {}, {}, true, 0); });
  sym::add("gordon.3x3.p2", [] { gordon_case({0, 0.5, 1}, {0, 0.25, 1}, 2, 2, {}, {}, true, 0); });
  sym::add("gordon.4x3.knots", [] { gordon_case({0, 0.25, 0.75, 1}, {0, 0.5, 1}, 3, 2, {{0.5, 1}}, {{0.25, 1}}, true, 0); });
  sym::add("gordon.2x3.knots", [] { gordon_case({-1, 1}, {0, 2, 3}, 2, 2, {{0, 2}}, {{1.5, 1}}, true, 0); });
  sym::add("gordon.gap", [] { gordon_case({0, 0.5, 1}, {0, 1}, 2, 2, {}, {}, true, 0.25); });
}
