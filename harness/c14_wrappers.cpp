// C14: wrapper curves (reversed, trimmed, extended, composite, reparametrised,
// offset, on surface) and offset points evaluate, with derivatives, to what
// their definition says.
#include "common.h"
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
#include <gbs/curveReversed.h>
#include <gbs/curvetrimmed.h>
#include <gbs/curveextended.h>
#include <gbs/curvecomposite.h>
#include <gbs/curvereparametrized.h>
#include <gbs/curveoffset.h>
#include <gbs/curveonsurface.h>
#include <gbs/offsets.h>
#include <limits>
using namespace gbs;
using L_ = std::vector<std::pair<double, int>>;
template <size_t D> struct Base {
  V k;
  PV<D> x;
  int p;
  V w; // empty: polynomial
  std::shared_ptr<Curve<double, D>> c;
  P<D> at(double u, int d) const {
    if (w.empty()) return bs_ref<D>(u, k, x, p, d);
    return rat_ref<D>(u, k, homog<D>(x, w), p, d);
  }
};
template <size_t D> static Base<D> mk(const std::string &n, int p, const L_ &l, double a, double b, bool rat, bool symbolic = true) {
  Base<D> r;
  r.p = p;
  r.k = clamped(p, l, a, b);
  size_t np = r.k.size() - p - 1;
  r.x = symbolic ? symPoles<D>(n, np) : concPoles<D>(np, n.size() + (size_t)n[0]);
  if (rat) {
    r.w = concWeights(np);
    r.c = std::make_shared<BSCurveRational<double, D>>(homog<D>(r.x, r.w), r.k, (size_t)p);
  } else r.c = std::make_shared<BSCurve<double, D>>(r.x, r.k, (size_t)p);
  return r;
}
template <size_t D> static void reversed_case(int p, const L_ &l, bool rat) {
  auto b = mk<D>("P", p, l, -1, 2, rat);
  double u = sym::real("u", -1, 2);
  CurveReversed<double, D> r{b.c};
  sym::eq(r.bounds()[0], -1, "b0"), sym::eq(r.bounds()[1], 2, "b1");
  for (int d = 0; d <= 3; ++d) {
    auto y = r.value(u, d), e = b.at(1 - u, d);
    for (size_t i = 0; i < D; ++i) sym::eq(y[i], d % 2 ? -e[i] : e[i], "d" + S_(d), 1e-6);
  }
  eqp<D>(r.begin(), b.at(2, 0), "begin");
  eqp<D>(r.end(), b.at(-1, 0), "end");
  // reversing twice
  CurveReversed<double, D> rr{std::make_shared<CurveReversed<double, D>>(r)};
  for (int d = 0; d <= 2; ++d) eqp<D>(rr.value(u, d), b.at(u, d), "twice d" + S_(d), 1e-6);
}
template <size_t D> static void trimmed_case(int p, const L_ &l, bool rat) {
  auto b = mk<D>("P", p, l, -1, 2, rat);
  double s = sym::real("s", -1, 2), e = sym::real("e", -1, 2), u = sym::real("u", -2, 3);
  sym::assume_lt(s, e);
  CurveTrimmed<double, D> t{b.c, s, e};
  sym::eq(t.bounds()[0], s, "b0"), sym::eq(t.bounds()[1], e, "b1");
  if (s - 1e-6 <= u && u <= e + 1e-6) {
    if (s <= u && u <= e)
      for (int d = 0; d <= p + 1; ++d) eqp<D>(t.value(u, d), b.at(u, d), "d" + S_(d), 1e-6);
  } else sym::throws([&] { t.value(u); }, "refused outside"), sym::throws([&] { t.value(u, 1); }, "derivative refused outside");
  eqp<D>(t.begin(), b.at(s, 0), "begin");
  eqp<D>(t.end(), b.at(e, 0), "end");
}
template <size_t D> static void extended_case(int p, const L_ &l, bool rat, bool clamp) {
  auto b = mk<D>("P", p, l, -1, 2, rat);
  double u = sym::real("u", -9, 10);
  CurveExtended<double, D> x{b.c, clamp};
  auto B = x.bounds();
  sym::check(B[0] <= -1e100 && B[1] >= 1e100, "unbounded");
  sym::check(x.isClamped() == clamp, "clamped flag");
  bool lo = u < -1, hi = u > 2;
  for (int d = 0; d <= 3; ++d) {
    auto y = x.value(u, d);
    P<D> e;
    if (!lo && !hi) e = b.at(u, d);
    else {
      double ub = lo ? -1 : 2;
      if (clamp) e = b.at(ub, d);
      else {
        auto c0 = b.at(ub, 0), c1 = b.at(ub, 1);
        for (size_t i = 0; i < D; ++i) e[i] = d == 0 ? c0[i] + (u - ub) * c1[i] : d == 1 ? c1[i] : 0.;
      }
    }
    eqp<D>(y, e, std::string(lo ? "before" : hi ? "after" : "inside") + " d" + S_(d), 1e-5);
  }
}
template <size_t D> static void composite_case(const std::vector<std::pair<int, L_>> &parts, const V &starts, const V &ends, bool rat) {
  std::vector<Base<D>> bs;
  std::vector<std::shared_ptr<Curve<double, D>>> lst;
  for (size_t i = 0; i < parts.size(); ++i) {
    bs.push_back(mk<D>("P" + S_(i) + "_", parts[i].first, parts[i].second, starts[i], ends[i], rat && i % 2));
    lst.push_back(bs.back().c);
  }
  CurveComposite<double, D> c{lst};
  V j{starts[0]};
  for (size_t i = 0; i < parts.size(); ++i) j.push_back(j.back() + ends[i] - starts[i]);
  sym::eq(c.bounds()[0], j.front(), "b0"), sym::eq(c.bounds()[1], j.back(), "b1");
  sym::check(c.curves().size() == parts.size(), "parts");
  double u = sym::real("u", j.front() - 1, j.back() + 1);
  if (u < j.front() - 1e-6 || u > j.back() + 1e-6) {
    sym::throws([&] { c.value(u); }, "refused outside");
    return;
  }
  if (u < j.front() || u > j.back()) return;
  size_t i = 0;
  while (i + 1 < parts.size() && u >= j[i + 1]) ++i;
  for (int d = 0; d <= 3; ++d) eqp<D>(c.value(u, d), bs[i].at(u - j[i] + starts[i], d), "d" + S_(d), 1e-6);
  for (size_t q = 0; q < parts.size(); ++q) eqp<D>(c.value(j[q]), bs[q].at(starts[q], 0), "joint" + S_(q));
  eqp<D>(c.end(), bs.back().at(ends.back(), 0), "end");
}
// f: scalar B-spline with values inside the base domain
template <size_t D> static void repar_case(int p, const L_ &l, bool rat, int pf, const L_ &lf, bool symf, bool reset) {
  auto b = mk<D>("P", p, l, -1, 2, rat);
  V kf = clamped(pf, lf, 3, 5);
  size_t nf = kf.size() - pf - 1;
  V f(nf);
  PV<1> fx(nf);
  for (size_t i = 0; i < nf; ++i) f[i] = symf ? sym::real("f" + S_(i), -1, 2) : -1 + 3. * double((i * 5 + 2) % (nf + 3)) / double(nf + 2), fx[i] = {f[i]};
  double m = sym::real("m", 3, 5);
  BSCfunction<double> F{f, kf, (size_t)pf};
  V other(nf, 0.5);
  CurveReparametrized<double, D> r{b.c, reset ? BSCfunction<double>{other, kf, (size_t)pf} : F};
  if (reset) r.setParamFunction(F);
  sym::eq(r.bounds()[0], 3, "b0"), sym::eq(r.bounds()[1], 5, "b1");
  double g[3];
  for (int d = 0; d < 3; ++d) g[d] = bs_ref<1>(m, kf, fx, pf, d)[0];
  for (int d = 0; d < 3; ++d) sym::eq(F(m, d), g[d], "function d" + S_(d));
  // stay clear of the domain ends, where the base clamps
  auto c0 = b.at(g[0], 0), c1 = b.at(g[0], 1), c2 = b.at(g[0], 2);
  auto y0 = r.value(m), y1 = r.value(m, 1), y2 = r.value(m, 2);
  for (size_t i = 0; i < D; ++i) {
    sym::eq(y0[i], c0[i], "value", 1e-6);
    sym::eq(y1[i], c1[i] * g[1], "d1", 1e-5);
    sym::eq(y2[i], c1[i] * g[2] + c2[i] * g[1] * g[1], "d2", 1e-5);
  }
  sym::throws([&] { r.value(m, 3); }, "third derivative refused");
}
// Offset of a planar curve: the left normal (-y', x') scaled to the offset distance.
// With N the unnormalised normal, R = |N|: C + o n, n = N / R
template <size_t D> static void off_oracle(const P<D> *C, const P<D> *N, const double *o, double R, const P<D> *y, const std::string &s) {
  auto dot = [](const P<D> &a, const P<D> &b) {
    double r = 0;
    for (size_t i = 0; i < D; ++i) r += a[i] * b[i];
    return r;
  };
  // everything multiplied by R, R^3, R^5 so that only R^2 = N.N is needed beside odd powers of R
  double Q = dot(N[0], N[0]), q1 = dot(N[0], N[1]), q2 = dot(N[1], N[1]) + dot(N[0], N[2]);
  for (size_t i = 0; i < D; ++i) {
    sym::eq(y[0][i] - C[0][i], o[0] * N[0][i] / R, s + "value", 1e-5);
    // n' = N'/R - N q1/R^3
    double n0 = N[0][i] / R, n1 = N[1][i] / R - N[0][i] * q1 / (Q * R);
    double n2 = N[2][i] / R - 2 * N[1][i] * q1 / (Q * R) - N[0][i] * q2 / (Q * R) + 3 * N[0][i] * q1 * q1 / (Q * Q * R);
    sym::eq(y[1][i], C[1][i] + o[1] * n0 + o[0] * n1, s + "d1", 1e-5);
    sym::eq(y[2][i], C[2][i] + o[2] * n0 + 2 * o[1] * n1 + o[0] * n2, s + "d2", 1e-5);
  }
}
static L_ shifted(L_ l, double a) {
  for (auto &[x, m] : l) x += a;
  return l;
}
static void off2_case(int p, const L_ &l, bool rat, bool symbolic, bool asCurve, double a = 0) { // parameters in [a,a+1]
  auto b = mk<2>("P", p, shifted(l, a), a, a + 1, rat, symbolic);
  V kf = clamped(2, {{a + 0.5, 1}}, a, a + 1);
  V f(4);
  PV<1> fx(4);
  for (int i = 0; i < 4; ++i) f[i] = sym::real("f" + S_(i), -2, 2), fx[i] = {f[i]};
  BSCfunction<double> F{f, kf, 2};
  double u = symbolic ? a + 0.3125 : sym::real("u", a, a + 1);
  double o[3];
  for (int d = 0; d < 3; ++d) o[d] = bs_ref<1>(u, kf, fx, 2, d)[0];
  P<2> C[4], N[3];
  for (int d = 0; d < 4; ++d) C[d] = b.at(u, d);
  for (int d = 0; d < 3; ++d) N[d] = {-C[d + 1][1], C[d + 1][0]};
  double r2 = N[0][0] * N[0][0] + N[0][1] * N[0][1];
  sym::assume_lt(0.01, r2);
  std::unique_ptr<Curve<double, 2>> c;
  using OC = CurveOffset2D<double, BSCfunction<double>>;
  if (asCurve && !rat) c = std::make_unique<OC>(*std::dynamic_pointer_cast<BSCurve<double, 2>>(b.c), F);
  else c = std::make_unique<OC>(b.c, std::make_shared<BSCfunction<double>>(F));
  sym::eq(c->bounds()[0], a, "b0"), sym::eq(c->bounds()[1], a + 1, "b1");
  P<2> y[3];
  for (int d = 0; d < 3; ++d) y[d] = c->value(u, d);
  off_oracle<2>(C, N, o, std::sqrt(r2), y, "");
  sym::throws([&] { c->value(u, 3); }, "third derivative refused");
}
static void off3_case(int p, const L_ &l, bool rat, bool symbolic, P<3> dir, double a = 0) {
  auto b = mk<3>("P", p, shifted(l, a), a, a + 1, rat, symbolic);
  if (symbolic && dir[0] != 0) { // one symbolic pole beside concrete ones
    auto cp = concPoles<3>(b.x.size(), 4);
    for (size_t i = 0; i < b.x.size(); ++i)
      if (i != 1) b.x[i] = cp[i];
    if (rat) b.c = std::make_shared<BSCurveRational<double, 3>>(homog<3>(b.x, b.w), b.k, (size_t)p);
    else b.c = std::make_shared<BSCurve<double, 3>>(b.x, b.k, (size_t)p);
  }
  V kf = clamped(2, {{a + 0.5, 1}}, a, a + 1);
  V f(4);
  PV<1> fx(4);
  for (int i = 0; i < 4; ++i) f[i] = sym::real("f" + S_(i), -2, 2), fx[i] = {f[i]};
  BSCfunction<double> F{f, kf, 2};
  double u = symbolic ? a + 0.3125 : sym::real("u", a, a + 1);
  double o[3];
  for (int d = 0; d < 3; ++d) o[d] = bs_ref<1>(u, kf, fx, 2, d)[0];
  P<3> C[4], N[3];
  double len = std::sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]);
  P<3> e{dir[0] / len, dir[1] / len, dir[2] / len};
  for (int d = 0; d < 4; ++d) C[d] = b.at(u, d);
  for (int d = 0; d < 3; ++d) {
    auto &t = C[d + 1];
    N[d] = {e[1] * t[2] - e[2] * t[1], e[2] * t[0] - e[0] * t[2], e[0] * t[1] - e[1] * t[0]};
  }
  double r2 = N[0][0] * N[0][0] + N[0][1] * N[0][1] + N[0][2] * N[0][2];
  sym::assume_lt(0.01, r2);
  CurveOffset3D<double, BSCfunction<double>> c{b.c, std::make_shared<BSCfunction<double>>(F), dir};
  P<3> y[3];
  for (int d = 0; d < 3; ++d) y[d] = c.value(u, d);
  off_oracle<3>(C, N, o, std::sqrt(r2), y, "");
  sym::throws([&] { c.value(u, 3); }, "third derivative refused");
}
template <size_t D> static void onsurf_case(int p, const L_ &l, int du, int dv, const L_ &lu, const L_ &lv, bool rat, bool symsrf, double a = 0) { // surface over [a,a+1] x [-a,1-a]
  V k = clamped(p, l, -1, 1), ku = clamped(du, shifted(lu, a), a, a + 1), kv = clamped(dv, shifted(lv, -a), -a, 1 - a);
  size_t np = k.size() - p - 1, nu = ku.size() - du - 1, nv = kv.size() - dv - 1;
  // pole values inside the surface domain
  PV<2> q(np);
  for (size_t i = 0; i < np; ++i)
    for (int d = 0; d < 2; ++d) q[i][d] = (d ? -a : a) + (symsrf ? double((i * 3 + d * 4 + 1) % 7) / 7. : sym::real("q" + S_(i) + "_" + S_(d), 0, 1));
  auto x = symsrf ? symPoles<D>("S", nu * nv) : concPoles<D>(nu * nv);
  double u = sym::real("u", -1, 1);
  auto crv = std::make_shared<BSCurve<double, 2>>(q, k, (size_t)p);
  V w = concWeights(nu * nv);
  std::shared_ptr<Surface<double, D>> srf;
  if (rat) srf = std::make_shared<BSSurfaceRational<double, D>>(homog<D>(x, w), ku, kv, (size_t)du, (size_t)dv);
  else srf = std::make_shared<BSSurface<double, D>>(x, ku, kv, (size_t)du, (size_t)dv);
  CurveOnSurface<double, D> c{crv, srf};
  sym::eq(c.bounds()[0], -1, "b0"), sym::eq(c.bounds()[1], 1, "b1");
  auto X = bs_ref<2>(u, k, q, p), X1 = bs_ref<2>(u, k, q, p, 1), X2 = bs_ref<2>(u, k, q, p, 2);
  auto S = [&](int a, int b) { return rat ? rsrf_ref<D>(X[0], X[1], ku, kv, homog<D>(x, w), du, dv, a, b) : srf_ref<D>(X[0], X[1], ku, kv, x, du, dv, a, b); };
  auto s = S(0, 0), su = S(1, 0), sv = S(0, 1), suu = S(2, 0), svv = S(0, 2), suv = S(1, 1);
  auto y0 = c.value(u), y1 = c.value(u, 1), y2 = c.value(u, 2);
  for (size_t i = 0; i < D; ++i) {
    sym::eq(y0[i], s[i], "value", 1e-6);
    sym::eq(y1[i], su[i] * X1[0] + sv[i] * X1[1], "d1", 1e-5);
    sym::eq(y2[i], suu[i] * X1[0] * X1[0] + 2 * suv[i] * X1[0] * X1[1] + svv[i] * X1[1] * X1[1] + su[i] * X2[0] + sv[i] * X2[1], "d2", 1e-5);
  }
  sym::throws([&] { c.value(u, 3); }, "third derivative refused");
}
static void offpoints_case(int du, int dv, bool fsym, double o = 0) {
  V ku = clamped(du, {}, o, o + 1), kv = clamped(dv, {}, -o, 1 - o);
  size_t nu = du + 1, nv = dv + 1;
  auto x = concPoles<3>(nu * nv, 2);
  if (!fsym) for (int d = 0; d < 3; ++d) x[1][d] = sym::real("S" + S_(d), -9, 9);
  V kf = clamped(1, {}, o, o + 1), kg = clamped(1, {}, -o, 1 - o);
  V f(4);
  PV<1> fx(4);
  for (int i = 0; i < 4; ++i) f[i] = fsym ? sym::real("f" + S_(i), -2, 2) : 0.5 + i, fx[i] = {f[i]};
  BSSfunction<double> F{f, kf, kg, 1, 1};
  BSSurface<double, 3> srf{x, ku, kv, (size_t)du, (size_t)dv};
  V us{0.125, 0.5, 0.875}, vs{0.25, 0.625};
  if (!fsym) us = {0.375}, vs = {0.625};
  for (auto &u : us) u += o;
  for (auto &v : vs) v -= o;
  P<3> ex[6];
  for (size_t j = 0; j < vs.size(); ++j)
    for (size_t i = 0; i < us.size(); ++i) {
      auto s = srf_ref<3>(us[i], vs[j], ku, kv, x, du, dv), a = srf_ref<3>(us[i], vs[j], ku, kv, x, du, dv, 1, 0), b = srf_ref<3>(us[i], vs[j], ku, kv, x, du, dv, 0, 1);
      P<3> n{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
      double n2 = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
      sym::assume_lt(0.01, n2);
      double off = srf_ref<1>(us[i], vs[j], kf, kg, fx, 1, 1)[0], r = std::sqrt(n2);
      for (int d = 0; d < 3; ++d) ex[i + us.size() * j][d] = s[d] + n[d] / r * off;
    }
  auto pts = offset_points<double>(F, srf, us, vs);
  sym::check(pts.size() == us.size() * vs.size(), "count");
  for (size_t i = 0; i < pts.size(); ++i) eqp<3>(pts[i], ex[i], "point" + S_(i), 1e-5);
}
// offset of a plane patch by a function of its own space: exact, on the knots of the patch
static void offapprox_case(int p, int q, size_t mu, size_t mv, bool flip, double o = 0) {
  V ku = clamped(p, {{o + 0.375, 1}}, o, o + 1), kv = clamped(q, {}, -o, 1 - o), kf = clamped(1, {}, o, o + 1), kg = clamped(1, {}, -o, 1 - o);
  size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
  PV<3> x;
  double t[3];
  for (int d = 0; d < 3; ++d) t[d] = sym::real("t" + S_(d), -8, 8);
  for (size_t j = 0; j < nv; ++j)
    for (size_t i = 0; i < nu; ++i) {
      double a = 2. * i + 0.25 * j, b = 1.5 * j;
      x.push_back(flip ? P<3>{b + t[0], a + t[1], t[2]} : P<3>{a + t[0], b + t[1], t[2]});
    }
  V f(4);
  PV<1> fx(4);
  for (int i = 0; i < 4; ++i) f[i] = sym::real("f" + S_(i), -2, 2), fx[i] = {f[i]};
  BSSurface<double, 3> srf{x, ku, kv, (size_t)p, (size_t)q};
  auto r = offset_approx<double, false>(BSSfunction<double>{f, kf, kg, 1, 1}, srf, nu + mu, nv + mv);
  sym::check(r.degreeU() == size_t(p) && r.degreeV() == size_t(q), "degrees");
  sym::eqv(r.knotsFlatsU(), ku, "knots u"), sym::eqv(r.knotsFlatsV(), kv, "knots v");
  for (double u0 : {0., 0.3, 0.375, 0.8, 1.})
    for (double v0 : {0., 0.45, 1.}) {
      const double u = o + u0, v = v0 - o;
      auto e = srf_ref<3>(u, v, ku, kv, x, p, q);
      e[2] += (flip ? -1 : 1) * srf_ref<1>(u, v, kf, kg, fx, 1, 1)[0];
      eqp<3>(r(u, v), e, "offset surface", 1e-5);
    }
}
static void function_case(int p, const L_ &l0, double o = 0) {
  const L_ l = shifted(l0, o);
  V k = clamped(p, l, o, o + 1);
  size_t n = k.size() - p - 1;
  V f(n);
  PV<1> fx(n);
  for (size_t i = 0; i < n; ++i) f[i] = sym::real("f" + S_(i), -5, 5), fx[i] = {f[i]};
  double u = sym::real("u", o, o + 1), a = sym::real("a", -3, 0), b = sym::real("b", 1, 4);
  BSCfunction<double> F{f, k, (size_t)p}, G{fx, k, (size_t)p};
  BSCfunction<double> H{F};
  V kn;
  std::vector<size_t> ms;
  kn.push_back(o), ms.push_back(p + 1);
  for (auto &[x, m] : l) kn.push_back(x), ms.push_back(m);
  kn.push_back(o + 1), ms.push_back(p + 1);
  BSCfunction<double> K{f, kn, ms, (size_t)p};
  for (int d = 0; d <= p + 1; ++d) {
    double e = bs_ref<1>(u, k, fx, p, d)[0];
    sym::eq(F(u, d), e, "d" + S_(d), 1e-6), sym::eq(G.value(u, d), e, "arrays d" + S_(d), 1e-6), sym::eq(H(u, d), e, "copy d" + S_(d), 1e-6), sym::eq(K(u, d), e, "mults d" + S_(d), 1e-6);
  }
  sym::eq(F.begin(), f.front(), "begin"), sym::eq(F.end(), f.back(), "end");
  H.changeBounds(a, b);
  K.changeBounds({a, b});
  sym::eq(H.bounds()[0], a, "new b0"), sym::eq(H.bounds()[1], b, "new b1");
  sym::eq(K.bounds()[0], a, "new b0"), sym::eq(K.bounds()[1], b, "new b1");
  sym::eq(F.bounds()[1], o + 1, "source untouched");
  double e = bs_ref<1>(u, k, fx, p)[0], e1 = bs_ref<1>(u, k, fx, p, 1)[0];
  bool inner = true;
  for (auto &[x, m] : l)
    if (!(u < x - 1e-4 || u > x + 1e-4)) inner = false;
  if (inner) {
    sym::eq(H(a + (u - o) * (b - a)), e, "changed", 1e-5);
    sym::eq(H(a + (u - o) * (b - a), 1) * (b - a), e1, "changed d1", 1e-5);
    sym::eq(K(a + (u - o) * (b - a)), e, "changed", 1e-5);
  }
  // surface function
}
void sym_register() {
  for (int p = 1; p <= 3; ++p)
    for (auto &l : layouts(p)) {
      L_ s = l;
      for (auto &[x, m] : s) x = -1 + 3 * x;
      for (int rat = 0; rat < 2; ++rat) {
        if (rat && (p != 2)) continue;
        std::string n = "p" + S_(p) + lname(l) + (rat ? ".rat" : "");
        sym::add("reversed." + n, [=] { reversed_case<2>(p, s, rat); });
        sym::add("trimmed." + n, [=] { trimmed_case<2>(p, s, rat); });
        sym::add("extended." + n, [=] { extended_case<2>(p, s, rat, false); });
        sym::add("extended.clamped." + n, [=] { extended_case<2>(p, s, rat, true); });
      }
    }
  sym::add("reversed.3d", [] { reversed_case<3>(2, {{0.5, 1}}, false); });
  sym::add("extended.3d", [] { extended_case<3>(2, {{0.5, 1}}, false, false); });
  sym::add("composite.one", [] { composite_case<2>({{2, {{1.5, 1}}}}, {1}, {2}, false); });
  sym::add("composite.two", [] { composite_case<2>({{2, {{1.5, 1}}}, {1, {{6, 1}}}}, {1, 5}, {2, 7}, false); });
  sym::add("composite.three", [] { composite_case<2>({{1, {}}, {3, {{0.5, 2}}}, {2, {}}}, {-2, 0, 0.5}, {-1, 1, 4}, false); });
  sym::add("composite.three.rat", [] { composite_case<1>({{1, {}}, {2, {{0.5, 1}}}, {2, {}}}, {-2, 0, 0.5}, {-1, 1, 4}, true); });
  sym::add("composite.same", [] { composite_case<3>({{1, {}}, {1, {}}, {1, {}}, {1, {}}}, {0, 0, 0, 0}, {1, 1, 1, 1}, false); });
  for (int rat = 0; rat < 2; ++rat)
    for (int pf = 1; pf <= 2; ++pf)
      for (int p = 1; p <= 2; ++p) {
        std::string n = "p" + S_(p) + ".f" + S_(pf) + (rat ? ".rat" : "");
        sym::add("repar." + n, [=] { repar_case<2>(p, {}, rat, pf, {}, true, false); });
        sym::add("repar.knots." + n, [=] { repar_case<2>(p, {{0.5, 1}}, rat, pf, {{4, 1}}, false, false); });
        sym::add("repar.reset." + n, [=] { repar_case<1>(p, {{0.5, 1}}, rat, pf, {}, true, true); });
      }
  for (int rat = 0; rat < 2; ++rat) {
    std::string r = rat ? ".rat" : "";
    sym::add("offset2.sym" + r, [=] { off2_case(3, {}, rat, true, false); }, 0, 20000, 90);
    sym::add("offset2.knot.sym" + r, [=] { off2_case(3, {{0.5, 1}}, rat, true, true); }, 0, 20000, 90);
    sym::add("offset2.u" + r, [=] { off2_case(2, {}, rat, false, false); }, 0, 20000, 90);
    sym::add("offset2.u.knot" + r, [=] { off2_case(2, {{0.5, 1}}, rat, false, true); }, 0, 20000, 90);
    sym::add("offset3.sym" + r, [=] { off3_case(3, {}, rat, true, {0, 0, 1}); }, 0, 20000, 90);
    sym::add("offset3.dir.sym" + r, [=] { off3_case(2, {}, rat, true, {2, -2, 1}); }, 0, 20000, 90);
    sym::add("offset3.u" + r, [=] { off3_case(2, {}, rat, false, {0, 0, 1}); }, 0, 20000, 90);
    sym::add("offset3.u.dir" + r, [=] { off3_case(2, {{0.5, 1}}, rat, false, {0, 3, 4}); }, 0, 20000, 90);
  }
  // parameters anywhere
  sym::add("offset2.at", [=] { off2_case(3, {{0.5, 1}}, false, true, false, -2.5); }, 0, 20000, 90);
  sym::add("offset2.at.rat", [=] { off2_case(2, {{0.5, 1}}, true, true, false, 3.25); }, 0, 20000, 90);
  sym::add("offset3.at", [=] { off3_case(3, {}, false, true, {0, 0, 1}, -2.5); }, 0, 20000, 90);
  sym::add("offset3.at.u", [=] { off3_case(2, {}, false, false, {0, 0, 1}, 3.25); }, 0, 20000, 90);
  sym::add("onsurface.at", [=] { onsurf_case<3>(2, {}, 2, 1, {{0.5, 1}}, {}, false, true, -2.5); });
  sym::add("onsurface.at.rat", [=] { onsurf_case<2>(2, {}, 1, 2, {}, {{0.375, 1}}, true, true, 3.25); });
  sym::add("offset_approx.at", [] { offapprox_case(2, 1, 1, 2, false, -2.5); });
  sym::add("offset_points.at", [] { offpoints_case(2, 2, true, 3.25); });
  for (int p = 1; p <= 3; ++p) sym::add("function.at.p" + S_(p), [=] { function_case(p, {{0.5, 1}}, p == 2 ? -2.5 : 3.25); });
  for (int rat = 0; rat < 2; ++rat) {
    std::string r = rat ? ".rat" : "";
    sym::add("onsurface.s11" + r, [=] { onsurf_case<3>(2, {}, 1, 1, {}, {}, rat, true); });
    sym::add("onsurface.s22" + r, [=] { onsurf_case<3>(2, {}, 2, 2, {}, {}, rat, true); });
    sym::add("onsurface.s21.knots" + r, [=] { onsurf_case<2>(2, {{0, 1}}, 2, 1, {{0.5, 1}}, {{0.375, 1}}, rat, true); });
    sym::add("onsurface.c2.s11" + r, [=] { onsurf_case<1>(2, {}, 1, 1, {}, {}, rat, false); });
    sym::add("onsurface.s32" + r, [=] { onsurf_case<1>(3, {{0, 1}}, 3, 2, {}, {}, rat, true); });
    if (rat) continue;
    sym::add("onsurface.c2.s22" + r, [=] { onsurf_case<1>(2, {}, 2, 2, {}, {}, rat, false); });
    sym::add("onsurface.c1.s32" + r, [=] { onsurf_case<1>(1, {{0, 1}}, 3, 2, {}, {}, rat, false); });
  }
  sym::add("offset_approx.11", [] { offapprox_case(1, 1, 2, 3, false); }), sym::add("offset_approx.21", [] { offapprox_case(2, 1, 1, 0, true); }), sym::add("offset_approx.32", [] { offapprox_case(3, 2, 0, 2, false); });
  sym::add("offset_points.s11", [] { offpoints_case(1, 1, false); });
  sym::add("offset_points.s21", [] { offpoints_case(2, 1, false); });
  sym::add("offset_points.f", [] { offpoints_case(2, 2, true); });
  for (int p = 1; p <= 3; ++p)
    for (auto &l : layouts(p)) sym::add("function.p" + S_(p) + lname(l), [=] { function_case(p, l); });
}
