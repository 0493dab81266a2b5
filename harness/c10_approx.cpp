// C10: least-squares fits are optimal, reproduce data in their space, and pass through fixed ends.
#include "common.h"
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
using namespace gbs;
static V params(size_t n, double a = 0., double b = 1.) {
  V u(n);
  double s = 0;
  for (size_t i = 0; i < n; ++i) {
    u[i] = s;
    s += 1. + 0.375 * double((i * 5 + 1) % 4);
  }
  double L = u.back();
  for (auto &x : u) x = a + (b - a) * (x / L);
  u.back() = b;
  return u;
}
// normal equations of the curve's own knots over the poles [f, n-f)
template <size_t D> static void optimal(const BSCurve<double, D> &c, const V &u, const PV<D> &Q, bool fixed, const std::string &l, double tol = 1e-6) {
  auto &k = c.knotsFlats();
  int p = (int)c.degree();
  size_t n = c.poles().size();
  std::vector<P<D>> r(Q.size());
  for (size_t i = 0; i < Q.size(); ++i) {
    auto x = bs_ref<D>(u[i], k, c.poles(), p);
    for (size_t d = 0; d < D; ++d) r[i][d] = Q[i][d] - x[d];
  }
  for (size_t j = fixed; j + fixed < n; ++j)
    for (size_t d = 0; d < D; ++d) {
      double s = 0;
      for (size_t i = 0; i < Q.size(); ++i) s += basis_ref(j, p, u[i], k, span_ref(u[i], k)) * r[i][d];
      sym::eq(s, 0, l + ".normal" , tol);
    }
  if (fixed) {
    eqp<D>(c.poles().front(), Q.front(), l + ".first", 1e-9);
    eqp<D>(c.poles().back(), Q.back(), l + ".last", 1e-9);
    eqp<D>(bs_ref<D>(u.front(), k, c.poles(), p), Q.front(), l + ".begin");
    eqp<D>(bs_ref<D>(u.back(), k, c.poles(), p), Q.back(), l + ".end");
  }
}
template <class C> static void shape(const C &c, size_t p, size_t n, double a, double b) {
  sym::check(c.degree() == p && c.poles().size() == n && c.knotsFlats().size() == n + p + 1, "shape");
  sym::eq(c.bounds()[0], a, "b0");
  sym::eq(c.bounds()[1], b, "b1");
}
void sym_register() {
  struct G { size_t p, np, n; };
  std::vector<G> gs{{1, 2, 5}, {1, 4, 9}, {2, 3, 3}, {2, 4, 9}, {2, 6, 12}, {3, 4, 6}, {3, 6, 14}, {3, 9, 20}, {4, 7, 15}, {5, 8, 20}};
  for (auto g : gs)
    for (int fixed = 0; fixed <= 1; ++fixed) {
      std::string nm = "p" + S_(g.p) + ".np" + S_(g.np) + ".n" + S_(g.n) + (fixed ? ".fixed" : ".free");
      sym::add("curve." + nm, [=] {
        V u = params(g.n, -1, 3);
        auto Q = symPoles<2>("Q", g.n);
        auto c = approx<double, 2>(Q, g.p, g.np, u, (bool)fixed);
        shape(c, g.p, g.np, -1, 3);
        optimal<2>(c, u, Q, fixed, "opt");
      });
      sym::add("repro." + nm, [=] { // data already on such a curve: the fit is that curve
        V u = params(g.n, 0, 2);
        V k = build_simple_mult_flat_knots<double>(0., 2., g.np, g.p);
        auto X = symPoles<1>("X", g.np);
        PV<1> Q(g.n);
        for (size_t i = 0; i < g.n; ++i) Q[i] = bs_ref<1>(u[i], k, X, (int)g.p);
        auto c = approx<double, 1>(Q, g.p, g.np, u, (bool)fixed);
        sym::eqv(c.knotsFlats(), k, "knots");
        for (size_t i = 0; i < g.np; ++i) eqp<1>(c.poles()[i], X[i], "pole", 1e-5);
      });
    }
  // given knots, including multiple ones
  for (int fixed = 0; fixed <= 1; ++fixed) {
    sym::add(std::string("knots.") + (fixed ? "fixed" : "free"), [=] {
      int w = sym::choose("layout", 0, 2);
      V k = w == 0 ? clamped(2, {{0.25, 1}, {0.5, 2}}) : w == 1 ? clamped(3, {{0.5, 3}}) : clamped(3, {{0.3, 1}, {0.6, 1}, {0.7, 1}});
      size_t p = w == 0 ? 2 : 3, np = k.size() - p - 1;
      const double o = sym::choose("range", 0, 1) ? 2. : 0.; // the parameters start anywhere
      for (auto &x : k) x = o + (o > 0 ? 3. : 1.) * x;
      V u = params(16, k.front(), k.back());
      auto Q = symPoles<2>("Q", 16);
      auto c = fixed ? approx_bound_fixed<double, 2>(Q, p, np, u, k) : approx<double, 2>(Q, p, np, u, k);
      sym::eqv(c.knotsFlats(), k, "knots", 0);
      optimal<2>(c, u, Q, fixed, "opt");
    });
    // both sides of the dense / sparse threshold
    for (size_t n : {99, 100, 101, 102, 120})
      sym::add("size." + S_(n) + (fixed ? ".fixed" : ".free"), [=] {
        V u = params(n);
        auto Q = concPoles<1>(n);
        for (size_t i = 0; i < n; i += 2) Q[i][0] = sym::real("Q" + S_(i), -10, 10);
        Q.back()[0] = sym::real("Qlast", -10, 10);
        auto c = approx<double, 1>(Q, 3, 6, u, (bool)fixed);
        optimal<1>(c, u, Q, fixed, "opt");
      });
    sym::add(std::string("3d.") + (fixed ? "fixed" : "free"), [=] {
      V u = params(8);
      auto Q = symPoles<3>("Q", 8);
      auto c = approx<double, 3>(Q, 2, 5, u, (bool)fixed);
      optimal<3>(c, u, Q, fixed, "opt");
    });
    // adaptive refinement: the result is the optimum for the knots it ends with
    for (int pp = 2; pp <= 3; ++pp)
      sym::add("refine.p" + S_(pp) + (fixed ? ".fixed" : ".free"), [=] {
        size_t n = 18, p = (size_t)pp;
        V u = sym::choose("range", 0, 1) ? params(n, 2, 5) : params(n);
        auto Q = concPoles<2>(n);
        double dm = sym::real("dmax", 1e-3, 20), da = sym::real("davg", 1e-3, 20);
        size_t it = (size_t)sym::choose("n_max", 0, 4);
        auto c = approx<double, 2>(Q, u, p, (bool)fixed, dm, da, it);
        sym::check(c.degree() == p && c.poles().size() <= n && c.poles().size() + p + 1 == c.knotsFlats().size(), "shape");
        sym::check(c.poles().size() <= 2 * p + it, "at most one knot per iteration");
        for (size_t i = 0; i + 1 < c.knotsFlats().size(); ++i) sym::le(c.knotsFlats()[i], c.knotsFlats()[i + 1], "sorted");
        optimal<2>(c, u, Q, fixed, "opt", 1e-5);
      });
  }
  for (int mode = 0; mode < 3; ++mode)
    sym::add("mode.m" + S_(mode), [=] {
      auto md = mode == 0 ? KnotsCalcMode::EQUALLY_SPACED : mode == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL;
      bool ad = sym::choose("adim", 0, 1);
      size_t n = 9;
      auto Q = mode == 0 ? symPoles<2>("Q", n) : concPoles<2>(n);
      V u(n, 0.);
      for (size_t i = 1; i < n; ++i) {
        double dx = Q[i][0] - Q[i - 1][0], dy = Q[i][1] - Q[i - 1][1];
        double L = mode == 0 ? 1. / double(n - 1) : std::sqrt(dx * dx + dy * dy);
        if (mode == 2) L = std::sqrt(L);
        u[i] = u[i - 1] + L;
      }
      if (ad) {
        double T = u.back();
        for (auto &x : u) x /= T;
      }
      auto c = approx<double, 2>(Q, 3, 5, md, ad);
      u.back() = c.bounds()[1]; // same up to rounding
      shape(c, 3, 5, 0, ad || mode == 0 ? 1. : u.back());
      optimal<2>(c, u, Q, true, "opt", 1e-5);
      std::vector<PV<2>> lst(9, Q);
      lst[1] = concPoles<2>(n, 3);
      auto cs = approx<double, 2>(lst, 3, 5, md, ad);
      sym::check(cs.size() == lst.size(), "batch size");
      auto c1 = approx<double, 2>(lst[1], 3, 5, md, ad);
      for (size_t i = 0; i < 5; ++i) eqp<2>(cs[0].poles()[i], c.poles()[i], "batch0", 1e-9), eqp<2>(cs[1].poles()[i], c1.poles()[i], "batch1", 1e-9), eqp<2>(cs[8].poles()[i], c.poles()[i], "batch8", 1e-9);
    });
  // approximation of a curve keeps its ends
  for (int w0 = 0; w0 < 16; ++w0) sym::add("of.curve." + S_(w0), [w0] {
    const int w = w0 % 8;
    const double off = w0 < 8 ? 0. : w0 % 2 ? -3.5 : 1.25; // its parameters start anywhere
    V k = clamped(3, {{off + 1., 1}, {off + 1.5, 2}}, off, off + 2);
    auto X = concPoles<2>(k.size() - 4);
    P<2> t{w ? sym::real("tx", -10, 10) : 1., w ? sym::real("ty", -10, 10) : -2.}; // the curve lies anywhere
    for (auto &x : X) x[0] += t[0], x[1] += t[1];
    BSCurve<double, 2> o(X, k, 3);
    const double a = off + 0.3, b = off + 1.6;
    std::function<P<2>(const P<2> &)> turn = [](const P<2> &x) { return P<2>{-x[1], 2 * x[0]}; };
    BSCurve<double, 2> c = w == 0   ? approx<double, 2>(o, 0.05, 3, KnotsCalcMode::CHORD_LENGTH)
                           : w == 1 ? approx<double, 2>(o, 0.05, (size_t)7, 3, KnotsCalcMode::CENTRIPETAL)
                           : w == 2 ? approx<double, 2>(o, (size_t)3, k.size() - 4, k, 0.05, (size_t)30)
                           : w == 3 ? approx<double, 2>(o, 0.05, 1e-4, (size_t)3)
                           : w == 4 ? approx<double, 2>(o, 0.05, 1e-4, (size_t)4, (size_t)8, (size_t)40)
                           : w == 5 ? approx<double, 2>(o, (size_t)3, (size_t)30)
                           : w == 6 ? approx<double, 2>(o, a, b, 0.05, 0.125, (size_t)3, (size_t)30)
                                    : approx<double, 2>(o, turn, 0.05, 1e-4, (size_t)3);
    auto R = [&](double u) { auto x = bs_ref<2>(u, k, X, 3); return w == 7 ? turn(x) : x; };
    double a_ = w == 6 ? a : off, b_ = w == 6 ? b : off + 2.;
    eqp<2>(c.begin(), R(a_), "begin", 1e-7);
    eqp<2>(c.end(), R(b_), "end", 1e-7);
    if (w == 6) sym::eq(c.bounds()[0], a, "from u1"), sym::eq(c.bounds()[1], b, "to u2");
    if (w >= 2 && w < 7) // the turned points are refined until their fit is not determined any more: only ends are claimed
      for (int i = 1; i < 8; ++i) eqp<2>(c(a_ + (b_ - a_) * i / 8), R(a_ + (b_ - a_) * i / 8), "near", w == 5 ? 2. : 0.2);
    if (w >= 2 && w != 6) { // parametrisation kept
      sym::eq(c.bounds()[0], off, "b0");
      sym::eq(c.bounds()[1], off + 2, "b1");
    }
    if (w == 2) // same basis: reproduced
      for (size_t i = 0; i < X.size(); ++i) eqp<2>(c.poles()[i], X[i], "pole", 1e-6);
  });
  // surfaces
  struct H { size_t p, q, npu, npv, nu, nv; };
  for (auto h : std::vector<H>{{1, 1, 2, 2, 3, 4}, {2, 1, 3, 4, 6, 5}, {1, 2, 4, 3, 5, 7}, {3, 2, 5, 4, 8, 6}, {2, 3, 3, 5, 3, 5}, {2, 2, 3, 3, 3, 5}, {2, 2, 3, 3, 5, 3}, {2, 2, 3, 3, 3, 3}, {1, 1, 3, 3, 3, 6}, {1, 1, 3, 3, 6, 3}, {2, 1, 4, 4, 4, 7}}) {
    std::string nm = S_(h.npu) + "x" + S_(h.npv) + "." + S_(h.nu) + "x" + S_(h.nv) + ".p" + S_(h.p) + "q" + S_(h.q);
    sym::add("surf." + nm, [=] {
      V u = params(h.nu, 0, 2), v = params(h.nv, -1, 1);
      V ku = build_simple_mult_flat_knots<double>(0., 2., h.npu, h.p), kv = build_simple_mult_flat_knots<double>(-1., 1., h.npv, h.q);
      auto Q = symPoles<1>("Q", h.nu * h.nv);
      auto pl = approx<double, 1>(Q, ku, kv, u, v, h.p, h.q);
      sym::check(pl.size() == h.npu * h.npv, "size");
      PV<1> r(Q.size());
      for (size_t j = 0; j < h.nv; ++j)
        for (size_t i = 0; i < h.nu; ++i) {
          auto x = srf_ref<1>(u[i], v[j], ku, kv, pl, h.p, h.q);
          for (int d = 0; d < 1; ++d) r[i + h.nu * j][d] = Q[i + h.nu * j][d] - x[d];
        }
      for (size_t b = 0; b < h.npv; ++b)
        for (size_t a = 0; a < h.npu; ++a)
          for (int d = 0; d < 1; ++d) {
            double s = 0;
            for (size_t j = 0; j < h.nv; ++j)
              for (size_t i = 0; i < h.nu; ++i)
                s += basis_ref(a, h.p, u[i], ku, span_ref(u[i], ku)) * basis_ref(b, h.q, v[j], kv, span_ref(v[j], kv)) * r[i + h.nu * j][d];
            sym::eq(s, 0, "normal", 1e-5);
          }
    });
  }
  for (int w = 0; w < 2; ++w)
    sym::add("surf.cstr." + S_(w), [=] { // scattered located values and derivatives
      V ku = w ? clamped(2, {}) : clamped(1, {{0.5, 1}}), kv = clamped(1, {});
      size_t p = w ? 2 : 1, q = 1, n = 3, m = 2;
      std::vector<bss_constraint<double, 1>> Q;
      V us{0, 0.2, 0.5, 0.7, 1, 0.1, 0.9, 0.4, 1, 0}, vs{0, 0.3, 1, 0.6, 0, 0.8, 0.5, 0.1, 1, 0.4};
      for (size_t i = 0; i < us.size(); ++i) Q.push_back({us[i], vs[i], P<1>{i == 1 || i == 4 || i == 3 ? sym::real("x" + S_(i), -10, 10) : 1. + double(i * i % 7)}, i % 4 == 3, i % 5 == 4});
      auto s = approx<double, 1>(Q, ku, kv, p, q);
      for (size_t b = 0; b < m; ++b)
        for (size_t a = 0; a < n; ++a) {
          double t = 0;
          for (auto &[u, v, x, du, dv] : Q) {
            double N = basis_ref(a, p, u, ku, span_ref(u, ku), (int)du) * basis_ref(b, q, v, kv, span_ref(v, kv), (int)dv);
            t += N * (x[0] - srf_ref<1>(u, v, ku, kv, s.poles(), p, q, (int)du, (int)dv)[0]);
          }
          sym::eq(t, 0, "normal", 1e-5);
        }
    });
  // refused
  sym::add("refuse.curve", [] {
    size_t n = (size_t)sym::choose("n", 2, 7), np = (size_t)sym::choose("np", 1, 8), p = (size_t)sym::choose("p", 1, 4);
    bool fixed = sym::choose("fixed", 0, 1);
    V u = params(n);
    auto Q = concPoles<1>(n);
    auto f = [&] { return approx<double, 1>(Q, p, np, u, fixed); };
    if (np >= p + 1 && np <= n) {
      auto c = f();
      sym::check(c.poles().size() == np, "poles");
      if (fixed) eqp<1>(c.begin(), Q.front(), "begin"), eqp<1>(c.end(), Q.back(), "end");
    } else
      sym::throws_as<std::length_error>(f, "refused");
  });
  sym::add("refuse.params", [] {
    size_t m = (size_t)sym::choose("m", 2, 9);
    int w = sym::choose("overload", 0, 2);
    if (m == 6) return sym::check(true, "consistent");
    auto Q = concPoles<1>(6);
    V u = params(m), k = clamped(2, {{0.5, 1}});
    sym::throws([&] { w == 0 ? approx<double, 1>(Q, 2, 4, u, k) : w == 1 ? approx_bound_fixed<double, 1>(Q, 2, 4, u, k) : approx<double, 1>(Q, 2, 4, u, true); }, "parameters");
  });
  sym::add("refuse.knots", [] {
    size_t np = (size_t)sym::choose("np", 3, 6);
    bool fixed = sym::choose("fixed", 0, 1);
    if (np == 4) return sym::check(true, "consistent");
    auto Q = concPoles<1>(6);
    V u = params(6), k = clamped(2, {{0.5, 1}});
    sym::throws([&] { fixed ? approx_bound_fixed<double, 1>(Q, 2, np, u, k) : approx<double, 1>(Q, 2, np, u, k); }, "knots");
  });
  sym::add("refuse.surf", [] {
    size_t nu = (size_t)sym::choose("nu", 2, 4), nv = (size_t)sym::choose("nv", 2, 4), npu = (size_t)sym::choose("npu", 2, 5), npv = (size_t)sym::choose("npv", 2, 5);
    V u = params(nu), v = params(nv);
    V ku = build_simple_mult_flat_knots<double>(0., 1., npu, 1), kv = build_simple_mult_flat_knots<double>(0., 1., npv, 1);
    auto Q = concPoles<1>(nu * nv);
    auto f = [&] { return approx<double, 1>(Q, ku, kv, u, v, 1, 1); };
    if (npu * npv > nu * nv) sym::throws_as<std::length_error>(f, "refused");
    else if (npu <= nu && npv <= nv) sym::check(f().size() == npu * npv, "size");
    else sym::throws(f, "more poles than points in one direction");
  });
}
