// C05: knot insertion, knot removal and degree elevation keep the curve.
#include "common.h"
#include <gbs/bscurve.h>
using namespace gbs;
template <size_t D> using BC = BSCurve<double, D>;
static size_t multOf(const V &k, double t) {
  size_t m = 0;
  for (auto x : k)
    if (std::fabs(x - t) < 1e-13) ++m;
  return m;
}
static void sorted(const V &k, const std::string &l) {
  for (size_t i = 0; i + 1 < k.size(); ++i) sym::le(k[i], k[i + 1], l + ".sorted");
}
// knots closer than the library's knot tolerance (2.2e-14) are one knot; leave out
// the values whose classification hangs on the exact threshold
static void offThreshold(const V &k, double t) {
  for (size_t i = 0; i < k.size(); ++i)
    if (i == 0 || k[i - 1] < k[i]) {
      double d = std::fabs(k[i] - t);
      if (d > 2e-14) sym::assume_lt(1e-12, d);
    }
}
// same points at every parameter
template <size_t D, class C> static void same(const C &c, const V &k, const PV<D> &P_, int p, const std::string &l, double tol = 1e-7) {
  double u = sym::real("u", k.front(), k.back());
  sym::check(c.poles().size() + c.degree() + 1 == c.knotsFlats().size(), l + ".sizes");
  eqp<D>(c(u), bs_ref<D>(u, k, P_, p), l + ".point", tol);
  auto b = c.bounds();
  sym::eq(b[0], k.front(), l + ".b0");
  sym::eq(b[1], k.back(), l + ".b1");
}
template <size_t D, class C> static void sameRat(const C &c, const V &k, const PV<D + 1> &H, int p, const std::string &l, double tol = 1e-6) {
  double u = sym::real("u", k.front(), k.back());
  sym::check(c.poles().size() + c.degree() + 1 == c.knotsFlats().size(), l + ".sizes");
  eqp<D>(c(u), rat_ref<D>(u, k, H, p), l + ".point", tol);
}
void sym_register() {
  for (int p = 1; p <= 4; ++p)
    for (auto &l0 : layouts(p)) {
      const double o = (p + l0.size()) % 2 ? 0. : -2.5; // parameters anywhere
      auto l = l0;
      for (auto &[x, m] : l) x += o;
      std::string nm = "p" + S_(p) + "." + lname(l0);
      int t1 = (p > 3 || (p == 3 && l.size() > 2)) ? 1 : 0;
      sym::add("insert." + nm, [=] {
        V k = clamped(p, l, o, o + 1);
        auto P_ = symPoles<1>("P", k.size() - p - 1);
        BC<1> c(P_, k, p);
        double t = sym::real("t", o, o + 1);
        offThreshold(k, t);
        size_t r = sym::choose("r", 1, p + 1);
        size_t s = multOf(k, t);
        c.insertKnot(t, r);
        bool end = s == size_t(p + 1);
        size_t want = end ? s : std::min<size_t>(std::max<size_t>(s, p), s + r);
        sym::check(multOf(c.knotsFlats(), t) == want, "mult");
        sym::check(c.knotsFlats().size() == k.size() + want - s, "nknots");
        sym::check(c.degree() == (size_t)p, "degree");
        sorted(c.knotsFlats(), "knots");
        same<1>(c, k, P_, p, "after");
      }, t1);
      sym::add("elevate." + nm, [=] {
        V k = clamped(p, l, o, o + 1);
        auto P_ = symPoles<2>("P", k.size() - p - 1);
        BC<2> c(P_, k, p);
        int st = sym::choose("step", 0, 3);
        c.increaseDegree(st);
        sym::check(c.degree() == size_t(p + st), "degree");
        auto want = clamped(p + st, [&] { auto q = l; for (auto &[x, m] : q) m += st; return q; }(), o, o + 1);
        sym::eqv(c.knotsFlats(), want, "knots");
        same<2>(c, k, P_, p, "after");
      }, p > 3 ? 1 : 0);
      if (p <= 3) sym::add("elevate.rat." + nm, [=] {
        V k = clamped(p, l, o, o + 1);
        size_t n = k.size() - p - 1;
        auto x = symPoles<1>("P", n);
        V w = concWeights(n);
        BSCurveRational<double, 1> c(x, k, w, p);
        int st = sym::choose("step", 1, 2);
        c.increaseDegree(st);
        sym::check(c.degree() == size_t(p + st), "degree");
        sameRat<1>(c, k, homog<1>(x, w), p, "after");
      });
      if (p <= 2) sym::add("insert.rat." + nm, [=] {
        V k = clamped(p, l, o, o + 1);
        size_t n = k.size() - p - 1;
        auto x = symPoles<1>("P", n);
        V w = concWeights(n);
        BSCurveRational<double, 1> c(x, k, w, p);
        double t = sym::real("t", o, o + 1);
        c.insertKnot(t, sym::choose("r", 1, p));
        // homogeneous coordinates are kept as well: same points and same weights
        double u = sym::real("u", o, o + 1);
        auto H = homog<1>(x, w);
        auto a = bs_ref<2>(u, c.knotsFlats(), c.poles(), p), b = bs_ref<2>(u, k, H, p);
        eqp<2>(a, b, "homogeneous");
      });
      // an inserted knot can be removed exactly
      if (p <= 3) sym::add("roundtrip." + nm, [=] {
        V k = clamped(p, l, o, o + 1);
        auto P_ = symPoles<1>("P", k.size() - p - 1);
        BC<1> c(P_, k, p);
        double t = sym::real("t", o + 0.0625, o + 0.9375);
        size_t s = multOf(k, t);
        int r = sym::choose("r", 1, p);
        sym::assume(r + s <= (size_t)p);
        for (auto &[x, m] : l) if (t != x) sym::assume_lt(0.01, std::fabs(t - x)); // conditioning only
        c.insertKnot(t, r);
        sym::check(multOf(c.knotsFlats(), t) == s + r, "inserted");
        c.removeKnot(t, 1e-6, r);
        sym::check(c.knotsFlats().size() == k.size() && c.poles().size() == P_.size(), "removed");
        sym::eqv(c.knotsFlats(), k, "knots");
        for (size_t i = 0; i < P_.size(); ++i) sym::eq(c.poles()[i][0], P_[i][0], "poles", 1e-5);
      }, t1);
      // removing from an arbitrary curve: any result stays within tolerance
      if (p <= 3 && !l.empty()) sym::add("remove." + nm, [=] {
        V k = clamped(p, l, o, o + 1);
        auto P_ = symPoles<1>("P", k.size() - p - 1, -2, 2);
        BC<1> c(P_, k, p);
        int which = sym::choose("knot", 0, (int)l.size() - 1);
        int num = sym::choose("num", 0, p + 2);
        double tol = 0.125;
        auto [x, m] = l[which];
        c.removeKnot(x, tol, num);
        size_t m2 = multOf(c.knotsFlats(), x);
        sym::check(m2 <= (size_t)m, "mult grows");
        size_t removed = m - m2;
        sym::check(removed <= (size_t)num, "removed more than asked");
        for (auto &[y, my] : l)
          if (y != x) sym::check(multOf(c.knotsFlats(), y) == (size_t)my, "other knots");
        sym::check(multOf(c.knotsFlats(), o) == (size_t)p + 1 && multOf(c.knotsFlats(), o + 1) == (size_t)p + 1, "end knots");
        sym::check(c.poles().size() == P_.size() - removed && c.knotsFlats().size() == k.size() - removed, "sizes");
        double u = sym::real("u", o, o + 1);
        double dv = c(u)[0] - bs_ref<1>(u, k, P_, p)[0];
        sym::le(std::fabs(dv), tol * removed, "deviation", 1e-6);
      }, t1);
    }
  // knots that are not there, and end knots, must not be removed
  for (int p = 1; p <= 3; ++p)
    sym::add("remove.none.p" + S_(p), [=] {
      V k = clamped(p, {{0.5, 1}});
      auto P_ = symPoles<1>("P", k.size() - p - 1);
      BC<1> c(P_, k, p);
      double t = sym::real("t", 0, 1);
      sym::assume_lt(1e-12, std::fabs(t - 0.5));
      c.removeKnot(t, 100., sym::choose("num", 0, 3));
      sym::eqv(c.knotsFlats(), k, "knots");
      for (size_t i = 0; i < P_.size(); ++i) sym::eq(c.poles()[i][0], P_[i][0], "poles");
    });
  // a knot named up to the knot tolerance is that knot
  for (int p = 1; p <= 3; ++p)
    sym::add("remove.near.p" + S_(p), [=] {
      V k = clamped(p, {{0.5, 1}});
      auto P_ = symPoles<1>("P", k.size() - p - 1);
      BC<1> c(P_, k, p);
      int r = sym::choose("r", 0, p - 1);
      c.insertKnot(0.25, r + (p == 1));
      double d = sym::choose("side", 0, 2) * 7.1e-15 - 7.1e-15;
      c.removeKnot(0.25 + d, 1e-6, r + (p == 1));
      sym::eqv(c.knotsFlats(), k, "knots");
      for (size_t i = 0; i < P_.size(); ++i) sym::eq(c.poles()[i][0], P_[i][0], "poles", 1e-5);
    });
  // function-level removals
  for (int p = 1; p <= 3; ++p)
    sym::add("remove.fn.p" + S_(p), [=] {
      V k = clamped(p, {{0.5, 1}});
      auto P_ = symPoles<1>("P", k.size() - p - 1);
      double t = sym::real("t", 0.1, 0.4);
      int r = sym::choose("r", 1, p), num = sym::choose("num", 1, p);
      sym::assume(num <= r);
      V k1 = k;
      auto P1 = P_;
      insert_knots(t, p, r, k1, P1);
      V k2 = k1;
      auto P2 = P1;
      auto n = remove_knot(t, p, num, k2, P2, 1e-6);
      sym::check(n == (size_t)num, "count");
      V k3 = k1;
      auto P3 = P1;
      remove_knot(t, num, k3, P3, p); // no tolerance test
      sym::check(k2.size() == k1.size() - num && P2.size() == P1.size() - num, "size2");
      sym::check(k3.size() == k1.size() - num && P3.size() == P1.size() - num, "size3");
      double u = sym::real("u", 0, 1);
      auto ref = bs_ref<1>(u, k, P_, p)[0];
      sym::eq(bs_ref<1>(u, k2, P2, p)[0], ref, "tol version");
      sym::eq(bs_ref<1>(u, k3, P3, p)[0], ref, "plain version");
      auto k4 = k1; // one at a time
      auto P4 = P1;
      for (int i = 0; i < num; ++i) sym::check(remove_knot(t, (size_t)p, k4, P4, 1e-6), "one at a time");
      sym::check(k4.size() == k1.size() - num && P4.size() == P1.size() - num, "size4");
      if (P4.size() + p + 1 == k4.size()) sym::eq(bs_ref<1>(u, k4, P4, p)[0], ref, "one at a time value");
      for (double e : {0., 0.05, 1.}) {
        auto k5 = k1;
        auto P5 = P1;
        sym::check(!remove_knot(e, (size_t)p, k5, P5, 1e-6) && k5.size() == k1.size() && P5.size() == P1.size(), "ends and other values stay");
      }
    });
  // several insertions, any order, through the list call
  for (int p = 2; p <= 3; ++p)
    sym::add("insertKnots.p" + S_(p), [=] {
      V k = clamped(p, {{0.5, 1}});
      auto P_ = symPoles<1>("P", k.size() - p - 1);
      BC<1> c(P_, k, p);
      double t1 = sym::real("t1", 0.05, 0.95);
      offThreshold(V{0.5, 0.75}, t1);
      std::vector<std::pair<double, size_t>> km{{0.75, 2}, {t1, 1}, {0.5, 2}};
      c.insertKnots(km);
      sym::check(multOf(c.knotsFlats(), 0.75) == 2, "m0.75");
      sym::check(multOf(c.knotsFlats(), 0.5) == 2, "m0.5");
      sym::check(multOf(c.knotsFlats(), t1) >= 1, "mt");
      size_t n = c.knotsFlats().size();
      c.insertKnots(km); // already there
      sym::check(c.knotsFlats().size() == n, "idempotent");
      sorted(c.knotsFlats(), "knots");
      same<1>(c, k, P_, p, "after");
    }, p > 2);
  for (int p = 1; p <= 3; ++p)
    sym::add("insert.two.p" + S_(p), [=] {
      V k = clamped(p, {}, -1, 3);
      auto P_ = symPoles<1>("P", p + 1);
      BC<1> c(P_, k, p);
      double t1 = sym::real("t1", -1, 3), t2 = sym::real("t2", -1, 3);
      offThreshold(V{-1, 3}, t1);
      offThreshold(V{-1, 3, t1}, t2);
      c.insertKnot(t1, p > 2 ? 1 : sym::choose("r1", 1, p));
      c.insertKnot(t2, 1);
      sorted(c.knotsFlats(), "knots");
      same<1>(c, k, P_, p, "after");
    }, p > 2);
  sym::add("insert.then.elevate", [=] {
    V k = clamped(2, {{0.5, 1}});
    auto P_ = symPoles<1>("P", 4);
    BC<1> c(P_, k, 2);
    double t = sym::real("t", 0.05, 0.95);
    offThreshold(V{0.5}, t);
    c.insertKnot(t);
    c.increaseDegree();
    same<1>(c, k, P_, 2, "after");
    sym::check(multOf(c.knotsFlats(), t) == (std::fabs(t - 0.5) < 1e-13 ? 3u : 2u), "mult");
  });
  sym::add("elevate.then.insert", [=] {
    V k = clamped(1, {{0.5, 1}});
    auto P_ = symPoles<1>("P", 3);
    BC<1> c(P_, k, 1);
    c.increaseDegree(2);
    double t = sym::real("t", 0, 1);
    c.insertKnot(t, 2);
    same<1>(c, k, P_, 1, "after");
  });
  sym::add("insert.symw", [=] {
    V k = clamped(2, {});
    auto x = symPoles<1>("P", 3);
    V w{sym::real("w0", 0.5, 2), sym::real("w1", 0.5, 2), sym::real("w2", 0.5, 2)};
    BSCurveRational<double, 1> c(x, k, w, 2);
    double t = sym::real("t", 0, 1);
    c.insertKnot(t);
    sameRat<1>(c, k, homog<1>(x, w), 2, "insert");
    BSCurveRational<double, 1> c2(x, k, w, 2);
    c2.increaseDegree();
    sameRat<1>(c2, k, homog<1>(x, w), 2, "elevate");
  });
  sym::add("bezier", [=] {
    int p = sym::choose("p", 1, 3);
    V k = clamped(p, {{0.25, 1}, {0.5, p}});
    auto P_ = symPoles<2>("P", k.size() - p - 1);
    auto seg = bezier_segments(k, P_, p);
    sym::check(seg.size() == 3, "count");
    V kn{0, 0.25, 0.5, 1};
    for (int s = 0; s < 3; ++s) {
      sym::eq(seg[s].second.first, kn[s], "u1");
      sym::eq(seg[s].second.second, kn[s + 1], "u2");
      sym::check(seg[s].first.size() == size_t(p + 1), "n");
      double u = sym::real("u", 0, 1);
      V kb = clamped(p, {}, kn[s], kn[s + 1]);
      double x = kn[s] + u * (kn[s + 1] - kn[s]);
      sym::assume(u < 1);
      eqp<2>(bs_ref<2>(x, kb, seg[s].first, p), bs_ref<2>(x, k, P_, p), "seg" + S_(s));
    }
  });
  sym::add("increase_bezier", [=] {
    int p = sym::choose("p", 1, 5), t = sym::choose("t", 0, 4);
    auto P_ = symPoles<1>("P", p + 1);
    auto Q = increase_bezier_degree(P_, p, t);
    sym::check(Q.size() == size_t(p + t + 1), "n");
    double u = sym::real("u", 0, 1);
    sym::eq(bs_ref<1>(u, clamped(p + t, {}), Q, p + t)[0], bs_ref<1>(u, clamped(p, {}), P_, p)[0], "point");
  });
}
