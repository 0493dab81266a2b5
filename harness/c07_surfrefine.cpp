// C07: refinement, re-parametrisation, splitting and iso curves of surfaces.
#include "common.h"
#include <gbs/bsstools.h>
using namespace gbs;
template <size_t D> using BS = BSSurface<double, D>;
template <size_t D> using RS = BSSurfaceRational<double, D>;
static void offThreshold(const V &k, double t) {
  for (size_t i = 0; i < k.size(); ++i)
    if (i == 0 || k[i - 1] < k[i]) {
      double d = std::fabs(k[i] - t);
      if (d > 2e-14) sym::assume_lt(1e-12, d);
    }
}
static size_t multOf(const V &k, double t) {
  size_t m = 0;
  for (auto x : k)
    if (std::fabs(x - t) < 1e-13) ++m;
  return m;
}
template <size_t D> struct O {
  V ku, kv; int p, q; PV<D> x; V w; bool rat;
  P<D> at(double u, double v) const {
    if (!rat) return srf_ref<D>(u, v, ku, kv, x, p, q);
    return rsrf_ref<D>(u, v, ku, kv, homog<D>(x, w), p, q);
  }
};
template <class S> static void wf(const S &s, const std::string &l) {
  sym::check(s.poles().size() == s.nPolesU() * s.nPolesV() && s.nPolesU() == s.knotsFlatsU().size() - s.degreeU() - 1 && s.nPolesV() == s.knotsFlatsV().size() - s.degreeV() - 1, l + ".sizes");
  for (auto *k : {&s.knotsFlatsU(), &s.knotsFlatsV()})
    for (size_t i = 0; i + 1 < k->size(); ++i) sym::le((*k)[i], (*k)[i + 1], l + ".sorted");
  auto b = s.bounds();
  sym::eq(b[0], s.knotsFlatsU().front(), l + ".b0");
  sym::eq(b[1], s.knotsFlatsU().back(), l + ".b1");
  sym::eq(b[2], s.knotsFlatsV().front(), l + ".b2");
  sym::eq(b[3], s.knotsFlatsV().back(), l + ".b3");
}
template <size_t D> static O<D> mk(int p, int q, V ku, V kv, bool rat, const std::string &nm = "P") {
  size_t n = (ku.size() - p - 1) * (kv.size() - q - 1);
  return {ku, kv, p, q, symPoles<D>(nm, n), concWeights(n), rat};
}
template <size_t D, class F> static void with(const O<D> &o, F f) {
  if (o.rat) { RS<D> s(o.x, o.w, o.ku, o.kv, o.p, o.q); f(s); }
  else { BS<D> s(o.x, o.ku, o.kv, o.p, o.q); f(s); }
}
void sym_register() {
  struct L { int p, q; std::vector<std::pair<double, int>> a, b; int tier; };
  std::vector<L> ls{{1, 1, {{0.5, 1}}, {}, 0}, {2, 1, {}, {{0.5, 1}}, 0}, {1, 2, {{0.5, 1}}, {{0.25, 1}}, 0}, {2, 2, {{0.5, 1}}, {}, 0}, {2, 3, {}, {{0.5, 1}}, 0}, {3, 2, {{0.25, 2}}, {{0.5, 2}}, 1}, {3, 3, {{0.5, 1}}, {{0.5, 3}}, 1}};
  for (int rat = 0; rat <= 1; ++rat)
    for (auto &l : ls) {
      std::string nm = std::string(rat ? "rat." : "") + S_(l.p) + S_(l.q) + "." + lname(l.a) + "." + lname(l.b);
      int tier = l.tier || (rat && l.p + l.q > 3);
      const double oa = l.p == 1 ? 0. : -2.5, ob = l.q == 1 ? 3. : 0.; // parameters anywhere
      auto la = l.a, lb = l.b;
      for (auto &[x, m] : la) x += oa;
      for (auto &[x, m] : lb) x += ob;
      V ku = clamped(l.p, la, oa, oa + 1), kv = clamped(l.q, lb, ob, ob + 1);
      sym::add("insert." + nm, [=] {
        auto o = mk<1>(l.p, l.q, ku, kv, rat);
        int dir = sym::choose("dir", 0, 1);
        int pd = dir ? l.q : l.p;
        const V &kd = dir ? kv : ku;
        double t = sym::real("t", dir ? ob : oa, (dir ? ob : oa) + 1), u = sym::real("u", oa, oa + 1), v = sym::real("v", ob, ob + 1);
        offThreshold(kd, t);
        size_t r = sym::choose("r", 1, pd + 1);
        with<1>(o, [&](auto &s) {
          size_t m0 = multOf(kd, t);
          if (dir) s.insertKnotV(t, r); else s.insertKnotU(t, r);
          wf(s, "ins");
          size_t want = std::min<size_t>(std::max<size_t>(m0, pd), m0 + r);
          sym::check(multOf(dir ? s.knotsFlatsV() : s.knotsFlatsU(), t) == want, "mult");
          sym::eqv(dir ? s.knotsFlatsU() : s.knotsFlatsV(), dir ? ku : kv, "other knots");
          eqp<1>(s(u, v), o.at(u, v), "point", 1e-6);
        });
      }, tier);
      sym::add("elevate." + nm, [=] {
        auto o = mk<2>(l.p, l.q, ku, kv, rat);
        int dir = sym::choose("dir", 0, 2);
        double u = sym::real("u", oa, oa + 1), v = sym::real("v", ob, ob + 1);
        with<2>(o, [&](auto &s) {
          if (dir != 1) s.increaseDegreeU();
          if (dir != 0) s.increaseDegreeV();
          wf(s, "elev");
          sym::check(s.degreeU() == size_t(l.p + (dir != 1)) && s.degreeV() == size_t(l.q + (dir != 0)), "degree");
          eqp<2>(s(u, v), o.at(u, v), "point", 1e-6);
        });
      }, tier);
      sym::add("swapreverse." + nm, [=] {
        V ku2 = ku, kv2 = kv;
        for (auto &x : ku2) x = 2 * (x - oa) - 1;
        for (auto &x : kv2) x = 3 * (x - ob) + 2;
        auto o = mk<1>(l.p, l.q, ku2, kv2, rat);
        int op = sym::choose("op", 0, 4);
        double u = sym::real("u", -1, 1), v = sym::real("v", 2, 5);
        with<1>(o, [&](auto &s) {
          if (op == 0) s.reverseU(), eqp<1>(s(u, v), o.at(-u, v), "reverseU", 1e-6);
          if (op == 1) s.reverseV(), eqp<1>(s(u, v), o.at(u, 7 - v), "reverseV", 1e-6);
          if (op == 2) {
            s.invertUV(), eqp<1>(s(v, u), o.at(u, v), "invertUV", 1e-6);
            sym::check(s.degreeU() == size_t(l.q) && s.degreeV() == size_t(l.p), "degrees");
          }
          if (op == 3) s.reverseU(), s.reverseV(), eqp<1>(s(u, v), o.at(-u, 7 - v), "both", 1e-6);
          if (op == 4) {
            s.invertUV(), s.reverseU(), s.invertUV(), eqp<1>(s(u, v), o.at(u, 7 - v), "invrev", 1e-6);
          }
          wf(s, "op");
        });
      }, tier);
      sym::add("rebound." + nm, [=] {
        auto o = mk<1>(l.p, l.q, ku, kv, rat);
        double a = sym::real("a", -3, 3), b = sym::real("b", -3, 3), La = sym::real("La", 0.5, 4), u = sym::real("u", oa, oa + 1), v = sym::real("v", ob, ob + 1);
        with<1>(o, [&](auto &s) {
          s.changeUBounds(a, a + La);
          eqp<1>(s(a + La * (u - oa), v), o.at(u, v), "U", 1e-6);
          s.changeVBounds(b, b + 2);
          wf(s, "rb");
          eqp<1>(s(a + La * (u - oa), b + 2 * (v - ob)), o.at(u, v), "UV", 1e-6);
        });
      }, tier || l.p + l.q > 3);
      sym::add("trim." + nm, [=] {
        auto o = mk<1>(l.p, l.q, ku, kv, rat);
        int dir = sym::choose("dir", 0, 1);
        const double od = dir ? ob : oa;
        double a = sym::real("a", od, od + 0.625), b = sym::real("b", od + 0.25, od + 1), u = sym::real("u", oa, oa + 1), v = sym::real("v", ob, ob + 1);
        const V &kd = dir ? kv : ku;
        offThreshold(kd, a);
        offThreshold(kd, b);
        sym::assume_lt(a + 1e-2, b);
        double &t = dir ? v : u;
        sym::assume_le(a, t);
        sym::assume_le(t, b);
        with<1>(o, [&](auto &s) {
          if (dir) s.trimV(a, b); else s.trimU(a, b);
          wf(s, "trim");
          auto bd = s.bounds();
          sym::eq(bd[2 * dir], a, "b0");
          sym::eq(bd[2 * dir + 1], b, "b1");
          sym::eq(bd[2 - 2 * dir], dir ? oa : ob, "other b0");
          sym::eq(bd[3 - 2 * dir], (dir ? oa : ob) + 1, "other b1");
          eqp<1>(s(u, v), o.at(u, v), "point", 1e-6);
        });
      }, tier || l.p + l.q > 3);
      sym::add("split." + nm, [=] {
        auto o = mk<1>(l.p, l.q, ku, kv, rat);
        int dir = sym::choose("dir", 0, 1);
        const double od = dir ? ob : oa;
        double m = sym::real("m", od + 0.0625, od + 0.9375), u = sym::real("u", oa, oa + 1), v = sym::real("v", ob, ob + 1);
        offThreshold(dir ? kv : ku, m);
        with<1>(o, [&](auto &s) {
          auto [s1, s2] = dir ? split_v(s, m) : split_u(s, m);
          wf(s1, "s1");
          wf(s2, "s2");
          double t = dir ? v : u;
          if (t <= m) eqp<1>(s1(u, v), o.at(u, v), "first", 1e-6);
          else eqp<1>(s2(u, v), o.at(u, v), "second", 1e-6);
        });
      }, tier || l.p + l.q > 3);
      sym::add("iso." + nm, [=] {
        auto o = mk<2>(l.p, l.q, ku, kv, rat);
        double u = sym::real("u", oa, oa + 1), v = sym::real("v", ob, ob + 1);
        int dir = sym::choose("dir", 0, 1);
        offThreshold(dir ? kv : ku, dir ? v : u);
        with<2>(o, [&](auto &s) {
          if (dir) {
            auto c = s.isoV(v);
            sym::check(c.degree() == size_t(l.p), "degree");
            sym::eqv(c.knotsFlats(), ku, "knots");
            eqp<2>(c(u), o.at(u, v), "isoV", 1e-6);
          } else {
            auto c = s.isoU(u);
            sym::check(c.degree() == size_t(l.q), "degree");
            sym::eqv(c.knotsFlats(), kv, "knots");
            eqp<2>(c(v), o.at(u, v), "isoU", 1e-6);
          }
        });
      }, tier);
    }
  sym::add("trim.swapped", [=] {
    auto o = mk<1>(2, 1, clamped(2, {{0.5, 1}}), clamped(1, {}), false);
    BS<1> s(o.x, o.ku, o.kv, 2, 1);
    double u = sym::real("u", 0.25, 0.75), v = sym::real("v", 0, 1);
    if (sym::choose("dir", 0, 1)) {
      s.trimV(0.75, 0.25);
      sym::assume(v >= 0.25 && v <= 0.75);
    } else
      s.trimU(0.75, 0.25);
    wf(s, "sw");
    eqp<1>(s(u, v), o.at(u, v), "point");
  });
  // bounds of the other direction survive every operation
  sym::add("sequence", [=] {
    auto o = mk<1>(2, 1, clamped(2, {{-2., 1}}, -2.5, -1.5), clamped(1, {{0.5, 1}}), false);
    BS<1> s(o.x, o.ku, o.kv, 2, 1);
    double u = sym::real("u", 0, 1), v = sym::real("v", 0, 1);
    s.trimU(-2.25, -1.75);
    s.changeVBounds(1, 3);
    s.reverseU();
    s.insertKnotV(1.5);
    s.increaseDegreeV();
    s.invertUV();
    wf(s, "seq");
    eqp<1>(s(1 + 2 * v, -2.25 + 0.5 * u), o.at(-1.75 - 0.5 * u, v), "point");
  });
  // joining two surfaces that share a border
  for (int rat = 0; rat <= 1; ++rat)
    for (auto [p1, p2] : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}})
      sym::add(std::string("join.") + (rat ? "rat." : "") + S_(p1) + S_(p2), [=, p1 = p1, p2 = p2] {
        V kv = clamped(1, {{3.5, 1}}, 3, 4);
        auto o1 = mk<1>(p1, 1, clamped(p1, {{-1.5, 1}}, -2, -1), kv, rat), o2 = mk<1>(p2, 1, clamped(p2, {}, 4, 6), kv, rat, "Q");
        size_t n1 = p1 + 2, n2 = p2 + 1;
        for (int j = 0; j < 3; ++j) o2.x[n2 * j] = o1.x[n1 * j + n1 - 1], o2.w[n2 * j] = o1.w[n1 * j + n1 - 1];
        double u = sym::real("u", -2, 1), v = sym::real("v", 3, 4);
        auto chk = [&](auto s) {
          wf(s, "join");
          if (u <= -1) eqp<1>(s(u, v), o1.at(u, v), "first", 1e-6);
          else eqp<1>(s(u, v), o2.at(u + 5, v), "second", 1e-6);
        };
        if (rat) chk(join(RS<1>(o1.x, o1.w, o1.ku, kv, p1, 1), RS<1>(o2.x, o2.w, o2.ku, kv, p2, 1)));
        else chk(join(BS<1>(o1.x, o1.ku, kv, p1, 1), BS<1>(o2.x, o2.ku, kv, p2, 1)));
      });
  sym::add("join.incompatible", [=] {
    BS<1> a(concPoles<1>(4), clamped(1, {}), clamped(1, {}), 1, 1), b(concPoles<1>(6), clamped(1, {}), clamped(1, {{0.5, 1}}), 1, 1), c(concPoles<1>(6), clamped(1, {}), clamped(2, {}), 1, 2);
    sym::throws([&] { join(a, b); }, "different v knots");
    sym::throws([&] { join(a, c); }, "different v degree");
  });
  // unification of surfaces
  sym::add("unify", [=] {
    V ku1 = clamped(2, {{-1.5, 1}}, -2, -1), kv1 = clamped(1, {}, 3, 4), ku2 = clamped(2, {{1., 1}}, 0, 3), kv2 = clamped(1, {{0.25, 1}}, 0, 1);
    auto o1 = mk<1>(2, 1, ku1, kv1, false), o2 = mk<1>(2, 1, ku2, kv2, false, "Q");
    std::vector<BSSurfaceInfo<double, 1>> info{BS<1>(o1.x, ku1, kv1, 2, 1).info(), BS<1>(o2.x, ku2, kv2, 2, 1).info()};
    unify_knots(info);
    double u = sym::real("u", -2, -1), v = sym::real("v", 3, 4);
    BS<1> s1(info[0]), s2(info[1]);
    sym::eqv(s1.knotsFlatsU(), s2.knotsFlatsU(), "ku");
    sym::eqv(s1.knotsFlatsV(), s2.knotsFlatsV(), "kv");
    eqp<1>(s1(u, v), o1.at(u, v), "s1", 1e-6);
    eqp<1>(s2(u, v), o2.at(3 * (u + 2), v - 3), "s2", 1e-6);
  });
}
