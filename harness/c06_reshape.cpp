// C06: trim, reverse, rebound, join and unify keep the curve's geometry.
#include "common.h"
#include <gbs/bsctools.h>
using namespace gbs;
template <size_t D> using BC = BSCurve<double, D>;
template <size_t D> using RC = BSCurveRational<double, D>;
static void offThreshold(const V &k, double t) {
  for (size_t i = 0; i < k.size(); ++i)
    if (i == 0 || k[i - 1] < k[i]) {
      double d = std::fabs(k[i] - t);
      if (d > 2e-14) sym::assume_lt(1e-12, d);
    }
}
template <class C> static void wellFormed(const C &c, const std::string &l) {
  auto &k = c.knotsFlats();
  size_t p = c.degree(), n = c.poles().size();
  sym::check(n + p + 1 == k.size() && n >= p + 1, l + ".sizes");
  for (size_t i = 0; i + 1 < k.size(); ++i) sym::le(k[i], k[i + 1], l + ".sorted");
  for (size_t i = 1; i <= p; ++i) sym::eq(k[i], k[0], l + ".clamp0"), sym::eq(k[k.size() - 1 - i], k.back(), l + ".clamp1");
}
template <size_t D> struct Obj { // either kind, with its reference
  V k; PV<D> x; V w; int p; bool rat;
  P<D> at(double u) const {
    if (!rat) return bs_ref<D>(u, k, x, p);
    return rat_ref<D>(u, k, homog<D>(x, w), p);
  }
};
template <size_t D> static Obj<D> mk(const std::string &nm, int p, V k, bool rat, bool symbolic = true) {
  size_t n = k.size() - p - 1;
  return {k, symbolic ? symPoles<D>(nm, n) : concPoles<D>(n), concWeights(n), p, rat};
}
template <size_t D, class F> static void with(const Obj<D> &o, F f) {
  if (o.rat) { RC<D> c(o.x, o.k, o.w, o.p); f(c); }
  else { BC<D> c(o.x, o.k, o.p); f(c); }
}
void sym_register() {
  for (int rat = 0; rat <= 1; ++rat)
    for (int p = 1; p <= 3; ++p)
      for (auto &l : layouts(p)) {
        std::string nm = std::string(rat ? "rat." : "") + "p" + S_(p) + "." + lname(l);
        int tier = (rat && p > 2) || l.size() > 2 ? 1 : 0;
        const double o = (p + l.size()) % 2 ? 0. : -2.5; // parameters anywhere
        auto ls = l;
        for (auto &[x, m] : ls) x += o;
        V k = clamped(p, ls, o, o + 1);
        sym::add("trim." + nm, [=] {
          auto q = mk<1>("P", p, k, rat);
          double a = sym::real("a", o, o + 1), b = sym::real("b", o, o + 1), u = sym::real("u", o, o + 1);
          sym::assume_lt(a + 1e-3, b);
          offThreshold(k, a);
          offThreshold(k, b);
          sym::assume_le(a, u);
          sym::assume_le(u, b);
          with<1>(q, [&](auto &c) {
            c.trim(a, b);
            wellFormed(c, "trim");
            sym::eq(c.bounds()[0], a, "b0");
            sym::eq(c.bounds()[1], b, "b1");
            sym::eq(c.knotsFlats().front(), a, "k0");
            sym::eq(c.knotsFlats().back(), b, "k1");
            // interior knots of the range stay, in place
            eqp<1>(c(u), q.at(u), "point", 1e-6);
            eqp<1>(c.begin(), q.at(a), "begin", 1e-6);
            eqp<1>(c.end(), q.at(b), "end", 1e-6);
          });
        }, tier || (rat && l.size() > 1));
        sym::add("reverse." + nm, [=] {
          V k2 = k;
          for (auto &x : k2) x = 2 * (x - o) + o; // [o,o+2]
          auto q = mk<2>("P", p, k2, rat);
          double u = sym::real("u", o, o + 2);
          with<2>(q, [&](auto &c) {
            auto r = c.reversed();
            c.reverse();
            wellFormed(c, "rev");
            // at an interior knot both one-sided points agree (multiplicity <= degree)
            eqp<2>(c(u), q.at(2 * o + 2 - u), "reverse");
            eqp<2>(r(u), q.at(2 * o + 2 - u), "reversed");
            sym::eq(c.bounds()[0], o, "b0");
            sym::eq(c.bounds()[1], o + 2, "b1");
            c.reverse();
            sym::eqv(c.knotsFlats(), k2, "twice.knots");
            eqp<2>(c(u), q.at(u), "twice");
          });
        }, tier);
        sym::add("rebound." + nm, [=] {
          auto q = mk<1>("P", p, k, rat);
          double a = sym::real("a", -5, 5), L = sym::real("L", 0.125, 8), u = sym::real("u", o, o + 1);
          double b = a + L;
          with<1>(q, [&](auto &c) {
            auto c2 = c;
            c.changeBounds(a, b);
            c2.changeBounds(std::array<double, 2>{a, b});
            wellFormed(c, "rebound");
            double x = a + L * (u - o);
            eqp<1>(c(x), q.at(u), "two args", 1e-6);
            eqp<1>(c2(x), q.at(u), "array", 1e-6);
            sym::eq(c.bounds()[0], a, "b0");
            sym::eq(c.bounds()[1], b, "b1");
            sym::eq(c2.bounds()[0], a, "b0a");
            sym::eq(c2.bounds()[1], b, "b1a");
          });
        }, tier);
      }
  // compositions, including the reversible (non permanent) trim
  for (int rat = 0; rat <= 1; ++rat)
    for (int p = 1; p <= 2; ++p)
      sym::add(std::string("compose.") + (rat ? "rat." : "") + "p" + S_(p), [=] {
        const double s = p == 1 ? 0. : -2.5;
        V k = clamped(p, {{s + 0.5, 1}}, s, s + 1);
        auto o = mk<1>("P", p, k, rat);
        double a = s + 0.25, b = sym::real("b", s + 0.625, s + 0.875), u = sym::real("u", 0, 1);
        bool hard = sym::choose("hard", 0, 1);
        int op = sym::choose("op", 0, 5);
        with<1>(o, [&](auto &c) {
          c.trim(a, b, hard);
          if (op == 0) {
            c.reverse();
            eqp<1>(c(a + (b - a) * u), o.at(b - (b - a) * u), "reverse after trim");
          } else if (op == 1) {
            c.changeBounds(2., 4.);
            eqp<1>(c(2 + 2 * u), o.at(a + (b - a) * u), "rebound after trim");
          } else if (op == 2) {
            c.increaseDegree();
            eqp<1>(c(a + (b - a) * u), o.at(a + (b - a) * u), "elevate after trim");
          } else if (op == 3) {
            c.insertKnot(s + 0.375);
            eqp<1>(c(a + (b - a) * u), o.at(a + (b - a) * u), "insert after trim");
          } else if (op == 4) {
            auto r = c.reversed();
            sym::eq(r.bounds()[0], a, "reversed.b0");
            sym::eq(r.bounds()[1], b, "reversed.b1");
            eqp<1>(r(a + (b - a) * u), o.at(b - (b - a) * u), "reversed after trim");
          } else {
            c.changeBounds(std::array<double, 2>{2., 4.});
            c.reverse();
            eqp<1>(c(2 + 2 * u), o.at(b - (b - a) * u), "rebound, reverse after trim");
          }
        });
      });
  sym::add("trim.swapped", [=] { // the ends may be given in any order
    V k = clamped(2, {{0.5, 1}});
    auto o = mk<1>("P", 2, k, false);
    double a = 0.25, b = sym::real("b", 0.6, 0.9), u = sym::real("u", 0, 1);
    BC<1> c(o.x, k, 2);
    c.trim(b, a, sym::choose("hard", 0, 1));
    sym::eq(c.bounds()[0], a, "b0");
    sym::eq(c.bounds()[1], b, "b1");
    eqp<1>(c(a + (b - a) * u), o.at(a + (b - a) * u), "point");
  });
  sym::add("trim.twice", [=] {
    V k = clamped(2, {{0.5, 1}});
    auto o = mk<1>("P", 2, k, false);
    double a = sym::real("a", 0.05, 0.3), u = sym::real("u", 0, 1);
    BC<1> c(o.x, k, 2);
    c.trim(a, 0.875);
    c.trim(0.375, 0.75);
    eqp<1>(c(0.375 + 0.375 * u), o.at(0.375 + 0.375 * u), "point");
    wellFormed(c, "twice");
  });
  // the two pieces of a cut are the original
  for (int p = 1; p <= 3; ++p)
    sym::add("cut.p" + S_(p), [=] {
      V k = clamped(p, {{-2., p}}, -2.5, -1.5);
      auto o = mk<1>("P", p, k, false);
      double m = sym::real("m", -2.4375, -1.5625), u = sym::real("u", -2.5, -1.5);
      offThreshold(k, m);
      BC<1> c1(o.x, k, p), c2(o.x, k, p);
      c1.trim(-2.5, m);
      c2.trim(m, -1.5);
      if (u <= m) eqp<1>(c1(u), o.at(u), "first", 1e-6);
      else eqp<1>(c2(u), o.at(u), "second", 1e-6);
      eqp<1>(c1.end(), c2.begin(), "meet", 1e-6);
    });
  // join: any degrees, kinds, domains
  struct J { int p1, p2; bool r1, r2; int tier; };
  for (auto j : std::vector<J>{{1, 1, 0, 0, 0}, {1, 3, 0, 0, 0}, {3, 2, 0, 0, 0}, {2, 2, 1, 1, 0}, {1, 2, 1, 0, 0}, {2, 1, 0, 1, 0}, {2, 3, 1, 1, 1}, {3, 3, 0, 0, 1}})
    sym::add("join." + S_(j.p1) + (j.r1 ? "r" : "") + "_" + S_(j.p2) + (j.r2 ? "r" : ""), [=] {
      V k1 = clamped(j.p1, {{-1.75, 1}}, -2, -1), k2 = clamped(j.p2, {{3.5, j.p2}}, 3, 5);
      auto o1 = mk<1>("P", j.p1, k1, j.r1), o2 = mk<1>("Q", j.p2, k2, j.r2);
      o2.x[0] = o1.x.back();
      double u = sym::real("u", -2, 1);
      auto chk = [&](auto &c) {
        wellFormed(c, "join");
        sym::eq(c.bounds()[0], -2, "b0");
        sym::eq(c.bounds()[1], 1, "b1");
        if (u <= -1) eqp<1>(c(u), o1.at(u), "first", 1e-6);
        else eqp<1>(c(u), o2.at(u + 4), "second", 1e-6);
        sym::check(c.degree() == (size_t)std::max(j.p1, j.p2), "degree");
      };
      with<1>(o1, [&](auto &c1) { with<1>(o2, [&](auto &c2) {
        auto c = join(c1, c2);
        chk(c);
        auto cp = join(&c1, &c2);
        chk(*cp);
      }); });
    }, j.tier);
  // a gap is closed at the mid point, the rest of each curve follows its own poles
  sym::add("join.gap", [=] {
    V k = clamped(1, {{0.5, 1}});
    auto o1 = mk<1>("P", 1, k, false), o2 = mk<1>("Q", 1, k, false);
    BC<1> c1(o1.x, k, 1), c2(o2.x, k, 1);
    auto c = join(c1, c2);
    sym::eq(c(1.)[0], 0.5 * (o1.x[2][0] + o2.x[0][0]), "mid");
    double u = sym::real("u", 0, 0.5);
    eqp<1>(c(u), o1.at(u), "head");
    eqp<1>(c(1.5 + u), o2.at(0.5 + u), "tail");
  });
  // unification: same degree and knots, geometry under the affine map to the first domain
  for (int rat = 0; rat <= 1; ++rat)
    sym::add(std::string("unify") + (rat ? ".rat" : ""), [=] {
      V k1 = clamped(1, {{-1.5, 1}}, -2, -1), k2 = clamped(2, {{4., 1}, {5., 2}}, 3, 7), k3 = clamped(3, {{0.5, 2}}, 0, 2);
      auto o1 = mk<1>("P", 1, k1, rat), o2 = mk<1>("Q", 2, k2, rat), o3 = mk<1>("R", 3, k3, rat);
      double u = sym::real("u", -2, -1);
      auto chk = [&](auto &v) {
        sym::check(v.size() == 3, "count");
        for (auto &c : v) {
          sym::check(c.degree() == 3, "degree");
          sym::eqv(c.knotsFlats(), v[0].knotsFlats(), "same knots");
          wellFormed(c, "unify");
          sym::eq(c.bounds()[0], -2, "b0");
          sym::eq(c.bounds()[1], -1, "b1");
        }
        eqp<1>(v[0](u), o1.at(u), "c0", 1e-6);
        eqp<1>(v[1](u), o2.at(3 + 4 * (u + 2)), "c1", 1e-6);
        eqp<1>(v[2](u), o3.at(2 * (u + 2)), "c2", 1e-6);
      };
      auto run = [&](auto v0) {
        using C = typename decltype(v0)::value_type;
        auto v = v0;
        unify_curves_degree(v);
        unify_curves_knots(v);
        chk(v);
      };
      if (rat) run(std::vector<RC<1>>{RC<1>(o1.x, k1, o1.w, 1), RC<1>(o2.x, k2, o2.w, 2), RC<1>(o3.x, k3, o3.w, 3)});
      else run(std::vector<BC<1>>{BC<1>(o1.x, k1, 1), BC<1>(o2.x, k2, 2), BC<1>(o3.x, k3, 3)});
    });
  sym::add("unify.info", [=] {
    double t = sym::real("t", -1.875, -1.125);
    offThreshold(V{-1.75, -1.5}, t);
    V k1 = clamped(1, {{t, 1}}, -2, -1), k2 = clamped(2, {{4., 1}, {5., 2}}, 3, 7), k3 = clamped(2, {}, 0, 2);
    auto o1 = mk<1>("P", 1, k1, false), o2 = mk<1>("Q", 2, k2, false), o3 = mk<1>("R", 2, k3, false);
    double u = sym::real("u", -2, -1);
    std::vector<BC<1>> v{BC<1>(o1.x, k1, 1), BC<1>(o2.x, k2, 2), BC<1>(o3.x, k3, 2)};
    auto info = get_bs_curves_info<double, 1>(v.begin(), v.end());
    unify_degree(info);
    unify_knots(info);
    sym::check(info.size() == 3, "count");
    std::vector<BC<1>> r;
    for (auto &[poles, k, p] : info) {
      sym::check(p == 2, "degree");
      sym::eqv(k, std::get<1>(info[0]), "same knots");
      r.push_back(BC<1>(poles, k, p));
      wellFormed(r.back(), "info");
    }
    eqp<1>(r[0](u), o1.at(u), "c0", 1e-6);
    eqp<1>(r[1](u), o2.at(3 + 4 * (u + 2)), "c1", 1e-6);
    eqp<1>(r[2](u), o3.at(2 * (u + 2)), "c2", 1e-6);
  });
  // every combination of interior multiplicities over three or four curves
  for (int via = 0; via < 2; ++via)
    for (int n = 2; n <= 4; ++n)
    sym::add("unify.mults.n" + S_(n) + (via ? ".info" : ".curves"), [=] {
      std::vector<BC<1>> v;
      std::vector<Obj<1>> o;
      for (int i = 0; i < n; ++i) {
        int a = sym::choose("m" + S_(i), 0, n == 4 ? 2 : 3), b = n == 4 ? i % 2 : sym::choose("n" + S_(i), 0, 1);
        std::vector<std::pair<double, int>> l;
        if (a) l.push_back({i - 2.5, a});
        if (b) l.push_back({i - 2.25, b});
        o.push_back(mk<1>("", 3, clamped(3, l, i - 3, i - 2), false, false));
        v.push_back(BC<1>(o[i].x, o[i].k, 3));
      }
      std::vector<BC<1>> r = v;
      if (via) {
        auto info = get_bs_curves_info<double, 1>(v.begin(), v.end());
        unify_degree(info);
        unify_knots(info);
        r.clear();
        for (auto &[poles, k, p] : info) r.push_back(BC<1>(poles, k, p));
      } else
        unify_curves_knots(r);
      double u = sym::real("u", -3, -2);
      sym::check((int)r.size() == n, "count");
      for (int i = 0; i < n; ++i) {
        sym::eqv(r[i].knotsFlats(), r[0].knotsFlats(), "same knots");
        wellFormed(r[i], "unify");
        for (double m : {0.5, 0.75}) {
          size_t want = 0, got = 0;
          for (auto &x : o) { size_t c = 0; for (double t : x.k) c += std::fabs(t - x.k[0] - m) < 1e-9; want = std::max(want, c); }
          for (double t : r[i].knotsFlats()) got += std::fabs(t - m + 3) < 1e-9;
          sym::check(want == got, "multiplicity");
        }
        eqp<1>(bs_ref<1>(u, r[i].knotsFlats(), r[i].poles(), 3), o[i].at(u + i), "geometry", 1e-6);
      }
    });
  sym::add("unify.knots.degreecheck", [=] {
    std::vector<BC<1>> v{BC<1>(concPoles<1>(3), clamped(1, {{0.5, 1}}), 1), BC<1>(concPoles<1>(3), clamped(2, {}), 2)};
    sym::throws([&] { unify_curves_knots(v); }, "different degrees");
  });
  // rational copy of a polynomial curve
  sym::add("to.rational", [=] {
    V k = clamped(3, {{0.5, 2}});
    auto o = mk<2>("P", 3, k, false);
    BC<2> c(o.x, k, 3);
    RC<2> r(c);
    double u = sym::real("u", 0, 1);
    eqp<2>(r(u), o.at(u), "point");
    eqp<2>(r(u, 1), bs_ref<2>(u, k, o.x, 3, 1), "d1");
    auto pp = r.polesProjected();
    for (size_t i = 0; i < pp.size(); ++i) eqp<2>(pp[i], o.x[i], "pole");
    for (auto w : r.weights()) sym::eq(w, 1, "w");
  });
}
