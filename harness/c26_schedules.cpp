// C26: parallel regions are free of data races and independent of the schedule.
// The thread pool behind the parallel algorithms is replaced by mock/pstl_backend.h.
#include "mock/pstl_backend.h"
#include "mock/nlopt_fixed.hpp"
#include "common.h"
#include <algorithm>
#include <list>
#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/bscbuild.h>
#include <gbs/bssbuild.h>
#include <gbs/bsctools.h>
#include <gbs/bsstools.h>
#include <gbs/bscinterp.h>
#include <gbs/bssinterp.h>
#include <gbs/bscapprox.h>
#include <gbs/bssapprox.h>
#include <gbs/bscanalysis.h>
#include <gbs/bssanalysis.h>
#include <gbs/extrema.h>
#include <gbs/offsets.h>
#include <gbs/transform.h>
#include <gbs-mesh/tfi.h>
#include "mesh.h"
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
#include <topology/halfEdgeMeshGetters.h>
using namespace gbs;
template <size_t D> static void put(V &o, const P<D> &p) { o.insert(o.end(), p.begin(), p.end()); }
template <size_t D> static void put(V &o, const PV<D> &p) { for (auto &x : p) put<D>(o, x); }
static void put(V &o, double x) { o.push_back(x); }
static void put(V &o, const V &x) { o.insert(o.end(), x.begin(), x.end()); }
// f fills a vector with everything observable of one run
template <class F> static void any_order(F f, double tol = 1e-7) {
  sched::order = sym::choose("order", 0, 5);
  parallel_min_size = 1, parallel_batch_min_size = 1;
  sched::serial = true;
  nlopt::reset();
  V ref = f();
  sched::serial = false;
  nlopt::reset();
  V got = f();
  parallel_min_size = 1000, parallel_batch_min_size = 8;
  sched::serial = true;
  nlopt::reset();
  V seq = f();
  sched::serial = false;
  sym::check(got.size() == ref.size() && seq.size() == ref.size(), "same size in every schedule");
  for (size_t i = 0; i < ref.size(); ++i) {
    sym::eq(got[i], ref[i], "same value in every schedule[" + S_(i) + "]", tol);
    sym::eq(seq[i], ref[i], "same value below the gate[" + S_(i) + "]", tol);
  }
}
static const V K2 = clamped(2, {{0.5, 1}});
template <size_t D> static PV<D> poles(size_t n, int nsym, const std::string &s = "P") {
  auto p = concPoles<D>(n);
  for (int i = 0; i < nsym; ++i) p[(i * 2 + 1) % n][i % D] += sym::real(s + S_(i), -4, 4);
  return p;
}
static std::shared_ptr<Curve<double, 3>> kind(int k, const std::string &s = "P") {
  auto p = poles<3>(4, 3, s);
  auto c = std::make_shared<BSCurve<double, 3>>(p, K2, 2ul);
  switch (k) {
  case 0: return c;
  case 1: return std::make_shared<BSCurveRational<double, 3>>(p, K2, concWeights(4), 2ul);
  case 2: return std::make_shared<CurveTrimmed<double, 3>>(c, 0.25, 0.875);
  case 3: return std::make_shared<CurveReparametrized<double, 3>>(c, BSCfunction<double>(PV<1>{{0.}, {1.}}, V{0, 0, 1, 1}, 1));
  default: return std::make_shared<CurveOnSurface<double, 3>>(
      std::make_shared<BSCurve<double, 2>>(PV<2>{{0., 0.25}, {0.5, 0.75}, {1., 0.5}}, clamped(2, {}), 2ul),
      std::make_shared<BSSurface<double, 3>>(poles<3>(9, 2, s), clamped(2, {}), clamped(2, {}), 2ul, 2ul));
  }
}
static V params(size_t n, double a = 0, double b = 1) {
  V u(n);
  for (size_t i = 0; i < n; ++i) u[i] = a + (b - a) * double((i * 3 + 1) % n) / double(n - 1);
  return u;
}
static std::shared_ptr<BSSurface<double, 3>> surf(int nsym = 3) {
  return std::make_shared<BSSurface<double, 3>>(poles<3>(12, nsym), K2, clamped(2, {}), 2ul, 2ul);
}
static std::shared_ptr<Surface<double, 3>> skind(int k) {
  if (k == 1) return std::make_shared<BSSurfaceRational<double, 3>>(add_weights_coord(poles<3>(12, 2), concWeights(12)), K2, clamped(2, {}), 2ul, 2ul);
  return surf();
}
static void curve_cases() {
  for (int k = 0; k < 5; ++k)
    for (size_t n : {2, 3, 6}) {
      sym::add("values.curve" + S_(k) + ".n" + S_(n), [=] {
        auto c = kind(k);
        auto [a, b] = c->bounds();
        V u = params(n, a, b);
        any_order([&] {
          V o;
          for (size_t d = 0; d < (k < 2 ? 3u : 2u); ++d) put<3>(o, c->values(u, d));
          put<3>(o, make_points(*c, u, 1));
          return o;
        }, 1e-6);
      }, n == 6 && k > 1);
      if (n == 3 && k < 3)
        sym::add("arcder.curve" + S_(k), [=] {
          auto c = kind(k);
          // arc length derivatives of a straight-line family keep the norms concrete
          PV<3> l{{0, 0, 0}, {1, 2, 2}, {2, 4, 4}, {4, 8, 8}};
          double x = sym::real("x", -5, 5);
          for (auto &q : l) q[0] += x;
          if (k == 0) c = std::make_shared<BSCurve<double, 3>>(l, K2, 2ul);
          if (k == 1) c = std::make_shared<BSCurveRational<double, 3>>(l, K2, concWeights(4), 2ul);
          if (k == 2) c = std::make_shared<CurveTrimmed<double, 3>>(std::make_shared<BSCurve<double, 3>>(l, K2, 2ul), 0.25, 0.75);
          auto [a, b] = c->bounds();
          V u = params(n, a, b);
          any_order([&] {
            V o;
            put<3>(o, c->d_dms(u)), put<3>(o, c->d_dm2s(u));
            return o;
          }, 1e-5);
        });
    }
  sym::add("make_points.list", [] {
    auto c = kind(0);
    std::list<double> u{0.125, 0.5, 0.75};
    any_order([&] { V o; put<3>(o, make_points(*c, u)); return o; });
  });
  sym::add("discretize", [] {
    double x = sym::real("x", -5, 5);
    auto c = std::make_shared<BSCurve<double, 3>>(PV<3>{{x, 0, 0}, {x + 1, 2, 2}, {x + 2, 4, 4}, {x + 4, 8, 8}}, K2, 2ul);
    any_order([&] { V o; put<3>(o, discretize(*c, 3)); return o; });
  });
  sym::add("values.function", [] {
    BSCfunction<double> f(PV<1>{{sym::real("a", -4, 4)}, {1.}, {sym::real("b", -4, 4)}, {0.5}}, K2, 2);
    V u = params(4);
    any_order([&] { V o; put<1>(o, f.basisCurve().values(u, 1)); return o; });
  });
  sym::add("abs_curv", [] {
    double x = sym::real("x", -5, 5), y = sym::real("y", -5, 5);
    BSCurve<double, 2> c(PV<2>{{x, y}, {x + 1, y + 3}, {x + 4, y + 2}, {x + 5, y}}, K2, 2);
    any_order([&] {
      V o;
      auto f = abs_curv(c, 0., 1., 5, 2);
      for (double m : {0., 0.5, 1., 2., 3.}) put(o, f(m));
      put(o, length(c, 0., 1.));
      return o;
    }, 1e-5);
  });
  sym::add("add_dimension.curve", [] {
    BSCurve<double, 2> c(poles<2>(4, 4), K2, 2);
    BSCurveRational<double, 2> r(poles<2>(4, 2), K2, concWeights(4), 2);
    double z = sym::real("z", -3, 3);
    any_order([&] {
      V o;
      put<3>(o, add_dimension(c, z).poles()), put<4>(o, add_dimension(r, z).poles());
      return o;
    });
  });
  sym::add("weights", [] {
    auto p = poles<2>(5, 4);
    auto w = concWeights(5);
    w[2] = sym::real("w", 0.5, 2);
    any_order([&] {
      V o;
      auto h = add_weights_coord(p, w);
      put<3>(o, h), put<3>(o, merge_weights(p, w)), put<3>(o, add_weights_coord(p));
      PV<2> q;
      V v;
      separate_weights(h, q, v);
      put<2>(o, q), put(o, v);
      scale_poles(h, 3.), put<3>(o, h);
      return o;
    });
  });
  for (int rat = 0; rat < 2; ++rat)
    sym::add("transform" + S_(rat), [=] {
      BSCurve<double, 3> c(poles<3>(4, 4), K2, 2);
      BSCurveRational<double, 3> r(poles<3>(4, 4), K2, concWeights(4), 2);
      BSSurface<double, 3> s(poles<3>(12, 4), K2, clamped(2, {}), 2, 2);
      BSSurfaceRational<double, 3> t(add_weights_coord(poles<3>(12, 4), concWeights(12)), K2, clamped(2, {}), 2, 2);
      auto f = [](P<3> p) { return P<3>{p[1] + 1, 2 * p[0], p[2] - p[1]}; };
      any_order([&] {
        V o;
        auto c1 = c;
        auto r1 = r;
        auto s1 = s;
        auto t1 = t;
        if (rat) transform(r1, f), transform(t1, f);
        else transform(c1, f), transform(s1, f);
        put<3>(o, c1.poles()), put<4>(o, r1.poles()), put<3>(o, s1.poles()), put<4>(o, t1.poles());
        return o;
      });
    });
}
static void surface_cases() {
  for (int k = 0; k < 2; ++k)
    for (size_t n : {2, 3, 5}) {
      sym::add("values.surface" + S_(k) + ".n" + S_(n), [=] {
        auto s = skind(k);
        V u = params(n), v = params(n);
        std::rotate(v.begin(), v.begin() + 1, v.end());
        std::vector<P<2>> uv;
        for (size_t i = 0; i < n; ++i) uv.push_back({u[i], v[i]});
        any_order([&] {
          V o;
          put<3>(o, s->values(uv)), put<3>(o, s->values(uv, 1, 0)), put<3>(o, s->values(u, v)), put<3>(o, s->values(u, v, 0, 1));
          return o;
        }, 1e-6);
      }, n == 5 && k);
    }
  sym::add("arcder.surface", [] {
    double x = sym::real("x", -5, 5), z = sym::real("z", -5, 5);
    PV<3> p;
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i < 3; ++i) p.push_back({x + 3. * i, 4. * j + 0. * i, z + 0. * i});
    BSSurface<double, 3> s(p, clamped(2, {}), clamped(1, {}), 2, 1);
    std::vector<P<2>> uv{{0.25, 0.5}, {0.5, 0.25}, {1, 0}};
    any_order([&] {
      V o;
      put<3>(o, s.d_dmus(uv)), put<3>(o, s.d_dmvs(uv)), put<3>(o, s.d_dmu2s(uv)), put<3>(o, s.d_dmv2s(uv));
      return o;
    }, 1e-5);
  });
  sym::add("discretize.surface", [] {
    auto s = surf();
    any_order([&] { V o; put<3>(o, discretize(*s, 3, 2)); return o; });
  });
  sym::add("add_dimension.surface", [] {
    BSSurface<double, 2> s(poles<2>(12, 4), K2, clamped(2, {}), 2, 2);
    double z = sym::real("z", -3, 3);
    any_order([&] { V o; put<3>(o, add_dimension(s, z).poles()); return o; });
  });
  sym::add("offset_points", [] {
    double x = sym::real("x", -5, 5), z = sym::real("z", -5, 5);
    PV<3> p;
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i < 3; ++i) p.push_back({x + 3. * i, 4. * j + 0. * i, z + 0. * i});
    BSSurface<double, 3> s(p, clamped(2, {}), clamped(1, {}), 2, 1);
    BSSurface<double, 1> h(PV<1>{{1.}, {sym::real("h", -2, 2)}, {0.5}, {2.}}, clamped(1, {}), clamped(1, {}), 1, 1);
    BSSfunction<double> f(h);
    V u{0, 0.5, 1}, v{0.25, 0.75};
    any_order([&] { V o; put<3>(o, offset_points<double>(f, s, u, v)); return o; }, 1e-6);
  });
  sym::add("interpolate.surface", [] {
    PV<3> q;
    double z = sym::real("z", -3, 3);
    for (int j = 0; j < 3; ++j)
      for (int i = 0; i < 3; ++i) q.push_back({3. * i, 4. * j, conc(i, j)});
    for (auto &x : q) x[2] += z;
    any_order([&] { V o; auto s = interpolate<double, 3>(q, 3, 2, 2, KnotsCalcMode::CHORD_LENGTH); put<3>(o, s.poles()), put(o, s.knotsFlatsU()), put(o, s.knotsFlatsV()); return o; }, 1e-6);
  });
  sym::add("loft", [] {
    std::vector<BSCurve<double, 3>> cs;
    for (int j = 0; j < 3; ++j) {
      auto p = poles<3>(4, 2, "P" + S_(j));
      for (auto &x : p) x[2] += 10 * j;
      cs.emplace_back(p, K2, 2);
    }
    std::list<BSCurve<double, 3>> l(cs.begin(), cs.end());
    V v{0, 0.5, 1};
    any_order([&] {
      V o;
      put<3>(o, loft(cs, v, 2).poles()), put<3>(o, loft(l, v, 2).poles());
      std::list<BSCurveGeneral<double, 3, false> *> pl;
      for (auto &c : cs) pl.push_back(&c);
      for (auto &c : get_BSCurves_ptr_cpy(pl)) put<3>(o, c.poles());
      return o;
    }, 1e-6);
  });
  sym::add("aligned_poles", [] {
    std::vector<BSCurve<double, 2>> cs;
    double z = sym::real("z", -3, 3);
    for (int j = 0; j < 3; ++j) {
      auto p = concPoles<2>(4, j);
      for (auto &x : p) x[1] += 10 * j + z;
      cs.emplace_back(p, K2, 2);
    }
    any_order([&] {
      V o;
      auto [a, v] = [&] { auto r = get_v_aligned_poles<double, 2, false>(4, 3, cs); return std::pair{std::get<0>(r), std::get<1>(r)}; }();
      for (auto &x : a) put<2>(o, x);
      put(o, V(v.begin(), v.end()));
      return o;
    }, 1e-6);
  });
}
static void batch_cases() {
  for (size_t n : {2, 3, 5})
    for (int ap = 0; ap < 2; ++ap)
      sym::add(std::string(ap ? "approx" : "interpolate") + ".batch" + S_(n), [=] {
        std::vector<PV<2>> q(n);
        double x = sym::real("x", -4, 4), y = sym::real("y", -4, 4);
        for (size_t i = 0; i < n; ++i)
          for (size_t j = 0; j < 4; ++j) q[i].push_back({x + 2. * j + i, y + conc(j, i)});
        any_order([&] {
          V o;
          auto r = ap ? approx<double, 2>(q, 2, 3, KnotsCalcMode::CHORD_LENGTH, true) : interpolate<double, 2>(q, 2, KnotsCalcMode::CHORD_LENGTH);
          for (auto &c : r) put<2>(o, c.poles()), put(o, c.knotsFlats()), put(o, double(c.degree()));
          return o;
        }, 1e-5);
      });
  // one entity at a chosen place cannot be built: the caller gets the first failure
  sym::add("batch.failure", [] {
    sched::order = sym::choose("order", 0, 5);
    int a = sym::choose("bad", 0, 4), b = sym::choose("bad2", 0, 4);
    double x = sym::real("x", -4, 4);
    for (int gate = 0; gate < 2; ++gate) {
      std::vector<int> in{0, 1, 2, 3, 4};
      int got = -1;
      try {
        auto r = build_batch(in, [&](int i) { if (i == a || i == b) throw i; return x + i; }, gate ? 9 : 1);
      } catch (int e) { got = e; }
      sym::check(got == std::min(a, b), "first failure reported");
    }
    for (int gate = 0; gate < 2; ++gate) {
      std::vector<int> in{0, 1, 2, 3, 4};
      auto r = build_batch(in, [&](int i) { return x * i; }, gate ? 9 : 1);
      for (int i = 0; i < 5; ++i) sym::eq(r[i], x * i, "input order", 1e-9);
    }
  });
  sym::add("values.failure", [] {
    sched::order = sym::choose("order", 0, 5);
    auto c = kind(sym::choose("kind", 0, 2));
    double u = sym::real("u", -2, 3);
    auto [a, b] = c->bounds();
    V l{a, u, b};
    for (size_t gate : {1, 1000}) {
      parallel_min_size = gate;
      int out = 0;
      try { c->values(l); } catch (const OutOfBoundsCurveEval<double> &) { out = 1; } catch (...) { out = 2; }
      int one = 0;
      try { c->value(u); } catch (...) { one = 1; }
      sym::check(out == one, "failure of an element reaches the caller");
    }
    parallel_min_size = 1000;
  });
  sym::add("surface.values.failure", [] {
    sched::order = sym::choose("order", 0, 5);
    auto s = surf(1);
    double u = sym::real("u", -2, 3);
    std::vector<P<2>> l{{0, 0.5}, {u, 0.5}, {1, 0.25}};
    for (size_t gate : {1, 1000}) {
      parallel_min_size = gate;
      int out = 0, one = 0;
      try { s->values(l); } catch (...) { out = 1; }
      try { s->value(u, 0.5); } catch (...) { one = 1; }
      sym::check(out == one, "failure of an element reaches the caller");
    }
    parallel_min_size = 1000;
  });
}
static void search_cases() {
  sym::add("extrema.curve_lst", [] {
    double x = sym::real("x", -0.5, 0.5);
    BSCurve<double, 2> c(PV<2>{{0, 0}, {4, 0}}, V{0, 0, 1, 1}, 1);
    std::vector<std::shared_ptr<Curve<double, 2>>> l;
    for (double a : {1., 2., 3.}) l.push_back(std::make_shared<BSCurve<double, 2>>(PV<2>{{a + x, -1}, {a + x, 1}}, V{0, 0, 1, 1}, 1ul));
    any_order([&] {
      V o;
      for (auto &r : extrema_curve_curve_lst<double, 2>(c, l.begin(), l.end(), 1e-6)) put<3>(o, r);
      return o;
    }, 1e-4);
  });
  sym::add("extrema.curve_point", [] {
    double x = sym::real("x", -0.25, 0.25);
    BSCurve<double, 2> c(PV<2>{{x, 0}, {x + 1, 3}, {x + 4, 2}, {x + 5, 0}}, K2, 2);
    any_order([&] {
      V o;
      put<2>(o, extrema_curve_point<double, 2>(c, P<2>{x + 1, 4}, 1e-6));
      return o;
    }, 1e-4);
  });
  sym::add("extrema.surf_point", [] {
    double z = sym::real("z", -0.25, 0.25);
    BSSurface<double, 3> s(PV<3>{{0, 0, z}, {4, 0, z}, {0, 4, z}, {4, 4, z + 1}}, clamped(1, {}), clamped(1, {}), 1, 1);
    any_order([&] {
      V o;
      put<3>(o, extrema_surf_pnt<double, 3>(s, P<3>{1, 2, z + 3}, 1e-6));
      return o;
    }, 1e-4);
  });
  sym::add("project_points", [] {
    double z = sym::real("z", -0.25, 0.25);
    BSSurface<double, 3> s(PV<3>{{0, 0, z}, {4, 0, z}, {0, 4, z}, {4, 4, z + 1}}, clamped(1, {}), clamped(1, {}), 1, 1);
    any_order([&] {
      PV<3> q{{1, 2, z + 3}, {3, 1, z - 2}, {2, 2, z}};
      project_points_on_surface<double, 3>(s, q);
      V o;
      put<3>(o, q);
      return o;
    }, 1e-4);
  });
  sym::add("closest_curve", [] {
    double x = sym::real("x", -0.25, 0.25);
    std::vector<BSCurve<double, 2>> l;
    for (double a : {3., 1., 2.}) l.emplace_back(PV<2>{{a, x - 1}, {a, x + 1}}, V{0, 0, 1, 1}, 1);
    any_order([&] {
      auto it = closest_curve<double, 2>(P<2>{0, 0}, l.begin(), l.end());
      return V{double(it - l.begin())};
    });
  });
  sym::add("tfi", [] {
    size_t ni = 3, nj = 4;
    std::vector<std::vector<std::array<P<2>, 1>>> Xk(nj, std::vector<std::array<P<2>, 1>>(2)), Xe(ni, std::vector<std::array<P<2>, 1>>(2));
    std::vector<std::vector<std::array<std::array<P<2>, 1>, 1>>> X(2, std::vector<std::array<std::array<P<2>, 1>, 1>>(2));
    for (size_t i = 0; i < 2; ++i)
      for (size_t j = 0; j < nj; ++j)
        for (size_t d = 0; d < 2; ++d) Xk[j][i][0][d] = sym::real("K" + S_(j) + S_(i) + S_(d), -10, 10);
    for (size_t j = 0; j < 2; ++j)
      for (size_t i = 0; i < ni; ++i)
        for (size_t d = 0; d < 2; ++d) Xe[i][j][0][d] = sym::real("E" + S_(i) + S_(j) + S_(d), -10, 10);
    for (size_t i = 0; i < 2; ++i)
      for (size_t j = 0; j < 2; ++j) X[i][j][0][0] = Xk[j ? nj - 1 : 0][i][0];
    V k{0, 1};
    auto ksi = interpolate(k, V{0, double(ni - 1)}, 1), eth = interpolate(k, V{0, double(nj - 1)}, 1);
    any_order([&] {
      V o;
      put<2>(o, tfi_mesh_2d<double, 2, 1, 1, false>(Xk, Xe, X, k, k, BSCfunction<double>(ksi), BSCfunction<double>(eth)));
      return o;
    });
  });
  sym::add("tfi.surface", [] {
    double a = sym::real("tx", -10, 10);
    PV<2> x{{0, 0}, {2.5, 1}, {5.5, 2}, {1, 2}, {3, 2.5}, {6, 3.5}, {0.5, 3.5}, {3, 4}, {5.5, 5}};
    for (auto &p : x) p[0] += a;
    V k = clamped(2, {});
    auto s = std::make_shared<BSSurface<double, 2>>(x, k, k, 2ul, 2ul);
    V e{0, 1};
    any_order([&] {
      auto r = tfi_mesh_2d<double, 2, 1, 1, false>(std::static_pointer_cast<Surface<double, 2>>(s), e, e, 3, 3);
      V o;
      put<2>(o, std::get<0>(r));
      return o;
    }, 1e-5);
  });
  sym::add("tangents", [] {
    double a = sym::real("a", -10, 10);
    PV<2> q{{a, 0}, {a + 3, 4}, {a + 3, 8}, {a + 6, 12}, {a + 7, 12}};
    V u{0, 1, 1.5, 3, 4};
    any_order([&] {
      V o;
      put<2>(o, build_3pt_tg_vec(q, u)), put<2>(o, build_3pt_tg_dir(q, u));
      return o;
    }, 1e-5);
  });
  sym::add("abs_curv.adaptive", [] {
    double x = sym::real("x", -5, 5), y = sym::real("y", -5, 5);
    BSCurve<double, 2> c(PV<2>{{x, y}, {x + 1, y + 3}, {x + 4, y + 2}, {x + 5, y}}, K2, 2);
    any_order([&] {
      V o;
      auto [u, m] = abs_curv_adaptive_discretzation(c, 0., 1., 4, 2, 0.5);
      put(o, V(u.begin(), u.end())), put(o, m);
      return o;
    }, 1e-5);
  });
  sym::add("intersections", [] {
    double x = sym::real("x", -0.5, 0.5);
    BSCurve<double, 2> c(PV<2>{{x, 0}, {x + 4, 0}}, V{0, 0, 1, 1}, 1);
    std::vector<BSCurve<double, 2>> l;
    for (double a : {1., 2., 3.}) l.emplace_back(PV<2>{{a + x, -1}, {a + x, 1}}, V{0, 0, 1, 1}, 1);
    any_order([&] {
      V o;
      try { put(o, build_intersections<double, 2>(l.begin(), l.end(), c, 1e-6)); } catch (const std::invalid_argument &) { o.assign(3, -1.); }
      return o;
    }, 1e-4);
  });
  sym::add("loft.spine", [] {
    double x = sym::real("x", -0.5, 0.5);
    std::list<BSCurve<double, 3>> l;
    for (double z : {0., 3., 9.}) l.emplace_back(PV<3>{{x - 1, 0, z}, {x, 1 + z, z}, {x + 1, 0, z}}, clamped(2, {}), 2);
    BSCurve<double, 3> spine(PV<3>{{x, 0, 0}, {x, 0, 4}, {x, 0, 9}}, clamped(2, {}), 2);
    any_order([&] {
      V o;
      put<3>(o, loft(l, spine, 2).poles());
      return o;
    }, 1e-4);
  });
  sym::add("approx.transformed", [] {
    double x = sym::real("x", -5, 5);
    BSCurve<double, 2> c(PV<2>{{x, 0}, {x + 1, 3}, {x + 4, 2}}, clamped(2, {}), 2);
    any_order([&] {
      V o;
      std::function<P<2>(const P<2> &)> f = [](const P<2> &q) { return P<2>{q[0] + 1, 2 * q[1]}; };
      auto r = approx<double, 2>(c, f, 0.5, 1e-3, 2, 5);
      put<2>(o, r.poles());
      return o;
    }, 1e-4);
  });
  sym::add("mesh", [] {
    double x = sym::real("x", -0.5, 0.5), y = sym::real("y", -0.5, 0.5);
    any_order([&] {
      auto m = build({{0, 0}, {4, 0}, {4, 4}, {0, 4}, {2 + x, 2 + y}}, {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}});
      V o;
      put(o, getTriangle2dMeshAreaPar(m.f));
      std::vector<HF> v(m.f.begin(), m.f.end());
      put(o, getTriangle2dMeshAreaPar(v));
      put(o, double(getVerticesVectorFromFaces<double, 2>(v).size()));
      return o;
    }, 1e-6);
  });
}
void sym_register() {
  curve_cases();
  surface_cases();
  batch_cases();
  search_cases();
}
