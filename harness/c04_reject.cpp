// C04: out-of-domain evaluation and inconsistent definitions are rejected.
#include "common.h"
#include <gbs/bscanalysis.h>
#include <gbs/bssurf.h>
#include <gbs/curvetrimmed.h>
using namespace gbs;
static const double TOL = 1e-9;
// f must throw E when u is outside [a,b] (by more than TOL) and must not throw inside
template <class E, class F> static void domain(double u, double a, double b, F f, const std::string &l) {
  int r = 0;
  try { f(u); } catch (const E &) { r = 1; } catch (...) { r = 2; }
  if (u < a - TOL || u > b + TOL) sym::check(r == 1, l + ".outside", r ? "wrong exception type" : "no exception");
  else if (a <= u && u <= b) sym::check(r == 0, l + ".inside", "exception inside the domain");
}
using CE = OutOfBoundsCurveEval<double>;
using SU = OutOfBoundsSurfaceUEval<double>;
using SV = OutOfBoundsSurfaceVEval<double>;
template <class C> static void curveDomain(const C &c, double a, double b, int p, const std::string &l, double lo = -100, double hi = -100) {
  double u = lo < -99 ? sym::real("u", a - 3, b + 3) : sym::real("u", lo, hi);
  auto bd = c.bounds();
  sym::eq(bd[0], a, l + ".bounds0");
  sym::eq(bd[1], b, l + ".bounds1");
  for (int d = 0; d <= p + 1; ++d) domain<CE>(u, a, b, [&](double x) { c.value(x, d); }, l + ".value" + S_(d));
  domain<CE>(u, a, b, [&](double x) { c(x); }, l + ".op");
  domain<CE>(u, a, b, [&](double x) { std::decay_t<decltype(c(x))> K[3]; c.derivatives(x, 2, K); }, l + ".ders");
  domain<CE>(u, a, b, [&](double x) { c.values(V{a, x, b}); }, l + ".values");
  domain<CE>(u, a, b, [&](double x) { c.values(V{x}, 1); }, l + ".values1");
}
template <class S> static void surfDomain(const S &s, const std::array<double, 4> &bd) {
  double u = sym::real("u", bd[0] - 3, bd[1] + 3), v = sym::real("v", bd[2] - 3, bd[3] + 3);
  double um = 0.5 * (bd[0] + bd[1]), vm = 0.5 * (bd[2] + bd[3]);
  for (int a = 0; a <= 1; ++a)
    for (int b = 0; b <= 1; ++b) {
      domain<SU>(u, bd[0], bd[1], [&](double x) { s.value(x, vm, a, b); }, "U" + S_(a) + S_(b));
      domain<SV>(v, bd[2], bd[3], [&](double x) { s.value(um, x, a, b); }, "V" + S_(a) + S_(b));
    }
  domain<SU>(u, bd[0], bd[1], [&](double x) { std::decay_t<decltype(s(x, vm))> K[6]; s.derivatives(x, vm, 1, 2, K); }, "dersU");
  domain<SV>(v, bd[2], bd[3], [&](double x) { std::decay_t<decltype(s(um, x))> K[6]; s.derivatives(um, x, 1, 2, K); }, "dersV");
  domain<SU>(u, bd[0], bd[1], [&](double x) { s.values(std::vector<std::array<double, 2>>{{um, vm}, {x, vm}}); }, "valuesU");
  domain<SV>(v, bd[2], bd[3], [&](double x) { s.values(V{um}, V{x}); }, "valuesV");
  domain<OutOfBoundsSurfaceIsoU<double>>(u, bd[0], bd[1], [&](double x) { s.isoU(x); }, "isoU");
  domain<OutOfBoundsSurfaceIsoV<double>>(v, bd[2], bd[3], [&](double x) { s.isoV(x); }, "isoV");
  // both out: some out-of-bounds error
  int r = 0;
  try { s.value(u, v); } catch (const OutOfBoundsEval<double> &) { r = 1; } catch (...) { r = 2; }
  bool out = u < bd[0] - TOL || u > bd[1] + TOL || v < bd[2] - TOL || v > bd[3] + TOL;
  bool in = u >= bd[0] && u <= bd[1] && v >= bd[2] && v <= bd[3];
  if (out) sym::check(r == 1, "both.outside");
  if (in) sym::check(r == 0, "both.inside");
}
// the same refusals when the bulk calls take their parallel branch (threshold lowered):
// an exception must not be lost in, nor escape from, the parallel algorithm
struct ParallelBulk {
  size_t old = parallel_min_size;
  ParallelBulk() { parallel_min_size = 2; }
  ~ParallelBulk() { parallel_min_size = old; }
};
static void bulk_curve(int p, bool rat, int where) {
  ParallelBulk pb;
  V k = clamped(p, {{0.5, 1}});
  size_t n = k.size() - p - 1;
  std::unique_ptr<Curve<double, 2>> c;
  if (rat) c = std::make_unique<BSCurveRational<double, 2>>(concPoles<2>(n), k, concWeights(n), p);
  else c = std::make_unique<BSCurve<double, 2>>(concPoles<2>(n), k, p);
  double u = sym::real("u", -3, 4);
  auto at = [&](double x) { V r{0.25, 0.5, 0.75}; r.insert(r.begin() + where, x); return r; };
  domain<CE>(u, 0, 1, [&](double x) { c->values(at(x)); }, "values");
  domain<CE>(u, 0, 1, [&](double x) { c->values(at(x), 1); }, "values d1");
  domain<CE>(u, 0, 1, [&](double x) { make_points(*c, at(x)); }, "make_points");
  if (!rat && p > 1) domain<CE>(u, 0, 1, [&](double x) { c->d_dms(at(x)); }, "d_dms");
}
static void bulk_surf(bool rat, int where) {
  ParallelBulk pb;
  V ku = clamped(2, {{0.5, 1}}), kv = clamped(1, {}, -1, 1);
  std::unique_ptr<Surface<double, 2>> s;
  if (rat) s = std::make_unique<BSSurfaceRational<double, 2>>(homog<2>(concPoles<2>(8), concWeights(8)), ku, kv, 2, 1);
  else s = std::make_unique<BSSurface<double, 2>>(concPoles<2>(8), ku, kv, 2, 1);
  double u = sym::real("u", -3, 4), v = sym::real("v", -3, 4);
  auto uvs = [&](double x, double y) { std::vector<std::array<double, 2>> r{{0.25, 0}, {0.5, 0.5}, {0.75, -1}}; r.insert(r.begin() + where, {x, y}); return r; };
  auto at = [&](double x) { V r{0.25, 0.5, 0.75}; r.insert(r.begin() + where, x); return r; };
  domain<SU>(u, 0, 1, [&](double x) { s->values(uvs(x, 0.5)); }, "valuesU");
  domain<SV>(v, -1, 1, [&](double x) { s->values(uvs(0.5, x), 0, 1); }, "valuesV");
  domain<SU>(u, 0, 1, [&](double x) { s->values(at(x), at(0.5)); }, "valuesU.split");
  domain<SV>(v, -1, 1, [&](double x) { s->values(at(0.5), at(x)); }, "valuesV.split");
}
void sym_register() {
  for (int w = 0; w <= 3; ++w)
    for (int rat = 0; rat < 2; ++rat) {
      sym::add("bulk.parallel.curve.w" + S_(w) + (rat ? ".rat" : ""), [=] { bulk_curve(2, rat, w); });
      sym::add("bulk.parallel.surface.w" + S_(w) + (rat ? ".rat" : ""), [=] { bulk_surf(rat, w); });
    }
  for (int p = 1; p <= 4; ++p)
    for (auto &l : layouts(p)) {
      if (p == 4 && l.size() > 1) continue;
      std::string nm = "p" + S_(p) + "." + lname(l);
      sym::add("eval." + nm, [=] {
        V k = clamped(p, l);
        BSCurve<double, 2> c(concPoles<2>(k.size() - p - 1), k, p);
        curveDomain(c, 0, 1, p, "c");
      });
      sym::add("evalrat." + nm, [=] {
        V k = clamped(p, l, -0.5, 1.5);
        size_t n = k.size() - p - 1;
        BSCurveRational<double, 2> c(concPoles<2>(n), k, concWeights(n), p);
        curveDomain(c, -0.5, 1.5, p, "r");
      }, p > 2);
    }
  sym::add("eval.symdomain", [] {
    double a = sym::real("a", -2, 0), b = sym::real("b", 0.5, 3);
    V k = clamped(2, {{0.25, 1}}, a, b);
    BSCurve<double, 1> c(concPoles<1>(4), k, 2);
    double u = sym::real("u", -5, 6);
    domain<CE>(u, a, b, [&](double x) { c.value(x, 0); }, "v");
    domain<CE>(u, a, b, [&](double x) { c.value(x, 1); }, "v1");
    c.changeBounds(1., 2.);
    domain<CE>(u, 1, 2, [&](double x) { c.value(x, 0); }, "rebound");
    c.changeBounds(std::array<double, 2>{-1., 2.});
    domain<CE>(u, -1, 2, [&](double x) { c.value(x, 0); }, "rebound2");
  });
  sym::add("eval.trimmed", [] {
    double a = sym::real("a", 0, 0.4), b = sym::real("b", 0.6, 1);
    V k = clamped(2, {{0.5, 1}});
    auto c = std::make_shared<BSCurve<double, 2>>(concPoles<2>(4), k, 2);
    double u = sym::real("u", -1, 2);
    CurveTrimmed<double, 2> t(c, a, b);
    domain<CE>(u, a, b, [&](double x) { t.value(x, 0); }, "CurveTrimmed");
    domain<CE>(u, a, b, [&](double x) { t.value(x, 1); }, "CurveTrimmed1");
    auto c2 = *c;
    c2.trim(a, b, false);
    domain<CE>(u, a, b, [&](double x) { c2.value(x, 0); }, "soft");
    auto c3 = *c;
    c3.trim(a, b);
    domain<CE>(u, a, b, [&](double x) { c3.value(x, 0); }, "hard");
    domain<CE>(u, a, b, [&](double x) { c3.value(x, 1); }, "hard1");
  });
  // every evaluator of either kind after each history of reshaping operations
  for (int rat = 0; rat <= 1; ++rat)
    for (int h = 0; h <= 6; ++h)
      sym::add("history.h" + S_(h) + (rat ? ".rat" : ""), [=] {
        V k = clamped(2, {{0.5, 1}});
        double a = sym::real("a", 0.125, 0.375), b = sym::real("b", 0.625, 0.875);
        auto run = [&](auto c) {
          using C = decltype(c);
          c.trim(a, b, h == 6);
          if (h == 0 || h == 6) curveDomain(c, a, b, 2, "trim", -2, 3);
          if (h == 1) c.reverse(), curveDomain(c, a, b, 2, "reverse", -2, 3);
          if (h == 2) c.changeBounds(1., 3.), curveDomain(c, 1, 3, 2, "rebound");
          if (h == 3) c.insertKnot(0.5), curveDomain(c, a, b, 2, "insert", -2, 3);
          if (h == 4) c.increaseDegree(), curveDomain(c, a, b, 3, "elevate", -2, 3);
          if (h == 5) { C d(c); curveDomain(d, a, b, 2, "copy", -2, 3); C e = c.reversed(); curveDomain(e, a, b, 2, "reversed", -2, 3); }
        };
        if (rat) run(BSCurveRational<double, 1>(concPoles<1>(4), k, concWeights(4), 2));
        else run(BSCurve<double, 1>(concPoles<1>(4), k, 2));
      });
  sym::add("surf.history", [=] {
    int h = sym::choose("history", 0, 4);
    bool rat = sym::choose("rational", 0, 1);
    V ku = clamped(2, {{0.5, 1}}), kv = clamped(1, {}, 2, 3);
    std::array<double, 4> bd{0, 1, 2, 3};
    auto run = [&](auto s) {
      if (h == 0) s.trimU(0.25, 0.75), bd[0] = 0.25, bd[1] = 0.75;
      if (h == 1) s.trimV(2.125, 2.5), bd[2] = 2.125, bd[3] = 2.5;
      if (h == 2) s.reverseU(), s.changeVBounds(5, 6), bd[2] = 5, bd[3] = 6;
      if (h == 3) s.invertUV(), bd = {2, 3, 0, 1};
      if (h == 4) s.increaseDegreeU(), s.insertKnotV(2.5), s.reverseV();
      surfDomain(s, bd);
    };
    if (rat) run(BSSurfaceRational<double, 1>(concPoles<1>(8), concWeights(8), ku, kv, 2, 1));
    else run(BSSurface<double, 1>(concPoles<1>(8), ku, kv, 2, 1));
  });
  sym::add("eval.knots", [] { // after copyKnots the domain is that of the new knots
    V k = clamped(2, {{0.5, 1}}), k2 = clamped(2, {{2.5, 1}}, 1, 4);
    BSCurve<double, 1> c(concPoles<1>(4), k, 2);
    c.copyKnots(k2);
    curveDomain(c, 1, 4, 2, "k");
  });
  sym::add("eval.func", [] {
    BSCfunction<double> f(V{1, 2, 4, 3}, clamped(2, {{0.5, 1}}), 2);
    double u = sym::real("u", -2, 3);
    domain<CE>(u, 0, 1, [&](double x) { f(x); }, "f");
    domain<CE>(u, 0, 1, [&](double x) { f(x, 1); }, "f1");
  });
  for (int p = 1; p <= 3; ++p)
    for (int q = 1; q <= 2; ++q)
      sym::add("surf.p" + S_(p) + "q" + S_(q), [=] {
        V ku = clamped(p, {{0.5, 1}}), kv = clamped(q, {{2.5, q}}, 2, 3);
        size_t n = (ku.size() - p - 1) * (kv.size() - q - 1);
        BSSurface<double, 2> s(concPoles<2>(n), ku, kv, p, q);
        surfDomain(s, {0, 1, 2, 3});
      });
  sym::add("surfrat", [=] {
    V ku = clamped(2, {{0.5, 1}}, -1, 1), kv = clamped(1, {}, 2, 3);
    BSSurfaceRational<double, 2> s(concPoles<2>(8), concWeights(8), ku, kv, 2, 1);
    surfDomain(s, {-1, 1, 2, 3});
  });
  sym::add("surf.rebound", [=] {
    V ku = clamped(2, {{0.5, 1}}), kv = clamped(1, {});
    BSSurface<double, 1> s(concPoles<1>(8), ku, kv, 2, 1);
    s.changeUBounds(1, 2);
    s.changeVBounds(-3, -1);
    surfDomain(s, {1, 2, -3, -1});
  });
  sym::add("surf.trim", [=] {
    V ku = clamped(2, {{0.5, 1}}), kv = clamped(1, {});
    BSSurface<double, 1> s(concPoles<1>(8), ku, kv, 2, 1);
    s.trimU(0.25, 0.75);
    s.trimV(0.125, 0.5);
    surfDomain(s, {0.25, 0.75, 0.125, 0.5});
  });
  // ---- construction: ordering of knots, all orders of symbolic values
  for (int p = 1; p <= 3; ++p)
    sym::add("order.p" + S_(p), [=] {
      V k(p + 1, 0.);
      for (int i = 0; i < 3; ++i) k.push_back(sym::real("k" + S_(i), -1, 2));
      for (int i = 0; i <= p; ++i) k.push_back(1.);
      auto poles = concPoles<1>(k.size() - p - 1);
      bool sorted = true, bad = false;
      for (size_t i = 0; i + 1 < k.size(); ++i) {
        if (k[i + 1] < k[i]) sorted = false;
        if (k[i + 1] < k[i] - 1e-6) bad = true;
      }
      int r = 0;
      try { BSCurve<double, 1> c(poles, k, p); } catch (const std::invalid_argument &) { r = 1; } catch (...) { r = 2; }
      if (bad) sym::check(r != 0, "unordered accepted");
      if (sorted) sym::check(r == 0, "ordered refused");
      r = 0;
      try { BSCurveRational<double, 1> c(poles, k, concWeights(poles.size()), p); } catch (...) { r = 1; }
      if (bad) sym::check(r != 0, "rat.unordered accepted");
      if (sorted) sym::check(r == 0, "rat.ordered refused");
    });
  sym::add("order.mults", [=] {
    V k{0., sym::real("k0", -1, 2), sym::real("k1", -1, 2), 1.};
    std::vector<size_t> m{3, 1, 2, 3};
    auto poles = concPoles<1>(6);
    bool bad = false, ok = true;
    for (size_t i = 0; i + 1 < k.size(); ++i) {
      if (k[i + 1] < k[i] - 1e-6) bad = true;
      if (!(k[i + 1] > k[i] + 1e-6)) ok = false;
    }
    int r = 0;
    try { BSCurve<double, 1> c(poles, k, m, 2); } catch (...) { r = 1; }
    if (bad) sym::check(r != 0, "unordered accepted");
    if (ok) sym::check(r == 0, "ordered refused");
  });
  sym::add("order.surf", [=] {
    V ku{0, 0, 0, sym::real("a", -1, 2), 1, 1, 1}, kv{0, 0, sym::real("b", -1, 2), sym::real("c", -1, 2), 1, 1};
    bool bad = false, ok = true;
    for (auto k : {ku, kv})
      for (size_t i = 0; i + 1 < k.size(); ++i) {
        if (k[i + 1] < k[i] - 1e-6) bad = true;
        if (k[i + 1] < k[i]) ok = false;
      }
    int r = 0;
    try { BSSurface<double, 1> s(concPoles<1>(16), ku, kv, 2, 1); } catch (...) { r = 1; }
    if (bad) sym::check(r != 0, "unordered accepted");
    if (ok) sym::check(r == 0, "ordered refused");
    r = 0;
    try { BSSurfaceRational<double, 1> s(concPoles<1>(16), concWeights(16), ku, kv, 2, 1); } catch (...) { r = 1; }
    if (bad) sym::check(r != 0, "rat.unordered accepted");
    if (ok) sym::check(r == 0, "rat.ordered refused");
  });
  // ---- construction: counts (integer choices are explored exhaustively)
  sym::add("counts.curve", [=] {
    int p = sym::choose("p", 1, 4), np = sym::choose("np", 0, 7), nk = sym::choose("nk", 0, 12);
    V k(nk);
    for (int i = 0; i < nk; ++i) k[i] = i <= p ? 0. : (i >= nk - p - 1 ? 8. : 0.5 * (i - p));
    bool ok = nk == np + p + 1 && np >= p + 1;
    int r = 0;
    try { BSCurve<double, 2> c(concPoles<2>(np), k, p); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, ok ? "consistent refused" : "inconsistent accepted");
    r = 0;
    try { BSCurveRational<double, 2> c(concPoles<2>(np), k, concWeights(np), p); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, ok ? "rat.consistent refused" : "rat.inconsistent accepted");
    r = 0;
    try { BSCurveRational<double, 2> c(concPoles<3>(np), k, p); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, ok ? "hom.consistent refused" : "hom.inconsistent accepted");
  });
  sym::add("counts.curve.mults", [=] {
    int p = sym::choose("p", 1, 3), np = sym::choose("np", 0, 7), m = sym::choose("m", 1, 4), e = sym::choose("e", 1, 4), nm = sym::choose("nm", 0, 4);
    V k{0, 0.5, 1};
    std::vector<size_t> ms;
    for (int i = 0; i < nm; ++i) ms.push_back(i == 1 ? m : e);
    bool ok = nm == 3 && 2 * e + m == np + p + 1 && np >= p + 1;
    int r = 0;
    try { BSCurve<double, 2> c(concPoles<2>(np), k, ms, p); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, ok ? "consistent refused" : "inconsistent accepted");
  });
  sym::add("counts.weights", [=] {
    int nw = sym::choose("nw", 0, 6);
    V k = clamped(2, {{0.5, 1}});
    bool ok = nw == 4;
    int r = 0;
    try { BSCurveRational<double, 2> c(concPoles<2>(4), k, concWeights(nw), 2); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, "curve.flat");
    r = 0;
    try { BSCurveRational<double, 2> c(concPoles<2>(4), V{0, 0.5, 1}, std::vector<size_t>{3, 1, 3}, concWeights(nw), 2); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, "curve.mult");
  });
  sym::add("counts.weights.general", [=] {
    int nw = sym::choose("nw", 0, 6);
    bool ok = nw == 4;
    int r = 0;
    try { BSCurveRational<double, 2> c(concPoles<2>(4), concWeights(nw), V{0, 0.5, 1}, std::vector<size_t>{3, 1, 3}, 2); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, "curve.wfirst");
  });
  sym::add("counts.weights.surf", [=] {
    int nw = sym::choose("nw", 0, 8);
    bool ok = nw == 6;
    int r = 0;
    try { BSSurfaceRational<double, 2> s(concPoles<2>(6), concWeights(nw), clamped(2, {}), clamped(1, {}), 2, 1); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, "surf.flat");
    r = 0;
    try { BSSurfaceRational<double, 2> s(concPoles<2>(6), concWeights(nw), V{0, 1}, V{0, 1}, std::vector<size_t>{3, 3}, std::vector<size_t>{2, 2}, 2, 1); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, "surf.mult");
  });
  sym::add("counts.surf", [=] {
    int p = sym::choose("p", 1, 3), q = sym::choose("q", 1, 2), nku = sym::choose("nku", 0, 9), nkv = sym::choose("nkv", 0, 7), np = sym::choose("np", 0, 16);
    auto mk = [](int n, int p) {
      V k(n);
      for (int i = 0; i < n; ++i) k[i] = i <= p ? 0. : (i >= n - p - 1 ? 8. : 0.5 * (i - p));
      return k;
    };
    int nu = nku - p - 1, nv = nkv - q - 1;
    bool ok = nu >= p + 1 && nv >= q + 1 && nu * nv == np;
    int r = 0;
    try { BSSurface<double, 1> s(concPoles<1>(np), mk(nku, p), mk(nkv, q), p, q); } catch (const std::exception &) { r = 1; }
    sym::check((r == 0) == ok, ok ? "consistent refused" : "inconsistent accepted");
  });
  // ---- replacement and access
  sym::add("replace.curve", [=] {
    int n = sym::choose("n", 0, 8);
    V k = clamped(2, {{0.5, 1}});
    BSCurve<double, 2> c(concPoles<2>(4), k, 2);
    auto np = concPoles<2>(n, 3);
    int r = 0;
    try { c.copyPoles(np); } catch (const std::length_error &) { r = 1; }
    sym::check((r == 0) == (n == 4), "copyPoles");
    r = 0;
    try { auto cp = np; c.movePoles(cp); } catch (const std::length_error &) { r = 1; }
    sym::check((r == 0) == (n == 4), "movePoles");
    auto want = n == 4 ? np : concPoles<2>(4);
    for (int i = 0; i < 4; ++i) eqp<2>(c.poles()[i], want[i], "poles");
    int nk = sym::choose("nk", 1, 9);
    V k2(nk);
    for (int i = 0; i < nk; ++i) k2[i] = i < 3 ? 0 : (i < 4 ? 0.75 : 2.);
    r = 0;
    try { c.copyKnots(k2); } catch (const std::length_error &) { r = 1; }
    sym::check((r == 0) == (nk == 7), "copyKnots");
    sym::eqv(c.knotsFlats(), nk == 7 ? k2 : k, "knots");
    int id = sym::choose("id", 0, 8);
    r = 0;
    try { const auto &cc = c; eqp<2>(cc.pole(id), want[id], "pole"); } catch (const std::out_of_range &) { r = 1; }
    sym::check((r == 0) == (id < 4), "pole.range");
    r = 0;
    try { c.pole(id) = P<2>{7, 8}; } catch (const std::out_of_range &) { r = 1; }
    sym::check((r == 0) == (id < 4), "pole.range.mut");
    if (id < 4) eqp<2>(c.poles()[id], P<2>{7, 8}, "pole.set");
  });
  sym::add("replace.surf", [=] {
    int n = sym::choose("n", 0, 9);
    BSSurface<double, 2> c(concPoles<2>(8), clamped(2, {{0.5, 1}}), clamped(1, {}), 2, 1);
    auto np = concPoles<2>(n, 3);
    int r = 0;
    try { c.copyPoles(np); } catch (const std::length_error &) { r = 1; }
    sym::check((r == 0) == (n == 8), "copyPoles");
    r = 0;
    try { auto cp = np; c.movePoles(cp); } catch (const std::length_error &) { r = 1; }
    sym::check((r == 0) == (n == 8), "movePoles");
    auto want = n == 8 ? np : concPoles<2>(8);
    for (int i = 0; i < 8; ++i) eqp<2>(c.poles()[i], want[i], "poles");
  });
  sym::add("pole.surf", [=] { // documented: i is the U index, j the V index
    int i = sym::choose("i", 0, 6), j = sym::choose("j", 0, 6);
    auto poles = symPoles<2>("P", 8); // 4 x 2
    BSSurface<double, 2> s(poles, clamped(2, {{0.5, 1}}), clamped(1, {}), 2, 1);
    const auto &cs = s;
    bool ok = i < 4 && j < 2;
    int r = 0;
    try { auto x = cs.pole(i, j); if (ok) eqp<2>(x, poles[i + 4 * j], "const"); } catch (const std::out_of_range &) { r = 1; }
    sym::check((r == 0) == ok, "const.range");
    r = 0;
    try { s.pole(i, j) = P<2>{1, 2}; if (ok) eqp<2>(s.polesU(j)[i], P<2>{1, 2}, "set"); } catch (const std::out_of_range &) { r = 1; }
    sym::check((r == 0) == ok, "set.range");
  });
}
