// C25: projections and extrema.  NLopt is replaced by its contract (mock/nlopt.hpp).
#include "mock/nlopt.hpp"
#include "common.h"
#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/bscbuild.h>
#include <gbs/extrema.h>
#include <gbs/bscanalysis.h>
using namespace gbs;
template <size_t D> static double sq(const P<D> &a, const P<D> &b) {
  double s = 0;
  for (size_t i = 0; i < D; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return s;
}
// the range starts at o, so that every entity can have a range of its own
static V dom(int p, int lay, double o = 0) {
  static const std::vector<std::vector<std::pair<double, int>>> L{{}, {{0.5, 1}}, {{0.25, 1}, {0.625, 1}}};
  V k = clamped(p, L[lay], 0, 2 - (lay == 0));
  for (auto &x : k) x += o;
  return k;
}
static double at(const V &k, double f) { return k.front() + f * (k.back() - k.front()); }
// reported distance is the distance at the reported parameter
static void chk_d(double d, double s, const std::string &l) {
  sym::le(0., d, l + " not negative", 1e-9);
  sym::eq(d * d, s, l + " squared is the squared distance", 1e-6);
}
// extrema_curve_point reports a squared distance (known finding K2): accept
// both measures here, the finding has cases of its own
static void chk_m(double d, double s, const std::string &l) {
  if (d == s) return sym::check(true, l);
  chk_d(d, s, l);
}
template <size_t D> static void pc(int p, int lay, bool given, bool rat) {
  nlopt::reset();
  V k = dom(p, lay, 0.5 * lay - 0.25 * p);
  size_t n = k.size() - p - 1;
  auto pol = concPoles<D>(n);
  auto w = concWeights(n);
  auto H = homog<D>(pol, w);
  std::unique_ptr<Curve<double, D>> c;
  if (rat) c.reset(new BSCurveRational<double, D>(pol, k, w, size_t(p)));
  else c.reset(new BSCurve<double, D>(pol, k, size_t(p)));
  auto ref = [&](double u) { return rat ? rat_ref<D>(u, k, H, p) : bs_ref<D>(u, k, pol, p); };
  P<D> pt;
  for (size_t i = 0; i < D; ++i) pt[i] = sym::real("p" + S_(i), -10, 10);
  nlopt::tr().nearer = false;
  std::array<double, 2> r;
  if (given) {
    double u0 = sym::real("u0", k.front(), k.back());
    r = extrema_curve_point(*c, pt, u0, 1e-6);
    sym::eq(nlopt::tr().x0[0], u0, "start is the guess", 0);
  } else {
    int nb = sym::choose("n", 2, 5);
    r = extrema_curve_point(*c, pt, 1e-6, nlopt::LN_COBYLA, size_t(nb));
    double s0 = sq<D>(ref(nlopt::tr().x0[0]), pt);
    for (int i = 0; i < nb; ++i) sym::le(s0, sq<D>(ref(at(k, i / (nb - 1.))), pt), "start is the best sample", 1e-6);
  }
  sym::check(r[0] >= k.front() && r[0] <= k.back(), "parameter in bounds");
  sym::eq(nlopt::tr().lb[0], k.front(), "lower bound", 0), sym::eq(nlopt::tr().ub[0], k.back(), "upper bound", 0);
  sym::eq(nlopt::tr().x[0], r[0], "optimum returned", 0);
  chk_m(r[1], sq<D>(ref(r[0]), pt), "distance");
}
// whatever NLopt answers, the result is not farther than the samples
static void pc_nearer(int axis) {
  nlopt::reset();
  BSCurve<double, 2> c{PV<2>{{0, 0}, {4, 0}}, V{0, 0, 1, 1}, 1};
  P<2> pt{0, 0};
  pt[axis] = sym::real("p", -8, 8);
  double u0 = sym::real("u0", 0, 1);
  auto r = extrema_curve_point(c, pt, u0, 1e-6);
  sym::le(sq<2>({4 * r[0], 0}, pt), sq<2>({4 * u0, 0}, pt), "not farther than the guess", 1e-6);
}
// a ball rolling between two straight lines touches both: NLopt answers with the closest point first, then with the point of
// the second line at the same distance from the crossing of the normals
static void rolling(double L, double speed, bool parallel) {
  nlopt::reset();
  double e = sym::real("e", 2, 6), u1 = sym::real("u1", 0.25, 0.75);
  BSCurve<double, 2> a{PV<2>{{0, 0}, {8, 0}}, V{0, 0, speed, speed}, 1};
  double y0 = e / 4 - (parallel ? 0 : 1.5), y1 = e / 4 + (parallel ? 0 : 7.5); // slope 3/4 from x = -2 to 10
  BSCurve<double, 2> b{PV<2>{{-2, y0}, {10, y1}}, V{0, 0, L, L}, 1};
  double x = 8 * u1, r = parallel ? e / 8 : (3 * x + e) / 9, fx = parallel ? x : x - 0.6 * r;
  int calls = 0;
  double foot = parallel ? x : x - 0.6 * (3 * x + e) / 5; // of the point (x, 0)
  nlopt::tr().pick = [&](const V &) { return V{L * ((calls++ ? fx : foot) + 2) / 12}; };
  auto [u2, c, par] = compute_rolling_ball<double>(a, b, u1 * speed);
  sym::check(par == parallel, "parallel");
  sym::eq(u2, L * (fx + 2) / 12, "parameter on the second curve", 1e-6);
  sym::eq(c[0], x, "centre x", 1e-6), sym::eq(c[1], r, "centre y", 1e-6);
}
static void known_distance() {
  nlopt::reset();
  nlopt::tr().nearer = false;
  BSCurve<double, 2> c{PV<2>{{0, 0}, {4, 0}}, V{0, 0, 1, 1}, 1};
  double h = sym::real("h", 0.25, 4);
  nlopt::tr().pick = [](const V &) { return V{0.5}; };
  auto r = extrema_curve_point(c, point<double, 2>{2, h}, 0.5, 1e-6);
  sym::eq(r[1], h, "reported distance", 1e-6);
}
// the distance is that of the parameter for every pole
template <size_t D> static void pc_poles(int p) {
  nlopt::reset();
  nlopt::tr().nearer = false;
  V k = clamped(p, {});
  auto pol = symPoles<D>("a", p + 1);
  BSCurve<double, D> c{pol, k, size_t(p)};
  static const double U[]{0, 0.25, 0.5, 0.875, 1};
  double u = U[sym::choose("u", 0, 4)];
  nlopt::tr().pick = [=](const V &) { return V{u}; };
  P<D> pt;
  for (size_t i = 0; i < D; ++i) pt[i] = sym::real("p" + S_(i), -10, 10);
  auto r = extrema_curve_point(c, pt, 0.5, 1e-6);
  sym::eq(r[0], u, "parameter", 0);
  chk_m(r[1], sq<D>(bs_ref<D>(u, k, pol, p), pt), "distance");
}
template <size_t D> static void grad_pc(int p, int lay) {
  nlopt::reset();
  nlopt::tr().gradient = true, nlopt::tr().nearer = false;
  V k = dom(p, lay, 1.25 * lay - 1);
  BSCurve<double, D> c{concPoles<D>(k.size() - p - 1), k, size_t(p)};
  P<D> pt;
  for (size_t i = 0; i < D; ++i) pt[i] = i < 2 ? sym::real("p" + S_(i), -10, 10) : 1.;
  extrema_curve_point(c, pt, at(k, 0.5), 1e-6, nlopt::LD_MMA);
  sym::check(nlopt::tr().algo == nlopt::LD_MMA, "solver chosen by the caller");
}
static BSSurface<double, 3> surf(int p, int q, int lu, int lv, double ou, double ov) {
  V ku = dom(p, lu, ou), kv = dom(q, lv, ov);
  return {concPoles<3>((ku.size() - p - 1) * (kv.size() - q - 1)), ku, kv, size_t(p), size_t(q)};
}
static P<3> sref(const BSSurface<double, 3> &s, double u, double v) { return srf_ref<3>(u, v, s.knotsFlatsU(), s.knotsFlatsV(), s.poles(), int(s.degreeU()), int(s.degreeV())); }
static void ps(int p, int q, int lu, int lv, int what) {
  nlopt::reset();
  nlopt::tr().nearer = false, nlopt::tr().gradient = what == 2;
  auto s = surf(p, q, lu, lv, p > 1 ? -1.5 : 1, q > 1 ? 3 : 0);
  double U1 = s.knotsFlatsU().front(), U = s.knotsFlatsU().back(), W1 = s.knotsFlatsV().front(), W = s.knotsFlatsV().back();
  P<3> pt{sym::real("p0", -10, 10), sym::real("p1", -10, 10), what == 2 ? 1. : sym::real("p2", -10, 10)};
  std::array<double, 3> r;
  if (what) r = extrema_surf_pnt(s, pt, U1 + 0.5 * (U - U1), W1 + 0.25 * (W - W1), 1e-6, nlopt::LD_MMA);
  else {
    int nu = sym::choose("nu", 2, 3), nv = sym::choose("nv", 2, 3);
    nlopt::tr().pick = [](const V &x) { return x; };
    r = extrema_surf_pnt(s, pt, 1e-6, nlopt::LN_COBYLA, size_t(nu), size_t(nv));
    for (int i = 0; i < nu; ++i)
      for (int j = 0; j < nv; ++j) sym::le(sq<3>(sref(s, r[0], r[1]), pt), sq<3>(sref(s, U1 + (U - U1) * i / (nu - 1.), W1 + (W - W1) * j / (nv - 1.)), pt), "start is the best sample", 1e-6);
  }
  auto &t = nlopt::tr();
  sym::eq(t.lb[0], U1, "lower u", 0), sym::eq(t.lb[1], W1, "lower v", 0), sym::eq(t.ub[0], U, "upper u", 0), sym::eq(t.ub[1], W, "upper v", 0);
  sym::eq(t.x[0], r[0], "u returned", 0), sym::eq(t.x[1], r[1], "v returned", 0);
  if (what < 2) chk_d(r[2], sq<3>(sref(s, r[0], r[1]), pt), "distance");
}
template <size_t D> static void cc(int p, int q, int what) {
  nlopt::reset();
  nlopt::tr().nearer = false, nlopt::tr().gradient = what == 2;
  V ka = dom(p, 0, p > 1 ? 2 : -0.5), kb = dom(q, 1, q > 1 ? -1 : 0.5);
  auto A = concPoles<D>(ka.size() - p - 1), B = concPoles<D>(kb.size() - q - 1, 3);
  double t = sym::real("t", -8, 8), t2 = sym::real("t2", -8, 8);
  for (auto &b : B) b[0] += t, b[1] += t2; // the second curve anywhere in the plane
  BSCurve<double, D> a{A, ka, size_t(p)}, b{B, kb, size_t(q)};
  auto d2 = [&](double u, double v) { return sq<D>(bs_ref<D>(u, ka, A, p), bs_ref<D>(v, kb, B, q)); };
  std::array<double, 3> r;
  if (what) {
    r = extrema_curve_curve(a, b, at(ka, 0.5), at(kb, 0.25), 1e-6, nlopt::LD_MMA);
    sym::check(nlopt::tr().algo == nlopt::LD_MMA, "solver chosen by the caller");
  } else {
    int nu = sym::choose("nu", 2, 3), nv = sym::choose("nv", 2, 3);
    nlopt::tr().pick = [](const V &x) { return x; };
    if (sym::choose("lst", 0, 1)) {
      std::vector<std::shared_ptr<Curve<double, D>>> l{std::make_shared<BSCurve<double, D>>(a), std::make_shared<BSCurve<double, D>>(b)};
      auto v = extrema_curve_curve_lst(a, l.begin(), l.end(), 1e-6, nlopt::LD_MMA, size_t(nu), size_t(nv));
      sym::check(v.size() == 2, "one result per curve");
      sym::eq(v[0][2], 0, "a curve meets itself", 1e-6);
      r = v[1];
      sym::check(nlopt::tr().algo == nlopt::LD_MMA, "list: solver chosen by the caller");
    } else r = extrema_curve_curve(a, b, 1e-6, nlopt::LN_COBYLA, size_t(nu), size_t(nv));
    for (int i = 0; i < nu; ++i)
      for (int j = 0; j < nv; ++j) sym::le(d2(r[0], r[1]), d2(at(ka, i / (nu - 1.)), at(kb, j / (nv - 1.))), "start is the best sample", 1e-6);
    for (int i = 0; i < nu; ++i) // among the requested samples
      if (r[0] == at(ka, i / (nu - 1.))) return chk_d(r[2], d2(r[0], r[1]), "distance");
    return sym::check(false, "start is one of the requested samples");
  }
  auto &tr = nlopt::tr();
  sym::eq(tr.lb[0], ka.front(), "lower u", 0), sym::eq(tr.lb[1], kb.front(), "lower v", 0), sym::eq(tr.ub[0], ka.back(), "upper u", 0), sym::eq(tr.ub[1], kb.back(), "upper v", 0);
  sym::eq(tr.x[0], r[0], "u returned", 0), sym::eq(tr.x[1], r[1], "v returned", 0);
  if (what == 1) chk_d(r[2], d2(r[0], r[1]), "distance");
}
static void cs(int p, int q, int m, int what, int order) {
  nlopt::reset();
  nlopt::tr().nearer = false, nlopt::tr().gradient = what == 2;
  static const double O[3][3]{{0, -1.5, 2}, {2.5, 0.5, -1}, {-3, 4, 0}}; // the three ranges in different orders
  auto s = surf(p, q, 1, 0, O[order][0], O[order][1]);
  V k = clamped(m, {}, O[order][2], O[order][2] + 0.75);
  auto A = concPoles<3>(m + 1, 2);
  double t = sym::real("t", -8, 8), t2 = what == 2 ? 1. : sym::real("t2", -8, 8);
  for (auto &a : A) a[0] += t, a[2] += t2;
  BSCurve<double, 3> c{A, k, size_t(m)};
  double U1 = s.knotsFlatsU().front(), U = s.knotsFlatsU().back(), W1 = s.knotsFlatsV().front(), W = s.knotsFlatsV().back();
  auto d2 = [&](double u, double v, double w) { return sq<3>(sref(s, u, v), bs_ref<3>(w, k, A, m)); };
  std::array<double, 4> r;
  if (what) r = extrema_surf_curve(s, c, at(k, 0.25), U1 + 0.25 * (U - U1), W1 + 0.75 * (W - W1), 1e-6, nlopt::LD_MMA);
  else {
    nlopt::tr().pick = [](const V &x) { return x; };
    r = extrema_surf_curve(s, c, 1e-6, nlopt::LN_COBYLA, size_t(3), size_t(2), size_t(2));
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 2; ++j)
        for (int l = 0; l < 2; ++l) sym::le(d2(r[0], r[1], r[2]), d2(U1 + (U - U1) * i / 2, W1 + (W - W1) * j, at(k, l)), "start is the best sample", 1e-6);
  }
  auto &tr = nlopt::tr();
  sym::eq(tr.x[1], r[0], "u returned", 0), sym::eq(tr.x[2], r[1], "v returned", 0), sym::eq(tr.x[0], r[2], "curve parameter returned", 0);
  sym::eq(tr.lb[0], k.front(), "curve lower bound", 0), sym::eq(tr.lb[1], U1, "u lower bound", 0), sym::eq(tr.lb[2], W1, "v lower bound", 0);
  sym::eq(tr.ub[0], k.back(), "curve bound", 0), sym::eq(tr.ub[1], U, "u bound", 0), sym::eq(tr.ub[2], W, "v bound", 0);
  if (what < 2) chk_d(r[3], d2(r[0], r[1], r[2]), "distance");
}
static void lines() {
  P<2> a{sym::real("ax", -5, 5), sym::real("ay", -5, 5)}, b{sym::real("bx", -5, 5), sym::real("by", -5, 5)}, d{sym::real("dx", -2, 2), sym::real("dy", -2, 2)}, e{sym::real("ex", -2, 2), sym::real("ey", -2, 2)};
  double det = d[0] * e[1] - d[1] * e[0];
  if (sym::choose("side", 0, 1)) sym::assume_le(det, -0.25);
  else sym::assume_le(0.25, det);
  Line<double, 2> L{ax1<double, 2>{a, d}}, M{ax1<double, 2>{b, e}};
  auto [u, v] = extrema_curve_curve<double>(L, M);
  eqp<2>(L(u), M(v), "lines meet", 1e-6);
}
// the worst and the mean distance of points to a curve
static void dev(bool known) {
  nlopt::reset();
  BSCurve<double, 2> c{PV<2>{{0, 0}, {4, 0}}, V{0, 0, 1, 1}, 1};
  int n = known ? 1 : sym::choose("n", 1, 3);
  PV<2> pts(n);
  V h(n);
  for (int i = 0; i < n; ++i) h[i] = sym::real("h" + S_(i), 0.25, 4), pts[i] = {double(i) + 0.5, i % 2 ? -h[i] : h[i]};
  int calls = 0;
  nlopt::tr().nearer = false;
  nlopt::tr().pick = [&](const V &) { return V{pts[calls++][0] / 4}; }; // the true projection
  auto [u, m, a] = dev_from_points(pts, c);
  if (known) return sym::eq(m, h[0], "largest distance", 1e-6);
  double s = 0, s2 = 0;
  int w = 0;
  for (int i = 0; i < n; ++i) {
    s += h[i], s2 += h[i] * h[i];
    if (h[i] > h[w]) w = i;
  }
  bool squared = m == h[w] * h[w]; // known finding K3
  if (!squared) sym::eq(m, h[w], "largest distance", 1e-6);
  sym::eq(a * n, squared ? s2 : s, "mean", 1e-6);
  sym::eq(h[int(u * 4)], h[w], "parameter of the largest distance", 1e-6);
}
static void closest(bool ptr) {
  nlopt::reset();
  nlopt::tr().nearer = false;
  int n = sym::choose("n", 1, 3);
  std::vector<BSCurve<double, 2>> cs;
  std::vector<std::shared_ptr<BSCurve<double, 2>>> ps;
  V y(n);
  for (int i = 0; i < n; ++i) {
    y[i] = sym::real("y" + S_(i), -8, 8);
    cs.emplace_back(PV<2>{{-4, y[i]}, {4, y[i]}}, V{0, 0, 1, 1}, 1);
    ps.push_back(std::make_shared<BSCurve<double, 2>>(cs.back()));
  }
  double x = sym::real("x", -4, 4), h = sym::real("h", -8, 8);
  nlopt::tr().pick = [&](const V &) { return V{(x + 4) / 8}; };
  size_t w;
  if (ptr) w = closest_p_curve<double, 2>(point<double, 2>{x, h}, ps.begin(), ps.end()) - ps.begin();
  else w = closest_curve<double, 2>(point<double, 2>{x, h}, cs.begin(), cs.end()) - cs.begin();
  for (int i = 0; i < n; ++i) sym::le((y[w] - h) * (y[w] - h), (y[i] - h) * (y[i] - h), "closest", 1e-6);
}
// the extreme coordinate of an arch translated anywhere
static void coord(int what) {
  double t = sym::real("t", -8, 8);
  int i = sym::choose("coordinate", 0, 3);
  double up = what ? -1 : 1;
  BSCurve<double, 2> c{PV<2>{{0, t}, {1, t + up * 2}, {3, t}}, V{0, 0, 0, 1, 1, 1}, 2};
  if (i >= 2) {
    sym::throws([&] { what ? min_coordinate(c, size_t(i), 0.) : max_coordinate(c, size_t(i), 0.); }, "coordinate refused");
    sym::throws([&] { solve_coordinate(c, size_t(i), 0.); }, "solve: coordinate refused");
    return;
  }
  if (i == 0) return;
  auto [u, x] = what ? min_coordinate(c, size_t(i), 0.) : max_coordinate(c, size_t(i), 0.);
  sym::eq(u, 0.5, "position of the extreme", 1e-3);
  sym::eq(x, t + up, "extreme coordinate", 1e-5);
}
static void solve_lin(int p) {
  double a = sym::real("a", -4, 4), b = sym::real("b", -4, 4), f = sym::real("f", 0, 1);
  if (sym::choose("dir", 0, 1)) sym::assume_le(a + 1, b);
  else sym::assume_le(b + 1, a);
  int i = sym::choose("coordinate", 0, 2);
  PV<3> pol(p + 1); // a linear coordinate at any degree
  for (int j = 0; j <= p; ++j) pol[j][i] = a + (b - a) * j / p, pol[j][(i + 1) % 3] = j * j;
  BSCurve<double, 3> c{pol, clamped(p, {}), size_t(p)};
  double X = a + f * (b - a);
  double u = sym::choose("guess", 0, 1) ? solve_coordinate(c, size_t(i), X, std::optional<double>(0.25)) : solve_coordinate(c, size_t(i), X);
  sym::check(u >= 0 && u <= 1, "in bounds");
  sym::eq(c(u)[i], X, "coordinate reached", 1e-4);
}
void sym_register() {
  for (int p = 1; p < 4; ++p)
    for (int lay = 0; lay < 3; ++lay) {
      auto n = S_(p) + "." + S_(lay);
      for (bool g : {true, false}) {
        auto m = n + (g ? ".guess" : ".bracket");
        sym::add("pc.1." + m, [=] { pc<1>(p, lay, g, false); }), sym::add("pc.2." + m, [=] { pc<2>(p, lay, g, false); }, p > 2 && lay > 0), sym::add("pc.3." + m, [=] { pc<3>(p, lay, g, false); }, p > 1 || lay > 1);
        sym::add("pc.r." + m, [=] { pc<2>(p, lay, g, true); }, p > 2 || lay > 0);
      }
      sym::add("grad.pc.2." + n, [=] { grad_pc<2>(p, lay); }), sym::add("grad.pc.3." + n, [=] { grad_pc<3>(p, lay); }, p > 2);
    }
  for (int p = 1; p < 5; ++p) sym::add("pc.poles.1." + S_(p), [=] { pc_poles<1>(p); }), sym::add("pc.poles.2." + S_(p), [=] { pc_poles<2>(p); }), sym::add("pc.poles.3." + S_(p), [=] { pc_poles<3>(p); }, p > 3);
  for (int a : {0, 1}) sym::add("pc.nearer." + S_(a), [=] { pc_nearer(a); });
  for (auto [p, q, a, b] : std::vector<std::array<int, 4>>{{1, 1, 0, 0}, {2, 1, 0, 1}, {1, 2, 1, 0}, {2, 2, 0, 0}})
    for (int w = 0; w < 3; ++w) sym::add("ps." + S_(p) + S_(q) + S_(a) + S_(b) + "." + S_(w), [=] { ps(p, q, a, b, w); }, p * q > 3 && w == 0);
  for (auto [p, q] : std::vector<std::array<int, 2>>{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}})
    for (int w = 0; w < 3; ++w) {
      auto n = S_(p) + S_(q) + "." + S_(w);
      sym::add("cc.2." + n, [=] { cc<2>(p, q, w); }, p > 2), sym::add("cc.3." + n, [=] { cc<3>(p, q, w); }, p > 2);
    }
  for (auto [p, q, m] : std::vector<std::array<int, 3>>{{1, 1, 1}, {2, 1, 1}, {1, 1, 2}, {1, 2, 2}})
    for (int w = 0; w < 3; ++w) sym::add("cs." + S_(p) + S_(q) + S_(m) + "." + S_(w), [=] { cs(p, q, m, w, (w + p + 2 * q) % 3); }, q > 1 && w == 1);
  for (int o = 0; o < 3; ++o) sym::add("cs.order." + S_(o), [=] { cs(1, 1, 1, 1, o); });
  sym::add("known.distance", known_distance), sym::add("lines", lines), sym::add("dev", [] { dev(false); }), sym::add("known.dev", [] { dev(true); }), sym::add("closest", [] { closest(false); }), sym::add("closest.p", [] { closest(true); });
  for (bool p : {false, true})
    sym::add("rolling.1." + S_(p), [=] { rolling(1, 1, p); }), sym::add("rolling.half." + S_(p), [=] { rolling(0.5, 1, p); }), sym::add("rolling.3." + S_(p), [=] { rolling(3, 2, p); });
  sym::add("coord.max", [] { coord(0); }), sym::add("coord.min", [] { coord(1); });
  sym::add("solve.1", [] { solve_lin(1); }), sym::add("solve.2", [] { solve_lin(2); }), sym::add("solve.3", [] { solve_lin(3); });
}
