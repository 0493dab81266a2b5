// C24: vertices, edges and wires.
#include "mock/nlopt.hpp"
#include "common.h"
#include <algorithm>
#include <list>
#include <concepts>
#include <topology/vertex.h>
#include <topology/edge.h>
#include <topology/wire.h>
using namespace gbs;
template <size_t D> using Ed = Edge<double, D>;
template <size_t D> using Ve = Vertex<double, D>;
template <size_t D> using PE = std::shared_ptr<Edge<double, D>>;
template <size_t D> static double sqd(const P<D> &a, const P<D> &b) {
  double s = 0;
  for (size_t i = 0; i < D; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return s;
}
static const double TOL = 0.125;
template <size_t D> static PE<D> seg(const P<D> &a, const P<D> &b) { // speed 1 along the edge is concrete
  auto c = std::make_shared<BSCurve<double, D>>(PV<D>{a, b}, V{0, 0, 1, 1}, 1);
  auto e = std::make_shared<Ed<D>>(std::shared_ptr<Curve<double, D>>(c));
  e->setApproximationTolerance(TOL);
  return e;
}
// every claim about a wire that can be read from outside
template <size_t D> static void audit(const Wire<double, D> &w, size_t n, bool closed, const std::string &l) {
  sym::check(size_t(std::distance(w.begin(), w.end())) == n, l + " edge count");
  sym::check(w.isClosed() == closed, l + " closed");
  sym::check(w.vertex1() == w.front()->vertex1() && w.vertex2() == w.back()->vertex2(), l + " ends");
  for (auto it = w.begin(); it != w.end(); ++it) {
    auto nx = std::next(it);
    if (nx != w.end()) sym::check((*it)->vertex2() == (*nx)->vertex1(), l + " consecutive edges share their vertex");
    auto [a, b] = (*it)->bounds();
    sym::le(sqd<D>((*it)->curve()->value(a), (*it)->vertex1()->point()), TOL * TOL, l + " first vertex on the curve", 1e-9);
    sym::le(sqd<D>((*it)->curve()->value(b), (*it)->vertex2()->point()), TOL * TOL, l + " second vertex on the curve", 1e-9);
  }
  if (closed) sym::check(w.vertex1() == w.vertex2(), l + " closed wire shares its vertex");
}
static std::vector<std::vector<int>> perms(int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  std::vector<std::vector<int>> r;
  do r.push_back(p);
  while (std::next_permutation(p.begin(), p.end()));
  return r;
}
template <size_t D> static PV<D> corners(int n) {
  PV<D> r;
  const double xy[5][3] = {{0, 0, 0}, {4, 0, 1}, {5, 3, 0}, {2, 6, 2}, {-1, 3, 1}};
  for (int i = 0; i < n; ++i) {
    P<D> p{};
    for (size_t d = 0; d < D; ++d) p[d] = xy[i][d];
    r.push_back(p);
  }
  return r;
}
// n-gon (or open chain) of separate edges added in a given order; the start of
// one edge and the end of another are displaced by symbolic gaps
template <size_t D> static void chain(int n, bool ring, const std::vector<int> &order, int gs, int ge, int share) {
  nlopt::reset();
  nlopt::tr().nearer = false;
  auto c = corners<D>(n + (ring ? 0 : 1));
  P<D> a{}, b{};
  for (size_t d = 0; d < D && d < 2; ++d) {
    if (gs >= 0) a[d] = sym::real("a" + S_(d), -0.25, 0.25);
    if (ge >= 0) b[d] = sym::real("b" + S_(d), -0.25, 0.25);
  }
  std::vector<PE<D>> e;
  std::vector<P<D>> st, en;
  for (int i = 0; i < n; ++i) {
    P<D> p = c[i], q = c[(i + 1) % c.size()];
    if (i == gs)
      for (size_t d = 0; d < D; ++d) p[d] += a[d];
    if (i == ge)
      for (size_t d = 0; d < D; ++d) q[d] += b[d];
    if (share >= 0 && i == share + 1 && i != gs && share != ge) { // shares its vertex with the previous edge
      e.push_back(std::make_shared<Ed<D>>(e.back()->vertex2(), std::make_shared<Ve<D>>(q)));
      e.back()->setApproximationTolerance(TOL);
    } else
      e.push_back(seg<D>(p, q));
    st.push_back(p), en.push_back(q);
  }
  // the projections the optimiser may need: both ends (always offered) and the gaps seen from the edges
  auto proj = [&](const P<D> &x, int i) {
    double s = 0, l = 0;
    for (size_t d = 0; d < D; ++d) s += (x[d] - st[i][d]) * (en[i][d] - st[i][d]), l += (en[i][d] - st[i][d]) * (en[i][d] - st[i][d]);
    return s / l;
  };
  auto near_ = [&](const P<D> &x, const P<D> &y) { return sqd<D>(x, y) < TOL * TOL; };
  Wire<double, D> w(e[order[0]]);
  w.setApproximationTolerance(TOL);
  P<D> first = e[order[0]]->vertex1()->point(), last = e[order[0]]->vertex2()->point();
  bool closed = false;
  size_t cnt = 1;
  audit<D>(w, cnt, false, "start");
  for (size_t k = 1; k < order.size(); ++k) {
    int i = order[k];
    nlopt::tr().cand.clear();
    nlopt::tr().cand.push_back({proj(last, i)});
    nlopt::tr().cand.push_back({proj(first, i)});
    bool ab = !closed && near_(last, st[i]), af = !closed && near_(first, en[i]);
    bool r = w.addEdge(e[i]);
    sym::check(r == (ab || af), "added exactly when it connects");
    if (ab || af) ++cnt;
    if (ab && af) closed = true;
    else if (ab) last = en[i];
    else if (af) first = st[i];
    audit<D>(w, cnt, closed, "step");
    eqp<D>(w.vertex1()->point(), first, "first point", 1e-12);
    if (!closed) eqp<D>(w.vertex2()->point(), last, "last point", 1e-12);
  }
}
template <size_t D> static void set_vertex(bool second) {
  nlopt::reset();
  nlopt::tr().nearer = false;
  P<D> a{}, b{}, p{};
  b[0] = 4;
  for (size_t d = 0; d < D; ++d) p[d] = sym::real("p" + S_(d), d ? -0.5 : -0.5, d ? 0.5 : 4.5);
  auto e = seg<D>(a, b);
  double u = p[0] < 0 ? 0. : p[0] > 4 ? 1. : p[0] / 4.;
  nlopt::tr().cand.push_back({u});
  P<D> q = a;
  q[0] = 4 * u;
  auto v1 = e->vertex1(), v2 = e->vertex2(), v = std::make_shared<Ve<D>>(p);
  bool r = second ? e->setVertex2(v) : e->setVertex1(v);
  double d2 = sqd<D>(p, q);
  if (r) sym::le(d2, TOL * TOL, "accepted vertex is on the curve", 1e-9);
  else sym::le(TOL * TOL, d2, "refused vertex is off the curve", 1e-9);
  auto [ua, ub] = e->bounds();
  sym::check((second ? e->vertex1() == v1 : e->vertex2() == v2), "other vertex kept");
  sym::eq(second ? ua : ub, second ? 0 : 1, "other bound kept", 0);
  if (r) {
    sym::check((second ? e->vertex2() : e->vertex1()) == v, "vertex set");
    double x = second ? ub : ua;
    // on an open curve the far end means the whole curve
    sym::le(sqd<D>(p, e->curve()->value(x)), TOL * TOL, "bound is where the vertex is", 1e-9);
    sym::eq(x, u, "bound is the projection", 1e-7);
  } else {
    sym::check((second ? e->vertex2() == v2 : e->vertex1() == v1), "vertex kept");
    sym::eq(second ? ub : ua, second ? 1 : 0, "bound kept", 0);
  }
}
// whatever the optimiser answers, an accepted vertex is within tolerance of the edge there
template <size_t D> static void set_vertex_any(bool second) {
  nlopt::reset();
  nlopt::tr().nearer = false;
  P<D> a{}, b{}, p{};
  b[0] = 4;
  p[0] = 1.25, p[1] = sym::real("p", -0.5, 0.5);
  auto e = seg<D>(a, b);
  auto v = std::make_shared<Ve<D>>(p);
  bool r = second ? e->setVertex2(v) : e->setVertex1(v);
  if (!r) return sym::check(true, "refused");
  auto [ua, ub] = e->bounds();
  // the far end is read as the near end: allowed only if the optimiser's point is close as well
  sym::le(sqd<D>(p, e->curve()->value(second ? ub : ua)), TOL * TOL, "accepted within tolerance", 1e-9);
}
template <size_t D> static void closed_curve() {
  nlopt::reset();
  nlopt::tr().nearer = false;
  P<D> o{};
  for (size_t d = 0; d < D; ++d) o[d] = sym::real("o" + S_(d), -8, 8);
  double gx = sym::real("gx", 0, 0.25);
  auto at = [&](double x, double y) {
    P<D> p = o;
    p[0] += x, p[1] += y;
    return p;
  };
  auto c = std::make_shared<BSCurve<double, D>>(PV<D>{at(0, 0), at(4, 0), at(4, 4), at(-gx, 0)}, V{0, 0, 0, 0, 1, 1, 1, 1}, 3);
  auto e = std::make_shared<Ed<D>>(std::shared_ptr<Curve<double, D>>(c));
  e->setApproximationTolerance(1e-5);
  nlopt::tr().cand.push_back({1.});
  Wire<double, D> w(e);
  bool closed = w.isClosed();
  if (closed) {
    sym::le(gx, 1e-5, "closed only when both ends meet", 1e-9);
    sym::check(w.vertex1() == w.vertex2(), "closed curve shares its vertex");
    auto s = seg<D>(at(0, 0), at(1, 1));
    sym::check(!w.addEdge(s), "closed wire refuses edges");
    sym::check(std::distance(w.begin(), w.end()) == 1, "closed wire unchanged");
    auto [a, b] = e->bounds();
    sym::eq(a, 0, "closed curve first bound", 1e-9);
    sym::eq(b, 1, "closed curve second bound", 1e-9);
  } else
    sym::le(1e-5, gx, "open only when the ends are apart", 1e-9);
}
template <size_t D> static void closing(int n) {
  nlopt::reset();
  nlopt::tr().nearer = false;
  auto c = corners<D>(n + 1);
  P<D> o{};
  for (size_t d = 0; d < D; ++d) o[d] = sym::real("o" + S_(d), -1, 1);
  auto e0 = seg<D>(c[0], n == 1 ? o : c[1]);
  Wire<double, D> w(e0);
  for (int i = 1; i < n; ++i) {
    Ed<D> e(w.vertex2(), std::make_shared<Ve<D>>(i == n - 1 ? [&] { auto p = c[n]; for (size_t d = 0; d < D; ++d) p[d] += o[d]; return p; }() : c[i + 1]));
    sym::check(w.addEdge(e), "shared vertex connects");
  }
  if (n == 1) sym::assume_le(0.25, sqd<D>(c[0], o));
  if (w.isClosed()) return;
  auto f = w.vertex1(), l = w.vertex2();
  w.close();
  sym::check(w.isClosed(), "close closes");
  sym::check(std::distance(w.begin(), w.end()) == n + 1, "close adds one edge");
  sym::check(w.vertex1() == w.vertex2(), "close shares the vertex");
  bool found = false; // the new edge runs from the former last to the former first vertex
  for (auto &e : w)
    if (e->vertex1() == l && e->vertex2() == f) {
      found = true;
      auto [a, b] = e->bounds();
      eqp<D>(e->curve()->value(a), l->point(), "closing edge start");
      eqp<D>(e->curve()->value(b), f->point(), "closing edge end");
    }
  sym::check(found, "closing edge joins the ends");
  for (auto it = w.begin(); std::next(it) != w.end(); ++it) sym::check((*it)->vertex2() == (*std::next(it))->vertex1(), "closed chain");
  w.close();
  sym::check(std::distance(w.begin(), w.end()) == n + 1, "closing twice changes nothing");
}
template <size_t D> static void edges(int p) {
  nlopt::reset();
  V k = clamped(p, {{0.5, 1}}, 0., 1.);
  auto poles = symPoles<D>("P", k.size() - p - 1);
  auto c = std::make_shared<BSCurve<double, D>>(poles, k, p);
  Ed<D> e{std::shared_ptr<Curve<double, D>>(c)};
  auto [a, b] = e.bounds();
  sym::eq(a, 0, "edge.u1", 0), sym::eq(b, 1, "edge.u2", 0);
  eqp<D>(e.vertex1()->point(), poles.front(), "edge.v1");
  eqp<D>(e.vertex2()->point(), poles.back(), "edge.v2");
  sym::check(e.curve() == c, "edge.curve");
  double t1 = sym::real("t1", 0.001953125, 1), t2 = sym::real("t2", 0.001953125, 1);
  Ve<D> ref(poles[0]);
  ref.setPrecisionTolerance(t1), ref.setApproximationTolerance(t2);
  Ed<D> et{std::shared_ptr<Curve<double, D>>(c), ref};
  sym::eq(et.precisionTolerance(), t1, "edge.precision", 0);
  sym::eq(et.approximationTolerance(), t2, "edge.approximation", 0);
  Ve<D> vt(poles[1], et);
  sym::eq(vt.precisionTolerance(), t1, "vertex.precision", 0);
  sym::eq(vt.approximationTolerance(), t2, "vertex.approximation", 0);
  eqp<D>(vt.point(), poles[1], "vertex.point");
  vt.setPoint(poles.back());
  eqp<D>(vt.point(), poles.back(), "vertex.moved");
}
template <size_t D> static void segments() {
  nlopt::reset();
  P<D> a, b{};
  for (size_t d = 0; d < D; ++d) a[d] = sym::real("a" + S_(d), -5, 5);
  b = a;
  b[0] += sym::real("l", 0.5, 6);
  Ed<D> e(a, b);
  eqp<D>(e.vertex1()->point(), a, "segment.v1"), eqp<D>(e.vertex2()->point(), b, "segment.v2");
  auto [u, v] = e.bounds();
  eqp<D>(e.curve()->value(u), a, "segment.begin"), eqp<D>(e.curve()->value(v), b, "segment.end");
  auto va = std::make_shared<Ve<D>>(a), vb = std::make_shared<Ve<D>>(b);
  Ed<D> f(va, vb);
  sym::check(f.vertex1() == va && f.vertex2() == vb, "segment.shared");
  auto [s, t] = f.bounds();
  eqp<D>(f.curve()->value(s), a, "segment.begin2"), eqp<D>(f.curve()->value(t), b, "segment.end2");
}
void sym_register() {
  for (int n = 2; n <= 4; ++n)
    for (auto &o : perms(n)) {
      std::string os;
      for (int i : o) os += S_(i);
      if (n == 4 && o[0] > 1) continue;
      for (int r = 0; r < 2; ++r) {
        if (r && n < 3) continue;
        for (int g = 0; g < n; ++g) {
          bool tier = n == 4 && (g % 2);
          sym::add("chain2." + S_(n) + (r ? ".ring." : ".open.") + os + ".s" + S_(g), [=] { chain<2>(n, r, o, g, -1, -1); }, tier);
          if (n < 4) sym::add("chain2." + S_(n) + (r ? ".ring." : ".open.") + os + ".e" + S_(g), [=] { chain<2>(n, r, o, -1, g, -1); });
          sym::add("share2." + S_(n) + (r ? ".ring." : ".open.") + os + ".s" + S_(g), [=] { chain<2>(n, r, o, g, -1, g == 0 ? 1 : 0); }, tier);
        }
        if (n == 3) sym::add("chain2b." + S_(n) + (r ? ".ring." : ".open.") + os, [=] { chain<2>(n, r, o, 1, 2, -1); }), sym::add("chain3." + S_(n) + (r ? ".ring." : ".open.") + os, [=] { chain<3>(n, r, o, 0, -1, -1); });
      }
    }
  for (int s = 0; s < 2; ++s) {
    sym::add("setvertex2." + S_(s), [=] { set_vertex<2>(s); });
    sym::add("setvertex3." + S_(s), [=] { set_vertex<3>(s); });
    sym::add("setvertex.any." + S_(s), [=] { set_vertex_any<2>(s); });
  }
  sym::add("closed2", closed_curve<2>), sym::add("closed3", closed_curve<3>);
  for (int n = 1; n <= 4; ++n) sym::add("close2." + S_(n), [=] { closing<2>(n); }), sym::add("close3." + S_(n), [=] { closing<3>(n); });
  for (int p = 1; p <= 3; ++p) sym::add("edge2." + S_(p), [=] { edges<2>(p); }), sym::add("edge3." + S_(p), [=] { edges<3>(p); });
  sym::add("segment2", segments<2>), sym::add("segment3", segments<3>);
}
