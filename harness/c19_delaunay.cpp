// C19: triangulations are valid, cover the domain and are Delaunay.
#include "mesh.h"
#include <cstring>
#include <gbs/bssurf.h>
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshQuality.h>
using namespace gbs;
static bool same(const P2 &a, const P2 &b) { return !std::memcmp(&a, &b, sizeof a); }
static P2 pt(const std::string &n, double lo, double hi) {
  double x = sym::real(n + "x", lo, hi);
  return {x, sym::real(n + "y", lo, hi)};
}
// a point of the square of half side r around c, or of one of two lines across it
static P2 around(const P2 &c, double r, bool line) {
  if (!line) {
    double x = sym::real("x", c[0] - r, c[0] + r);
    return {x, sym::real("y", c[1] - r, c[1] + r)};
  }
  static const double D[2][4]{{-1, -0.75, 2, 1.625}, {-0.875, 1, 1.75, -2}};
  auto &d = D[sym::choose("line", 0, 1)];
  double t = sym::real("t", 0, 1);
  return {c[0] + r * (d[0] + t * d[2]), c[1] + r * (d[1] + t * d[3])};
}
static int index(const P2 &p, const std::vector<P2> &x) {
  for (size_t i = 0; i < x.size(); ++i)
    if (same(p, x[i])) return int(i);
  return -1;
}
using Tr = std::array<int, 3>;
template <class F> static std::vector<Tr> tris(const F &f, const std::vector<P2> &x) {
  std::vector<Tr> r;
  for (auto &h : f) {
    Tr t{index(org(h->edge), x), index(dst(h->edge), x), index(dst(h->edge->next), x)};
    std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
    r.push_back(t);
  }
  std::sort(r.begin(), r.end());
  return r;
}
// no point strictly inside the circle of any face
template <class F> static void delaunay(const F &f, const std::vector<P2> &x, const std::string &l, double tol = 1e-6) {
  for (auto &t : tris(f, x)) {
    if (t[0] < 0 || t[1] < 0 || t[2] < 0) return sym::check(false, l + " unknown vertex");
    for (int i = 0; i < int(x.size()); ++i)
      if (i != t[0] && i != t[1] && i != t[2]) sym::le(incirc(x[t[0]], x[t[1]], x[t[2]], x[i]), 0, l + " empty circle", tol);
  }
}
// the same through inner edges only: equivalent when the mesh is valid and its border is convex
template <class F> static void locally_delaunay(const F &f, const std::string &l, double tol = 1e-6) {
  for (auto &h : halves(f))
    if (h->opposite && h.get() < h->opposite.get()) sym::le(incirc(org(h), dst(h), dst(h->next), dst(h->opposite->next)), 0, l + " empty circle", tol);
}
static const std::vector<std::vector<P2>> BX{
    {{0, 0}, {4, 0}, {4, 4}, {0, 4}},
    {{0, 0}, {6, -1}, {7, 5}, {1, 6}, {3, 2}},
    {{0, 0}, {4, 0}, {8, 0}, {0, 4}, {4, 4}, {8, 4}},
    {{0, 0}, {9, 0}, {9, 9}, {0, 9}, {3, 4}, {6, 4}, {5, 7}}};
static const std::vector<std::vector<Tri>> BT{
    {{0, 1, 2}, {0, 2, 3}},
    {{4, 0, 1}, {4, 1, 2}, {4, 2, 3}, {4, 3, 0}},
    {{0, 1, 4}, {0, 4, 3}, {1, 2, 4}, {2, 5, 4}},
    {{0, 1, 4}, {1, 5, 4}, {4, 5, 6}, {1, 2, 5}, {2, 6, 5}, {2, 3, 6}, {3, 4, 6}, {3, 0, 4}}};
// one insertion of any point in any of the base meshes
static void insert_check(Faces &f, std::vector<P2> &x, const P2 &q, const std::string &l) {
  auto before = tris(f, x);
  double A = twice_area(f);
  Faces old = f;
  // where is the point: strictly inside or on an inner edge / outside or on the border
  auto [v, gone, made] = boyerWatson<double>(f, q, 1e-10);
  if (!v) {
    sym::check(tris(f, x) == before && gone.empty() && made.empty(), l + " untouched when refused");
    for (auto &h : old) {
      double a = det(org(h->edge), dst(h->edge), q), b = det(dst(h->edge), dst(h->edge->next), q), c = det(dst(h->edge->next), org(h->edge), q);
      sym::check(!(a > 0 && b > 0 && c > 0), l + " inner point refused");
    }
    return;
  }
  x.push_back(q);
  sym::check(same(v->coords, q), l + " vertex at the point");
  if (!links_ok(f, l, false)) return;
  ccw_ok(f, l, 0);
  sym::eq(twice_area(f), A, l + " area", 1e-6);
  locally_delaunay(f, l);
  sym::check(f.size() == before.size() + 2, l + " two more faces");
  auto has = [](const auto &c, const HF &x) { return std::find(c.begin(), c.end(), x) != c.end(); };
  bool ok = gone.size() + 2 == made.size();
  for (auto &h : old) ok = ok && has(f, h) != has(gone, h);
  for (auto &h : f) ok = ok && has(old, h) != has(made, h);
  sym::check(ok, l + " deleted and created faces");
  auto m = tris(made, x);
  for (auto &t : m) sym::check(t[2] == int(x.size()) - 1 || t[1] == int(x.size()) - 1 || t[0] == int(x.size()) - 1, l + " new faces at the vertex");
}
static void insertion(int k) {
  auto x = BX[k];
  auto m = build(x, BT[k]);
  delaunay(m.f, x, "base");
  insert_check(m.f, x, pt("q", -1, 10), "one");
}
static void insertion_line(int k, int line) { // along one of six lines through the base
  auto x = BX[k];
  auto m = build(x, BT[k]);
  static const double L[6][4]{{-1, 1.75, 11, 0.5}, {-1, 3.5, 11, 1}, {2.25, -1, 1, 11}, {5.25, -1, -0.5, 11}, {-0.5, -0.5, 10, 9}, {-0.5, 8.5, 9, -10}};
  auto &l = L[line];
  double t = sym::real("t", 0, 1);
  insert_check(m.f, x, {l[0] + t * l[2], l[1] + t * l[3]}, "one");
}
static void insertion_edge(int k) { // on an edge, or on a vertex
  auto x = BX[k];
  auto m = build(x, BT[k]);
  auto hs = halves(m.f);
  auto h = hs[sym::choose("edge", 0, int(hs.size()) - 1)];
  double t = sym::real("t", 0, 1);
  bool inner = h->opposite != nullptr;
  P2 q{org(h)[0] + t * (dst(h)[0] - org(h)[0]), org(h)[1] + t * (dst(h)[1] - org(h)[1])};
  size_t n = x.size();
  insert_check(m.f, x, q, "edge");
  if (x.size() == n) sym::check(!inner || t <= 0 || t >= 1, "point on an inner edge refused");
  else sym::check(inner && t > 0 && t < 1, "point on the border or on a vertex accepted");
}
static void insertion2(int k, bool second_sym, bool line) {
  auto x = BX[k];
  auto m = build(x, BT[k]);
  P2 a = k == 0 ? P2{1, 1.5} : P2{2, 3}, q;
  if (line) {
    static const double L[3][4]{{0.25, 0.5, 3.5, 2.75}, {0.5, 3.75, 3, -3.5}, {0, 2, 6, 0.25}};
    auto &l = L[sym::choose("line", 0, 2)];
    double t = sym::real("t", 0, 1);
    q = {l[0] + t * l[2], l[1] + t * l[3]};
  } else q = pt("q", 0, 4);
  if (second_sym) insert_check(m.f, x, a, "first"), insert_check(m.f, x, q, "second");
  else insert_check(m.f, x, q, "first"), insert_check(m.f, x, a, "second");
}
static double hull2(const std::vector<P2> &x) { // twice the hull area: sum over hull edges
  double A = 0;
  for (size_t i = 0; i < x.size(); ++i)
    for (size_t j = 0; j < x.size(); ++j) {
      if (i == j) continue;
      bool e = true;
      for (size_t k = 0; k < x.size() && e; ++k)
        if (k != i && k != j) e = det(x[i], x[j], x[k]) > 0;
      if (e) A += x[i][0] * x[j][1] - x[i][1] * x[j][0];
    }
  return A;
}
// whole triangulation of a point set, one point anywhere
static const std::vector<std::vector<P2>> PX{
    {{0, 0}, {6, 0}, {3, 5}},
    {{0, 0}, {7, 1}, {6, 6}, {-1, 5}},
    {{0, 0}, {6, -1}, {8, 4}, {3, 8}, {-2, 4}},
    {{0, 0}, {8, 0}, {8.5, 7}, {-0.5, 8}, {3, 2.25}, {5, 4.75}}};
static void whole(int k, int at, bool far, int line) {
  auto x = PX[k];
  P2 q;
  if (line >= 0) {
    static const double L[2][4][4]{{{1, 1, 4, 4}, {1, 4.25, 4, -2}, {3.25, 1, 0.5, 4}, {1, 2.5, 4, 0.25}}, {{-6, 2.25, 20, 1}, {-6, 14, 20, -20}, {4.25, -6, -1, 20}, {-6, -2, 20, 14}}};
    auto &l = L[far][line];
    double t = sym::real("t", 0, 1);
    q = {l[0] + t * l[2], l[1] + t * l[3]};
  } else q = far ? pt("q", -6, 14) : pt("q", 1, 5);
  x.insert(x.begin() + at, q);
  int n = int(x.size());
  for (int i = 0; i < n; ++i)
    if (i != at && d2(x[i], q) < 0.01) return;
  auto f = delaunay2DBoyerWatson<double>(x, 1e-10);
  if (!f.empty() && !links_ok(f, "set", false)) return;
  ccw_ok(f, "set", 0);
  delaunay(f, x, "set");
  auto ts = tris(f, x);
  // every triangle with an empty circle that stays in the 10% box is there
  double l[2], u[2], X = 1e9;
  for (int d = 0; d < 2; ++d) {
    l[d] = u[d] = x[0][d];
    for (auto &p : x) l[d] = std::min(l[d], p[d]), u[d] = std::max(u[d], p[d]);
    double w = (u[d] - l[d]) / 10;
    u[d] += w, l[d] -= w * 1.1;
  }
  (void)X;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      for (int c = a + 1; c < n; ++c) {
        if (c == b) continue;
        double o = det(x[a], x[b], x[c]);
        if (!(o > 0.01)) continue;
        bool empty = true;
        for (int i = 0; i < n && empty; ++i)
          if (i != a && i != b && i != c) empty = incirc(x[a], x[b], x[c], x[i]) < -1e-3;
        if (!empty) continue;
        for (double X : {l[0], u[0]})
          for (double Y : {l[1], u[1]})
            if (empty) empty = incirc(x[a], x[b], x[c], P2{X, Y}) < -1e-3;
        if (empty) sym::check(std::binary_search(ts.begin(), ts.end(), Tr{a, b, c}), "empty triangle present");
      }
}
// domain well inside its box: the hull is covered
static void cover(int k, bool line) {
  static const std::vector<std::vector<P2>> X{{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, {{0, 0}, {4, 0}, {4, 4}, {0, 4}, {0, 1}}, {{0, 0}, {2, 0}, {4, 0}, {4, 2}, {4, 4}, {2, 4}, {0, 4}, {0, 2}}};
  auto x = X[k];
  x.push_back(around({2, 2}, 1, line));
  double A = 0;
  for (size_t i = 0; i + 1 < x.size(); ++i) {
    auto &a = x[i], &b = x[(i + 1) % (x.size() - 1)];
    A += a[0] * b[1] - a[1] * b[0];
  }
  auto f = delaunay2DBoyerWatson<double>(x, 1e-10);
  links_ok(f, "cover", false), ccw_ok(f, "cover", 0);
  sym::eq(twice_area(f), A, "covers the hull", 1e-6);
  sym::check(vertices(f).size() == x.size(), "every point used");
  locally_delaunay(f, "cover");
}
// recorded finding: a flat pocket of the hull is lost
static void hull_pocket() {
  double tx = sym::real("tx", -5, 5), ty = sym::real("ty", -5, 5);
  std::vector<P2> x{{0, 0}, {10, 0}, {5, 1}, {5, 10}};
  for (auto &p : x) p[0] += tx, p[1] += ty;
  auto f = delaunay2DBoyerWatson<double>(x, 1e-10);
  sym::eq(twice_area(f), 100, "covers the hull", 1e-6);
}
static void set_with_hole(int corner, bool line) {
  std::vector<P2> out{{0, 0}, {8, 0}, {8, 8}, {0, 8}}, in{{3, 3}, {5, 3}, {5, 5}, {3, 5}}, all = out;
  in[corner] = around({4, 4}, 1.5, line);
  for (int i = 0; i < 4; ++i)
    if (!(det(in[i], in[(i + 1) % 4], in[(i + 2) % 4]) > 0.5)) return;
  all.insert(all.end(), in.begin(), in.end());
  double A = 0;
  for (int i = 0; i < 4; ++i) A += in[i][0] * in[(i + 1) % 4][1] - in[i][1] * in[(i + 1) % 4][0];
  auto bd = make_HalfEdges<double, 2>(in);
  auto f = delaunay2DBoyerWatson<double>(all, 1e-10);
  double B = twice_area(f);
  auto cut = takeInternalFaces<double>(f, bd);
  sym::eq(twice_area(f) + twice_area(cut), B, "cut", 1e-6);
  sym::eq(twice_area(cut), A, "hole area", 1e-6), sym::eq(B, 128, "square", 1e-6);
  links_ok(f, "with hole", false), ccw_ok(f, "with hole", 0);
}
static void inner_outer(bool inner, int corner, bool line) {
  auto x = BX[0];
  for (auto &p : x) p[0] = 3 * p[0] - 2, p[1] = 3 * p[1] - 2; // [-2,10]^2
  auto m = build(x, BT[0]);
  std::vector<P2> in{{2, 2}, {6, 2}, {6, 6}, {2, 6}};
  in[corner] = around({4, 4}, 3, line);
  double A = 0;
  for (int i = 0; i < 4; ++i) {
    if (!(det(in[i], in[(i + 1) % 4], in[(i + 2) % 4]) > 0.5)) return;
    A += in[i][0] * in[(i + 1) % 4][1] - in[i][1] * in[(i + 1) % 4][0];
  }
  auto t = inner ? delaunay2DBoyerWatsonAddInnerBound<double, 2>(m.f, in) : delaunay2DBoyerWatsonAddOuterBound<double, 2>(m.f, in);
  sym::eq(twice_area(t) + twice_area(m.f), 288, "nothing lost", 1e-5);
  ccw_ok(m.f, "kept", 0), ccw_ok(t, "taken", 0), links_ok(m.f, "kept", false);
  // all the border edges of the quadrilateral are Delaunay when it is close to a square; then the split is exact
  bool edges = true;
  for (int i = 0; i < 4 && edges; ++i) {
    bool f = false;
    for (auto *l : {&m.f, &t})
      for (auto &h : halves(*l)) f = f || (same(org(h), in[i]) && same(dst(h), in[(i + 1) % 4])) || (same(dst(h), in[i]) && same(org(h), in[(i + 1) % 4]));
    edges = f;
  }
  if (edges) sym::eq(twice_area(inner ? t : m.f), A, "split along the boundary", 1e-5);
}
// constrained triangulation of polygons, one vertex moving
struct Pg {
  std::vector<P2> out;
  std::vector<std::vector<P2>> holes;
};
static const std::vector<Pg> PG{
    {{{0, 0}, {4, 0}, {1, 3}}, {}},
    {{{0, 0}, {10, 0}, {10, 10}, {5, 4}, {0, 10}}, {}},
    {{{0, 0}, {6, 0}, {6, 2}, {2, 2}, {2, 6}, {0, 6}}, {}},
    {{{0, 0}, {3, 0.25}, {6, 0}, {5.75, 3}, {6, 6}, {3, 0.5}, {0, 6}}, {}},
    {{{0, 0}, {12, 0}, {12, 12}, {0, 12}}, {{{4, 4}, {8, 4}, {6, 9}}}},
    {{{0, 0}, {12, 0}, {12, 12}, {6, 7}, {0, 12}}, {{{3, 2}, {9, 2}, {6, 5}}}},
    {{{0, 0}, {12, 0}, {12, 2}, {2, 2}, {2, 4}, {12, 4}, {12, 6}, {0, 6}}, {}}};
static double poly2(const std::vector<P2> &p) {
  double A = 0;
  for (size_t i = 0; i < p.size(); ++i) A += p[i][0] * p[(i + 1) % p.size()][1] - p[i][1] * p[(i + 1) % p.size()][0];
  return A;
}
static bool proper(const P2 &a, const P2 &b, const P2 &c, const P2 &d) { // segments ab and cd do not meet, by a margin
  double x = det(a, b, c), y = det(a, b, d), z = det(c, d, a), w = det(c, d, b);
  return (x > 0.01 && y > 0.01) || (x < -0.01 && y < -0.01) || (z > 0.01 && w > 0.01) || (z < -0.01 && w < -0.01);
}
static bool simple(const std::vector<std::vector<P2>> &rings, size_t R, size_t v) {
  auto &r = rings[R];
  size_t n = r.size();
  const P2 &m = r[v], &p = r[(v + n - 1) % n], &q = r[(v + 1) % n];
  double o = det(p, m, q);
  if (!(o > 0.05 || o < -0.05)) return false;
  for (size_t s = 0; s < rings.size(); ++s)
    for (size_t i = 0; i < rings[s].size(); ++i) {
      const P2 &a = rings[s][i], &b = rings[s][(i + 1) % rings[s].size()];
      if (same(a, m) || same(b, m)) continue;
      if (!same(b, p) && !same(a, p) && !proper(p, m, a, b)) return false;
      if (!same(a, q) && !same(b, q) && !proper(m, q, a, b)) return false;
      // sharing p or q: the other end must not lie on the moving side
      if (same(b, p)) { double t = det(m, p, a); if (!(t > 0.01 || t < -0.01)) return false; }
      if (same(a, q)) { double t = det(m, q, b); if (!(t > 0.01 || t < -0.01)) return false; }
      if (same(a, p) && !same(b, m)) { double t = det(m, p, b); if (!(t > 0.01 || t < -0.01)) return false; }
    }
  return true;
}
static void constrained(int k, double r, bool line) {
  auto pg = PG[k];
  std::vector<std::vector<P2>> rings{pg.out};
  rings.insert(rings.end(), pg.holes.begin(), pg.holes.end());
  int nv = 0;
  for (auto &g : rings) nv += int(g.size());
  int v = sym::choose("vertex", 0, nv - 1);
  size_t R = 0;
  while (v >= int(rings[R].size())) v -= int(rings[R++].size());
  auto &p = rings[R][v];
  p = around(p, r, line);
  if (!simple(rings, R, v)) return;
  auto f = delaunay2DConstrained<double>(rings[0], {rings.begin() + 1, rings.end()});
  double A = poly2(rings[0]);
  for (size_t i = 1; i < rings.size(); ++i) A -= poly2(rings[i]);
  if (!links_ok(f, "domain")) return;
  ccw_ok(f, "domain", 0);
  sym::eq(twice_area(f), A, "covers the domain", 1e-5);
  sym::check(int(vertices(f).size()) == nv, "every vertex used");
  for (auto &g : rings)
    for (size_t i = 0; i < g.size(); ++i) {
      bool e = false;
      for (auto &h : halves(f)) e = e || ((same(org(h), g[i]) && same(dst(h), g[(i + 1) % g.size()])) || (same(dst(h), g[i]) && same(org(h), g[(i + 1) % g.size()])));
      sym::check(e, "sides are edges");
    }
}
// recovery of any segment between two vertices of a mesh with one moving vertex
static void recover(int k, bool moving) {
  auto x = BX[k];
  if (k == 2) x = {{0, 0}, {4, 1}, {8, 0}, {0, 4}, {4, 5}, {8, 4}};
  int mv = -1;
  if (moving) mv = int(x.size()) - 1, x[mv] = P2{sym::real("x", x[mv][0] - 1.25, x[mv][0] + 1.25), sym::real("y", x[mv][1] - 1.25, x[mv][1] + 1.25)};
  auto m = build(x, BT[k]);
  for (auto &f : m.f)
    if (moving && !(det(org(f->edge), dst(f->edge), dst(f->edge->next)) > 0.25)) return;
  int p = sym::choose("p", 0, int(x.size()) - 1), q = sym::choose("q", 0, int(x.size()) - 1);
  if (p == q) {
    sym::check(!recoverEdge<double>(m.f, m.v[p], m.v[q]), "no segment");
    return;
  }
  for (size_t i = 0; i < x.size(); ++i) {
    if (int(i) == p || int(i) == q) continue;
    double s = det(x[p], x[q], x[i]);
    if (!(s > 0.05 || s < -0.05)) return;
  }
  // the segment stays in the mesh: it crosses no border edge
  for (auto &h : halves(m.f))
    if (!h->opposite) {
      double a = det(x[p], x[q], org(h)), b = det(x[p], x[q], dst(h)), c = det(org(h), dst(h), x[p]), d = det(org(h), dst(h), x[q]);
      if (c < -1e-9 || d < -1e-9 || (a * b < -1e-9 && c * d < -1e-9)) return;
    }
  double A = twice_area(m.f);
  auto e = recoverEdge<double>(m.f, m.v[p], m.v[q]);
  bool border_back = false;
  for (auto &h : halves(m.f)) border_back = border_back || (!h->opposite && h->vertex == m.v[p] && h->previous->vertex == m.v[q]);
  if (border_back) sym::check(!e, "no half edge outside the border");
  else {
    sym::check(e != nullptr, "recovered");
    if (e) sym::check(e->previous->vertex == m.v[p] && e->vertex == m.v[q], "from p to q");
  }
  if (!links_ok(m.f, "recover")) return;
  ccw_ok(m.f, "recover", 0);
  sym::eq(twice_area(m.f), A, "area", 1e-6);
  bool in = false;
  for (auto &h : halves(m.f)) in = in || h == e;
  sym::check(!e || in, "edge in the mesh");
}
// refinement keeps a valid mesh
static void refine(int k, size_t n, bool line) {
  auto x = BX[k];
  int mv = int(x.size()) - 1;
  if (k == 1 || line) x[mv] = around(x[mv], 0.5, line);
  auto m = build(x, BT[k]);
  double A = twice_area(m.f);
  double c = sym::real("criterion", 0.5, 30);
  delaunay2DBoyerWatsonMeshRefine<double, 2, MaxEdgeSize<double, 2>>(m.f, c, n);
  if (!links_ok(m.f, "refined", false)) return;
  ccw_ok(m.f, "refined", 0);
  sym::eq(twice_area(m.f), A, "area", 1e-5);
  for (auto &p : BX[k]) (void)p;
  std::set<HV> vs = vertices(m.f);
  size_t kept = 0;
  for (auto &v : m.v) kept += vs.count(v);
  sym::check(kept == m.v.size() && vs.size() <= m.v.size() + n, "vertices kept");
}
static void refine_refused() { // nothing to split: one face has no inner edge
  auto m = build({{0, 0}, {4, 0}, {1, 3}}, {{0, 1, 2}});
  double c = sym::real("criterion", -1, 1);
  delaunay2DBoyerWatsonMeshRefine<double, 2, MaxEdgeSize<double, 2>>(m.f, c, 3);
  links_ok(m.f, "one face", false);
  sym::eq(twice_area(m.f), 12, "area", 1e-9);
}
// the mesh of a surface covers its parameter rectangle, wherever that lies; its points are on the rectangle's sides
static void surface_base(int k) {
  double x0 = sym::real("x0", -5, 5), z0 = sym::real("z0", -5, 5);
  const double U[] = {0, 1, -3, -1, 5, 0}, W[] = {0, 2, -4, 1, -0.5, 0};
  double u = k < 5 ? U[k] : sym::real("u", 1, 5), v = k < 5 ? W[k] : 2;
  PV<3> x{{x0, 0, z0}, {x0 + 2, 0, z0}, {x0 + 4, 0, z0}, {x0, 3, z0}, {x0 + 2, 3, z0 + 2}, {x0 + 4, 3, z0}};
  BSSurface<double, 3> s{x, V{u, u, u, u + 2, u + 2, u + 2}, V{v, v, v + 1, v + 1}, 2ul, 1ul};
  for (auto &p : meshSurfaceBoundary<double, 3>(s, 3, 3, 0.5)) {
    sym::check(p[0] >= u && p[0] <= u + 2 && p[1] >= v && p[1] <= v + 1, "boundary point in the rectangle");
    sym::check(p[0] == u || p[0] == u + 2 || p[1] == v || p[1] == v + 1, "boundary point on a side");
  }
  auto f = delaunay2DBoyerWatsonSurfaceBase<double, 3>(s, 3, 3, 0.5);
  if (!links_ok(f, "surface base", false)) return;
  ccw_ok(f, "surface base", 0);
  sym::eq(twice_area(f), 4, "parameter domain", 1e-6);
}
static void surface_mesh(size_t n) {
  double x0 = sym::real("x0", -5, 5), z0 = sym::real("z0", -5, 5);
  PV<3> x{{x0, 0, z0}, {x0 + 2, 0, z0}, {x0 + 4, 0, z0}, {x0, 3, z0}, {x0 + 2, 3, z0 + 2}, {x0 + 4, 3, z0}};
  BSSurface<double, 3> s{x, V{0, 0, 0, 2, 2, 2}, V{0, 0, 1, 1}, 2ul, 1ul};
  auto f = delaunay2DBoyerWatsonSurfaceMesh<double, 3, MaxEdgeSizeSurface<double, 3>>(s, 0.5, n, 3, 3, 0.5);
  if (!links_ok(f, "surface", false)) return;
  ccw_ok(f, "surface", 0);
  sym::eq(twice_area(f), 4, "parameter domain", 1e-6);
}
static void brute(int n, bool line) {
  std::vector<P2> x{{0, 0}, {5, 0.5}, {4.25, 4}, {-0.75, 5}};
  x.resize(n - 1);
  x.push_back(around({2.5, 2.5}, 5.5, line));
  for (int i = 0; i + 1 < n; ++i)
    if (d2(x[i], x[n - 1]) < 0.01) return;
  // general position
  for (int a = 0; a < n - 1; ++a)
    for (int b = a + 1; b < n - 1; ++b) {
      double o = det(x[a], x[b], x[n - 1]);
      if (!(o > 0.01 || o < -0.01)) return;
      for (int c = b + 1; c < n - 1; ++c) {
        double i = incirc(x[a], x[b], x[c], x[n - 1]);
        if (!(i > 0.01 || i < -0.01)) return;
      }
    }
  auto vs = make_shared_h_vertices<double, 2>(x);
  auto f = base_delaunay2d_mesh<double>(vs);
  auto ts = tris(f, x);
  std::vector<Tr> want;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      for (int c = a + 1; c < n; ++c) {
        if (c == b || !(det(x[a], x[b], x[c]) > 0)) continue;
        bool e = true;
        for (int i = 0; i < n && e; ++i)
          if (i != a && i != b && i != c) e = incirc(x[a], x[b], x[c], x[i]) <= 0;
        if (e) want.push_back({a, b, c});
      }
  std::sort(want.begin(), want.end());
  sym::check(ts == want, "the Delaunay triangles");
}
void sym_register() {
  const int T = 1;
  for (int k = 0; k < 4; ++k) {
    sym::add("insert." + S_(k), [=] { insertion(k); }, k % 2 ? T : 0);
    for (int l = 0; l < 6; ++l) sym::add("insert.line." + S_(k) + "." + S_(l), [=] { insertion_line(k, l); });
    sym::add("insert.edge." + S_(k), [=] { insertion_edge(k); });
  }
  for (int k = 0; k < 2; ++k)
    for (bool b : {false, true}) {
      sym::add("insert2." + S_(k) + (b ? ".last" : ".first"), [=] { insertion2(k, b, false); }, T);
      sym::add("insert2.line." + S_(k) + (b ? ".last" : ".first"), [=] { insertion2(k, b, true); });
    }
  for (int k = 0; k < 4; ++k) {
    sym::add("set.near." + S_(k), [=] { whole(k, k / 2, false, -1); }, T);
    sym::add("set.far." + S_(k), [=] { whole(k, int(PX[k].size()), true, -1); }, T);
    for (int l = 0; l < 4; ++l) {
      sym::add("set.near.line." + S_(k) + "." + S_(l), [=] { whole(k, k / 2, false, l); });
      sym::add("set.far.line." + S_(k) + "." + S_(l), [=] { whole(k, int(PX[k].size()), true, l); });
    }
  }
  for (int k = 0; k < 3; ++k) sym::add("cover." + S_(k), [=] { cover(k, false); }, k ? T : 0), sym::add("cover.line." + S_(k), [=] { cover(k, true); });
  sym::add("hull.pocket", hull_pocket);
  for (int i = 0; i < 4; ++i) {
    sym::add("hole." + S_(i), [=] { set_with_hole(i, false); }, T);
    sym::add("hole.line." + S_(i), [=] { set_with_hole(i, true); });
    for (bool in : {true, false}) {
      sym::add((in ? "bound.inner." : "bound.outer.") + S_(i), [=] { inner_outer(in, i, false); }, T);
      sym::add((in ? "bound.inner.line." : "bound.outer.line.") + S_(i), [=] { inner_outer(in, i, true); });
    }
  }
  for (int k = 0; k < int(PG.size()); ++k) {
    sym::add("constrained." + S_(k), [=] { constrained(k, k == 3 || k == 6 ? 0.125 : 1, false); }, k == 3 || k == 6 ? 0 : T);
    sym::add("constrained.line." + S_(k), [=] { constrained(k, k == 3 || k == 6 ? 0.5 : 1.5, true); });
  }
  for (int k = 0; k < 4; ++k) sym::add("recover." + S_(k), [=] { recover(k, false); }), sym::add("recover.moving." + S_(k), [=] { recover(k, true); });
  for (int k = 0; k < 4; ++k) sym::add("refine." + S_(k), [=] { refine(k, k == 1 ? 1 : 2, false); }, k == 1 ? T : 0);
  sym::add("refine.line.1", [=] { refine(1, 2, true); });
  sym::add("refine.line.3", [=] { refine(3, 2, true); });
  sym::add("refine.refused", refine_refused);
  for (int k = 0; k < 6; ++k) sym::add("surface.base." + S_(k), [=] { surface_base(k); });
  for (size_t n : {1, 3}) sym::add("surface." + S_(n), [=] { surface_mesh(n); });
  for (int n : {3, 4, 5}) sym::add("brute." + S_(n), [=] { brute(n, false); }, n > 4 ? T : 0);
  sym::add("brute.line.5", [=] { brute(5, true); });
}
