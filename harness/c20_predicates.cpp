// C20: geometric predicates and measures against their exact definitions.
#include "common.h"
#include <gbs/bssurf.h>
#include <topology/baseGeom.h>
#include <topology/baseIntersection.h>
#include <topology/robustPredicates.h>
#include <topology/halfEdgeMeshData.h>
#include <topology/halfEdgeMeshGetters.h>
#include <topology/halfEdgeMeshEditors.h>
#include <topology/halfEdgeMeshGeomTests.h>
#include <topology/halfEdgeMeshQuality.h>
using namespace gbs;
using P2 = P<2>;
using P3 = P<3>;
static P2 pt(const std::string &n, double lo = -10, double hi = 10) {
  double x = sym::real(n + "x", lo, hi);
  return {x, sym::real(n + "y", lo, hi)};
}
static P3 pt3(const std::string &n) {
  double x = sym::real(n + "x", -10, 10), y = sym::real(n + "y", -10, 10);
  return {x, y, sym::real(n + "z", -10, 10)};
}
static double det(const P2 &a, const P2 &b, const P2 &c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
static double sq(double x) { return x * x; }
static double d2(const P2 &a, const P2 &b) { return sq(a[0] - b[0]) + sq(a[1] - b[1]); }
// the 4x4 in-circle determinant, by minors of the lifted points
static double incirc(const P2 &a, const P2 &b, const P2 &c, const P2 &d) {
  auto l = [](const P2 &p) { return p[0] * p[0] + p[1] * p[1]; };
  auto o = [](const P2 &p, const P2 &q, const P2 &r) { return p[0] * (q[1] - r[1]) + q[0] * (r[1] - p[1]) + r[0] * (p[1] - q[1]); };
  return l(a) * o(b, c, d) - l(b) * o(a, c, d) + l(c) * o(a, b, d) - l(d) * o(a, b, c);
}
static void same_sign(double r, double e, const std::string &l) {
  if (r > 0) sym::le(0, e, l + " positive", 1e-9);
  else if (r < 0) sym::le(e, 0, l + " negative", 1e-9);
  else sym::eq(e, 0, l + " zero", 1e-9);
}
using HE = std::shared_ptr<HalfEdge<double, 2>>;
using HF = std::shared_ptr<HalfEdgeFace<double, 2>>;
static HF tri(const P2 &a, const P2 &b, const P2 &c) {
  std::vector<HE> e{make_shared_h_edge<double, 2>(a), make_shared_h_edge<double, 2>(b), make_shared_h_edge<double, 2>(c)};
  return make_shared_h_face<double, 2>(e);
}
static void orient() {
  auto a = pt("a"), b = pt("b"), c = pt("c");
  double e = det(a, b, c);
  sym::eq(orient_2d(a, b, c), e, "orient_2d", 1e-6);
  sym::eq(orient_2d(a[0], a[1], b[0], b[1], c[0], c[1]), e, "orient_2d scalars", 1e-6);
  sym::eq(orient_2d(b, c, a), e, "rotation", 1e-6), sym::eq(orient_2d(b, a, c), -e, "reversal", 1e-6);
  sym::eq(tri_area(a, b, c), std::fabs(e) / 2, "area", 1e-6);
  bool w = are_ccw(a, b, c) != 0;
  if (w) sym::le(0, e, "ccw", 1e-9);
  else sym::le(e, 0, "cw", 1e-9);
  sym::check((is_ccw(tri(a, b, c)) != 0) == w, "face orientation");
}
static void area3(int k) {
  static const P3 U[] = {{2, 0, 0}, {1, -2, 3}, {0, 0.5, -4}};
  auto a = pt3("a"), v = pt3("v");
  P3 u = U[k], b, c;
  double f = sym::real("f", 0.5, 3);
  for (int i = 0; i < 3; ++i) u[i] = u[i] * f, b[i] = a[i] + u[i], c[i] = a[i] + v[i];
  double s = tri_area(a, b, c);
  double x = u[1] * v[2] - u[2] * v[1], y = u[2] * v[0] - u[0] * v[2], z = u[0] * v[1] - u[1] * v[0];
  sym::eq(4 * s * s, x * x + y * y + z * z, "area squared", 1e-4);
  sym::le(0, s, "area sign");
}
static void robust(bool shifted) {
  auto a = pt("a"), b = pt("b"), c = pt("c");
  if (shifted) c = {1024.5, -2048.25};
  same_sign(orient2d(a, b, c), det(a, b, c), "robust");
}
static void minmax(size_t n) {
  std::vector<P2> x;
  for (size_t i = 0; i < n; ++i) x.push_back(pt("p" + S_(i)));
  auto [lo, hi] = getCoordsMinMax(x);
  for (int d = 0; d < 2; ++d) {
    bool l = false, h = false;
    for (auto &p : x) {
      sym::le(lo[d], p[d], "min"), sym::le(p[d], hi[d], "max");
      l = l || p[d] == lo[d], h = h || p[d] == hi[d];
    }
    sym::check(l && h, "attained");
  }
}
static void circle() {
  auto a = pt("a"), b = pt("b"), c = pt("c");
  double e = det(a, b, c);
  sym::assume_ne(e, 0);
  if (std::fabs(e) < 1e-3) return;
  auto o = circle_center(a, b, c);
  sym::eq((d2(o, a) - d2(o, b)) * e, 0, "equidistant ab", 1e-4), sym::eq((d2(o, a) - d2(o, c)) * e, 0, "equidistant ac", 1e-4);
}
static void circle_flat() {
  auto a = pt("a"), b = pt("b");
  double t = sym::real("t", -2, 3);
  auto o = circle_center(a, b, P2{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])});
  sym::check(o[0] != o[0] && o[1] != o[1], "no centre for points on a line");
}
static void sphere(int which) {
  static const P3 B[] = {{3, 0, 0}, {1, 2, -1}, {0, 2, 1}, {-1, 3, 2}}, C[] = {{0, 2, 0}, {2, -1, 3}, {1, 0, 3}, {2, 2, 0}};
  P3 a = pt3("a"), b, c;
  for (int i = 0; i < 3; ++i) b[i] = a[i] + B[which][i], c[i] = a[i] + C[which][i];
  auto o = sphere_center(a, b, c);
  auto D = [&](const P3 &p) { return sq(p[0] - o[0]) + sq(p[1] - o[1]) + sq(p[2] - o[2]); };
  sym::eq(D(a), D(b), "equidistant ab", 1e-5), sym::eq(D(a), D(c), "equidistant ac", 1e-5);
}
static void in_center() {
  // right triangle legs 3k,4k at a symbolic place: incentre is (k,k) from the right angle
  double x = sym::real("x", -10, 10), y = sym::real("y", -10, 10), k = sym::real("k", 0.5, 4);
  P2 a{x, y}, b{x + 3 * k, y}, c{x, y + 4 * k};
  auto o = incenter(a, b, c);
  sym::eq(perimeter(a, b, c), 12 * k, "perimeter", 1e-6);
  sym::eq(o[0], x + k, "incentre x", 1e-6), sym::eq(o[1], y + k, "incentre y", 1e-6);
  auto o2 = incenter(b, c, a);
  sym::eq(o2[0], x + k, "rotated x", 1e-6), sym::eq(o2[1], y + k, "rotated y", 1e-6);
}
static void bary() {
  auto a = pt("a"), b = pt("b"), c = pt("c");
  double s = sym::real("s", -2, 2), t = sym::real("t", -2, 2);
  if (std::fabs(det(a, b, c)) < 0.1) return;
  P2 p{a[0] + s * (b[0] - a[0]) + t * (c[0] - a[0]), a[1] + s * (b[1] - a[1]) + t * (c[1] - a[1])};
  auto [u, v] = triangle_barycentric_coordinates(a, b, c, p); // u along c, v along b
  sym::eq(u, t, "u", 1e-5), sym::eq(v, s, "v", 1e-5);
  auto w = computeUV<double, 2>(a, b, c, p);
  sym::eq(w[0], s, "uv0", 1e-5), sym::eq(w[1], t, "uv1", 1e-5);
}
static void bary3() {
  auto a = pt3("a");
  double s = sym::real("s", -2, 2), t = sym::real("t", -2, 2), k = sym::real("k", 0.5, 3);
  P3 b, c, p;
  static const P3 B{2, 1, -1}, C{-1, 3, 1};
  for (int i = 0; i < 3; ++i) b[i] = a[i] + k * B[i], c[i] = a[i] + C[i], p[i] = a[i] + s * (b[i] - a[i]) + t * (c[i] - a[i]);
  auto w = computeUV<double, 3>(a, b, c, p);
  sym::eq(w[0], s, "uv0", 1e-5), sym::eq(w[1], t, "uv1", 1e-5);
  for (int i = 0; i < 3; ++i) c[i] = a[i] - 2 * (b[i] - a[i]);
  sym::throws_as<std::runtime_error>([&] { computeUV<double, 3>(a, b, c, p); }, "collinear refused");
}
// closed triangle, either orientation
static void tri_case(int which, bool symtri) {
  static const std::vector<std::array<P2, 3>> T{{P2{0, 0}, P2{4, 0}, P2{1, 3}}, {P2{0, 0}, P2{1, 3}, P2{4, 0}}, {P2{-3, -2}, P2{5, -2}, P2{5, 6}}, {P2{0, 1}, P2{0, -5}, P2{7, -2}}};
  P2 a = T[which][0], b = T[which][1], c = T[which][2], d = pt("d");
  if (symtri) c = pt("c");
  double e = det(a, b, c);
  if (std::fabs(e) < 0.1) return;
  double s = e > 0 ? 1 : -1;
  double x = s * det(a, b, d), y = s * det(b, c, d), z = s * det(c, a, d);
  bool r = in_triangle(a, b, c, d);
  if (r) sym::le(0, x, "in ab"), sym::le(0, y, "in bc"), sym::le(0, z, "in ca");
  else sym::check(!(x >= 0 && y >= 0 && z >= 0), "out");
  r = in_triangle_barycentric(a, b, c, d);
  if (r) sym::le(0, x, "bary in ab"), sym::le(0, y, "bary in bc"), sym::le(0, z, "bary in ca");
  else if (!symtri) sym::check(!(x >= 0 && y >= 0 && z >= 0), "bary out");
  else sym::check(!(x >= 1e-6 && y >= 1e-6 && z >= 1e-6), "bary out");
}
static void in_circle_poly() {
  auto a = pt("a", -3, 3), b = pt("b", -3, 3), c = pt("c", -3, 3), d = pt("d", -3, 3);
  double e = incirc(a, b, c, d), r = in_circle(a, b, c, d);
  sym::eq(r, e, "determinant", 1e-4);
  sym::eq(in_circle(b, c, a, d), e, "rotation", 1e-4), sym::eq(in_circle(b, a, c, d), -e, "reversal", 1e-4);
  sym::eq(in_circle(a[0], a[1], b[0], b[1], c[0], c[1], d[0], d[1]), e, "scalars", 1e-4);
  sym::eq(in_circle(d, tri(a, b, c)), e, "face", 1e-4);
}
static void in_circle_geo(int which) {
  static const std::vector<std::array<P2, 3>> T{{P2{0, 0}, P2{4, 0}, P2{0, 4}}, {P2{-1, -1}, P2{3, -2}, P2{1, 5}}, {P2{0, 0}, P2{0, 4}, P2{4, 0}}};
  auto [a, b, c] = T[which];
  auto d = pt("d");
  auto o = circle_center(a, b, c);
  double s = det(a, b, c), m = d2(o, a) - d2(o, d); // >0 inside
  sym::eq(in_circle(a, b, c, d), s * m, "power of the point", 1e-5);
}
static void seg_seg(int which) {
  static const std::vector<std::pair<P2, P2>> S{{P2{-4, -1}, P2{5, 2}}, {P2{0, -6}, P2{0, 6}}, {P2{-3, 2}, P2{7, 2}}};
  auto [a, b] = S[which];
  auto c = pt("c", -6, 6), d = pt("d", -6, 6);
  double x = det(a, b, c), y = det(a, b, d), z = det(c, d, a), w = det(c, d, b);
  bool r = seg_seg_strict_intersection(a, b, c, d);
  if (r) {
    sym::le(x * y, 0, "ends of cd on both sides"), sym::le(z * w, 0, "ends of ab on both sides");
  } else // clear crossings are found
    sym::check(!(((x >= 1e-3 && y <= -1e-3) || (x <= -1e-3 && y >= 1e-3)) && ((z >= 1e-3 && w <= -1e-3) || (z <= -1e-3 && w >= 1e-3))), "crossing missed");
}
static void seg_touch() {
  // sharing an end point, or an end in the other's interior, is not a strict intersection
  auto a = pt("a", -6, 6), c = pt("c", -6, 6);
  P2 b{1, 2};
  double t = sym::real("t", 0, 1);
  sym::check(!seg_seg_strict_intersection(a, b, b, c), "shared end");
  P2 m{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])};
  sym::check(!seg_seg_strict_intersection(a, b, m, c), "end on segment");
  sym::check(!seg_seg_strict_intersection(a, b, a, c), "shared start");
  P2 e{a[0] + 2, a[1] + 3}, f{b[0] + 2, b[1] + 3};
  sym::check(!seg_seg_strict_intersection(a, b, e, f), "parallel");
}
static void on_seg(int which) {
  static const std::vector<std::pair<P2, P2>> S{{P2{-4, -1}, P2{5, 2}}, {P2{0, -6}, P2{0, 6}}, {P2{7, 2}, P2{-3, 2}}, {P2{1, 5}, P2{2, -7}}};
  auto [a, b] = S[which];
  double t = sym::real("t", -1, 2);
  P2 p{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])};
  sym::check(on_segment(a, b, p) == (t >= 0 && t <= 1), "on the carrier");
  auto q = pt("q");
  if (on_segment(a, b, q, 1e-6)) {
    sym::eq(det(a, b, q), 0, "collinear", 2e-6);
    double k = (q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1]);
    sym::le(0, k, "after a", 1e-4), sym::le(k, d2(a, b), "before b", 1e-4);
  }
}
static void on_seg_sym() {
  auto a = pt("a"), b = pt("b");
  if (d2(a, b) < 0.1) return;
  double t = sym::real("t", -1, 2);
  P2 p{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])};
  sym::check(on_segment(a, b, p) == (t >= 0 && t <= 1), "on the carrier");
}
static void ray(int which) {
  auto a = pt("a", -6, 6), b = pt("b", -6, 6);
  P2 c{1, -1}, D = which == 0 ? P2{1, 0} : which == 1 ? P2{2, 3} : P2{-1, 2};
  bool r = which == 0 ? seg_H_strict_end_intersection(a, b, c) : seg_D_strict_end_intersection(a, b, c, D);
  auto side = [&](const P2 &p) { return D[0] * (p[1] - c[1]) - D[1] * (p[0] - c[0]); };
  double x = side(a), y = side(b);
  // crossing point lies ahead: sign of det(c - a, b - a) relative to the turn
  double turn = (b[0] - a[0]) * D[1] - (b[1] - a[1]) * D[0]; // = x - y
  double ahead = (b[0] - a[0]) * (a[1] - c[1]) - (b[1] - a[1]) * (a[0] - c[0]);
  if (r) {
    sym::le(x * y, 0, "straddles", 1e-9), sym::le(0, ahead * turn, "ahead", 1e-9);
  } else
    sym::check(!(((x >= 1e-3 && y <= -1e-3) || (x <= -1e-3 && y >= 1e-3)) && ((turn > 0 && ahead >= 1e-3) || (turn < 0 && ahead <= -1e-3))), "missed");
}
// polygons given with a decomposition into triangles
struct Poly {
  std::vector<P2> v;
  std::vector<std::array<int, 3>> t;
};
static const std::vector<Poly> polys{
    {{{0, 0}, {4, 0}, {1, 3}}, {{0, 1, 2}}},
    {{{0, 0}, {4, 0}, {4, 3}, {0, 3}}, {{0, 1, 2}, {0, 2, 3}}},
    {{{0, 0}, {6, 0}, {6, 4}, {3, 1}, {0, 4}}, {{0, 1, 3}, {1, 2, 3}, {0, 3, 4}}},
    {{{0, 0}, {2, 2}, {4, 0}, {5, 2}, {4, 4}, {2, 2.5}, {0, 4}, {-1, 2}}, {{0, 1, 7}, {1, 2, 3}, {1, 3, 5}, {3, 4, 5}, {1, 5, 7}, {5, 6, 7}}},
    {{{0, 0}, {6, 0}, {6, 6}, {0, 6}, {0, 4}, {4, 4}, {4, 2}, {0, 2}}, {{0, 1, 6}, {0, 6, 7}, {1, 2, 6}, {2, 5, 6}, {2, 3, 5}, {3, 4, 5}}}};
static void poly_inside(size_t k, bool rev) {
  auto po = polys[k];
  auto v = po.v;
  if (rev) std::reverse(v.begin(), v.end());
  auto he = make_HalfEdges<double, 2>(v);
  P2 q = pt("q", -2, 8);
  bool r = is_inside(q, he);
  bool in = false, deep = false;
  for (auto &t : po.t) {
    double m0 = det(po.v[t[0]], po.v[t[1]], q), m1 = det(po.v[t[1]], po.v[t[2]], q), m2 = det(po.v[t[2]], po.v[t[0]], q);
    if (!in && m0 >= 0 && m1 >= 0 && m2 >= 0) in = true;
    if (!deep && m0 >= -1e-6 && m1 >= -1e-6 && m2 >= -1e-6) deep = true;
  }
  if (r) sym::check(deep, "inside");
  else sym::check(!in, "outside");
}
static void poly_moved(size_t k) { // translation and scale invariance with symbolic polygon
  auto po = polys[k];
  double tx = sym::real("tx", -5, 5), ty = sym::real("ty", -5, 5);
  for (auto &p : po.v) p[0] += tx, p[1] += ty;
  auto he = make_HalfEdges<double, 2>(po.v);
  for (auto &t : po.t) {
    P2 g{(po.v[t[0]][0] + po.v[t[1]][0] + po.v[t[2]][0]) / 3, (po.v[t[0]][1] + po.v[t[1]][1] + po.v[t[2]][1]) / 3};
    sym::check(is_inside(g, he), "centroid of a part");
    HF f = tri(po.v[t[0]], po.v[t[1]], po.v[t[2]]);
    sym::check(is_centroid_inside_boundary(f, he), "face centroid");
  }
  sym::check(!is_inside(P2{tx - 50, ty + 1.5}, he), "far left"), sym::check(!is_inside(P2{tx + 50, ty + 1.5}, he), "far right");
  for (size_t i = 0; i < po.v.size(); ++i) {
    sym::check(is_inside(po.v[i], he), "vertex");
    auto &a = po.v[i], &b = po.v[(i + 1) % po.v.size()];
    sym::check(is_inside(P2{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2}, he), "edge midpoint");
  }
}
static void poly_ccw(size_t n) {
  std::vector<P2> v;
  double A = 0;
  for (size_t i = 0; i < n; ++i) v.push_back(pt("p" + S_(i)));
  for (size_t i = 0; i < n; ++i) A += v[i][0] * v[(i + 1) % n][1] - v[(i + 1) % n][0] * v[i][1];
  auto he = make_HalfEdges<double, 2>(v);
  if (are_edges_2d_ccw<double>(he)) sym::le(0, A, "ccw", 1e-9);
  else sym::le(A, 0, "cw", 1e-9);
}
static void quad_delaunay(int which) {
  // two triangles on edge (a,b), apexes c (left) and d (right, symbolic)
  static const std::vector<std::array<P2, 3>> T{{P2{0, 0}, P2{4, 0}, P2{2, 3}}, {P2{1, 1}, P2{1, 5}, P2{-2, 2}}};
  auto [a, b, c] = T[which];
  auto d = pt("d");
  sym::assume_lt(det(a, b, d), 0);
  std::vector<HE> e{make_shared_h_edge<double, 2>(b), make_shared_h_edge<double, 2>(c), make_shared_h_edge<double, 2>(a)};
  auto f = make_shared_h_face<double, 2>(e);
  sym::eq(is_locally_delaunay(e[0]), 0, "boundary edge");
  auto f2 = add_face(f, e[0], d);
  double r = is_locally_delaunay(e[0]), x = incirc(a, b, c, d);
  sym::check(f2 != nullptr, "face added");
  if (r > 0) sym::le(0, x, "not delaunay", 1e-7);
  else if (r < 0) sym::le(x, 0, "delaunay", 1e-7);
  else sym::eq(x, 0, "cocircular", 1e-6);
  std::list<HF> l{f, f2};
  sym::eq(getTriangle2dMeshArea(l), (std::fabs(det(a, b, c)) + std::fabs(det(a, b, d))) / 2, "mesh area", 1e-6);
  sym::eq(getTriangle2dMeshAreaPar(l), (std::fabs(det(a, b, c)) + std::fabs(det(a, b, d))) / 2, "mesh area par", 1e-6);
  sym::check(are_face_ccw(l), "both ccw");
}
static void edge_measures() {
  auto a = pt("a"), b = pt("b"), c = pt("c");
  auto f = tri(a, b, c);
  auto e = f->edge; // ends at a, starts at c
  sym::eq(edge_sq_length(e), d2(a, c), "squared length", 1e-6);
  auto m = edge_midpoint(e);
  sym::eq(m[0], (a[0] + c[0]) / 2, "mid x"), sym::eq(m[1], (a[1] + c[1]) / 2, "mid y");
  PV<3> x{{0, 0, 1}, {10, 0, 2}, {0, 10, 3}, {10, 10, -1}};
  BSSurface<double, 3> s{x, V{-10, -10, 10, 10}, V{-10, -10, 10, 10}, 1ul, 1ul};
  auto A = srf_ref<3>(a[0], a[1], V{-10, -10, 10, 10}, V{-10, -10, 10, 10}, x, 1, 1), C = srf_ref<3>(c[0], c[1], V{-10, -10, 10, 10}, V{-10, -10, 10, 10}, x, 1, 1);
  sym::eq(edge_sq_length<double, 3>(e, s), sq(A[0] - C[0]) + sq(A[1] - C[1]) + sq(A[2] - C[2]), "length on surface", 1e-5);
}
static void edge_size(bool both) {
  // largest interior edge of a face
  auto d = pt("d", -6, 6);
  P2 a{0, 0}, b{4, 0}, c{1, 3};
  std::vector<HE> e{make_shared_h_edge<double, 2>(b), make_shared_h_edge<double, 2>(c), make_shared_h_edge<double, 2>(a)};
  sym::assume_lt(det(a, b, d), -0.01);
  auto f = make_shared_h_face<double, 2>(e);
  auto f2 = add_face(f, e[0], d);
  if (both) add_face(f2, f2->edge->vertex == e[0]->vertex ? f2->edge : f2->edge->next, P2{20, -20});
  MaxEdgeSize<double, 2> q;
  auto [l, m] = q(f2);
  double best = 0;
  P2 mid{};
  auto he = f2->edge;
  for (int i = 0; i < 3; ++i, he = he->next)
    if (he->opposite) {
      auto &p = he->vertex->coords, &o = he->previous->vertex->coords;
      double x = d2(p, o);
      if (x > best) best = x, mid = {(p[0] + o[0]) / 2, (p[1] + o[1]) / 2};
    }
  sym::eq(l, best, "largest", 1e-6);
  sym::eq(m[0], mid[0], "where x", 1e-6), sym::eq(m[1], mid[1], "where y", 1e-6);
}
static void plane_dev() {
  // a mesh on a plane shows no deviation
  double x0 = sym::real("x0", -5, 5), y0 = sym::real("y0", -5, 5), z0 = sym::real("z0", -5, 5);
  PV<3> x{{x0, y0, z0}, {x0 + 2, y0 + 1, z0}, {x0, y0 + 1, z0 + 3}, {x0 + 2, y0 + 2, z0 + 3}};
  BSSurface<double, 3> s{x, V{0, 0, 1, 1}, V{0, 0, 1, 1}, 1ul, 1ul};
  P2 a{0, 0}, b{1, 0.25}, c{0.25, 1};
  sym::eq(surface_triangle_deviation<double, 3>(s, a, b, c), 0, "flat", 1e-5);
  DeviationMeshSurface<double, 3> q{s};
  auto [d, g] = q(tri(a, b, c));
  sym::eq(d, 0, "flat face", 1e-5);
  sym::eq(g[0], 1.25 / 3, "centroid u", 1e-6), sym::eq(g[1], 1.25 / 3, "centroid v", 1e-6);
}
static void plane_quality() {
  double x0 = sym::real("x0", -5, 5), y0 = sym::real("y0", -5, 5), z0 = sym::real("z0", -5, 5);
  PV<3> x{{x0, y0, z0}, {x0 + 2, y0 + 1, z0}, {x0, y0 + 1, z0 + 3}, {x0 + 2, y0 + 2, z0 + 3}};
  BSSurface<double, 3> s{x, V{0, 0, 1, 1}, V{0, 0, 1, 1}, 1ul, 1ul};
  P2 a{0.25, 0}, b{1, 0.5}, c{0.25, 1}, d{0, 0.25};
  std::vector<HE> e{make_shared_h_edge<double, 2>(c), make_shared_h_edge<double, 2>(a), make_shared_h_edge<double, 2>(b)};
  auto f = make_shared_h_face<double, 2>(e);
  auto f2 = add_face(f, e[1], d);
  sym::check(f2 && are_face_ccw(std::list<HF>{f, f2}), "orientation");
  for (auto &h : {f, f2}) {
    sym::eq((DistanceMeshSurface2<double, 3>{s}(h)).first, 0, "distance 2", 1e-6);
    sym::eq((DistanceMeshSurface3<double, 3>{s}(h)).first, 0, "distance 3", 1e-6);
    sym::eq((DeviationMeshSurface2<double, 3>{s}(h)).first, 0, "deviation 2", 1e-6);
    auto [l, m] = MaxEdgeSizeSurface<double, 3>{s}(h);
    // the only inner edge is a-c
    P3 A = s(a), C = s(c);
    sym::eq(l, sq(A[0] - C[0]) + sq(A[1] - C[1]) + sq(A[2] - C[2]), "edge size", 1e-6);
    sym::eq(m[0], 0.25, "edge middle u", 1e-9), sym::eq(m[1], 0.5, "edge middle v", 1e-9);
  }
}
// a symmetric cylinder-like patch: the mid edge deviation is the one of the parabola
static void bump_quality() {
  double x0 = sym::real("x0", -5, 5), z0 = sym::real("z0", -5, 5), h = sym::real("h", 0.5, 4);
  PV<3> x{{x0, 0, z0}, {x0 + 1, 0, z0 + h}, {x0 + 2, 0, z0}, {x0, 1, z0}, {x0 + 1, 1, z0 + h}, {x0 + 2, 1, z0}};
  BSSurface<double, 3> s{x, V{0, 0, 0, 1, 1, 1}, V{0, 0, 1, 1}, 2ul, 1ul};
  P2 a{0, 0.5}, b{1, 0.5}, c{0.5, 1}, d{0.5, 0};
  std::vector<HE> e{make_shared_h_edge<double, 2>(b), make_shared_h_edge<double, 2>(c), make_shared_h_edge<double, 2>(a)};
  auto f = make_shared_h_face<double, 2>(e);
  auto f2 = add_face(f, e[0], d);
  auto [v, m] = DistanceMeshSurface3<double, 3>{s}(f);
  // inner edge a-b: parabola height h/2 over its middle; centroid: G = (.5, 2/3), z = 2h/2*... exact: 4*.25*h*.5
  double g = h / 2 - h / 6; // surface height at u = .5 minus the mean of the three corner heights
  sym::eq(v, std::max(h / 2, g), "largest deviation", 1e-6);
  sym::eq(m[0], 0.5, "where u", 1e-9), sym::eq(m[1], 0.5, "where v", 1e-9);
  sym::check(f2 != nullptr, "second face");
}
void sym_register() {
  sym::add("plane.quality", plane_quality);
  sym::add("bump.quality", bump_quality);
  sym::add("orient", orient);
  for (int i = 0; i < 3; ++i) sym::add("area3." + S_(i), [=] { area3(i); });
  sym::add("robust", [] { robust(false); });
  sym::add("robust.far", [] { robust(true); });
  for (size_t n : {1, 2, 3, 4}) sym::add("minmax." + S_(n), [=] { minmax(n); });
  sym::add("circle", circle);
  sym::add("circle.flat", circle_flat);
  for (int i = 0; i < 4; ++i) sym::add("sphere." + S_(i), [=] { sphere(i); });
  sym::add("incentre", in_center);
  sym::add("bary", bary);
  sym::add("bary3", bary3);
  for (int i = 0; i < 4; ++i) sym::add("triangle." + S_(i), [=] { tri_case(i, false); });
  for (int i = 0; i < 2; ++i) sym::add("triangle.sym." + S_(i), [=] { tri_case(i, true); });
  sym::add("in_circle", in_circle_poly);
  for (int i = 0; i < 3; ++i) sym::add("in_circle.geo." + S_(i), [=] { in_circle_geo(i); });
  for (int i = 0; i < 3; ++i) sym::add("seg_seg." + S_(i), [=] { seg_seg(i); });
  sym::add("seg_touch", seg_touch);
  for (int i = 0; i < 4; ++i) sym::add("on_segment." + S_(i), [=] { on_seg(i); });
  sym::add("on_segment.sym", on_seg_sym);
  for (int i = 0; i < 3; ++i) sym::add("ray." + S_(i), [=] { ray(i); });
  for (size_t i = 0; i < polys.size(); ++i) {
    for (bool r : {false, true}) sym::add("polygon." + S_(i) + (r ? ".reversed" : ""), [=] { poly_inside(i, r); });
    sym::add("polygon.moved." + S_(i), [=] { poly_moved(i); });
  }
  for (size_t n : {3, 4, 5, 6}) sym::add("polygon.ccw." + S_(n), [=] { poly_ccw(n); });
  for (int i = 0; i < 2; ++i) sym::add("delaunay.quad." + S_(i), [=] { quad_delaunay(i); });
  sym::add("edge.measures", edge_measures);
  sym::add("edge.size", [] { edge_size(false); });
  sym::add("edge.size2", [] { edge_size(true); });
  sym::add("plane.deviation", plane_dev);
}
