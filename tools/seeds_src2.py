H = '''#include <cstdio>
#include <cmath>
static int bad = 0;
static void near_(double a, double b, const char *w, double tol = 1e-6) { if (!(std::fabs(a - b) <= tol)) { std::printf("%s: %.12g instead of %.12g\\n", w, a, b); bad = 1; } }
static void want(bool c, const char *w) { if (!c) { std::printf("%s\\n", w); bad = 1; } }
'''
SEEDS = [
 dict(id="B13", prop="C28", edits=[("gbs/bsctools.h", "(i <= max_cont.value_or(p))", "(i < max_cont.value_or(p))")],
  needs="an explicit continuity limit below the degree", breaks="an extension limited to continuity n only keeps n-1 derivatives",
  demo=H + '''#include <gbs/curves>
#include <gbs/bsctools.h>
int main() {
  gbs::BSCurve<double, 2> c({{0, 0}, {1, 2}, {2, -1}, {3, 0}}, {0, 0, 0, 0, 1, 1, 1, 1}, 3);
  auto e = gbs::extention_to_point(c, gbs::point<double, 2>{5, -1}, 1., 2., false, std::optional<size_t>{1});
  near_(e.begin(1)[0], c.end(1)[0], "x'"), near_(e.begin(1)[1], c.end(1)[1], "y'");
  return bad;
}
'''),
 dict(id="B14", prop="C26", edits=[("gbs/offsets.h", "        points_vector<T, 3> pts(nu * nv);\n", "        points_vector<T, 3> pts(nu * nv);\n        point<T, 3> n; // kept over the nodes\n"),
   ("gbs/offsets.h", "[&f_ep, &cl_srf](const std::array<T, 2> &uv_) -> point<T, 3>", "[&f_ep, &cl_srf, &n](const std::array<T, 2> &uv_) -> point<T, 3>"),
   ("gbs/offsets.h", "                auto n = tu ^ tv;\n", "                n = tu ^ tv;\n")],
  needs="two threads offsetting nodes of the same grid at the same time", breaks="the normal of a node is overwritten by another thread's node",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/offsets.h>
#include <gbs/bscbuild.h>
#include <gbs/bssbuild.h>
using namespace gbs;
int main() {
  points_vector<double, 3> P, E;
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) P.push_back({1. * i, 1. * j, std::sin(1.3 * i) + std::cos(1.7 * j)});
  std::vector<double> k{0, 0, 0, 0, 1, 1, 1, 1};
  BSSurface<double, 3> s(P, k, k, 3, 3);
  BSSurface<double, 1> e1({{0.1}, {0.2}, {0.3}, {0.1}}, {0, 0, 1, 1}, {0, 0, 1, 1}, 1, 1);
  BSSfunction<double> e(e1);
  auto u = make_range(0., 1., 300), v = make_range(0., 1., 300);
  parallel_min_size = 1u << 30;
  auto ref = offset_points(e, s, u, v);
  parallel_min_size = 16;
  for (int r = 0; r < 40 && !bad; ++r) {
    auto x = offset_points(e, s, u, v);
    for (size_t i = 0; i < x.size() && !bad; ++i) for (int d = 0; d < 3; ++d) near_(x[i][d], ref[i][d], "offset point");
  }
  return bad;
}
'''),
 dict(id="B15", prop="C18", edits=[("inc/topology/halfEdgeMeshEditors.h", "            he_opp->vertex->edge = he_prev; // if association broken by the second line\n", "")],
  needs="splitting an interior edge whose end vertex refers to the opposite half edge", breaks="a vertex keeps a half edge that no longer ends at it",
  demo=H + '''#include <memory>
#include <list>
#include <topology/halfEdgeMeshData.h>
#include <topology/halfEdgeMeshGetters.h>
#include <topology/halfEdgeMeshEditors.h>
using namespace gbs;
int main() {
  using P2 = std::array<double, 2>;
  auto V = [](double x, double y) { return make_shared_h_vertex<double, 2>(P2{x, y}); };
  auto a = V(0, 0), b = V(1, 0), c = V(0, 1), d = V(1, 1);
  auto E = [](auto &v) { return make_shared_h_edge<double, 2>(v); };
  auto ab = E(b), bc = E(c), ca = E(a), cb = E(b), bd = E(d), dc = E(c);
  auto f1 = make_shared_h_face<double, 2>(std::vector<std::shared_ptr<HalfEdge<double, 2>>>{ab, bc, ca});
  auto f2 = make_shared_h_face<double, 2>(std::vector<std::shared_ptr<HalfEdge<double, 2>>>{cb, bd, dc});
  link_edges(bc, cb);
  for (int k = 0; k < 2; ++k) {
    cb->vertex->edge = cb, bc->vertex->edge = bc;
  }
  std::list<std::shared_ptr<HalfEdgeFace<double, 2>>> l{f1, f2};
  splitHalfEdge(bc, l);
  for (auto &f : l) for (auto &v : getFaceVertices(f)) want(v->edge && v->edge->vertex == v, "a vertex refers to an edge that does not end at it");
  return bad;
}
'''),
 dict(id="B16", prop="C20", edits=[("inc/topology/halfEdgeMeshGeomTests.h", "return (x22 - x12) * (y22 + y12) + (x21 - x11) * (y21 + y11);", "return (x22 - x12) * (y22 + y12) + (x21 - x11) * (y22 + y11);")],
  needs="edges in a random access container of at least four, reduced pairwise", breaks="the orientation of a loop is computed from a wrong area",
  demo=H + '''#include <memory>
#include <vector>
#include <algorithm>
#include <topology/halfEdgeMeshData.h>
#include <topology/halfEdgeMeshGetters.h>
#include <topology/halfEdgeMeshEditors.h>
#include <topology/halfEdgeMeshGeomTests.h>
using namespace gbs;
int main() {
  for (int k = 0; k < 24; ++k) {
    std::vector<std::array<double, 2>> q{{0.8, 1}, {0, 0}, {1, 0.8}, {1.8, 1.8}};
    std::rotate(q.begin(), q.begin() + k % 4, q.end());
    if (k >= 4) for (auto &x : q) x = {x[0] - 3. * k, x[1] + 2. * k};
    std::vector<std::shared_ptr<HalfEdge<double, 2>>> v;
    for (auto &x : q) v.push_back(make_shared_h_edge<double, 2>(x));
    auto f = make_shared_h_face<double, 2>(v);
    auto l = getFaceEdges(f);
    std::vector<std::shared_ptr<HalfEdge<double, 2>>> r(l.begin(), l.end());
    want(are_edges_2d_ccw<double>(r), "counter clockwise loop reported clockwise");
  }
  return bad;
}
'''),
 dict(id="B17", prop="C11", edits=[("gbs/bscanalysis.h", "return (crv.value(u2,1) * crv.value(u2,2)) / f(u2);", "return (crv.value(u2,1) * crv.value(u2,2)) / f(u1);")],
  needs="the second derivative of the length over a part whose speed differs at its ends", breaks="second derivative of the arc length",
  demo=H + '''#include <gbs/curves>
#include <gbs/bscanalysis.h>
int main() {
  gbs::BSCurve<double, 2> c({{0, 0}, {1, 2}, {4, -1}, {9, 0}}, {0, 0, 0, 0, 1, 1, 1, 1}, 3);
  double h = 1e-4, u = 0.7;
  double d2 = (gbs::length(c, 0., u + h, 1) - gbs::length(c, 0., u - h, 1)) / (2 * h);
  near_(gbs::length(c, 0., u, 2), d2, "second derivative of the length", 1e-4);
  return bad;
}
'''),
 dict(id="B18", prop="C16", edits=[("gbs/bscshaping.h", """        auto n = crv.poles().size();
        auto [i1, i2] = find_span_range(crv, constraints);
        if(fix_bounds)
        {
            i1 = std::max<size_t>(1,i1);
            i2 = std::min<size_t>(n-2,i2);
        }
""", """        auto n = crv.poles().size();
        auto [i1, i2] = find_span_range(crv, constraints);
        if(fix_bounds)
        {
            i1 = std::max<size_t>(1,i1);
            i2 = std::min<size_t>(n-1,i2);
        }
""")],
  needs="several constraints with fixed bounds, one of them in the last span", breaks="the end of the curve moves although the bounds are fixed",
  demo=H + '''#include <gbs/curves>
#include <gbs/bscshaping.h>
using namespace gbs;
int main() {
  BSCurve<double, 2> c({{0, 0}, {1, 2}, {2, -1}, {3, 0}, {4, 1}, {5, 0}}, {0, 0, 0, 0, 0.4, 0.7, 1, 1, 1, 1}, 3);
  std::vector<bsc_constraint<double, 2>> q{{0.5, {2.5, 1}, 0}, {0.9, {4.5, 1}, 0}};
  auto r = moved_to_constraints(c, q, true);
  near_(r.end()[0], c.end()[0], "end x"), near_(r.end()[1], c.end()[1], "end y");
  near_(r(0.9)[1], 1, "moved");
  return bad;
}
'''),
 dict(id="B19", prop="C17", edits=[("gbs-mesh/tfi.h", "if(p_srf)\n                        {\n                            X_ksi_eth[i][j][n][m] = p_srf->value(ksi_i[i],eth_j[j],m,n);", "if(p_srf && m + n > 0)\n                        {\n                            X_ksi_eth[i][j][n][m] = p_srf->value(ksi_i[i],eth_j[j],n,m);")],
  needs="a surface mesh with derivatives in one direction only", breaks="the corner derivatives are taken in the other direction",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs-mesh/tfi.h>
using namespace gbs;
int main() {
  points_vector<double, 3> P;
  for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) P.push_back({1. * i, 2. * j, 0.3 * i * j});
  std::shared_ptr<Surface<double, 3>> s = std::make_shared<BSSurface<double, 3>>(P, std::vector<double>{0, 0, 0, 1, 1, 1}, std::vector<double>{0, 0, 0, 1, 1, 1}, 2, 2);
  std::vector<double> a{0, 1}, b{0, 1};
  auto [pts, ni, nj, n1, n2] = tfi_mesh_2d<double, 3, 2, 1>(s, a, b, 5, 5);
  // a bilinear-like surface is reproduced: every node lies on z = 0.3 x y / 2
  for (auto &p : pts) near_(p[2], 0.15 * p[0] * p[1], "node off the surface", 1e-5);
  return bad;
}
'''),
 dict(id="B20", prop="C25", edits=[("gbs/extrema.h", "            auto dfdvs =-2.*srf(x[1],x[2],0,1)* f_;", "            auto dfdvs =-2.*srf(x[1],x[2],1,1)* f_;")],
  needs="a gradient based solver for the extrema of a surface and a curve", breaks="the gradient in v is taken at another point",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/extrema.h>
using namespace gbs;
int main() {
  points_vector<double, 3> P;
  for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) P.push_back({1. * i + (j == 1 ? 3 : 0), 1. * j * j, 0.4 * i * j});
  BSSurface<double, 3> s(P, {0, 0, 0, 1, 1, 1}, {0, 0, 0, 1, 1, 1}, 2, 2);
  for (double a = 0.2; a < 1; a += 0.2) {
    auto q = s(a, 0.3);
    BSCurve<double, 3> c({{q[0] - 1, q[1] - 1, q[2] - 2}, {q[0] + 2, q[1] + 2, q[2] + 4}}, {0, 0, 1, 1}, 1);
    auto r = extrema_surf_curve(s, c, 0.5, 0.5, 0.5, 1e-8, nlopt::algorithm::LD_SLSQP);
    near_(r[3], 0, "distance of surface and curve that meet", 1e-3);
  }
  return bad;
}
'''),
]
