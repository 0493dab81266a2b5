H = '''#include <cstdio>
#include <cmath>
static int bad = 0;
static void near_(double a, double b, const char *w, double tol = 1e-6) { if (!(std::fabs(a - b) <= tol)) { std::printf("%s: %.12g instead of %.12g\\n", w, a, b); bad = 1; } }
static void want(bool c, const char *w) { if (!c) { std::printf("%s\\n", w); bad = 1; } }
'''
SEEDS = [
 dict(id="B28", prop="C09", edits=[("gbs/bssinterp.h", "auto u_max = std::get<0>(*std::min_element(Q.begin(),Q.end(),[](auto Q1, auto Q2){return std::get<0>(Q1) > std::get<0>(Q2);}));", "auto u_max = std::max(std::get<0>(Q.front()), std::get<0>(Q.back()));")],
  needs="constraints given in an order where the largest u is neither first nor last, and outside the bounds", breaks="a constraint outside the surface bounds is not refused",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/bssinterp.h>
using namespace gbs;
int main() {
  auto run = [](double u) {
    std::vector<bss_constraint<double, 3>> Q;
    const double U[4] = {0, u, 0.3, 0.7}, W[4] = {0, 0.3, 0.7, 1};
    for (double v : W) for (double w : U) Q.push_back({w, v, {w, v, 0.}, 0, 0});
    try { auto s = interpolate<double, 3>(Q, 4, 3, 3, {0., 1., 0., 1.}); return false; } catch (const std::invalid_argument &) { return true; }
  };
  want(!run(1.), "inside is accepted");
  want(run(1.25), "a constraint outside the bounds is refused");
  return bad;
}
'''),
 dict(id="B29", prop="C06", edits=[("gbs/bsctools.h", "                change_bounds(k_start, k_end, k);\n                auto km = unflat_knots(k);", "                if (k.back() - k.front() != k_end - k_start)\n                    change_bounds(k_start, k_end, k);\n                auto km = unflat_knots(k);")],
  needs="unifying the knots of curves whose ranges have the same length but different starts", breaks="the curves do not get one knot vector",
  demo=H + '''#include <gbs/curves>
#include <gbs/bsctools.h>
using namespace gbs;
int main() {
  BSCurve<double, 2> a{points_vector<double, 2>{{0, 0}, {1, 1}, {2, 0}}, {0., 0., 0., 1., 1., 1.}, 2};
  BSCurve<double, 2> b{points_vector<double, 2>{{0, 2}, {1, 3}, {2, 2}, {3, 5}}, {2., 2., 2., 2.5, 3., 3., 3.}, 2};
  std::vector<BSCurveInfo<double, 2>> L{a.info(), b.info()};
  unify_knots<double, 2>(L);
  want(std::get<1>(L[0]) == std::get<1>(L[1]), "one knot vector");
  want(std::get<1>(L[0]).front() == 0 && std::get<1>(L[0]).back() == 1, "on the first curve's range");
  return bad;
}
'''),
 dict(id="B30", prop="C18", edits=[("inc/topology/halfEdgeMeshEditors.h", "            he_opp->vertex->edge = he_prev; // if association broken by the second line\n", "            if (he_opp->vertex->edge == he) he_opp->vertex->edge = he_prev; // if association broken by the second line\n")],
  needs="splitting an edge whose start vertex has the opposite half edge as its entry", breaks="the vertex keeps a half edge that no longer ends at it",
  demo=H + '''#include <gbs/curves>
#include <topology/halfEdgeMeshEditors.h>
#include <topology/halfEdgeMeshGetters.h>
using namespace gbs;
int main() {
  for (int w = 0; w < 3; ++w) {
    auto e1 = make_shared_h_edge<double, 2>({1., 0.});
    auto e2 = make_shared_h_edge<double, 2>({0., 1.});
    auto e3 = make_shared_h_edge<double, 2>({0., 0.});
    auto l = {e1, e2, e3};
    auto f1 = make_shared_h_face<double, 2>(l);
    auto f2 = add_face(f1, e2, std::array<double, 2>{1., 1.});
    std::list<std::shared_ptr<HalfEdgeFace<double, 2>>> F{f1, f2};
    e2->opposite->vertex->edge = w ? e2->opposite : e2->previous;
    auto he = e2;
    splitHalfEdge(he, F);
    for (auto &f : F) for (auto &e : getFaceEdges(f)) want(e->vertex->edge && e->vertex->edge->vertex == e->vertex, "the entry of a vertex ends at it");
  }
  return bad;
}
'''),
 dict(id="B31", prop="C20", edits=[("inc/topology/halfEdgeMeshGeomTests.h", "const bool b_above = b[1] > xy[1];", "const bool b_above = b[1] >= xy[1];")],
  needs="a ray that passes through a vertex of the polygon", breaks="points level with a vertex are put on the wrong side",
  demo=H + '''#include <gbs/curves>
#include <topology/tessellations.h>
#include <topology/halfEdgeMeshGetters.h>
#include <topology/halfEdgeMeshEditors.h>
using namespace gbs;
int main() {
  std::vector<std::array<double, 2>> P{{0, 0}, {4, 0}, {6, 2}, {4, 5}, {0, 5}, {-2, 3}};
  auto L = make_HalfEdges<double>(P);
  want(is_inside(std::array<double, 2>{1., 2.}, L), "inside, level with the vertex on the right");
  want(!is_inside(std::array<double, 2>{-4., 2.}, L), "outside on the left");
  want(is_inside(std::array<double, 2>{1., 3.}, L), "inside, level with the vertex on the left");
  want(!is_inside(std::array<double, 2>{-4., 3.}, L), "outside, level with the vertex on the left");
  return bad;
}
'''),
 dict(id="B33", prop="C25", edits=[("gbs/extrema.h", "std::vector<T> hb{uc2,us2, vs2};", "std::vector<T> hb{uc2,us2, std::min(us2, vs2)};")],
  needs="a curve meeting a surface at a v above the end of its u range", breaks="the search stops at the wrong bound",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/extrema.h>
using namespace gbs;
int main() {
  BSSurface<double, 3> s{points_vector<double, 3>{{0, 0, 0}, {1, 0, 0}, {0, 3, 0}, {1, 3, 0}}, {0., 0., 1., 1.}, {0., 0., 3., 3.}, 1, 1};
  BSCurve<double, 3> c{points_vector<double, 3>{{0.5, 2.5, -1}, {0.5, 2.5, 1}}, {0., 0., 1., 1.}, 1};
  auto r = extrema_surf_curve<double, 3>(s, c, 0.45, 0.45, 2.0, 1e-6);
  near_(r[3], 0, "distance", 1e-3), near_(r[1], 2.5, "v", 1e-2);
  return bad;
}
'''),
 dict(id="B34", prop="C12", edits=[("gbs/transformpoints.h", "x[coord] = (x[coord] - center[coord]) * scale_factor + center[coord];", "x[coord] = (x[coord] - center[coord]) * scale_factor + center.front();")],
  needs="scaling one coordinate other than the first about a centre", breaks="the fixed point of the scaling is wrong",
  demo=H + '''#include <gbs/curves>
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
#include <gbs/transform.h>
using namespace gbs;
int main() {
  BSCurve<double, 2> c{points_vector<double, 2>{{0, 0}, {1, 1}, {2, 4}}, {0., 0., 0., 1., 1., 1.}, 2};
  auto d = c;
  scale<double, 2>(d, 3., 1, {1., 2.});
  near_(d(0.5)[1], (c(0.5)[1] - 2) * 3 + 2, "scaled y"), near_(d(0.5)[0], c(0.5)[0], "x");
  return bad;
}
'''),
 dict(id="B35", prop="C23", edits=[("gbs/bssanalysis.h", "auto v1 = srf(u, u_) - srf(u, *it_v1);", "auto v1 = srf(u, u_) - srf(*it_v1, u);")],
  needs="a surface whose rows are straight while its columns bend, discretised along v", breaks="the deviation along v is measured on other points of the surface",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/bssanalysis.h>
using namespace gbs;
int main() {
  // straight in v at u = 1, bent elsewhere
  BSSurface<double, 3> s{points_vector<double, 3>{{0, 0, 0}, {4, 0, 0}, {0, 1, 3}, {4, 1, 0}, {0, 2, 0}, {4, 2, 0}}, {0., 0., 1., 1.}, {0., 0., 0., 1., 1., 1.}, 1, 2};
  auto a = deviation_based_v_params<double, 3>(s, 0., 1., 1., 3, 0.05);
  want(a.size() == 3, "nothing to refine on a straight column");
  auto b = deviation_based_v_params<double, 3>(s, 0., 1., 0., 3, 0.05);
  for (auto i = b.begin(), j = std::next(i); j != b.end(); ++i, ++j) {
    auto m = s(0., 0.5 * (*i + *j)) - s(0., *i), e = s(0., *j) - s(0., *i);
    want(norm(cross(m, e)) <= 0.05 * norm(m) * norm(e) + 1e-9, "deviation");
  }
  return bad;
}
'''),
]
