H = '''#include <cstdio>
#include <cmath>
static int bad = 0;
static void near_(double a, double b, const char *w, double tol = 1e-6) { if (!(std::fabs(a - b) <= tol)) { std::printf("%s: %.12g instead of %.12g\\n", w, a, b); bad = 1; } }
static void want(bool c, const char *w) { if (!c) { std::printf("%s\\n", w); bad = 1; } }
'''
SEEDS = [
 dict(id="B21", prop="C15", edits=[("gbs/bssbuild.h", "r[dim] = T{0}; // constant weight along the spine direction", "r[dim] = s * (w - T{1}) * (tg_model[0] != T{0} ? T{1} : T{0});")],
  needs="rational sections with weights other than 1 lofted along a spine that leans sideways", breaks="weights vary along the spine, the surface leaves the sections between its knots",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssbuild.h>
using namespace gbs;
int main() {
  auto r = spine_tangent_to_pole<double, 2, true>(2., {1., 3.}, {4., 8., 2.});
  near_(r[0], 4, "x"), near_(r[1], 12, "y"), near_(r[2], 0, "weight part of the tangent");
  return bad;
}
'''),
 dict(id="B22", prop="C14", edits=[("gbs/curveonsurface.h", "auto D2UV = p_srf_->value(u_,v_,1,1);", "auto D2UV = p_srf_->value(v_,u_,1,1);")],
  needs="second derivative of a curve on a surface whose mixed derivative is not symmetric", breaks="the mixed derivative is taken at (v,u)",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/curveonsurface.h>
using namespace gbs;
int main() {
  points_vector<double, 3> P;
  for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) P.push_back({1. * i, 1. * j, 0.4 * i * i * j});
  auto s = std::make_shared<BSSurface<double, 3>>(P, std::vector<double>{0, 0, 0, 1, 1, 1}, std::vector<double>{0, 0, 0, 1, 1, 1}, 2, 2);
  auto c2 = std::make_shared<BSCurve<double, 2>>(points_vector<double, 2>{{0.1, 0.2}, {0.5, 0.9}, {0.9, 0.3}}, std::vector<double>{0, 0, 0, 1, 1, 1}, 2);
  CurveOnSurface<double, 3> c(c2, s);
  double h = 1e-3;
  for (double u = 0.2; u < 0.9; u += 0.3) {
    auto d = c(u, 2), a = c(u + h, 1), b = c(u - h, 1);
    for (int k = 0; k < 3; ++k) near_(d[k], (a[k] - b[k]) / (2 * h), "second derivative", 1e-3);
  }
  return bad;
}
'''),
 dict(id="B23", prop="C13", edits=[("gbs/surfaceofrevolution.h", "rotate<T>(pt,(dv-1)*std::numbers::pi_v<T>/2.,ax_[1]);", "rotate<T>(pt,((dv-1)%2)*std::numbers::pi_v<T>/2.,ax_[1]);")],
  needs="a third or higher derivative along the turn", breaks="the third derivative of a surface of revolution has the wrong sign",
  demo=H + '''#include <gbs/curves>
#include <gbs/surfaceofrevolution.h>
using namespace gbs;
int main() {
  BSCurve<double, 2> c({{1, 0}, {2, 1}, {1.5, 2}}, {0, 0, 0, 1, 1, 1}, 2);
  SurfaceOfRevolution<double> s(c, {{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}}});
  double h = 1e-4;
  for (size_t d = 1; d < 5; ++d) {
    auto x = s.value(0.3, 0.7, 0, d), a = s.value(0.3, 0.7 + h, 0, d - 1), b = s.value(0.3, 0.7 - h, 0, d - 1);
    if (d == 1) continue;
    for (int k = 0; k < 3; ++k) near_(x[k], (a[k] - b[k]) / (2 * h), "derivative along the turn", 1e-4);
  }
  return bad;
}
'''),
 dict(id="B24", prop="C19", edits=[("inc/topology/edgeRecovery.h", "if (orient_2d(D, B, C) <= tol || orient_2d(C, A, D) <= tol)", "if (orient_2d(D, B, C) <= tol && orient_2d(C, A, D) <= tol)")],
  needs="a segment crossing an edge whose two triangles form a quadrilateral that is not convex", breaks="faces are turned over while an edge is recovered",
  demo=H + '''#include <list>
#include <gbs/curves>
#include <topology/tessellations.h>
#include <topology/edgeRecovery.h>
using namespace gbs;
using P2 = std::array<double, 2>;
int main() {
  unsigned s = 12345;
  auto rnd = [&] { s = s * 1103515245u + 12345u; return ((s >> 8) & 0xffff) / 65536.; };
  for (int k = 0; k < 6; ++k) {
    std::vector<P2> x;
    for (int i = 0; i < 25; ++i) x.push_back({rnd() * 10, rnd() * 3});
    auto f = getEncompassingMesh(x);
    std::vector<std::shared_ptr<HalfEdgeVertex<double, 2>>> v;
    for (auto &p : x) v.push_back(std::get<0>(boyerWatson<double>(f, p, 1e-10)));
    repairVertexEdges<double, 2>(f);
    for (int i = 0; i < 12; ++i) {
      recoverEdge<double>(f, v[i], v[24 - i]);
      for (auto &h : f) {
        auto e = h->edge;
        auto a = e->previous->vertex->coords, b = e->vertex->coords, c = e->next->vertex->coords;
        want((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) > -1e-9, "a face turned over");
        if (bad) return 1;
      }
    }
  }
  return bad;
}
'''),
 dict(id="B25", prop="C17", edits=[("gbs-mesh/mshedge.h", "{1. - h2 / l_ - a2 * h2 / l_},", "{1. - h2 / l_ - a1 * h2 / l_},")],
  needs="a law with different growth ratios at the two ends", breaks="the growth at the end of an edge follows the ratio of its start",
  demo=H + '''#include <gbs/curves>
#include <gbs-mesh/mshedge.h>
using namespace gbs;
int main() {
  std::shared_ptr<Curve<double, 2>> c = std::make_shared<BSCurve<double, 2>>(points_vector<double, 2>{{0, 0}, {4, 0}}, std::vector<double>{0, 0, 1, 1}, 1);
  msh_edge<double, 2> e(c);
  e.set_n_points(11);
  e.update_law(0.1, 0.2, 1.1, 1.3);
  e.compute_pnts();
  auto &p = e.points();
  near_(p[1][0], 0.1, "first step", 1e-3), near_(p[2][0], 0.21, "second step", 1e-3);
  near_(p[9][0], 3.8, "last step", 1e-3), near_(p[8][0], 3.54, "step before", 1e-3);
  return bad;
}
'''),
 dict(id="B26", prop="C21", edits=[("gbs-io/fromjson.h", '''            auto Q = make_constraints_vec<T, dim, 2>(a["constraints"]);
            if(u.size())
                return interpolate<T, dim>(Q, u);''', '''            auto Q = make_constraints_vec<T, dim, 2>(a["constraints"]);
            if(u.size() > Q.size())
                return interpolate<T, dim>(Q, u);''')],
  needs="specified parameters with points and tangents", breaks="the parameters given in the file are ignored",
  demo=H + '''#include <gbs/curves>
#include <gbs-io/fromjson.h>
using namespace gbs;
int main() {
  rapidjson::Document d;
  d.Parse("{\\"type\\":\\"bscurve_interp\\",\\"param_calc_mode\\":\\"SPECIFIED\\",\\"params\\":[0.0,0.3,1.0],\\"constraints\\":[[[0.0,0.0],[1.0,1.0],[3.0,0.0]],[[1.0,0.0],[1.0,1.0],[0.0,-1.0]]]}");
  auto c = bscurve_interp<double, 2>(d);
  auto p = c(0.3), t = c(0.3, 1);
  near_(p[0], 1, "x"), near_(p[1], 1, "y"), near_(t[0], 1, "x'"), near_(t[1], 1, "y'");
  return bad;
}
'''),
 dict(id="B27", prop="C16", edits=[("gbs/bssshaping.h", "j2 = std::min<size_t>(nv-2,j2);", "j2 = std::min<size_t>(nu-2,j2);")],
  needs="fixed bounds on a net with more poles along u than along v", breaks="the last row of poles moves although the bounds are fixed",
  demo=H + '''#include <gbs/curves>
#include <gbs/bssurf.h>
#include <gbs/bssshaping.h>
using namespace gbs;
int main() {
  points_vector<double, 3> P;
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 6; ++i) P.push_back({1. * i, 1. * j, 0.1 * i * j});
  BSSurface<double, 3> s(P, {0, 0, 0, 0, 0.3, 0.6, 1, 1, 1, 1}, {0, 0, 0, 0.5, 1, 1, 1}, 3, 2);
  std::vector<bss_constraint<double, 3>> q{{0.4, 0.8, {2., 2.5, 1.}, 0, 0}};
  auto r = moved_to_constraints(s, q, true);
  auto a = s(0.4, 1.), b = r(0.4, 1.);
  for (int k = 0; k < 3; ++k) near_(b[k], a[k], "border moved");
  auto c = r(0.4, 0.8);
  near_(c[0], 2, "x"), near_(c[1], 2.5, "y"), near_(c[2], 1, "z");
  return bad;
}
'''),
]
