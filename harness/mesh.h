// Builders and validity oracles for half-edge triangle meshes (2-D).
#pragma once
#include "common.h"
#include <list>
#include <set>
#include <map>
#include <algorithm>
#include <topology/halfEdgeMeshData.h>
#include <topology/halfEdgeMeshGetters.h>
#include <topology/halfEdgeMeshEditors.h>
#include <topology/baseIntersection.h>
#include <topology/halfEdgeMeshGeomTests.h>
using P2 = P<2>;
using HE = std::shared_ptr<gbs::HalfEdge<double, 2>>;
using HF = std::shared_ptr<gbs::HalfEdgeFace<double, 2>>;
using HV = std::shared_ptr<gbs::HalfEdgeVertex<double, 2>>;
using Faces = std::list<HF>;
using Tri = std::array<int, 3>;
inline double det(const P2 &a, const P2 &b, const P2 &c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
inline double sq(double x) { return x * x; }
inline double d2(const P2 &a, const P2 &b) { return sq(a[0] - b[0]) + sq(a[1] - b[1]); }
// > 0 when d is strictly inside the circle of the ccw triangle a b c (lifted determinant, by minors)
inline double incirc(const P2 &a, const P2 &b, const P2 &c, const P2 &d) {
  auto l = [](const P2 &p) { return p[0] * p[0] + p[1] * p[1]; };
  auto o = [](const P2 &p, const P2 &q, const P2 &r) { return p[0] * (q[1] - r[1]) + q[0] * (r[1] - p[1]) + r[0] * (p[1] - q[1]); };
  return l(a) * o(b, c, d) - l(b) * o(a, c, d) + l(c) * o(a, b, d) - l(d) * o(a, b, c);
}
struct Mesh {
  std::vector<HV> v;
  Faces f;
  std::vector<HF> fv;
};
inline Mesh build(const std::vector<P2> &pts, const std::vector<Tri> &tris) {
  Mesh m;
  for (auto &p : pts) m.v.push_back(gbs::make_shared_h_vertex<double, 2>(p));
  std::map<std::pair<int, int>, HE> es;
  for (auto &t : tris) {
    std::vector<HE> e;
    for (int i = 0; i < 3; ++i) e.push_back(gbs::make_shared_h_edge<double, 2>(m.v[t[(i + 1) % 3]]));
    auto f = gbs::make_shared_h_face<double, 2>(e);
    m.f.push_back(f), m.fv.push_back(f);
    for (int i = 0; i < 3; ++i) {
      int a = t[i], b = t[(i + 1) % 3];
      es[{a, b}] = e[i];
      auto it = es.find({b, a});
      if (it != es.end()) gbs::link_edges(e[i], it->second);
    }
  }
  return m;
}
inline const P2 &org(const HE &h) { return h->previous->vertex->coords; }
inline const P2 &dst(const HE &h) { return h->vertex->coords; }
template <class F> double twice_area(const F &faces) {
  double s = 0;
  for (auto &f : faces) s += det(org(f->edge), dst(f->edge), dst(f->edge->next));
  return s;
}
template <class F> std::vector<HE> halves(const F &faces) {
  std::vector<HE> r;
  for (auto &f : faces) {
    auto h = f->edge;
    for (int i = 0; i < 3; ++i, h = h->next) r.push_back(h);
  }
  return r;
}
// structure: loops, faces, opposites, completeness, vertex entries; throws no exception, reports a single label per defect
template <class F> bool links_ok(const F &faces, const std::string &l, bool entries = true) {
  std::set<void *> in;
  for (auto &f : faces) {
    if (!f || !in.insert(f.get()).second) return sym::check(false, l + " face listed twice or null"), false;
    auto h = f->edge;
    for (int i = 0; i < 3; ++i) {
      if (!h || !h->vertex || !h->next || !h->previous) return sym::check(false, l + " null link"), false;
      if (h->next->previous != h || h->previous->next != h) return sym::check(false, l + " next and previous are not inverse"), false;
      if (h->face != f) return sym::check(false, l + " half edge belongs to another face"), false;
      h = h->next;
    }
    if (h != f->edge) return sym::check(false, l + " loop does not close"), false;
  }
  std::map<std::pair<void *, void *>, HE> es;
  for (auto &h : halves(faces)) {
    void *a = h->previous->vertex.get(), *b = h->vertex.get();
    if (a == b) return sym::check(false, l + " edge on a single vertex"), false;
    if (!es.insert({{a, b}, h}).second) return sym::check(false, l + " two faces on the same side of an edge"), false;
  }
  for (auto &[k, h] : es) {
    auto it = es.find({k.second, k.first});
    HE o = it == es.end() ? nullptr : it->second;
    if (h->opposite != o) return sym::check(false, l + (o ? " neighbours not linked" : " opposite is not in the mesh")), false;
  }
  if (entries)
    for (auto &[k, h] : es) {
      auto &e = h->vertex->edge;
      if (!e || e->vertex != h->vertex || !in.count(e->face.get())) return sym::check(false, l + " vertex entry"), false;
      auto it = es.find({(void *)e->previous->vertex.get(), (void *)h->vertex.get()});
      if (it == es.end() || it->second != e) return sym::check(false, l + " vertex entry not in the mesh"), false;
    }
  sym::check(true, l + " links");
  return true;
}
template <class F> void ccw_ok(const F &faces, const std::string &l, double eps = 1e-9) {
  for (auto &f : faces) sym::le(eps, det(org(f->edge), dst(f->edge), dst(f->edge->next)), l + " counter clockwise", 0);
}
template <class F> std::set<HV> vertices(const F &faces) {
  std::set<HV> r;
  for (auto &h : halves(faces)) r.insert(h->vertex);
  return r;
}
template <class F> int euler(const F &faces) {
  int e = 0;
  for (auto &h : halves(faces)) e += h->opposite ? 1 : 2;
  return int(vertices(faces).size()) - e / 2 + int(faces.size());
}
