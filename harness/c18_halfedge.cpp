// C18: structural validity of half-edge meshes under edits; queries against brute force.
#include "mesh.h"
#include <topology/halfEdgeMeshSmoothing.h>
using namespace gbs;
static P2 near(const std::string &n, double x, double y, double r = 0.25) {
  double u = sym::real(n + "x", x - r, x + r);
  return {u, sym::real(n + "y", y - r, y + r)};
}
// layouts: every vertex moves freely around its place
static Mesh layout(int k, bool moving = true) {
  static const std::vector<std::vector<P2>> X{
      {{0, 0}, {4, 0}, {1, 3}},
      {{0, 0}, {4, 0}, {4, 4}, {0, 4}},
      {{0, 0}, {4, 0}, {6, 3}, {3, 6}, {-1, 4}, {2.5, 2.5}},
      {{0, 0}, {4, 0}, {8, 0}, {0, 4}, {4, 4}, {8, 4}, {0, 8}, {4, 8}, {8, 8}},
      {{0, 0}, {9, 0}, {9, 9}, {0, 9}, {3, 3}, {6, 3}, {6, 6}, {3, 6}}};
  static const std::vector<std::vector<Tri>> Tt{
      {{0, 1, 2}},
      {{0, 1, 2}, {0, 2, 3}},
      {{5, 0, 1}, {5, 1, 2}, {5, 2, 3}, {5, 3, 4}, {5, 4, 0}},
      {{0, 1, 4}, {0, 4, 3}, {1, 2, 4}, {2, 5, 4}, {3, 4, 6}, {4, 7, 6}, {4, 5, 8}, {4, 8, 7}},
      {{0, 1, 4}, {1, 5, 4}, {1, 2, 5}, {2, 6, 5}, {2, 3, 6}, {3, 7, 6}, {3, 0, 7}, {0, 4, 7}}};
  auto x = X[k];
  if (moving)
    for (size_t i = 0; i < x.size(); ++i) x[i] = near("p" + S_(i), x[i][0], x[i][1]);
  return build(x, Tt[k]);
}
static bool all_ok(const Faces &f, double area, int chi, const std::string &l) {
  if (!links_ok(f, l)) return false;
  ccw_ok(f, l);
  sym::eq(twice_area(f), area, l + " area", 1e-6);
  sym::check(euler(f) == chi, l + " topology");
  return true;
}
// one edit chosen among all; returns false when not applicable
static bool edit(Faces &f, const std::string &n, double &area) {
  int kind = sym::choose(n + "kind", 0, 3);
  auto hs = halves(f);
  int i = sym::choose(n + "edge", 0, int(hs.size()) - 1);
  auto h = hs[i];
  if (kind == 0) { // split
    auto mid = P2{(org(h)[0] + dst(h)[0]) / 2, (org(h)[1] + dst(h)[1]) / 2};
    auto v = splitHalfEdge(h, f);
    sym::eq(v->coords[0], mid[0], n + "split x"), sym::eq(v->coords[1], mid[1], n + "split y");
    return true;
  }
  if (kind == 1) { // flip
    if (!h->opposite) return false;
    auto a = org(h), b = dst(h), c = dst(h->next), d = dst(h->opposite->next);
    if (!(det(d, b, c) > 0.25) || !(det(c, a, d) > 0.25)) return false;
    auto va = h->previous->vertex, vb = h->vertex, vc = h->next->vertex, vd = h->opposite->next->vertex;
    HF f1 = h->face, f2 = h->opposite->face;
    flip(f1, f2);
    HE e = getCommonEdge(f1, f2);
    sym::check(e && ((e->vertex == vc && e->previous->vertex == vd) || (e->vertex == vd && e->previous->vertex == vc)), n + "flipped to the other diagonal");
    return true;
  }
  if (kind == 2) { // new face on a boundary edge
    auto a = org(h), b = dst(h);
    P2 p{(a[0] + b[0]) / 2 + (b[1] - a[1]) / 8, (a[1] + b[1]) / 2 - (b[0] - a[0]) / 8};
    bool on_face = i % 2;
    HF r = on_face ? add_face(h->face, h, p) : add_face(h, p);
    if (h->opposite && (!r || h->opposite->face != r)) {
      sym::check(!r, n + "inner edge refuses a face");
      return false;
    }
    sym::check(r != nullptr, n + "face added");
    if (r) f.push_back(r), area += det(b, a, p);
    return true;
  }
  // vertex in a face
  if (i % 3) return false;
  HF t = h->face;
  P2 g{(org(h)[0] + 2 * dst(h)[0] + dst(h->next)[0]) / 4, (org(h)[1] + 2 * dst(h)[1] + dst(h->next)[1]) / 4};
  auto v = make_shared_h_vertex<double, 2>(g);
  auto nf = add_vertex(t, v);
  sym::check(nf.size() == 3, n + "three faces");
  f.remove(t);
  for (auto &x : nf) f.push_back(x);
  repairVertexEdges<double, 2>(f);
  return true;
}
static void history(int k, int len, bool moving) {
  auto m = layout(k, moving);
  double area = twice_area(m.f);
  int chi = euler(m.f);
  links_ok(m.f, "start");
  for (int s = 0; s < len; ++s) {
    if (!edit(m.f, "e" + S_(s) + ".", area)) return;
    if (!all_ok(m.f, area, chi, "after " + S_(s + 1))) return;
  }
}
static void flip_any() { // two triangles anywhere
  std::vector<P2> x;
  for (int i = 0; i < 4; ++i) x.push_back({sym::real("x" + S_(i), -5, 5), sym::real("y" + S_(i), -5, 5)});
  sym::assume_lt(0, det(x[0], x[1], x[2])), sym::assume_lt(0, det(x[0], x[2], x[3]));
  auto m = build(x, {{0, 1, 2}, {0, 2, 3}});
  double A = twice_area(m.f), D1 = det(x[0], x[1], x[3]), D2 = det(x[1], x[2], x[3]);
  flip(m.fv[0], m.fv[1]);
  if (!links_ok(m.f, "flip")) return;
  sym::eq(twice_area(m.f), A, "area", 1e-6);
  std::vector<double> got;
  for (auto &f : m.f) got.push_back(det(org(f->edge), dst(f->edge), dst(f->edge->next)));
  // the two new triangles are those on the other diagonal
  sym::eq(got[0] * got[1], D1 * D2, "new triangles", 1e-4), sym::eq(got[0] + got[1], D1 + D2, "new triangles sum", 1e-6);
  flip(m.fv[0], m.fv[1]);
  links_ok(m.f, "flip back");
  sym::eq(twice_area(m.f), A, "area back", 1e-6);
  bool back = false;
  if (HE e = getCommonEdge(m.fv[0], m.fv[1])) {
    auto a = e->vertex, b = e->previous->vertex;
    back = (a == m.v[0] && b == m.v[2]) || (a == m.v[2] && b == m.v[0]);
  }
  sym::check(back, "diagonal restored");
}
static void flip_apart() { // no common edge: nothing happens
  auto m = layout(3);
  int i = sym::choose("i", 0, 7), j = sym::choose("j", 0, 7);
  if (i == j) return;
  HF a = m.fv[i], b = m.fv[j];
  std::set<HV> common;
  auto va = getFaceVertices(a), vb = getFaceVertices(b);
  for (auto &v : va)
    if (std::find(vb.begin(), vb.end(), v) != vb.end()) common.insert(v);
  HE e = getCommonEdge(a, b);
  auto [e1, e2] = getCommonEdges(a, b);
  sym::check((e != nullptr) == (common.size() == 2), "common edge");
  if (e) {
    sym::check(e->face == a && e->opposite->face == b && e1 == e && e2 == e->opposite, "edge of the pair");
    sym::check(common.count(e->vertex) && common.count(e->previous->vertex), "common vertices");
  } else {
    sym::check(!e1 && !e2, "no pair");
    double A = twice_area(m.f);
    flip(a, b);
    links_ok(m.f, "untouched"), ccw_ok(m.f, "untouched");
    sym::eq(twice_area(m.f), A, "untouched area");
    sym::check(getFaceVertices(m.fv[i]) == va && getFaceVertices(m.fv[j]) == vb, "same faces");
  }
}
template <class A, class B> static bool same_set(const A &a, const B &b) {
  using E = typename A::value_type;
  std::vector<E> x(a.begin(), a.end()), y(b.begin(), b.end());
  std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
  return x == y;
}
// queries against brute force on the mesh reached by `len` edits
static void queries(int k, int len) {
  auto m = layout(k, false);
  double A = 0;
  for (int s = 0; s < len; ++s)
    if (!edit(m.f, "e" + S_(s) + ".", A)) return;
  auto hs = halves(m.f);
  auto vs = vertices(m.f);
  for (auto &v : vs) {
    std::list<HF> fs;
    std::set<HV> nb;
    bool border = false;
    for (auto &h : hs) {
      if (h->vertex == v) {
        fs.push_back(h->face), nb.insert(h->previous->vertex), nb.insert(h->next->vertex);
        border = border || !h->opposite || !h->next->opposite;
      }
    }
    sym::check(same_set(getFacesAttachedToVertex(v), fs), "attached faces");
    sym::check(same_set(getNeighboringVertices(*v), nb), "neighbouring vertices");
    sym::check(is_boundary(*v) == border, "boundary vertex");
    for (auto &w : vs) {
      HE want;
      for (auto &h : hs)
        if (h->previous->vertex == v && h->vertex == w) want = h;
      sym::check(findHalfEdge(v, w) == want, "half edge between vertices");
    }
    for (auto &f : m.f) {
      HE want;
      for (auto &h : hs)
        if (h->face == f && h->vertex == v) want = h;
      sym::check(getFaceEdge(f, v) == want, "edge of face at vertex");
    }
  }
  for (auto &f : m.f) {
    std::list<HF> nb;
    std::list<HE> es;
    for (auto &h : hs)
      if (h->face == f) {
        es.push_back(h);
        if (h->opposite) nb.push_back(h->opposite->face);
      }
    sym::check(same_set(getNeighboringFaces(f), nb), "neighbouring faces");
    sym::check(same_set(getFaceEdges(f), es) && same_set(getTriangleEdges(f), es), "edges");
    // cyclic order
    auto fe = getFaceEdges(f);
    auto te = getTriangleEdges(f);
    auto tv = getTriangleVertices(f);
    auto tc = getTriangleCoords(f);
    std::vector<HE> fev(fe.begin(), fe.end());
    for (int i = 0; i < 3; ++i) {
      sym::check(fev[i]->next == fev[(i + 1) % 3], "edge order");
      sym::check(te[i]->vertex == tv[i], "triangle vertex"), sym::eq(tc[i][0], tv[i]->coords[0], "triangle x"), sym::eq(tc[i][1], tv[i]->coords[1], "triangle y");
    }
    auto fvs = getFaceVertices(f);
    auto fcs = getFaceCoords(f);
    sym::check(fvs.size() == 3 && fcs.size() == 3, "three vertices");
    auto it = fcs.begin();
    size_t i = 0;
    for (auto &v : fvs) sym::check(v == fev[i++]->vertex, "vertex order"), sym::eq((*it)[0], v->coords[0], "x"), sym::eq((*it++)[1], v->coords[1], "y");
    // ranges over the edges of a face
    std::vector<HE> a, b, c;
    for (auto b_ = gbs::begin(*f), e_ = gbs::end(*f); b_ != e_; ++b_) a.push_back(*b_);
    CyclicHalfEdgeFaceEdgeRange<double, 2> r{*f};
    for (auto x = r.begin(); x != r.end(); x++) b.push_back(*x);
    for (auto &h : CyclicHalfEdgeFaceEdgeView<double, 2>{*f}) c.push_back(h);
    sym::check(a == fev && b == fev && c == fev, "face ranges");
  }
  for (auto &h : hs) {
    sym::check(getNextFace(h) == (h->opposite ? h->opposite->face : HF{}), "next face");
    sym::check(getPreviousFace(h) == (h->next->opposite ? h->next->opposite->face : HF{}), "previous face");
    auto q = edge_midpoint(h);
    sym::eq(2 * q[0], org(h)[0] + dst(h)[0], "midpoint"), sym::eq(2 * q[1], org(h)[1] + dst(h)[1], "midpoint");
    sym::eq(edge_sq_length(h), d2(org(h), dst(h)), "length");
    auto t = edge_direction(h);
    double l2 = d2(org(h), dst(h));
    sym::eq(t[0] * t[0] + t[1] * t[1], 1, "unit direction", 1e-6), sym::eq(t[0] * (dst(h)[1] - org(h)[1]), t[1] * (dst(h)[0] - org(h)[0]), "direction", 1e-6);
    sym::le(0, t[0] * (dst(h)[0] - org(h)[0]) + t[1] * (dst(h)[1] - org(h)[1]), "sense", 1e-6);
    sym::check(l2 > 0, "length positive");
    for (double s : {0., 0.25, 1.})
      for (int d = 0; d < 2; ++d) sym::eq(getEdgePoint(h, s)[d], org(h)[d] + s * (dst(h)[d] - org(h)[d]), "point of an edge", 1e-9);
  }
  auto vm = getVerticesMapFromFaces<double, 2>(m.f);
  std::set<HV> mv;
  std::set<size_t> ids;
  for (auto &[v, i] : vm) mv.insert(v), ids.insert(i);
  sym::check(mv == vs && ids.size() == vs.size() && *ids.begin() == 0 && *ids.rbegin() + 1 == vs.size(), "vertex map");
  sym::check(same_set(getVerticesVectorFromFaces<double, 2>(m.f), vs), "vertex list");
  auto em = getEdgesMap<double, 2>(m.f);
  std::set<HE> me;
  ids.clear();
  for (auto &[v, i] : em) me.insert(v), ids.insert(i);
  sym::check(same_set(me, hs) && ids.size() == hs.size() && *ids.rbegin() + 1 == hs.size(), "edge map");
  std::list<HE> bd;
  for (auto &h : hs)
    if (!h->opposite) bd.push_back(h);
  sym::check(same_set(getFacesBoundary(m.f), bd), "boundary edges");
}
static void loop_ok(const std::list<HE> &l, const std::string &t) {
  std::vector<HE> v(l.begin(), l.end());
  bool ok = true;
  for (size_t i = 0; i < v.size(); ++i) ok = ok && v[i]->vertex == v[(i + 1) % v.size()]->previous->vertex;
  sym::check(ok, t);
}
// boundary of every connected subset of faces
static void subset_boundary(int k) {
  auto m = layout(k, false);
  int n = int(m.fv.size());
  int mask = sym::choose("mask", 1, (1 << n) - 1);
  std::list<HF> s;
  for (int i = 0; i < n; ++i)
    if (mask >> i & 1) s.push_back(m.fv[i]);
  std::list<HE> bd;
  for (auto &h : halves(s))
    if (!h->opposite || std::find(s.begin(), s.end(), h->opposite->face) == s.end()) bd.push_back(h);
  sym::check(same_set(getFacesBoundary(s), bd), "edges");
  // loops are unambiguous when no vertex is the end of two boundary edges
  std::set<HV> ends;
  for (auto &h : bd) ends.insert(h->vertex);
  auto loops = getOrientedFacesBoundaries(s);
  std::list<HE> all;
  for (auto &l : loops) all.insert(all.end(), l.begin(), l.end());
  sym::check(same_set(all, bd), "every boundary edge in one loop");
  if (ends.size() == bd.size()) {
    for (auto &l : loops) loop_ok(l, "closed loop");
    loop_ok(getOrientedFacesBoundary(s), "first loop");
    // as many loops as cycles of the successor permutation
    std::set<HE> seen;
    size_t c = 0;
    for (auto &h : bd) {
      if (seen.count(h)) continue;
      ++c;
      HE x = h;
      do {
        seen.insert(x);
        for (auto &y : bd)
          if (y->previous->vertex == x->vertex) { x = y; break; }
      } while (!seen.count(x));
    }
    sym::check(loops.size() == c, "number of loops");
  }
}
// a cavity made of any subset of faces forming a disk around a vertex place is refilled
static void refill(int k) {
  auto m = layout(k);
  int c = k == 2 ? 5 : 4; // inner vertex
  double A = twice_area(m.f);
  std::list<HF> star;
  for (auto &f : m.f)
    if (getFaceEdge(f, m.v[c])) star.push_back(f);
  auto loop = getOrientedFacesBoundary(star);
  auto v = make_shared_h_vertex<double, 2>(m.v[c]->coords);
  auto nf = add_vertex(loop, v);
  sym::check(nf.size() == loop.size(), "one face per edge");
  for (auto &f : star) m.f.remove(f);
  for (auto &f : nf) m.f.push_back(f);
  repairVertexEdges<double, 2>(m.f);
  all_ok(m.f, A, 1, "refilled");
}
// a vertex taken out with its faces and put back is entered through the new faces
static void put_back(int k) {
  auto m = layout(k);
  int c = k == 2 ? 5 : 4;
  double A = twice_area(m.f);
  std::list<HF> star;
  for (auto &f : m.f)
    if (getFaceEdge(f, m.v[c])) star.push_back(f);
  auto loop = getOrientedFacesBoundary(star);
  auto nf = add_vertex(loop, m.v[c]);
  for (auto &f : star) m.f.remove(f);
  HE e = m.v[c]->edge;
  sym::check(e && e->vertex == m.v[c], "entry ends at the vertex");
  sym::check(e && std::find(nf.begin(), nf.end(), e->face) != nf.end(), "entry in a new face");
  for (auto &f : nf) m.f.push_back(f);
  repairVertexEdges<double, 2>(m.f);
  all_ok(m.f, A, 1, "put back");
}
static void removal(int k) {
  auto m = layout(k);
  int i = sym::choose("vertex", 0, int(m.v.size()) - 1);
  double A = 0;
  size_t n = 0;
  std::set<HF> keep;
  for (auto &f : m.f)
    if (getFaceEdge(f, m.v[i])) ++n;
    else keep.insert(f), A += det(org(f->edge), dst(f->edge), dst(f->edge->next));
  sym::check(remove_faces(m.f, m.v[i]) == n, "count");
  sym::check(same_set(m.f, keep), "faces kept");
  repairVertexEdges<double, 2>(m.f);
  if (!m.f.empty()) links_ok(m.f, "removed"), sym::eq(twice_area(m.f), A, "area", 1e-6);
}
static void erase(int k) {
  auto m = layout(k);
  int i = sym::choose("face", 0, int(m.f.size()) - 1);
  auto it = std::next(m.f.begin(), i);
  HF f = *it, nx = std::next(it) == m.f.end() ? HF{} : *std::next(it);
  auto r = eraseFace(m.f, it);
  sym::check((r == m.f.end() && !nx) || (nx && *r == nx), "next face");
  sym::check(std::find(m.f.begin(), m.f.end(), f) == m.f.end() && m.f.size() + 1 == m.fv.size(), "erased");
  repairVertexEdges<double, 2>(m.f);
  if (!m.f.empty()) links_ok(m.f, "erased");
}
// square hole / square domain cut out of the ring mesh
static void take(bool external, int which) {
  auto m = layout(4, false);
  m.v[4 + which]->coords = near("p", m.v[4 + which]->coords[0], m.v[4 + which]->coords[1], 0.75);
  std::vector<P2> x;
  for (auto &v : m.v) x.push_back(v->coords);
  auto M = build(x, {{0, 1, 4}, {1, 5, 4}, {1, 2, 5}, {2, 6, 5}, {2, 3, 6}, {3, 7, 6}, {3, 0, 7}, {0, 4, 7}, {4, 5, 6}, {4, 6, 7}});
  auto bd = make_HalfEdges<double, 2>({x[4], x[5], x[6], x[7]});
  std::set<HF> inner{M.fv[8], M.fv[9]}, outer(M.fv.begin(), M.fv.begin() + 8);
  auto taken = external ? takeExternalFaces<double>(M.f, bd) : takeInternalFaces<double>(M.f, bd);
  sym::check(same_set(taken, external ? outer : inner), "taken faces"), sym::check(same_set(M.f, external ? inner : outer), "faces left");
  repairVertexEdges<double, 2>(M.f);
  links_ok(M.f, "left");
}
static void reverse_loop(size_t n) {
  std::vector<P2> x;
  for (size_t i = 0; i < n; ++i) x.push_back({sym::real("x" + S_(i), -5, 5), sym::real("y" + S_(i), -5, 5)});
  auto b = make_HalfEdges<double, 2>(x);
  double A = 0, B = 0;
  bool ok = b.size() == n;
  for (size_t i = 0; i < n; ++i) {
    ok = ok && b[i]->next == b[(i + 1) % n] && b[(i + 1) % n]->previous == b[i];
    sym::eq(b[i]->vertex->coords[0], x[i][0], "x"), sym::eq(b[i]->vertex->coords[1], x[i][1], "y");
  }
  for (auto &h : b) A += org(h)[0] * dst(h)[1] - org(h)[1] * dst(h)[0];
  sym::check(ok, "closed chain");
  auto first = b.front();
  reverseBoundary(b);
  for (size_t i = 0; i < n; ++i) ok = ok && b[i]->next == b[(i + 1) % n] && b[(i + 1) % n]->previous == b[i];
  for (auto &h : b) B += org(h)[0] * dst(h)[1] - org(h)[1] * dst(h)[0];
  sym::check(ok && b.back() == first, "reversed chain");
  sym::eq(A, -B, "area changes sign", 1e-6);
}
static void smooth(int k) {
  auto m = layout(k);
  int i = sym::choose("vertex", 0, int(m.v.size()) - 1);
  P2 g{0, 0};
  std::set<HV> nb;
  for (auto &h : halves(m.f))
    if (h->vertex == m.v[i]) nb.insert(h->previous->vertex), nb.insert(h->next->vertex);
  for (auto &v : nb) g[0] += v->coords[0] / nb.size(), g[1] += v->coords[1] / nb.size();
  std::vector<P2> x;
  for (auto &v : m.v) x.push_back(v->coords);
  laplacian_smoothing(m.f, *m.v[i]);
  for (size_t j = 0; j < m.v.size(); ++j)
    sym::eq(m.v[j]->coords[0], int(j) == i ? g[0] : x[j][0], "x"), sym::eq(m.v[j]->coords[1], int(j) == i ? g[1] : x[j][1], "y");
}
static void encompass(size_t n) {
  std::vector<P2> x;
  for (size_t i = 0; i < n; ++i) x.push_back({sym::real("x" + S_(i), -5, 5), sym::real("y" + S_(i), -5, 5)});
  sym::assume_lt(x[0][0] + 0.5, x[1][0]), sym::assume_lt(x[0][1] + 0.5, x[n - 1][1]);
  double pc = sym::real("offset", 1, 50);
  auto f = getEncompassingMesh(x, pc);
  links_ok(f, "box"), ccw_ok(f, "box");
  for (auto &h : halves(f))
    if (!h->opposite)
      for (auto &p : x) sym::le(1e-9, det(org(h), dst(h), p), "points inside", 0);
}
static void intersect() {
  auto m = layout(0, false);
  P2 a{sym::real("ax", -5, 5), sym::real("ay", -5, 5)}, b{-1, 5};
  auto h = make_HalfEdges<double, 2>({a, b});
  bool want = false;
  for (auto &e : halves(m.f)) want = want || seg_seg_strict_intersection(a, b, org(e), dst(e));
  sym::check(areFacesEdgesIntersect(*h[1], *m.fv[0]) == want, "crosses a side");
}
void sym_register() {
  for (int k = 0; k < 5; ++k) {
    sym::add("history1." + S_(k), [=] { history(k, 1, true); });
    sym::add("history2." + S_(k), [=] { history(k, 2, k < 2); }, 0, 200000, 300);
    if (k < 2) sym::add("history3." + S_(k), [=] { history(k, 3, false); }, k, 200000, 300);
    sym::add("queries0." + S_(k), [=] { queries(k, 0); });
    sym::add("queries1." + S_(k), [=] { queries(k, 1); });
    sym::add("subset." + S_(k), [=] { subset_boundary(k); });
    sym::add("removal." + S_(k), [=] { removal(k); });
    sym::add("erase." + S_(k), [=] { erase(k); });
    sym::add("smooth." + S_(k), [=] { smooth(k); });
  }
  sym::add("flip.any", flip_any);
  sym::add("flip.apart", flip_apart);
  sym::add("refill.2", [] { refill(2); });
  sym::add("refill.3", [] { refill(3); });
  sym::add("put.back.2", [] { put_back(2); });
  sym::add("put.back.3", [] { put_back(3); });
  for (int i = 0; i < 4; ++i) {
    sym::add("take.internal." + S_(i), [=] { take(false, i); });
    sym::add("take.external." + S_(i), [=] { take(true, i); });
  }
  for (size_t n : {3, 4, 6}) sym::add("loop." + S_(n), [=] { reverse_loop(n); });
  for (size_t n : {2, 3, 4}) sym::add("box." + S_(n), [=] { encompass(n); }, n == 4);
  sym::add("intersect", intersect);
}
