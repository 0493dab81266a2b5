// C21: JSON written by the library reads back as the same object; readers build what they are told and refuse nonsense.
#include "common.h"
#include <unistd.h>
#include <gbs-io/tojson.h>
#include <gbs-io/fromjson.h>
#include <gbs-io/fromjson2.h>
using namespace gbs;
using J = rapidjson::Value;
using Doc = rapidjson::Document;
template <size_t D> static void same_poles(const PV<D> &a, const PV<D> &b, const std::string &l) {
  if (a.size() != b.size()) return sym::check(false, l + " number of poles");
  for (size_t i = 0; i < a.size(); ++i) eqp<D>(a[i], b[i], l + " pole " + S_(i), 1e-9);
}
template <class C> static void same_curve(const C &a, const C &b, const std::string &l) {
  sym::check(a.degree() == b.degree(), l + " degree");
  sym::eqv(a.knotsFlats(), b.knotsFlats(), l + " knots", 1e-9);
  same_poles(a.poles(), b.poles(), l);
  sym::eq(a.bounds()[0], b.bounds()[0], l + " start", 1e-9), sym::eq(a.bounds()[1], b.bounds()[1], l + " end", 1e-9);
}
template <class S> static void same_surface(const S &a, const S &b, const std::string &l) {
  sym::check(a.degreeU() == b.degreeU() && a.degreeV() == b.degreeV(), l + " degrees");
  sym::eqv(a.knotsFlatsU(), b.knotsFlatsU(), l + " knots u", 1e-9), sym::eqv(a.knotsFlatsV(), b.knotsFlatsV(), l + " knots v", 1e-9);
  same_poles(a.poles(), b.poles(), l);
  for (int i = 0; i < 4; ++i) sym::eq(a.bounds()[i], b.bounds()[i], l + " bounds", 1e-9);
}
// knots, interior position symbolic
static V skn(const std::string &n, int p, int lay) {
  auto k = clamped(p, {}, -1, 2);
  double x = lay ? sym::real(n, -0.75, 0.5) : 0;
  auto at = [&] { return k.end() - p - 1; };
  if (lay == 1) k.insert(at(), x);
  if (lay == 2) k.insert(at(), p, x), k.insert(at(), x + 1);
  if (lay == 3) k.insert(at(), x), k.insert(at(), x + 0.25), k.insert(at(), p > 1 ? 2 : 1, x + 1.25);
  return k;
}
static V wts(const std::string &n, size_t m) {
  V w(m);
  for (size_t i = 0; i < m; ++i) w[i] = sym::real(n + S_(i), 0.25, 4);
  return w;
}
static int type(const J &v) { return v["type"].GetInt(); }
static void curve_fields(const J &v, entity_type t, size_t dim, size_t deg, const V &k) {
  sym::check(type(v) == int(t), "written type"), sym::check(v["dim"].GetUint64() == dim, "written dimension"), sym::check(v["degree"].GetUint64() == deg, "written degree");
  V kn;
  auto &K = v["knots"], &M = v["mults"];
  sym::check(K.Size() == M.Size(), "as many multiplicities as knots");
  for (unsigned i = 0; i < K.Size(); ++i) {
    if (i) sym::check(K[i - 1].GetDouble() < K[i].GetDouble(), "distinct written knots");
    for (unsigned j = 0; j < M[i].GetUint64(); ++j) kn.push_back(K[i].GetDouble());
  }
  sym::eqv(kn, k, "written knots", 1e-9);
}
template <size_t D> static void rt_curve(int p, int lay) {
  auto k = skn("x", p, lay);
  BSCurve<double, D> c{symPoles<D>("P", k.size() - p - 1), k, size_t(p)};
  Doc d;
  J v = make_json(c, d.GetAllocator());
  curve_fields(v, entity_type::BSCurve, D, p, k);
  same_curve(bscurve_direct<double, D>(v), c, "direct"), same_curve(make_bscurve<double, D>(v), c, "make"), same_curve(bscurve_direct_mults<double, D>(v), c, "mults");
  auto q = make_curve<double, D>(v);
  auto b = std::dynamic_pointer_cast<BSCurve<double, D>>(q);
  sym::check(bool(b), "kind");
  if (b) same_curve(*b, c, "curve");
  // through the base class and a shared pointer
  std::shared_ptr<Curve<double, D>> g = std::make_shared<BSCurve<double, D>>(c);
  J w = make_json(g, d.GetAllocator());
  same_curve(make_bscurve<double, D>(w), c, "base");
}
template <size_t D> static void rt_rational(int p, int lay) {
  auto k = skn("x", p, lay);
  size_t n = k.size() - p - 1;
  auto w = wts("w", n);
  auto P_ = symPoles<D>("P", n);
  BSCurveRational<double, D> c{P_, k, w, size_t(p)};
  Doc d;
  for (int base = 0; base < 2; ++base) {
    std::shared_ptr<Curve<double, D>> g = std::make_shared<BSCurveRational<double, D>>(c);
    J v = base ? make_json(g, d.GetAllocator()) : make_json(c, d.GetAllocator());
    curve_fields(v, entity_type::BSCurveRational, D, p, k);
    sym::check(v["weights"].Size() == n && v["poles"].Size() == n, "counts");
    for (unsigned i = 0; i < n; ++i) {
      sym::eq(v["weights"][i].GetDouble(), w[i], "weight", 1e-9);
      for (unsigned e = 0; e < D; ++e) sym::eq(v["poles"][i][e].GetDouble(), P_[i][e], "pole", 1e-9);
    }
    auto b = std::dynamic_pointer_cast<BSCurveRational<double, D>>(make_curve<double, D>(v));
    sym::check(bool(b), "kind");
    if (b) same_curve(*b, c, "curve");
    sym::throws_as<std::invalid_argument>([&] { make_bscurve<double, D>(v); }, "rational refused where a plain curve is wanted");
  }
}
template <size_t D> static void rt_surface(int p, int q, int lu, int lv, bool rational) {
  auto ku = skn("x", p, lu), kv = skn("y", q, lv);
  size_t nu = ku.size() - p - 1, nv = kv.size() - q - 1;
  auto P_ = symPoles<D>("P", nu * nv);
  Doc d;
  auto fields = [&](const J &v) {
    for (int e = 0; e < 2; ++e) {
      V kn;
      auto &K = v[e ? "knotsV" : "knotsU"], &M = v[e ? "multsV" : "multsU"];
      sym::check(K.Size() == M.Size(), "as many multiplicities as knots");
      for (unsigned i = 0; i < K.Size(); ++i)
        for (unsigned j = 0; j < M[i].GetUint64(); ++j) kn.push_back(K[i].GetDouble());
      sym::eqv(kn, e ? kv : ku, "written knots", 1e-9);
    }
    sym::check(v["degreeU"].GetUint64() == size_t(p) && v["degreeV"].GetUint64() == size_t(q) && v["dim"].GetUint64() == D, "written degrees and dimension");
  };
  if (!rational) {
    BSSurface<double, D> s{P_, ku, kv, size_t(p), size_t(q)};
    J v = make_json(s, d.GetAllocator());
    sym::check(type(v) == int(entity_type::BSSurface), "written type"), fields(v);
    same_surface(bssurface_direct<double, D>(v), s, "direct"), same_surface(make_bssurface<double, D>(v), s, "make");
    const Surface<double, D> *g = &s;
    J w = make_json<double, D>(g, d.GetAllocator());
    auto b = std::dynamic_pointer_cast<BSSurface<double, D>>(make_surface<double, D>(w));
    sym::check(bool(b), "kind");
    if (b) same_surface(*b, s, "surface");
  } else {
    auto w = wts("w", nu * nv);
    BSSurfaceRational<double, D> s{P_, w, ku, kv, size_t(p), size_t(q)};
    const Surface<double, D> *g = &s;
    for (int base = 0; base < 2; ++base) {
      J v = base ? make_json<double, D>(g, d.GetAllocator()) : make_json(s, d.GetAllocator());
      sym::check(type(v) == int(entity_type::BSSurfaceRational), "written type"), fields(v);
      auto b = std::dynamic_pointer_cast<BSSurfaceRational<double, D>>(make_surface<double, D>(v));
      sym::check(bool(b), "kind");
      if (b) same_surface(*b, s, "surface");
      sym::throws_as<std::invalid_argument>([&] { make_bssurface<double, D>(v); }, "rational refused where a plain surface is wanted");
    }
  }
}
static void rt_revolution(bool rational) {
  auto k = clamped(2, {{0.5, 1}});
  auto P_ = symPoles<2>("P", 4);
  std::shared_ptr<Curve<double, 2>> c;
  if (rational) c = std::make_shared<BSCurveRational<double, 2>>(P_, k, wts("w", 4), size_t(2));
  else c = std::make_shared<BSCurve<double, 2>>(P_, k, size_t(2));
  double ox = sym::real("ox", -5, 5), oz = sym::real("oz", -5, 5), t1 = sym::real("t1", -1, 1), t2 = sym::real("t2", 1.5, 3);
  ax2<double, 3> ax{P<3>{ox, 1, oz}, P<3>{0, 0, 2}, P<3>{1, 0, 0}};
  SurfaceOfRevolution<double> s{c, ax, t1, t2};
  Doc d;
  std::shared_ptr<Surface<double, 3>> g = std::make_shared<SurfaceOfRevolution<double>>(s);
  J v = make_json(s, d.GetAllocator()), w = make_json(g, d.GetAllocator());
  for (const J *x : {&v, &w}) {
    sym::check(type(*x) == int(entity_type::SurfaceOfRevolution), "written type");
    auto r = std::dynamic_pointer_cast<SurfaceOfRevolution<double>>(make_surface<double>(*x));
    sym::check(bool(r), "kind");
    if (!r) return;
    for (int i = 0; i < 4; ++i) sym::eq(r->bounds()[i], s.bounds()[i], "bounds", 1e-9);
    for (int i = 0; i < 3; ++i) eqp<3>(r->axis2()[i], ax[i], "axis", 1e-9);
    for (double u : {0., 0.25, 0.75, 1.}) {
      auto a = r->basisCurve()->value(u), b = c->value(u);
      eqp<2>(a, b, "basis");
      eqp<3>(r->value(u, 1.25), s.value(u, 1.25), "value", 1e-6);
    }
  }
}
template <size_t D> static void rt_on_surface() {
  auto c = std::make_shared<BSCurve<double, 2>>(PV<2>{{0.25, sym::real("a", 0, 1)}, {0.5, sym::real("b", 0, 1)}, {1, 0.5}}, clamped(2, {}), size_t(2));
  auto P_ = symPoles<D>("S", 4);
  auto s = std::make_shared<BSSurface<double, D>>(P_, V{0, 0, 1, 1}, V{0, 0, 1, 1}, size_t(1), size_t(1));
  CurveOnSurface<double, D> cs{c, s};
  Doc d;
  std::shared_ptr<Curve<double, D>> g = std::make_shared<CurveOnSurface<double, D>>(cs);
  J v = make_json(cs, d.GetAllocator()), w = make_json(g, d.GetAllocator());
  for (const J *x : {&v, &w}) {
    sym::check(type(*x) == int(entity_type::CurveOnSurface) && (*x)["dim"].GetUint64() == D, "written type");
    auto r = std::dynamic_pointer_cast<CurveOnSurface<double, D>>(make_curve<double, D>(*x));
    sym::check(bool(r), "kind");
    if (!r) return;
    for (double u : {0., 0.375, 1.}) eqp<D>(r->value(u), cs.value(u), "value", 1e-6);
    auto b = dynamic_cast<const BSCurve<double, 2> *>(&r->basisCurve());
    auto t = dynamic_cast<const BSSurface<double, D> *>(&r->basisSurface());
    sym::check(b && t, "parts");
    if (b) same_curve(*b, *c, "2d curve");
    if (t) same_surface(*t, *s, "surface");
  }
}
// kinds the readers do not know are written in full and refused on reading
static void written_only() {
  Doc d;
  auto &al = d.GetAllocator();
  auto k = clamped(1, {{0.5, 1}});
  auto a = std::make_shared<BSCurve<double, 2>>(symPoles<2>("A", 3), k, size_t(1));
  auto b = std::make_shared<BSCurve<double, 2>>(PV<2>{a->poles().back(), {1, 2}, {3, 4}}, clamped(2, {}), size_t(2));
  BSCurve<double, 1> f{PV<1>{{sym::real("f0", -2, 2)}, {sym::real("f1", -2, 2)}}, V{0, 0, 1, 1}, 1};
  double u1 = sym::real("u1", 0, 0.25), u2 = sym::real("u2", 0.5, 1);
  auto refused = [&](const J &v, const std::string &l) { sym::throws_as<std::invalid_argument>([&] { make_curve<double, 2>(v); }, l + " refused"); };
  {
    CurveComposite<double, 2> c{std::vector<std::shared_ptr<Curve<double, 2>>>{a, b}};
    const Curve<double, 2> *g = &c;
    J v = make_json<double, 2>(g, al);
    sym::check(type(v) == int(entity_type::CurveComposite) && v["curves"].Size() == 2, "composite");
    same_curve(make_bscurve<double, 2>(v["curves"][0]), *a, "first part"), same_curve(make_bscurve<double, 2>(v["curves"][1]), *b, "second part");
    refused(v, "composite");
  }
  {
    CurveTrimmed<double, 2> c{a, u1, u2};
    const Curve<double, 2> *g = &c;
    J v = make_json<double, 2>(g, al);
    sym::check(type(v) == int(entity_type::CurveTrimmed), "trimmed");
    sym::eq(v["u1"].GetDouble(), u1, "u1", 1e-9), sym::eq(v["u2"].GetDouble(), u2, "u2", 1e-9);
    same_curve(make_bscurve<double, 2>(v["curve"]), *a, "trimmed basis");
    refused(v, "trimmed");
  }
  {
    CurveOffset2D<double, BSCfunction<double>> c{a, BSCfunction<double>{f}};
    std::shared_ptr<Curve<double, 2>> g = std::make_shared<CurveOffset2D<double, BSCfunction<double>>>(c);
    J v = make_json(g, al);
    sym::check(type(v) == int(entity_type::Curve2dOffset), "offset");
    sym::check(type(v["function"]) == int(entity_type::BSCfunction), "function");
    same_curve(make_bscurve<double, 2>(v["curve"]), *a, "offset basis"), same_curve(make_bscurve<double, 1>(v["function"]["curve"]), f, "offset law");
    refused(v, "offset");
  }
  {
    Line<double, 2> l{P<2>{u1, 1}, P<2>{u2, 3}};
    J v = make_json(l, al);
    sym::check(type(v) == int(entity_type::Line), "line");
    auto p1 = make_array<double, 2>(v["p1"]), p2 = make_array<double, 2>(v["p2"]);
    auto ax = l.getAx();
    eqp<2>(p1, ax[0], "line point"), eqp<2>(p2, ax[1], "line direction");
    refused(v, "line");
  }
}
static J jarr(const V &v, Doc &d) {
  J a{rapidjson::kArrayType};
  for (double x : v) a.PushBack(x, d.GetAllocator());
  return a;
}
template <size_t D> static J jpts(const PV<D> &v, Doc &d) {
  J a{rapidjson::kArrayType};
  for (auto &p : v) a.PushBack(jarr(V(p.begin(), p.end()), d), d.GetAllocator());
  return a;
}
static J jstr(const char *s, Doc &d) { return J(s, d.GetAllocator()); }
// legacy flat knot form
template <size_t D> static void legacy(int p, int lay) {
  auto k = skn("x", p, lay);
  BSCurve<double, D> c{symPoles<D>("P", k.size() - p - 1), k, size_t(p)};
  Doc d;
  auto &al = d.GetAllocator();
  J v{rapidjson::kObjectType};
  v.AddMember("type", jstr("bscurve", d), al).AddMember("knots", jarr(k, d), al).AddMember("deg", J(p), al).AddMember("poles", jpts<D>(c.poles(), d), al);
  same_curve(make_bscurve<double, D>(v), c, "legacy"), same_curve(bscurve_direct<double, D>(v), c, "legacy direct");
}
static void interp_cn(int form, int p) {
  Doc d;
  auto &al = d.GetAllocator();
  V u{0, 0.25, 0.625, 1.5};
  PV<2> pts{{0, 0}, {3, 4}, {6, 0}, {6, 2}};
  if (form == 0) pts = symPoles<2>("Q", 4), u[1] = sym::real("u1", 0.125, 0.375);
  else {
    double t = sym::real("t", -5, 5), s = sym::real("s", -5, 5);
    for (auto &q : pts) q[0] += t, q[1] += s;
  }
  J v{rapidjson::kObjectType};
  v.AddMember("type", jstr("bscurve_interp_cn", d), al).AddMember("deg", J(p), al).AddMember("points", jpts<2>(pts, d), al);
  if (form == 0) v.AddMember("params", jarr(u, d), al);
  static const char *m[]{"", "", "EQUALLY_SPACED", "CHORD_LENGTH", "CENTRIPETAL"};
  if (form > 1) v.AddMember("param_calc_mode", jstr(m[form], d), al);
  auto c = make_bscurve<double, 2>(v);
  sym::check(c.degree() == size_t(p), "degree");
  if (form) { // accumulated chords: 5, 5, 2
    V h{5, 5, 2};
    for (auto &x : h) x = form == 2 ? 1 : form == 4 ? std::sqrt(x) : x;
    double L = h[0] + h[1] + h[2];
    u = {0, h[0] / L, (h[0] + h[1]) / L, 1};
    if (form == 2) u = {0, 1. / 3, 2. / 3, 1};
  }
  double a = c.bounds()[0], b = c.bounds()[1];
  if (form) {
    for (auto &x : u) x = a + (b - a) * x;
  } else sym::eq(a, u[0], "start", 1e-9), sym::eq(b, u[3], "end", 1e-9);
  for (int i = 0; i < 4; ++i) eqp<2>(c.value(u[i]), pts[i], "point " + S_(i), 1e-6);
}
static void interp_nc(int nc, int form) {
  Doc d;
  auto &al = d.GetAllocator();
  int n = 4;
  V u{0, 0.5, 1.25, 2};
  PV<2> q{{0, 0}, {3, 4}, {6, 0}, {6, 2}}, t;
  if (form < 2) q = symPoles<2>("Q", n);
  else {
    double x = sym::real("x", -5, 5), y = sym::real("y", -5, 5);
    for (auto &r : q) r[0] += x, r[1] += y;
  }
  if (nc == 2) t = symPoles<2>("T", n);
  J v{rapidjson::kObjectType}, cs{rapidjson::kArrayType};
  cs.PushBack(jpts<2>(q, d), al);
  if (nc == 2) cs.PushBack(jpts<2>(t, d), al);
  v.AddMember("type", jstr("bscurve_interp", d), al).AddMember("constraints", cs, al);
  if (form == 0) v.AddMember("param_calc_mode", jstr("SPECIFIED", d), al).AddMember("params", jarr(u, d), al);
  if (form == 2) v.AddMember("param_calc_mode", jstr("EQUALLY_SPACED", d), al);
  auto c = form == 1 ? make_bscurve<double, 2>(v, u) : make_bscurve<double, 2>(v);
  double a = c.bounds()[0], b = c.bounds()[1];
  if (form < 2) sym::eq(a, u[0], "start", 1e-9), sym::eq(b, u[3], "end", 1e-9);
  else
    for (int i = 0; i < n; ++i) u[i] = a + (b - a) * (form == 2 ? i / 3. : V{0, 5 / 12., 10 / 12., 1}[i]);
  for (int i = 0; i < n; ++i) {
    eqp<2>(c.value(u[i]), q[i], "point " + S_(i), 1e-6);
    if (nc == 2) eqp<2>(c.value(u[i], 1), t[i], "tangent " + S_(i), 1e-5);
  }
}
// a written object with one thing changed must be refused
static void refuse_curve() {
  double x = sym::real("x", -5, 5);
  BSCurve<double, 2> c{PV<2>{{x, 0}, {1, 2}, {3, 1}, {4, 4}}, clamped(2, {{0.5, 1}}), 2};
  BSCurveRational<double, 2> r{c.poles(), c.knotsFlats(), V{1, 2, 1, 1}, 2};
  Doc d;
  auto &al = d.GetAllocator();
  bool rat = sym::choose("rational", 0, 1);
  J v = rat ? make_json(r, al) : make_json(c, al);
  int k = sym::choose("defect", 0, 13);
  const char *what = "";
  switch (k) {
  case 0: what = "pole of another dimension", v["poles"][1].PushBack(1., al); break;
  case 1: what = "pole too short", v["poles"][1].PopBack(); break;
  case 2: what = "missing pole", v["poles"].PopBack(); break;
  case 3: what = "one pole too many", v["poles"].PushBack(jarr({1, 2}, d), al); break;
  case 4: what = "missing multiplicity", v["mults"].PopBack(); break;
  case 5: what = "multiplicity too many", v["mults"].PushBack(1u, al); break;
  case 6: what = "multiplicity too large", v["mults"][1] = 2u; break;
  case 7: what = "text in a pole", v["poles"][2][0] = "a"; break;
  case 8: what = "negative multiplicity", v["mults"][1] = -1; break;
  case 9: what = "wrong degree", v["degree"] = 3u; break;
  case 10: what = "knots not an array", v["knots"] = 1.; break;
  case 11: what = "poles missing", v.RemoveMember("poles"); break;
  case 12: what = "unknown type", v["type"] = 999; break;
  case 13:
    what = "decreasing knots", v["knots"][1] = -1.;
    break;
  }
  sym::throws([&] { make_curve<double, 2>(v); }, std::string(what) + " refused");
  if (!rat) sym::throws([&] { make_bscurve<double, 2>(v); }, std::string(what) + " refused by make_bscurve");
  if (rat) {
    J w = make_json(r, al);
    if (k == 0) w["weights"].PopBack();
    else if (k == 1) w["weights"].PushBack(1., al);
    else if (k == 2) w.RemoveMember("weights");
    else return;
    sym::throws([&] { make_curve<double, 2>(w); }, "wrong weights refused");
  }
}
static void refuse_surface() {
  double x = sym::real("x", -5, 5);
  BSSurface<double, 3> s{PV<3>{{x, 0, 0}, {1, 0, 0}, {2, 0, 1}, {0, 1, 0}, {1, 1, x}, {2, 1, 0}}, clamped(2, {}), clamped(1, {}), 2, 1};
  BSSurfaceRational<double, 3> r{s.poles(), V{1, 2, 1, 1, 1, 2}, s.knotsFlatsU(), s.knotsFlatsV(), 2, 1};
  Doc d;
  auto &al = d.GetAllocator();
  bool rat = sym::choose("rational", 0, 1);
  J v = rat ? make_json(r, al) : make_json(s, al);
  int k = sym::choose("defect", 0, 8);
  const char *what = "";
  switch (k) {
  case 0: what = "pole of another dimension", v["poles"][1].PushBack(1., al); break;
  case 1: what = "missing pole", v["poles"].PopBack(); break;
  case 2: what = "degrees exchanged", v["degreeU"] = 1u, v["degreeV"] = 2u; break;
  case 3: what = "missing multiplicity", v["multsU"].PopBack(); break;
  case 4: what = "multiplicity too large", v["multsV"][1] = 3u; break;
  case 5: what = "text in a knot", v["knotsV"][1] = "a"; break;
  case 6: what = "poles missing", v.RemoveMember("poles"); break;
  case 7: what = "unknown type", v["type"] = 125; break;
  case 8: what = "decreasing knots", v["knotsU"][1] = -1.; break;
  }
  sym::throws([&] { make_surface<double, 3>(v); }, std::string(what) + " refused");
  if (!rat) sym::throws([&] { make_bssurface<double, 3>(v); }, std::string(what) + " refused by make_bssurface");
}
static void refuse_interp() {
  Doc d;
  auto &al = d.GetAllocator();
  double x = sym::real("x", -5, 5);
  PV<2> q{{x, 0}, {3, 4}, {6, 0}, {6, 2}}, t{{1, 0}, {1, 1}, {1, x}, {0, 1}};
  int k = sym::choose("defect", 0, 7);
  if (k == 0) t.pop_back();
  if (k == 1) q.pop_back();
  J v{rapidjson::kObjectType}, cs{rapidjson::kArrayType};
  cs.PushBack(jpts<2>(q, d), al).PushBack(jpts<2>(t, d), al);
  if (k == 2) cs.PushBack(jpts<2>(t, d), al);
  if (k == 3) cs.Clear();
  if (k == 4) cs = J(1.);
  v.AddMember("type", jstr(k == 5 ? "bscurve_other" : "bscurve_interp", d), al);
  if (k != 6) v.AddMember("constraints", cs, al);
  if (k == 7) v.AddMember("param_calc_mode", jstr("SPECIFIED", d), al).AddMember("params", jarr({0, 1, 2}, d), al);
  static const char *what[]{"too few tangents", "too few points", "three constraints", "no constraint", "constraints not an array", "unknown type", "constraints missing", "too few parameters"};
  sym::throws([&] { make_bscurve<double, 2>(v); }, std::string(what[k]) + " refused");
  V u{0, 1, 2, 3};
  if (k != 7) sym::throws([&] { make_bscurve<double, 2>(v, u); }, std::string(what[k]) + " refused with parameters");
}
static void refuse_missing_type() {
  Doc d;
  auto &al = d.GetAllocator();
  J v{rapidjson::kObjectType};
  double x = sym::real("x", -5, 5);
  v.AddMember("knots", jarr({0, 0, 1, 1}, d), al).AddMember("deg", J(1), al).AddMember("poles", jpts<2>({{x, 0}, {1, 1}}, d), al);
  int k = sym::choose("type", 0, 1);
  if (k) v.AddMember("type", J(1.5), al);
  sym::throws([&] { make_bscurve<double, 2>(v); }, "no type");
  J w{rapidjson::kObjectType};
  w.AddMember("type", jstr("bscurve_interp_cn", d), al).AddMember("deg", J(1), al).AddMember("points", jpts<2>({{x, 0}, {x + 1, 1}}, d), al).AddMember("param_calc_mode", k ? J(1.5) : jstr("OTHER", d), al);
  sym::throws([&] { make_bscurve<double, 2>(w); }, "unknown parametrisation mode refused");
  sym::throws([&] { make_curve<double, 2>(v); }, "no type of curve");
  sym::throws([&] { make_surface<double, 3>(v); }, "no type of surface");
}
// the file functions, on concrete numbers (text conversion is rapidjson's)
static void file() {
  static const double X[]{0.1, 1. / 3, 1e-9, 123456.789012345, -2.5e7};
  int i = sym::choose("number", 0, 4), p = sym::choose("degree", 1, 2);
  BSCurveRational<double, 2> c{PV<2>{{X[i], 0}, {1, X[(i + 1) % 5]}, {X[(i + 2) % 5], 1. / 7}}, clamped(p, p == 1 ? std::vector<std::pair<double, int>>{{1. / 3, 1}} : std::vector<std::pair<double, int>>{}), V{1. / 3, 0.7, 1. / 9}, size_t(p)};
  char name[] = "/tmp/c21_XXXXXX";
  int fd = mkstemp(name);
  if (fd < 0) return;
  close(fd);
  Doc d, e;
  d.SetObject();
  J v = make_json(c, d.GetAllocator());
  d.AddMember("crv", v, d.GetAllocator());
  write_js_doc(d, name);
  parse_file(name, e);
  unlink(name);
  auto b = std::dynamic_pointer_cast<BSCurveRational<double, 2>>(make_curve<double, 2>(e["crv"]));
  sym::check(bool(b), "kind");
  if (b) {
    sym::check(b->poles().size() == c.poles().size(), "poles");
    for (size_t j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k) sym::le(std::abs(b->poles()[j][k] - c.poles()[j][k]), 1e-12 * std::abs(c.poles()[j][k]), "written precision", 1e-15);
    sym::eqv(b->knotsFlats(), c.knotsFlats(), "knots", 1e-12);
  }
  sym::throws([&] { parse_file(name, e); }, "missing file refused");
}
void sym_register() {
  sym::add("file", file);
  for (int lay = 0; lay < 4; ++lay)
    for (int p = 1; p < 4; ++p) {
      auto n = S_(p) + "." + S_(lay);
      sym::add("curve.1." + n, [=] { rt_curve<1>(p, lay); }), sym::add("curve.2." + n, [=] { rt_curve<2>(p, lay); }), sym::add("curve.3." + n, [=] { rt_curve<3>(p, lay); });
      sym::add("rational.1." + n, [=] { rt_rational<1>(p, lay); }), sym::add("rational.2." + n, [=] { rt_rational<2>(p, lay); }), sym::add("rational.3." + n, [=] { rt_rational<3>(p, lay); });
      sym::add("legacy." + n, [=] { legacy<2>(p, lay); });
    }
  for (bool r : {false, true})
    for (auto [p, q, a, b] : std::vector<std::array<int, 4>>{{1, 1, 0, 0}, {2, 1, 0, 1}, {1, 2, 2, 0}, {3, 2, 1, 0}, {2, 3, 0, 0}}) {
      auto n = S_(p) + S_(q) + S_(a) + S_(b);
      sym::add((r ? "rsurface." : "surface.") + n + ".1", [=] { rt_surface<1>(p, q, a, b, r); });
      if (p * q < 6 || !r) sym::add((r ? "rsurface." : "surface.") + n + ".3", [=] { rt_surface<3>(p, q, a, b, r); });
    }
  sym::add("revolution", [] { rt_revolution(false); }), sym::add("revolution.rational", [] { rt_revolution(true); });
  sym::add("onsurface.2", rt_on_surface<2>), sym::add("onsurface.3", rt_on_surface<3>);
  sym::add("written", written_only);
  for (int f = 0; f < 5; ++f)
    for (int p : {1, 2, 3}) sym::add("interp_cn." + S_(f) + "." + S_(p), [=] { interp_cn(f, p); });
  for (int nc : {1, 2})
    for (int f = 0; f < 4; ++f) sym::add("interp." + S_(nc) + "." + S_(f), [=] { interp_nc(nc, f); });
  sym::add("refuse.curve", refuse_curve), sym::add("refuse.surface", refuse_surface), sym::add("refuse.interp", refuse_interp), sym::add("refuse.type", refuse_missing_type);
}
