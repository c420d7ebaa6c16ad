// NOTE: model of nested point lists compared through every accessor after every step of random histories
// QUICK: 1.5
#include "swl.hpp"
namespace {
struct V {double x, y, z;};
using L = std::vector<V>;       // line, ring, points
using LL = std::vector<L>;      // cell, lines
using LLL = std::vector<LL>;    // cells
bool eq(double a, double b) {return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b));}
bool eq(const V& a, const V& b) {return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z);}
V of(const F2CPoint& p) {return {p.get()->getX(), p.get()->getY(), p.get()->getZ()};}
template <class T> L ofLine(const T& t) {L r; for (int i = 0; i < t.get()->getNumPoints(); ++i) {r.push_back({t.get()->getX(i), t.get()->getY(i), t.get()->getZ(i)});} return r;}
L of(const F2CLineString& t) {return ofLine(t);}
L of(const F2CLinearRing& t) {return ofLine(t);}
L of(const F2CMultiPoint& t) {
  L r; for (int i = 0; i < t.get()->getNumGeometries(); ++i) {auto* p = t.get()->getGeometryRef(i)->toPoint(); r.push_back({p->getX(), p->getY(), p->getZ()});} return r;
}
L ofC(const OGRSimpleCurve* l) {L r; for (int i = 0; i < l->getNumPoints(); ++i) {r.push_back({l->getX(i), l->getY(i), l->getZ(i)});} return r;}
LL ofPoly(const OGRPolygon* p) {
  LL r;
  if (p->getExteriorRing()) {r.push_back(ofC(p->getExteriorRing()));}
  for (int i = 0; i < p->getNumInteriorRings(); ++i) {r.push_back(ofC(p->getInteriorRing(i)));}
  return r;
}
LL of(const F2CCell& t) {return ofPoly(t.get());}
LL of(const F2CMultiLineString& t) {LL r; for (int i = 0; i < t.get()->getNumGeometries(); ++i) {r.push_back(ofC(t.get()->getGeometryRef(i)->toLineString()));} return r;}
LLL of(const F2CCells& t) {LLL r; for (int i = 0; i < t.get()->getNumGeometries(); ++i) {r.push_back(ofPoly(t.get()->getGeometryRef(i)->toPolygon()));} return r;}
bool same(const V& a, const V& b) {return eq(a, b);}
template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b) {
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {if (!same(a[i], b[i])) {return false;}}
  return true;
}
std::string str(const V& v) {return vf::cat("(", v.x, " ", v.y, " ", v.z, ")");}
template <class T> std::string str(const std::vector<T>& a) {std::string s = "["; for (auto& x : a) {s += str(x);} return s + "]";}

// coordinates on a lattice, so that models are exact
V rv(vf::Rng& r, double s) {return {s * r.i(-400, 400), s * r.i(-400, 400), r.p(0.3) ? s * r.i(-40, 40) : 0.0};}
V operator*(const V& v, double b) {return {v.x * b, v.y * b, v.z * b};}
L rlst(vf::Rng& r, double s, int n) {L l; for (int i = 0; i < n; ++i) {l.push_back(rv(r, s));} return l;}
F2CPoint mk(const V& v) {return F2CPoint(v.x, v.y, v.z);}
template <class T> T mk(const L& l) {T t; for (auto& v : l) {t.addPoint(v.x, v.y, v.z);} return t;}
L closed(L l) {if (!l.empty() && (l.front().x != l.back().x || l.front().y != l.back().y || l.front().z != l.back().z)) {l.push_back(l.front());} return l;}
F2CCell mkCell(const LL& ll) {F2CCell x; for (auto& l : ll) {F2CLinearRing r; for (auto& v : closed(l)) {r.get()->addPoint(v.x, v.y, v.z);} x.get()->addRing(r.get());} return x;}
LL rcell(vf::Rng& r, double s) {LL x; for (int i = 0, n = r.i(1, 3); i < n; ++i) {x.push_back(closed(rlst(r, s, r.i(3, 6))));} return x;}
void mul(V& v, double b) {v.x *= b; v.y *= b; v.z *= b;}
void mul(L& l, double b) {for (auto& v : l) {mul(v, b);}}
void mul(LL& l, double b) {for (auto& v : l) {mul(v, b);}}
void mul(LLL& l, double b) {for (auto& v : l) {mul(v, b);}}

// every way to read a container against its model
template <class T, class M> void readAll(vf::Case& c, T& t, const std::vector<M>& m, const std::string& h) {
  const T& ct = t;
  size_t n = m.size();
  c.require(ct.size() == n, "size", "size ", ct.size(), ", expected ", n, " after", h);
  c.require(same(of(t), m), "content", str(of(t)), " expected ", str(m), " after", h);
  auto ok = [&] (const auto& e, size_t i, const char* how) {
    c.require(same(of(e), m[i]), how, "element ", i, " is ", str(of(e)), " expected ", str(m[i]), " after", h);
  };
  for (size_t i = 0; i < n; ++i) {
    ok(t.getGeometry(i), i, "get"); ok(ct.getGeometry(i), i, "get_const");
    ok(t.at(int(i)), i, "at"); ok(ct.at(int(i)), i, "at_const"); ok(t[int(i)], i, "index"); ok(ct[int(i)], i, "index_const");
    auto e = ct.getGeometry(i);
    typename std::remove_const<decltype(e)>::type q;
    t.getGeometry(i, q); ok(q, i, "get_ref");
    typename std::remove_const<decltype(e)>::type q2;
    ct.getGeometry(i, q2); ok(q2, i, "get_ref_const");
  }
  size_t k = 0;
  for (auto&& e : ct) {c.require(k < n, "iterate_const", "too many elements"); ok(e, k++, "iterate_const");}
  c.check(k == n, "iterate_const", k, " elements iterated of ", n, " after", h);
  k = 0;
  for (auto&& e : t) {c.require(k < n, "iterate", "too many elements"); ok(e, k++, "iterate");}
  c.check(k == n, "iterate", k, " elements iterated of ", n, " after", h);
  c.require(same(of(t), m), "reading_changed", "reading changed the container after", h);
  if (n) {ok(ct.back(), n - 1, "back");}
  for (size_t bad : {n, n + 1, n + 57, size_t(-1), size_t(1) << 31}) {
    bool oor = false;
    try {t.getGeometry(bad);} catch (const std::out_of_range&) {oor = true;}
    c.check(oor, "range", "getGeometry(", bad, ") of ", n, " is no out of range error, after", h);
    oor = false;
    try {ct.getGeometry(bad);} catch (const std::out_of_range&) {oor = true;}
    c.check(oor, "range_const", "getGeometry(", bad, ") of ", n, " is no out of range error, after", h);
    oor = false;
    try {auto e = ct.getGeometry(0); typename std::remove_const<decltype(e)>::type q; ct.getGeometry(bad, q);} catch (const std::out_of_range&) {oor = true;}
    c.check(oor, "range_ref", "getGeometry(", bad, ") of ", n, " is no out of range error, after", h);
  }
  if (n == 0) {
    bool oor = false;
    try {ct.back();} catch (const std::out_of_range&) {oor = true;}
    c.check(oor, "range_back", "last element of an empty container");
  }
  for (int bad : {int(n), -1}) {
    bool oor = false;
    try {ct.at(bad);} catch (const std::out_of_range&) {oor = true;}
    c.check(oor, "range_at", "at(", bad, ") of ", n, " is no out of range error, after", h);
  }
}

template <class T> void pointList(vf::Case& c, const char* what) {
  auto& r = c.rng;
  double s = r.pick({0.25, 1.0, 64, 1024, 0.0078125});
  const bool isLine = std::is_same<T, F2CLineString>::value, isRing = std::is_same<T, F2CLinearRing>::value;
  L m;
  T t;
  std::string h = std::string(" ") + what;
  int how = r.i(0, 2);
  if (how == 1) {m = rlst(r, s, r.i(0, 6)); std::vector<F2CPoint> v; for (auto& q : m) {v.push_back(mk(q));} t = T(v); h += " vector";}
  if (how == 2) {m = rlst(r, s, 3); t = T {mk(m[0]), mk(m[1]), mk(m[2])}; h += " list";}
  readAll(c, t, m, h);
  for (int k = 0, ops = r.i(2, 10); k < ops; ++k) {
    int n = int(m.size());
    V v = rv(r, s);
    switch (r.i(0, 9)) {
      case 0: t.addPoint(v.x, v.y, v.z); m.push_back(v); h += " addXYZ"; break;
      case 1: t.addPoint(mk(v)); m.push_back(v); h += " addPoint"; break;
      case 2: t.addGeometry(mk(v)); m.push_back(v); h += " addGeometry"; break;
      case 3: if (n) {int i = r.i(0, n - 1); t.setGeometry(i, mk(v)); m[i] = v; h += " set" + std::to_string(i);} break;
      case 4: {double b = r.pick({2.0, 0.5, -1.0, 4.0}); t *= b; mul(m, b); h += " *" + std::to_string(b); break;}
      case 5: {
        V d = rv(r, s);
        int only = r.i(0, 3);
        int i = 0;
        for (auto&& p : t) {if (only == 0 || i % only == 0) {p = p + mk(d); m[i].x += d.x; m[i].y += d.y; m[i].z += d.z;} ++i;}
        h += " iter+" + str(d) + "/" + std::to_string(only);
        break;
      }
      case 6: {int i = 0; for (auto&& p : t) {p.setX(v.x); m[i++].x = v.x;} h += " iterX"; break;}
      case 7: {
        V d = rv(r, s);
        T u = r.p(0.5) ? t + mk(d) : t - mk(d * 1.0);
        (void)u; h += " plus";
        break;
      }
      case 8: t.addPoint(v.x, v.y); v.z = 0; m.push_back(v); h += " addXY"; break;
      default: {
        if constexpr (std::is_same<T, F2CMultiPoint>::value) {
          if (r.p(0.3)) {auto m2 = m; t.addPoints(t); m.insert(m.end(), m2.begin(), m2.end()); h += " addSelf";}
          else {L o = rlst(r, s, r.i(0, 4)); F2CMultiPoint mo; for (auto& q : o) {mo.addPoint(mk(q));} t.addPoints(mo); m.insert(m.end(), o.begin(), o.end()); h += " addPoints";}
        } else if (r.p(0.5)) {t.reversePoints(); std::reverse(m.begin(), m.end()); h += " reverse";}
        else if constexpr (std::is_same<T, F2CLinearRing>::value) {if (n) {t.closeRing(); m = closed(m); h += " close";}}
      }
    }
    if (m.size() > 200) {break;}
    if (r.p(0.4) || k + 1 == ops) {readAll(c, t, m, h);}
    size_t sz = m.size();
    c.require(t.size() == sz, "size", "size ", t.size(), " expected ", sz, " after", h);
    if constexpr (std::is_same<T, F2CMultiPoint>::value) {
      if (sz) {
        c.check(eq(of(t.getFirstPoint()), m[0]) && eq(of(t.getLastPoint()), m.back()), "ends", "first or last point after", h);
      }
      bool oor = false;
      try {t.setGeometry(sz, mk(v));} catch (const std::exception&) {oor = true;}
      c.check(oor, "set_range", "setting a point that does not exist in a point list of ", sz);
    } else {
      if (sz) {
        c.check(eq(of(t.startPoint()), m[0]) && eq(of(t.endPoint()), m.back()), "ends", "start or end point after", h);
        size_t i = r.i(0, int(sz) - 1);
        c.check(eq(t.getX(i), m[i].x) && eq(t.getY(i), m[i].y) && eq(t.getZ(i), m[i].z), "xyz", "coordinates of point ", i, " after", h);
      }
      double len = 0;
      for (size_t i = 0; i + 1 < sz; ++i) {len += std::hypot(m[i + 1].x - m[i].x, m[i + 1].y - m[i].y);}
      c.near(t.length(), len, 1e-9 * (1 + len), "length", "after", h);
      if constexpr (std::is_same<T, F2CLinearRing>::value) {
        bool cl = sz == 0 || (sz >= 1 && m.front().x == m.back().x && m.front().y == m.back().y && m.front().z == m.back().z);
        if (sz != 1) {c.check(t.isClosed() == cl, "closed", "closed is ", t.isClosed(), " after", h);}
      } else if (sz >= 1) {
        c.check(eq(t.X(0), m[0].x) && eq(t.Y(0), m[0].y) && eq(t.Z(0), m[0].z), "XYZ", "coordinates of the first point after", h);
      }
    }
  }
  // moved copies keep the original
  V d = rv(r, s);
  T up = t + mk(d), dn = t - mk(d), fl = mk(d) - t;
  L mu = m, md = m, mf = m;
  for (size_t i = 0; i < m.size(); ++i) {
    mu[i] = {m[i].x + d.x, m[i].y + d.y, m[i].z + d.z}; md[i] = {m[i].x - d.x, m[i].y - d.y, m[i].z - d.z}; mf[i] = {d.x - m[i].x, d.y - m[i].y, d.z - m[i].z};
  }
  readAll(c, up, mu, h + " moved"); readAll(c, dn, md, h + " moved back"); readAll(c, fl, mf, h + " mirrored");
  readAll(c, t, m, h);
  if constexpr (std::is_same<T, F2CLinearRing>::value) {F2CLineString l(t); readAll(c, l, m, h + " as line");}
  (void)isLine; (void)isRing;
  c.count(what); c.sig(h); for (auto& q : m) {c.sig(q.x); c.sig(q.y);}
  if (c.idx % 499 == 0) {c.desc = h;}
}

}  // namespace

SCENARIO(points, 1500, 60000) {pointList<F2CMultiPoint>(c, "MultiPoint");}
SCENARIO(lines, 1500, 60000) {pointList<F2CLineString>(c, "LineString");}
SCENARIO(rings, 1500, 60000) {pointList<F2CLinearRing>(c, "LinearRing");}

SCENARIO(multilines, 1500, 60000) {
  auto& r = c.rng;
  double s = r.pick({0.25, 1.0, 64});
  F2CMultiLineString t; LL m;
  std::string h;
  int how = r.i(0, 2);
  auto rl = [&] {return rlst(r, s, r.p(0.1) ? 0 : r.i(1, 5));};
  if (how == 1) {m.push_back(rlst(r, s, 3)); t = F2CMultiLineString(mk<F2CLineString>(m[0])); h += " line";}
  if (how == 2) {m = {rlst(r, s, 2), rlst(r, s, 3)}; t = F2CMultiLineString {mk<F2CLineString>(m[0]), mk<F2CLineString>(m[1])}; h += " list";}
  auto allEmpty = [&] {for (auto& l : m) {if (!l.empty()) {return false;}} return true;};
  for (int k = 0, ops = r.i(2, 8); k < ops; ++k) {
    int n = int(m.size());
    switch (r.i(0, 7)) {
      case 0: case 1: {L l = rlst(r, s, r.i(1, 5)); t.addGeometry(mk<F2CLineString>(l)); m.push_back(l); h += " add"; break;}
      case 2: {
        if (allEmpty() && n) {break;}
        int i = r.i(0, n + 2); L l = rlst(r, s, r.i(1, 5));
        t.setGeometry(i, mk<F2CLineString>(l)); h += " set" + std::to_string(i);
        while (int(m.size()) <= i) {m.push_back({});}
        m[i] = l; break;
      }
      case 3: {double b = r.pick({2.0, 0.5, -1.0, 4.0}); t *= b; mul(m, b); h += " *" + std::to_string(b); break;}
      case 4: {
        if (r.p(0.3)) {auto m2 = m; t.addGeometry(t); m.insert(m.end(), m2.begin(), m2.end()); h += " addSelf"; break;}
        F2CMultiLineString o; LL mo; for (int i = 0, q = r.i(0, 3); i < q; ++i) {mo.push_back(rlst(r, s, r.i(1, 4))); o.addGeometry(mk<F2CLineString>(mo.back()));}
        t.addGeometry(o); m.insert(m.end(), mo.begin(), mo.end()); h += " addMany"; break;
      }
      case 5: {
        int kind = r.i(0, 4);
        if (kind == 0) {L l = rl(); auto g = mk<F2CLineString>(l); t.append(g.get()); if (!l.empty()) {m.push_back(l);} h += " appendLine";}
        else if (kind == 1) {F2CMultiLineString o; LL mo {rlst(r, s, 2), rlst(r, s, 4)}; for (auto& l : mo) {o.addGeometry(mk<F2CLineString>(l));} t.append(o.get()); m.insert(m.end(), mo.begin(), mo.end()); h += " appendLines";}
        else if (kind == 2) {LL x = rcell(r, s); auto g = mkCell(x); t.append(g.get()); m.insert(m.end(), x.begin(), x.end()); h += " appendCell";}
        else if (kind == 3) {F2CCells g; for (int i = 0, q = r.i(0, 2); i < q; ++i) {LL x = rcell(r, s); auto gg = mkCell(x); g.get()->addGeometry(gg.get()); m.insert(m.end(), x.begin(), x.end());} t.append(g.get()); h += " appendCells";}
        else {
          OGRGeometryCollection gc; L l = rlst(r, s, 3); LL x = rcell(r, s);
          auto a = mk<F2CLineString>(l); auto b = mkCell(x); OGRPoint p(1, 2);
          gc.addGeometry(&p); gc.addGeometry(a.get()); gc.addGeometry(b.get());
          t.append(&gc); m.push_back(l); m.insert(m.end(), x.begin(), x.end()); h += " appendCollection";
        }
        break;
      }
      case 6: {
        V d = rv(r, s); size_t i = 0;
        for (auto&& l : t) {for (auto&& p : l) {p = p + mk(d);} for (auto& q : m[i]) {q = {q.x + d.x, q.y + d.y, q.z + d.z};} ++i;}
        h += " iter+"; break;
      }
      default: {size_t i = 0; for (auto&& l : t) {l.reversePoints(); std::reverse(m[i].begin(), m[i].end()); ++i;} h += " iterReverse";}
    }
    if (m.size() > 60) {break;}
    if (allEmpty() && !m.empty()) {c.check(t.size() == 0 || t.size() == m.size(), "size_empty", "size of empty lines"); continue;}
    readAll(c, t, m, h);
    double len = 0;
    for (auto& l : m) {for (size_t i = 0; i + 1 < l.size(); ++i) {len += std::hypot(l[i + 1].x - l[i].x, l[i + 1].y - l[i].y);}}
    c.near(t.length(), len, 1e-9 * (1 + len), "length", "after", h);
  }
  {
    L l = rlst(r, s, r.i(0, 6));
    LL seg; for (size_t i = 0; i + 1 < l.size(); ++i) {seg.push_back({l[i], l[i + 1]});}
    auto a = F2CMultiLineString::getLineSegments(mk<F2CLineString>(l));
    readAll(c, a, seg, vf::cat(" segments of a line of ", l.size()));
    auto b = F2CMultiLineString::getLineSegments(mk<F2CLinearRing>(l));
    readAll(c, b, seg, vf::cat(" segments of a ring of ", l.size()));
  }
  c.count("multilines"); c.sig(h); for (auto& l : m) {for (auto& q : l) {c.sig(q.x);}}
  if (c.idx % 499 == 0) {c.desc = h;}
}
SCENARIO(cells_of_rings, 1500, 60000) {
  auto& r = c.rng;
  double s = r.pick({0.25, 1.0, 64});
  F2CCell t; LL m;
  std::string h;
  auto rg = [&] {return rlst(r, s, r.i(3, 6));};
  if (r.p(0.3)) {L l = rg(); t = F2CCell(mk<F2CLinearRing>(l)); m.push_back(closed(l)); h += " ring";}
  for (int k = 0, ops = r.i(2, 8); k < ops; ++k) {
    int n = int(m.size());
    switch (r.i(0, 5)) {
      case 0: {L l = rg(); t.addRing(mk<F2CLinearRing>(r.p(0.5) ? closed(l) : l)); m.push_back(closed(l)); h += " addRing"; break;}
      case 1: {L l = rg(); t.addGeometry(mk<F2CLinearRing>(l)); m.push_back(closed(l)); h += " add"; break;}
      case 2: {
        int i = n ? r.i(0, n + (r.p(0.1) ? 2 : 0)) : 0; L l = rg();
        t.setGeometry(i, mk<F2CLinearRing>(l)); h += " set" + std::to_string(i);
        while (int(m.size()) <= i) {m.push_back({});}
        m[i] = closed(l); break;
      }
      case 3: {double b = r.pick({2.0, 0.5, -1.0, 4.0}); t *= b; mul(m, b); h += " *" + std::to_string(b); break;}
      case 4: {
        V d = rv(r, s); size_t i = 0;
        for (auto&& l : t) {for (auto&& p : l) {p = p + mk(d);} for (auto& q : m[i]) {q = {q.x + d.x, q.y + d.y, q.z + d.z};} ++i;}
        h += " iter+"; break;
      }
      default: {size_t i = 0; for (auto&& l : t) {l.reversePoints(); std::reverse(m[i].begin(), m[i].end()); ++i;} h += " iterReverse";}
    }
    readAll(c, t, m, h);
    n = int(m.size());
    if (n) {c.check(same(of(t.getExteriorRing()), m[0]), "exterior", "outer ring after", h);}
    else {c.throws([&] {t.getExteriorRing();}, "exterior_empty", "outer ring of an empty cell");}
    for (int i = 1; i < n; ++i) {c.check(same(of(t.getInteriorRing(i - 1)), m[i]), "interior", "inner ring ", i - 1, " after", h);}
    for (size_t bad : {size_t(n ? n - 1 : 0), size_t(n + 7), size_t(-1)}) {
      bool oor = false;
      try {t.getInteriorRing(bad);} catch (const std::out_of_range&) {oor = true;}
      c.check(oor, "interior_range", "inner ring ", bad, " of ", n - 1, " is no out of range error");
    }
    V d = rv(r, s);
    F2CCell up = t + mk(d), dn = t - mk(d);
    LL mu = m, md = m;
    for (auto& l : mu) {for (auto& q : l) {q = {q.x + d.x, q.y + d.y, q.z + d.z};}}
    for (auto& l : md) {for (auto& q : l) {q = {q.x - d.x, q.y - d.y, q.z - d.z};}}
    readAll(c, up, mu, h + " moved"); readAll(c, dn, md, h + " moved back");
  }
  c.count("cells_of_rings"); c.sig(h); for (auto& l : m) {for (auto& q : l) {c.sig(q.x);}}
  if (c.idx % 499 == 0) {c.desc = h;}
}
SCENARIO(sets_of_cells, 1500, 60000) {
  auto& r = c.rng;
  double s = r.pick({0.25, 1.0, 64});
  F2CCells t; LLL m;
  std::string h;
  if (r.p(0.3)) {LL x = rcell(r, s); t = F2CCells(mkCell(x)); m.push_back(x); h += " cell";}
  else if (r.p(0.3)) {
    OGRGeometryCollection gc; OGRPoint p(1, 2); gc.addGeometry(&p);
    for (int i = 0, n = r.i(0, 3); i < n; ++i) {LL x = rcell(r, s); auto g = mkCell(x); gc.addGeometry(g.get()); m.push_back(x);}
    t = F2CCells(static_cast<const OGRGeometry*>(&gc)); h += " collection";
  }
  readAll(c, t, m, h);
  for (int k = 0, ops = r.i(2, 8); k < ops; ++k) {
    int n = int(m.size());
    switch (r.i(0, 5)) {
      case 0: {LL x = rcell(r, s); t.addGeometry(mkCell(x)); m.push_back(x); h += " add"; break;}
      case 1: {
        int i = r.i(0, n + (r.p(0.2) ? 2 : 0)); LL x = rcell(r, s);
        t.setGeometry(i, mkCell(x)); h += " set" + std::to_string(i);
        while (int(m.size()) <= i) {m.push_back({});}
        m[i] = x; break;
      }
      case 2: {double b = r.pick({2.0, 0.5, -1.0, 4.0}); t *= b; mul(m, b); h += " *" + std::to_string(b); break;}
      case 3: if (n) {int i = r.i(0, n - 1); L l = rlst(r, s, r.i(3, 5)); t.addRing(i, mk<F2CLinearRing>(r.p(0.5) ? closed(l) : l)); m[i].push_back(closed(l)); h += " addRing" + std::to_string(i);} break;
      case 4: {
        V d = rv(r, s); size_t i = 0;
        for (auto&& x : t) {for (auto&& l : x) {for (auto&& p : l) {p = p + mk(d);}} for (auto& l : m[i]) {for (auto& q : l) {q = {q.x + d.x, q.y + d.y, q.z + d.z};}} ++i;}
        h += " iter+"; break;
      }
      default: {size_t i = 0; for (auto&& x : t) {x *= 2; mul(m[i++], 2);} h += " iter*2";}
    }
    readAll(c, t, m, h);
    n = int(m.size());
    for (int i = 0; i < n; ++i) {
      c.check(same(of(t.getCell(i)), m[i]), "cell", "cell ", i, " after", h);
      if (m[i].empty()) {continue;}
      c.check(same(of(t.getCellBorder(i)), m[i][0]), "border", "border of cell ", i, " after", h);
      for (int j = 1; j < int(m[i].size()); ++j) {c.check(same(of(t.getInteriorRing(i, j - 1)), m[i][j]), "interior", "inner ring ", j - 1, " of cell ", i, " after", h);}
      c.throws([&] {t.getInteriorRing(i, m[i].size() - 1);}, "interior_range", "inner ring that does not exist");
    }
    auto oor = [&] (auto f, const char* what) {bool o = false; try {f();} catch (const std::out_of_range&) {o = true;} c.check(o, "range_cells", what, " of a cell that does not exist is no out of range error after", h);};
    for (size_t bad : {size_t(n), size_t(n + 9), size_t(-1)}) {
      oor([&] {t.getCell(bad);}, "getCell"); oor([&] {t.getCellBorder(bad);}, "getCellBorder"); oor([&] {t.getInteriorRing(bad, 0);}, "getInteriorRing");
      oor([&] {t.addRing(bad, F2CLinearRing());}, "addRing");
    }
    V d = rv(r, s);
    F2CCells up = t + mk(d);
    LLL mu = m;
    for (auto& x : mu) {for (auto& l : x) {for (auto& q : l) {q = {q.x + d.x, q.y + d.y, q.z + d.z};}}}
    readAll(c, up, mu, h + " moved");
  }
  c.count("sets_of_cells"); c.sig(h); for (auto& x : m) {for (auto& l : x) {for (auto& q : l) {c.sig(q.x);}}}
  if (c.idx % 499 == 0) {c.desc = h;}
}
VF_MAIN
