// NOTE: exact and numeric snapshots of every object, clones changed by every mutator, and sources changed after cloning
// QUICK: 20
#include "swl.hpp"
using g::P;
namespace {
struct Snap {std::string exact, shape; std::vector<double> num;};
void walk(Snap& s, const OGRGeometry* og) {
  s.exact += cv::snap(og);
  std::function<void(const OGRGeometry*)> rec = [&] (const OGRGeometry* q) {
    if (!q) {s.shape += "null"; return;}
    auto t = wkbFlatten(q->getGeometryType());
    if (t == wkbPoint) {
      auto* p = q->toPoint();
      if (p->IsEmpty()) {s.shape += "e"; return;}
      s.shape += "p"; s.num.insert(s.num.end(), {p->getX(), p->getY(), p->getZ()});
    } else if (t == wkbLineString) {
      auto* l = q->toLineString();
      s.shape += "l" + std::to_string(l->getNumPoints());
      for (int i = 0; i < l->getNumPoints(); ++i) {s.num.insert(s.num.end(), {l->getX(i), l->getY(i), l->getZ(i)});}
    } else if (t == wkbPolygon) {
      auto* p = q->toPolygon();
      s.shape += "(";
      if (p->getExteriorRing()) {rec(p->getExteriorRing());}
      for (int i = 0; i < p->getNumInteriorRings(); ++i) {rec(p->getInteriorRing(i));}
      s.shape += ")";
    } else {
      auto* gc = q->toGeometryCollection();
      s.shape += "[";
      for (int i = 0; i < gc->getNumGeometries(); ++i) {rec(gc->getGeometryRef(i));}
      s.shape += "]";
    }
  };
  rec(og);
}
template <class T> void meta(Snap& s, const T& t) {std::string q = vf::cat("|", t); s.exact += q; s.shape += q;}
void add(Snap& s, const F2CPoint& t) {walk(s, t.get());}
void add(Snap& s, const F2CMultiPoint& t) {walk(s, t.get());}
void add(Snap& s, const F2CLineString& t) {walk(s, t.get());}
void add(Snap& s, const F2CLinearRing& t) {walk(s, t.get());}
void add(Snap& s, const F2CMultiLineString& t) {walk(s, t.get());}
void add(Snap& s, const F2CCell& t) {walk(s, t.get());}
void add(Snap& s, const F2CCells& t) {walk(s, t.get());}
void add(Snap& s, const F2CSwath& t) {walk(s, t.getPath().get()); meta(s, t.getId()); meta(s, t.getWidth()); meta(s, t.getCreationDir()); meta(s, int(t.getType()));}
void add(Snap& s, const F2CSwaths& t) {meta(s, t.size()); for (size_t i = 0; i < t.size(); ++i) {add(s, t.at(i));}}
void add(Snap& s, const F2CSwathsByCells& t) {meta(s, t.size()); for (size_t i = 0; i < t.size(); ++i) {add(s, t.at(i));}}
void add(Snap& s, const F2CRoute& t) {
  meta(s, t.sizeVectorSwaths()); meta(s, t.sizeConnections());
  for (size_t i = 0; i < t.sizeVectorSwaths(); ++i) {add(s, t.getSwaths(i));}
  for (size_t i = 0; i < t.sizeConnections(); ++i) {add(s, t.getConnection(i));}
}
void add(Snap& s, const F2CStrip& t) {meta(s, t.getName()); add(s, t.getCell());}
void add(Snap& s, const F2CField& t) {
  meta(s, t.getId()); meta(s, t.getCRS()); meta(s, t.getPrevCRS());
  s.exact += cv::snapG(t.getRefPoint()) + cv::snapG(t.getField());
  // a clone may choose another reference point: positions are compared
  Snap a; walk(a, t.getField().get());
  P r = cv::of(t.getRefPoint()); double z = t.getRefPoint().getZ();
  s.shape += a.shape;
  for (size_t i = 0; i < a.num.size(); i += 3) {s.num.insert(s.num.end(), {a.num[i] + r.x, a.num[i + 1] + r.y, a.num[i + 2] + z});}
  if (a.num.empty()) {s.num.insert(s.num.end(), {r.x, r.y, z});}
}
template <class T> Snap snap(const T& t) {Snap s; add(s, t); return s;}

template <class T> using Mut = std::function<void(T&, vf::Rng&)>;
template <class T> void testClone(vf::Case& c, T src, const std::vector<std::pair<const char*, Mut<T>>>& muts, const char* what, double rel = 2e-14) {
  const Snap s0 = snap(src);
  double mx = 1e-9;
  for (double v : s0.num) {mx = std::max(mx, std::fabs(v));}
  auto same = [&] (const Snap& a, const Snap& b, const char* key) {
    c.check(a.shape == b.shape, key, what, ": structure or metadata ", b.shape, " became ", a.shape);
    bool ok = a.num.size() == b.num.size();
    double worst = 0;
    for (size_t i = 0; ok && i < a.num.size(); ++i) {worst = std::max(worst, std::fabs(a.num[i] - b.num[i]) + (std::isfinite(a.num[i]) ? 0 : 1e300));}
    c.check(ok && worst <= 10 * rel * mx + 1e-14, key, what, ": coordinates differ by ", worst, " of ", mx);
  };
  T k = src.clone();
  Snap k0 = snap(k);
  same(k0, s0, "equal");
  c.check(snap(src).exact == s0.exact, "cloning_changed", what, ": cloning changed the source");
  std::string names;
  for (int r = 0, n = c.rng.i(1, 4); r < n; ++r) {auto& m = muts[c.rng.i(0, int(muts.size()) - 1)]; names += std::string(" ") + m.first; m.second(k, c.rng);}
  c.check(snap(src).exact == s0.exact, "source_changed", what, ": the source changed with its clone after", names);
  const Snap km = snap(k);
  c.count("changed_clones", km.exact != k0.exact);
  names.clear();
  T k2 = src.clone(), k3 = k2.clone();
  const Snap k20 = snap(k2), k30 = snap(k3);
  same(k20, s0, "equal2"); same(k30, s0, "clone_of_clone");
  for (int r = 0, n = c.rng.i(1, 4); r < n; ++r) {auto& m = muts[c.rng.i(0, int(muts.size()) - 1)]; names += std::string(" ") + m.first; m.second(src, c.rng);}
  c.check(snap(k2).exact == k20.exact, "clone_changed", what, ": the clone changed with its source after", names);
  c.check(snap(k).exact == km.exact, "clone_changed2", what, ": an earlier clone changed with its source after", names);
  for (int r = 0, n = c.rng.i(1, 3); r < n; ++r) {muts[c.rng.i(0, int(muts.size()) - 1)].second(k2, c.rng);}
  c.check(snap(k3).exact == k30.exact, "clone_of_clone_changed", what, ": a clone of the clone changed with it");
  c.count(what);
  c.sig(vf::hashStr(s0.exact)); c.sig(std::string(what) + names);
  if (c.idx % 997 == 0) {c.desc = std::string(what) + " " + s0.shape;}
}

double sc(vf::Rng& r) {return r.pick({1.0, 100.0, 1e4, 5e5, 6e6, 1e-3});}
F2CPoint rp(vf::Rng& r, double s) {return r.p(0.2) ? F2CPoint(r.u(-s, s), r.u(-s, s), r.u(-s, s)) : F2CPoint(r.u(-s, s), r.u(-s, s));}
F2CLineString rl(vf::Rng& r, double s, int n) {F2CLineString l; for (int i = 0; i < n; ++i) {l.addPoint(rp(r, s));} return l;}
F2CMultiPoint rm(vf::Rng& r, double s, int n) {F2CMultiPoint l; for (int i = 0; i < n; ++i) {l.addPoint(rp(r, s));} return l;}
F2CLinearRing rr(vf::Rng& r, double s, int n) {F2CLinearRing l; for (int i = 0; i < n; ++i) {l.addPoint(rp(r, s));} if (n > 0) {l.addPoint(l.getGeometry(0));} return l;}
F2CCell rc(vf::Rng& r, double s) {F2CCell x; for (int i = 0, n = r.i(0, 3); i < n; ++i) {x.addRing(rr(r, s, r.i(3, 7)));} return x;}
F2CCell rcne(vf::Rng& r, double s) {F2CCell x; for (int i = 0, n = r.i(1, 3); i < n; ++i) {x.addRing(rr(r, s, r.i(3, 7)));} return x;}
F2CCells rcs(vf::Rng& r, double s) {F2CCells x; for (int i = 0, n = r.i(0, 3); i < n; ++i) {x.addGeometry(rcne(r, s));} return x;}
F2CMultiLineString rml(vf::Rng& r, double s) {F2CMultiLineString x; for (int i = 0, n = r.i(0, 4); i < n; ++i) {x.addGeometry(rl(r, s, r.i(2, 5)));} return x;}
F2CSwath rs(vf::Rng& r, double s) {
  if (r.p(0.1)) {F2CSwath q; if (r.p(0.5)) {q.setId(r.i(-5, 99));} if (r.p(0.5)) {q.setCreationDir(false);} if (r.p(0.5)) {q.setType(f2c::types::SwathType::HEADLAND);} return q;}
  F2CSwath q(rl(r, s, r.i(2, 5)), r.u(0.1, 9), r.i(-100, 1000), r.p(0.5) ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
  q.setCreationDir(r.p(0.5));
  return q;
}
F2CSwaths rss(vf::Rng& r, double s) {F2CSwaths q; for (int i = 0, n = r.i(0, 5); i < n; ++i) {q.emplace_back(rs(r, s));} return q;}
F2CSwathsByCells rsc(vf::Rng& r, double s) {F2CSwathsByCells q; for (int i = 0, n = r.i(0, 4); i < n; ++i) {q.emplace_back(rss(r, s));} return q;}
F2CRoute rro(vf::Rng& r, double s) {
  F2CRoute q;
  for (int i = 0, n = r.i(0, 6); i < n; ++i) {
    switch (r.i(0, 3)) {
      case 0: q.addSwaths(rss(r, s)); break;
      case 1: q.addSwath(rs(r, s)); break;
      case 2: q.addConnection(rm(r, s, r.i(0, 4))); break;
      case 3: q.addConnectedSwaths(rm(r, s, r.i(0, 4)), rss(r, s)); break;
    }
  }
  return q;
}
std::string rt(vf::Rng& r) {std::string t; for (int i = 0, n = r.i(0, 12); i < n; ++i) {t += char(r.i(32, 126));} return t;}

template <class L> std::vector<std::pair<const char*, Mut<L>>> lineMuts() {
  return {
    {"add", [] (L& l, vf::Rng& r) {l.addPoint(rp(r, 9));}},
    {"addXY", [] (L& l, vf::Rng& r) {l.addPoint(r.u(), r.u());}},
    {"addGeometry", [] (L& l, vf::Rng& r) {l.addGeometry(rp(r, 9));}},
    {"scale", [] (L& l, vf::Rng& r) {l *= r.u(2, 3);}},
    {"set", [] (L& l, vf::Rng& r) {if (l.size()) {l.setGeometry(r.i(0, int(l.size()) - 1), rp(r, 9));}}},
    {"iterate", [] (L& l, vf::Rng& r) {for (auto&& p : l) {p = p + F2CPoint(1, 2, 3);}}},
    {"iterateSetX", [] (L& l, vf::Rng& r) {for (auto&& p : l) {p.setX(r.u());}}},
    {"raw", [] (L& l, vf::Rng& r) {l->empty();}},
    {"wkt", [] (L& l, vf::Rng& r) {l.importFromWkt(l.exportToWkt());}},
  };
}
void mulP(F2CPoint& p) {p *= 1.5;}
void changeSwath(F2CSwath& s, vf::Rng& r) {
  switch (r.i(0, 9)) {
    case 0: s.setId(s.getId() + 1); break;
    case 1: s.setWidth(r.u(1, 9)); break;
    case 2: s.setCreationDir(!s.getCreationDir()); break;
    case 3: s.setType(s.getType() == f2c::types::SwathType::HEADLAND ? f2c::types::SwathType::MAINLAND : f2c::types::SwathType::HEADLAND); break;
    case 4: s.reverse(); break;
    case 5: s.moveTo(rp(r, 9)); break;
    case 6: s.setPath(rl(r, 9, 2)); break;
    case 7: {auto l = s.getPath(); l.addPoint(rp(r, 9)); break;}   // paths are handed out shared
    case 8: {F2CSwath o; s.targetOppositeDirAs(o); break;}
    default: {F2CSwath o; o.setCreationDir(false); s.targetSameDirAs(o); s.getPath().reversePoints();}
  }
}
void changeSwaths(F2CSwaths& s, vf::Rng& r) {
  switch (r.i(0, 8)) {
    case 0: s.emplace_back(rs(r, 9)); break;
    case 1: s.reverse(); break;
    case 2: s.sort(); break;
    case 3: s.reverseDirOddSwaths(); break;
    case 4: s.moveTo(rp(r, 9)); break;
    case 5: if (s.size()) {changeSwath(s.at(r.i(0, int(s.size()) - 1)), r);} break;
    case 6: if (s.size()) {changeSwath(s.back(), r);} break;
    case 7: for (auto&& x : s) {changeSwath(x, r);} break;
    default: s.append(rss(r, 9));
  }
}
void changeMp(F2CMultiPoint& m, vf::Rng& r) {auto ms = lineMuts<F2CMultiPoint>(); ms[r.i(0, 7)].second(m, r);}
void changeCell(F2CCell& x, vf::Rng& r) {
  switch (r.i(0, 5)) {
    case 0: x.addRing(rr(r, 9, 4)); break;
    case 1: x *= r.u(2, 3); break;
    case 2: x.setGeometry(r.i(0, int(x.size())), rr(r, 9, 4)); break;
    case 3: for (auto&& ring : x) {ring.addPoint(rp(r, 9));} break;
    case 4: for (auto&& ring : x) {for (auto&& p : ring) {p = p + F2CPoint(3, 4);}} break;
    default: x->empty();
  }
}
void changeCells(F2CCells& x, vf::Rng& r) {
  switch (r.i(0, 5)) {
    case 0: x.addGeometry(rcne(r, 9)); break;
    case 1: x *= r.u(2, 3); break;
    case 2: x.setGeometry(r.i(0, int(x.size())), rcne(r, 9)); break;
    case 3: for (auto&& cell : x) {changeCell(cell, r); break;} break;
    case 4: if (x.size()) {x.addRing(r.i(0, int(x.size()) - 1), rr(r, 9, 4));} break;
    default: for (auto&& cell : x) {for (auto&& ring : cell) {ring *= 0.5;}}
  }
}
}  // namespace

SCENARIO(geometries, 6000, 300000) {
  auto& r = c.rng;
  double s = sc(r);
  switch (r.i(0, 6)) {
    case 0: {
      std::vector<std::pair<const char*, Mut<F2CPoint>>> m {
        {"setX", [] (F2CPoint& p, vf::Rng& r) {p.setX(r.u());}}, {"setY", [] (F2CPoint& p, vf::Rng& r) {p.setY(r.u());}},
        {"setZ", [] (F2CPoint& p, vf::Rng& r) {p.setZ(r.u());}}, {"mul", [] (F2CPoint& p, vf::Rng&) {mulP(p);}},
        {"setPoint", [] (F2CPoint& p, vf::Rng& r) {p.setPoint(r.u(), r.u(), r.u());}}, {"assign", [] (F2CPoint& p, vf::Rng& r) {p = rp(r, 9);}}};
      testClone(c, rp(r, s), m, "Point");
      // points copy deeply as well
      F2CPoint a = rp(r, s), b(a), d; d = a;
      Snap sa = snap(a);
      b.setX(b.getX() + 1); d *= 2;
      c.check(snap(a).exact == sa.exact, "point_copy", "a copy of a point shares it");
      break;
    }
    case 1: testClone(c, rm(r, s, r.i(0, 6)), lineMuts<F2CMultiPoint>(), "MultiPoint"); break;
    case 2: {
      auto m = lineMuts<F2CLineString>(); m.push_back({"reverse", [] (F2CLineString& l, vf::Rng&) {l.reversePoints();}});
      testClone(c, rl(r, s, r.p(0.1) ? 0 : r.i(1, 8)), m, "LineString"); break;
    }
    case 3: {
      auto m = lineMuts<F2CLinearRing>(); m.push_back({"reverse", [] (F2CLinearRing& l, vf::Rng&) {l.reversePoints();}});
      m.push_back({"close", [] (F2CLinearRing& l, vf::Rng&) {if (l.size()) {l.closeRing();}}});
      testClone(c, rr(r, s, r.p(0.1) ? 0 : r.i(3, 8)), m, "LinearRing"); break;
    }
    case 4: {
      std::vector<std::pair<const char*, Mut<F2CMultiLineString>>> m {
        {"add", [] (F2CMultiLineString& p, vf::Rng& r) {p.addGeometry(rl(r, 9, 3));}}, {"addMany", [] (F2CMultiLineString& p, vf::Rng& r) {p.addGeometry(rml(r, 9));}},
        {"scale", [] (F2CMultiLineString& p, vf::Rng& r) {p *= r.u(2, 3);}}, {"set", [] (F2CMultiLineString& p, vf::Rng& r) {p.setGeometry(r.i(0, int(p.size())), rl(r, 9, 2));}},
        {"append", [] (F2CMultiLineString& p, vf::Rng& r) {p.append(rl(r, 9, 3).get());}},
        {"iterate", [] (F2CMultiLineString& p, vf::Rng& r) {for (auto&& l : p) {l.addPoint(rp(r, 9));}}},
        {"iterateReverse", [] (F2CMultiLineString& p, vf::Rng& r) {for (auto&& l : p) {l.reversePoints();}}}};
      testClone(c, rml(r, s), m, "MultiLineString"); break;
    }
    case 5: testClone(c, rc(r, s), std::vector<std::pair<const char*, Mut<F2CCell>>> {{"cell", changeCell}}, "Cell", 6e-14); break;
    default: testClone(c, rcs(r, s), std::vector<std::pair<const char*, Mut<F2CCells>>> {{"cells", changeCells}}, "Cells", 6e-14);
  }
}
SCENARIO(plans, 5000, 250000) {
  auto& r = c.rng;
  double s = sc(r);
  switch (r.i(0, 3)) {
    case 0: testClone(c, rs(r, s), std::vector<std::pair<const char*, Mut<F2CSwath>>> {{"swath", changeSwath}}, "Swath"); break;
    case 1: testClone(c, rss(r, s), std::vector<std::pair<const char*, Mut<F2CSwaths>>> {{"swaths", changeSwaths}}, "Swaths"); break;
    case 2: {
      std::vector<std::pair<const char*, Mut<F2CSwathsByCells>>> m {
        {"add", [] (F2CSwathsByCells& p, vf::Rng& r) {p.emplace_back(rss(r, 9));}}, {"reverse", [] (F2CSwathsByCells& p, vf::Rng&) {p.reverse();}},
        {"at", [] (F2CSwathsByCells& p, vf::Rng& r) {if (p.size()) {changeSwaths(p.at(r.i(0, int(p.size()) - 1)), r);}}},
        {"getSwath", [] (F2CSwathsByCells& p, vf::Rng& r) {if (p.sizeTotal()) {changeSwath(p.getSwath(r.i(0, int(p.sizeTotal()) - 1)), r);}}},
        {"flatten", [] (F2CSwathsByCells& p, vf::Rng& r) {auto f = p.flatten(); if (f.size()) {changeSwath(f.at(0), r);}}}};
      testClone(c, rsc(r, s), m, "SwathsByCells"); break;
    }
    default: {
      std::vector<std::pair<const char*, Mut<F2CRoute>>> m {
        {"addSwaths", [] (F2CRoute& p, vf::Rng& r) {p.addSwaths(rss(r, 9));}}, {"addSwath", [] (F2CRoute& p, vf::Rng& r) {p.addSwath(rs(r, 9));}},
        {"addConnection", [] (F2CRoute& p, vf::Rng& r) {p.addConnection(rm(r, 9, 2));}},
        {"addConnectionP", [] (F2CRoute& p, vf::Rng& r) {p.addConnection(rp(r, 9));}},
        {"getSwaths", [] (F2CRoute& p, vf::Rng& r) {if (p.sizeVectorSwaths()) {changeSwaths(p.getSwaths(r.i(0, int(p.sizeVectorSwaths()) - 1)), r);}}},
        {"getLastSwaths", [] (F2CRoute& p, vf::Rng& r) {if (p.sizeVectorSwaths()) {changeSwaths(p.getLastSwaths(), r);}}},
        {"getConnection", [] (F2CRoute& p, vf::Rng& r) {if (p.sizeConnections()) {changeMp(p.getConnection(r.i(0, int(p.sizeConnections()) - 1)), r);}}},
        {"getLastConnection", [] (F2CRoute& p, vf::Rng& r) {if (p.sizeConnections()) {changeMp(p.getLastConnection(), r);}}},
        {"setSwaths", [] (F2CRoute& p, vf::Rng& r) {if (p.sizeVectorSwaths()) {p.setSwaths(r.i(0, int(p.sizeVectorSwaths()) - 1), rss(r, 9));}}},
        {"setConnection", [] (F2CRoute& p, vf::Rng& r) {if (p.sizeConnections()) {p.setConnection(r.i(0, int(p.sizeConnections()) - 1), rm(r, 9, 2));}}}};
      testClone(c, rro(r, s), m, "Route");
    }
  }
}
SCENARIO(fields, 4000, 200000) {
  auto& r = c.rng;
  double s = sc(r);
  if (r.p(0.3)) {
    F2CStrip st; st.setName(rt(r)); st.setCell(rc(r, s));
    std::vector<std::pair<const char*, Mut<F2CStrip>>> m {
      {"setName", [] (F2CStrip& p, vf::Rng& r) {p.setName(rt(r));}}, {"setCell", [] (F2CStrip& p, vf::Rng& r) {p.setCell(rc(r, 9));}},
      {"getCell", [] (F2CStrip& p, vf::Rng& r) {changeCell(p.getCell(), r);}}};
    testClone(c, st, m, "Strip", 6e-14);
    return;
  }
  F2CCells cs = rcs(r, s);
  F2CField f = r.p(0.8) ? F2CField(cs, rt(r)) : F2CField();
  if (r.p(0.3)) {f.setRefPoint(rp(r, s));}
  if (r.p(0.3)) {f.setField(rcs(r, s));}
  if (r.p(0.6)) {f.setCRS(r.p(0.5) ? "EPSG:28992" : rt(r));}
  if (r.p(0.6)) {f.setPrevCRS(rt(r));}
  if (r.p(0.3)) {f.setId(rt(r));}
  std::vector<std::pair<const char*, Mut<F2CField>>> m {
    {"setId", [] (F2CField& p, vf::Rng& r) {p.setId(rt(r));}}, {"setCRS", [] (F2CField& p, vf::Rng& r) {p.setCRS(rt(r));}},
    {"setPrevCRS", [] (F2CField& p, vf::Rng& r) {p.setPrevCRS(rt(r));}}, {"setRef", [] (F2CField& p, vf::Rng& r) {p.setRefPoint(rp(r, 9));}},
    {"getRef", [] (F2CField& p, vf::Rng& r) {p.getRefPoint().setX(r.u());}}, {"getField", [] (F2CField& p, vf::Rng& r) {changeCells(p.getField(), r);}},
    {"setField", [] (F2CField& p, vf::Rng& r) {p.setField(rcs(r, 9));}}, {"epsg", [] (F2CField& p, vf::Rng& r) {p.setEPSGCoordSystem(4258);}},
    {"abs", [] (F2CField& p, vf::Rng& r) {auto a = p.getCellsAbsPosition(); changeCells(a, r);}}};
  testClone(c, f, m, "Field", 1e-13);
}
VF_MAIN
