// Conversions between the library's geometry and the oracle's, through raw OGR
// access so that the accessors under test are not trusted.
#pragma once
#include "fields2cover/types.h"
#include "geom.hpp"

namespace cv {
inline g::P of(const f2c::types::Point& p) {return {p.get()->getX(), p.get()->getY()};}
inline std::vector<g::P> pts(const OGRSimpleCurve* c) {
  std::vector<g::P> r;
  if (!c) {return r;}
  for (int i = 0; i < c->getNumPoints(); ++i) {r.push_back({c->getX(i), c->getY(i)});}
  return r;
}
inline std::vector<g::P> of(const f2c::types::LineString& l) {return pts(l.get());}
inline g::Ring of(const f2c::types::LinearRing& l) {return pts(l.get());}
inline g::Poly poly(const OGRPolygon* p) {
  g::Poly r;
  if (!p->getExteriorRing()) {return r;}
  r.rings.push_back(pts(p->getExteriorRing()));
  for (int i = 0; i < p->getNumInteriorRings(); ++i) {r.rings.push_back(pts(p->getInteriorRing(i)));}
  return r;
}
inline g::MPoly of(const f2c::types::Cell& c) {
  g::Poly p = poly(c.get());
  return p.rings.empty() ? g::MPoly {} : g::MPoly {p};
}
inline g::MPoly of(const f2c::types::Cells& c) {
  g::MPoly m;
  const OGRMultiPolygon* mp = c.get();
  for (int i = 0; i < mp->getNumGeometries(); ++i) {
    g::Poly p = poly(mp->getGeometryRef(i)->toPolygon());
    if (!p.rings.empty()) {m.push_back(p);}
  }
  return m;
}
inline std::vector<std::vector<g::P>> of(const f2c::types::MultiLineString& m) {
  std::vector<std::vector<g::P>> r;
  for (int i = 0; i < m.get()->getNumGeometries(); ++i) {r.push_back(pts(m.get()->getGeometryRef(i)->toLineString()));}
  return r;
}
inline std::vector<g::P> of(const f2c::types::MultiPoint& m) {
  std::vector<g::P> r;
  for (int i = 0; i < m.get()->getNumGeometries(); ++i) {
    const OGRPoint* p = m.get()->getGeometryRef(i)->toPoint();
    r.push_back({p->getX(), p->getY()});
  }
  return r;
}
inline f2c::types::Point pt(g::P p) {return f2c::types::Point(p.x, p.y);}
inline f2c::types::LinearRing ring(const g::Ring& r0, bool close = true) {
  g::Ring r = close ? g::open(r0) : r0;
  if (close && !r.empty()) {r.push_back(r[0]);}
  f2c::types::LinearRing lr;
  for (auto p : r) {lr.get()->addPoint(p.x, p.y);}
  return lr;
}
inline f2c::types::LineString line(const std::vector<g::P>& r) {
  f2c::types::LineString l;
  for (auto p : r) {l.get()->addPoint(p.x, p.y);}
  return l;
}
inline f2c::types::Cell cell(const g::Poly& p) {
  f2c::types::Cell c;
  for (auto& r : p.rings) {f2c::types::LinearRing lr = ring(r); c.get()->addRing(lr.get());}
  return c;
}
inline f2c::types::Cells cells(const g::MPoly& m) {
  f2c::types::Cells c;
  for (auto& p : m) {f2c::types::Cell x = cell(p); c.get()->addGeometry(x.get());}
  return c;
}
// exact snapshot of a geometry (WKB hex), to see whether something changed
inline std::string snap(const OGRGeometry* og) {
  if (!og) {return "null";}
  std::string s(og->WkbSize(), 0);
  og->exportToWkb(wkbNDR, reinterpret_cast<unsigned char*>(&s[0]), wkbVariantIso);
  return s;
}
template <class T> std::string snapG(const T& t) {return snap(t.get());}
}  // namespace cv
