// Reference computations through GEOS' C API directly (trusted library).
#pragma once
#include <geos_c.h>
#include <ogr_geometry.h>
#include "conv.hpp"

namespace refs {
struct Ctx {
  GEOSContextHandle_t h;
  Ctx() : h(GEOS_init_r()) {}
  ~Ctx() {GEOS_finish_r(h);}
};
inline GEOSContextHandle_t ctx() {static Ctx c; return c.h;}

inline GEOSGeometry* seq(const std::vector<g::P>& r, int kind) {   // 0 ring 1 line
  auto h = ctx();
  GEOSCoordSequence* s = GEOSCoordSeq_create_r(h, unsigned(r.size()), 2);
  for (unsigned i = 0; i < r.size(); ++i) {
    GEOSCoordSeq_setX_r(h, s, i, r[i].x); GEOSCoordSeq_setY_r(h, s, i, r[i].y);
  }
  return kind == 0 ? GEOSGeom_createLinearRing_r(h, s) : GEOSGeom_createLineString_r(h, s);
}
inline GEOSGeometry* toGeos(const g::MPoly& m) {
  auto h = ctx();
  std::vector<GEOSGeometry*> ps;
  for (auto& p : m) {
    std::vector<GEOSGeometry*> rs;
    for (auto r : p.rings) {
      r = g::open(r); r.push_back(r[0]);
      rs.push_back(seq(r, 0));
    }
    ps.push_back(GEOSGeom_createPolygon_r(h, rs[0], rs.data() + 1, unsigned(rs.size() - 1)));
  }
  return GEOSGeom_createCollection_r(h, GEOS_MULTIPOLYGON, ps.data(), unsigned(ps.size()));
}
inline void collect(const GEOSGeometry* q, g::MPoly& out) {
  auto h = ctx();
  int t = GEOSGeomTypeId_r(h, q);
  auto ringPts = [&](const GEOSGeometry* r) {
    std::vector<g::P> v;
    const GEOSCoordSequence* s = GEOSGeom_getCoordSeq_r(h, r);
    unsigned n = 0; GEOSCoordSeq_getSize_r(h, s, &n);
    for (unsigned i = 0; i < n; ++i) {g::P p; GEOSCoordSeq_getX_r(h, s, i, &p.x); GEOSCoordSeq_getY_r(h, s, i, &p.y); v.push_back(p);}
    return v;
  };
  if (t == GEOS_POLYGON) {
    if (GEOSisEmpty_r(h, q)) {return;}
    g::Poly p;
    p.rings.push_back(ringPts(GEOSGetExteriorRing_r(h, q)));
    int n = GEOSGetNumInteriorRings_r(h, q);
    for (int i = 0; i < n; ++i) {p.rings.push_back(ringPts(GEOSGetInteriorRingN_r(h, q, i)));}
    out.push_back(p);
  } else if (t >= GEOS_MULTIPOINT) {
    int n = GEOSGetNumGeometries_r(h, q);
    for (int i = 0; i < n; ++i) {collect(GEOSGetGeometryN_r(h, q, i), out);}
  }
}
// mitre joins, flat caps, as the library documents
inline g::MPoly buffer(GEOSGeometry* q, double d, bool single = false) {
  auto h = ctx();
  GEOSBufferParams* bp = GEOSBufferParams_create_r(h);
  GEOSBufferParams_setEndCapStyle_r(h, bp, GEOSBUF_CAP_FLAT);
  GEOSBufferParams_setJoinStyle_r(h, bp, GEOSBUF_JOIN_MITRE);
  GEOSBufferParams_setSingleSided_r(h, bp, single);
  GEOSGeometry* b = GEOSBufferWithParams_r(h, q, bp, d);
  g::MPoly out;
  if (b) {collect(b, out); GEOSGeom_destroy_r(h, b);}
  GEOSBufferParams_destroy_r(h, bp);
  GEOSGeom_destroy_r(h, q);
  return out;
}
inline g::MPoly buffer(const g::MPoly& m, double d) {return m.empty() ? g::MPoly {} : buffer(toGeos(m), d);}
// whether the trusted library itself can compute the buffer
inline bool canBuffer(const g::MPoly& m, double d) {
  auto h = ctx();
  GEOSGeometry* q = toGeos(m);
  GEOSBufferParams* bp = GEOSBufferParams_create_r(h);
  GEOSBufferParams_setEndCapStyle_r(h, bp, GEOSBUF_CAP_FLAT);
  GEOSBufferParams_setJoinStyle_r(h, bp, GEOSBUF_JOIN_MITRE);
  GEOSGeometry* b = GEOSBufferWithParams_r(h, q, bp, d);
  bool ok = b != nullptr;
  if (b) {GEOSGeom_destroy_r(h, b);}
  GEOSBufferParams_destroy_r(h, bp);
  GEOSGeom_destroy_r(h, q);
  return ok;
}
inline bool valid(const g::MPoly& m) {
  if (m.empty()) {return true;}
  GEOSGeometry* q = toGeos(m);
  bool v = GEOSisValid_r(ctx(), q) == 1;
  GEOSGeom_destroy_r(ctx(), q);
  return v;
}
}  // namespace refs
