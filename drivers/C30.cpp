// NOTE: files written from known content by a generator with its own writer; every imported ring, number and name compared with it
// QUICK: 1.5
#include "files.hpp"
#include "fields2cover/utils/parser.h"
using namespace g;
using namespace fl;
namespace {
void sameRings(vf::Case& c, const OGRPolygon* poly, const std::vector<Ring3>& want, P shift, double tol, const std::string& k, bool zs) {
  c.require(poly->getExteriorRing() && size_t(poly->getNumInteriorRings()) + 1 == want.size(), k + "_rings", "rings ", poly->getExteriorRing() ? poly->getNumInteriorRings() + 1 : 0, " of ", want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    const OGRLinearRing* q = i == 0 ? poly->getExteriorRing() : poly->getInteriorRing(int(i) - 1);
    size_t n = want[i].p.size();
    c.require(size_t(q->getNumPoints()) == n + 1, k + "_points", "points ", q->getNumPoints(), " want ", n + 1);
    for (size_t j = 0; j <= n; ++j) {
      P p {q->getX(int(j)), q->getY(int(j))};
      c.check(dist(p + shift, want[i].p[j % n]) <= tol, k + "_at", "ring ", i, " point ", j, " at ", g::str({p + shift}), " want ", g::str({want[i].p[j % n]}));
      if (zs) {c.near(q->getZ(int(j)), want[i].z[j % n], 1e-14 * std::fabs(want[i].z[j % n]), k + "_height", "height");}
      c.count("points");
    }
  }
}
double maxAbs(const Feature& f) {double m = 1; for (auto& r : f.rings) {for (auto p : r.p) {m = std::max({m, std::fabs(p.x), std::fabs(p.y)});}} return m;}
void sameField(vf::Case& c, const F2CField& f, const Feature& w, const std::string& k) {
  c.check(f.getId() == w.name, k + "_name", "name '", f.getId(), "' want '", w.name, "'");
  c.require(f.getField().get()->getNumGeometries() == 1, k + "_cells", "cells ", f.getField().get()->getNumGeometries());
  sameRings(c, f.getField().get()->getGeometryRef(0)->toPolygon(), w.rings, cv::of(f.getRefPoint()), 1e-13 * maxAbs(w), k, false);
}
std::vector<Feature> many(vf::Rng& r, Kind k) {
  std::vector<Feature> v;
  for (int i = r.p(0.05) ? r.i(20, 120) : r.p(0.05) ? 0 : r.i(1, 5); i > 0; --i) {v.push_back(fl::random(r, k));}
  return v;
}
}  // namespace
SCENARIO(fields, 4000, 80000) {
  auto& r = c.rng;
  CommaLocale loc(r.p(0.3));
  F2CFields out;
  std::vector<Feature> want;
  std::string first;
  for (int n = r.i(1, 3), i = 0; i < n; ++i) {
    auto fs = many(r, FIELD);
    std::string t = collection(r, fs, FIELD);
    if (i == 0) {first = t;}
    Scratch s(".json"); s.write(t);
    int times = r.p(0.2) ? 2 : 1;
    for (int k = 0; k < times; ++k) {
      int res = f2c::Parser::importJson(s.path, out);
      c.check(res == 0, "result", "importJson returned ", res);
      want.insert(want.end(), fs.begin(), fs.end());
    }
    if (!fs.empty()) {
      F2CCell one = f2c::Parser::importCellJson(s.path);
      sameRings(c, one.get(), fs[0].rings, {0, 0}, 1e-14 * maxAbs(fs[0]), "cell", true);
    }
  }
  c.desc = first.substr(0, 600);
  c.require(out.size() == want.size(), "count", "fields ", out.size(), " of ", want.size());
  for (size_t i = 0; i < want.size(); ++i) {sameField(c, out[i], want[i], "field"); c.check(out[i].getCRS().empty(), "crs", out[i].getCRS());}
  c.sig(first.size()); c.sig(want.size());
}
SCENARIO(swaths, 4000, 80000) {
  auto& r = c.rng;
  CommaLocale loc(r.p(0.3));
  auto fs = many(r, SWATH);
  std::string t = collection(r, fs, SWATH);
  c.desc = t.substr(0, 600);
  Scratch s(".geojson"); s.write(t);
  F2CSwaths w;
  for (int k = 0, n = r.p(0.2) ? 2 : 1; k < n; ++k) {w = f2c::Parser::importSwathsJson(s.path);}
  c.require(w.size() == fs.size(), "count", "swaths ", w.size(), " of ", fs.size());
  for (size_t i = 0; i < fs.size(); ++i) {
    auto p = w[i].getPath();
    c.check(w[i].getWidth() == fs[i].width && w[i].getId() == fs[i].id, "numbers", "swath ", i, " width ", w[i].getWidth(), " number ", w[i].getId(), " want ", fs[i].width, " ", fs[i].id);
    c.check(w[i].getType() == f2c::types::SwathType::MAINLAND && w[i].getCreationDir(), "kind", "kind of an imported swath");
    auto& l = fs[i].rings[0];
    c.require(size_t(p.get()->getNumPoints()) == l.p.size(), "points", "points ", p.get()->getNumPoints(), " want ", l.p.size());
    for (size_t j = 0; j < l.p.size(); ++j) {
      c.check(p.get()->getX(int(j)) == l.p[j].x && p.get()->getY(int(j)) == l.p[j].y && p.get()->getZ(int(j)) == l.z[j], "at", "point ", j, " of swath ", i);
      c.count("points");
    }
  }
  c.sig(t.size()); c.sig(fs.size());
}
SCENARIO(strips, 2500, 60000) {
  auto& r = c.rng;
  CommaLocale loc(r.p(0.3));
  auto fs = many(r, STRIP);
  std::string t = collection(r, fs, STRIP);
  c.desc = t.substr(0, 600);
  Scratch s(".geojson"); s.write(t);
  F2CStrips w = f2c::Parser::importStripsJson(s.path);
  c.require(w.size() == fs.size(), "count", "strips ", w.size(), " of ", fs.size());
  for (size_t i = 0; i < fs.size(); ++i) {
    c.check(w[i].getName() == fs[i].name, "name", "name '", w[i].getName(), "' want '", fs[i].name, "'");
    sameRings(c, w[i].getCell().get(), fs[i].rings, {0, 0}, 1e-14 * maxAbs(fs[i]), "strip", true);
  }
  c.sig(t.size()); c.sig(fs.size());
}
SCENARIO(gml, 3000, 60000) {
  auto& r = c.rng;
  CommaLocale loc(r.p(0.3));
  F2CFields out;
  std::vector<Feature> want; std::vector<std::string> crs;
  for (int i = r.i(1, 3); i > 0; --i) {
    Feature f = fl::random(r, FIELD);
    bool hasId = r.p(0.85); if (!hasId) {f.name = "";}
    std::string cs = r.pick({"EPSG:4258", "EPSG:4326", "EPSG:28992", "UTM:31N datum:WGS84", "EPSG:25831"});
    std::string t = fl::gml(r, f, cs, hasId);
    c.desc = t.substr(0, 700);
    Scratch s(".xml"); s.write(t);
    if (r.p(0.5)) {f2c::Parser::importGml(s.path, out);} else {out.push_back(f2c::Parser::importFieldGml(s.path, r.p(0.5)));}
    want.push_back(f); crs.push_back(cs);
    if (r.p(0.15)) {   // a system nobody knows, accepted when asked to
      std::string t2 = fl::gml(r, f, "LOCAL", hasId);
      s.write(t2);
      F2CField l = f2c::Parser::importFieldGml(s.path, true);
      sameField(c, l, f, "local");
      c.check(l.getCRS() == "LOCAL", "local_crs", l.getCRS());
      c.throws([&] {f2c::Parser::importFieldGml(s.path);}, "local_refused", "unknown coordinate system accepted");
    }
  }
  c.require(out.size() == want.size(), "count", "fields ", out.size(), " of ", want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    c.check(out[i].getCRS() == crs[i] && out[i].getPrevCRS().empty(), "crs", "system '", out[i].getCRS(), "' want '", crs[i], "'");
    c.check(out[i].getId() == want[i].name, "id", "identifier '", out[i].getId(), "' want '", want[i].name, "'");
    sameField(c, out[i], want[i], "field");
  }
  c.sig(c.desc); c.sig(want.size());
}
VF_MAIN
