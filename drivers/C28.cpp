// NOTE: absolute positions recomputed point by point; CRS texts written by a generator that knows the parts, read back by every getter
#include "vfall.hpp"
using namespace g;
namespace {
struct Sys {bool utm {false}, epsg {false}; int code {-1}; std::string zone, hemi, datum {"etrs89"}; bool hasUtm {false};};
std::string hemiName(const std::string& h) {return (h == "N" || h == "n") ? "+north" : (h == "S" || h == "s") ? "+south" : "";}
void reads(vf::Case& c, const F2CField& f, const std::string& t, const Sys& s, const std::string& k) {
  std::string w = "text '" + t + "': ";
  c.check(f.getCRS() == t, k + "_crs", w, "CRS kept ", f.getCRS());
  c.check(f.isCoordSystemUTM() == s.utm && F2CField::isCoordSystemUTM(t) == s.utm, k + "_is_utm", w, "is UTM ", f.isCoordSystemUTM());
  c.check(f.isCoordSystemEPSG() == s.epsg && F2CField::isCoordSystemEPSG(t) == s.epsg, k + "_is_epsg", w, "is EPSG ", f.isCoordSystemEPSG());
  c.check(f.getEPSGCoordSystem() == s.code, k + "_epsg", w, "EPSG ", f.getEPSGCoordSystem(), " want ", s.code);
  std::string z = s.zone + s.hemi;
  c.check(f.getUTMCoordSystem() == z && F2CField::getUTMCoordSystem(t) == z, k + "_utm", w, "UTM '", f.getUTMCoordSystem(), "' want '", z, "'");
  c.check(f.getUTMZone() == s.zone && F2CField::getUTMZone(t) == s.zone, k + "_zone", w, "zone '", f.getUTMZone(), "' want '", s.zone, "'");
  c.check(f.getUTMHemisphere() == hemiName(s.hemi) && F2CField::getUTMHemisphere(t) == hemiName(s.hemi), k + "_hemisphere", w, "hemisphere '", f.getUTMHemisphere(), "' want '", hemiName(s.hemi), "'");
  c.check(f.getUTMDatum() == s.datum && F2CField::getUTMDatum(t) == s.datum, k + "_datum", w, "datum '", f.getUTMDatum(), "' want '", s.datum, "'");
  std::string d = vf::cat("dflt", c.rng.i(0, 9));
  if (z.empty()) {c.check(F2CField::getUTMCoordSystem(t, d) == d, k + "_default_utm", w, F2CField::getUTMCoordSystem(t, d));}
  else {c.check(F2CField::getUTMCoordSystem(t, d) == z, k + "_default_utm", w, F2CField::getUTMCoordSystem(t, d));}
  c.count("texts");
}
void positions(vf::Case& c, const F2CField& f, const MPoly& m, double tol, const std::string& k) {
  MPoly a = cv::of(f.getCellsAbsPosition()), st = cv::of(f.getField());
  P ref = cv::of(f.getRefPoint());
  c.require(a.size() == m.size() && st.size() == m.size(), k + "_cells", "cells ", a.size(), " want ", m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    c.require(a[i].rings.size() == m[i].rings.size() && st[i].rings.size() == m[i].rings.size(), k + "_rings", "rings ", a[i].rings.size());
    for (size_t j = 0; j < m[i].rings.size(); ++j) {
      Ring want = open(m[i].rings[j]); want.push_back(want[0]);
      auto &x = a[i].rings[j], &y = st[i].rings[j];
      c.require(x.size() == want.size() && y.size() == want.size(), k + "_points", "points ", x.size(), " want ", want.size());
      for (size_t n = 0; n < want.size(); ++n) {
        c.check(dist(x[n], want[n]) <= tol, k + "_absolute", "point ", g::str({x[n]}), " want ", g::str({want[n]}));
        c.check(dist(y[n] + ref, want[n]) <= tol, k + "_stored", "stored ", g::str({y[n]}), " plus reference ", g::str({ref}), " want ", g::str({want[n]}));
        c.count("points");
      }
    }
  }
}
}  // namespace
SCENARIO(position, 8000, 400000) {
  auto& r = c.rng;
  gen::Opt o; o.minSize = 5; o.maxSize = 3000;
  gen::Gen f = gen::field(r, o);
  c.desc = vf::cat(f.kind, " ", g::str(f.m));
  double tol = 1e-9 * f.size + 4e-16 * f.maxAbs * 8;
  F2CCells cells = cv::cells(f.m);
  const std::string s0 = cv::snapG(cells);
  std::string id = r.pick({"", "field 1", "\xc3\xb1" "7;,\n\""});
  bool lead = r.p(0.15);   // an empty cell in front
  F2CCells in = cells;
  if (lead) {in = F2CCells(); in.get()->addGeometry(F2CCell().get()); for (auto& p : f.m) {in.get()->addGeometry(cv::cell(p).get());}}
  F2CField fl = id.empty() && r.p(0.5) ? F2CField(in) : F2CField(in, id);
  c.check(fl.getId() == id && fl.getCRS().empty() && fl.getPrevCRS().empty(), "id", "identifier '", fl.getId(), "' CRS '", fl.getCRS(), "'");
  c.check(fl.isEmpty() == f.m.empty(), "empty", "isEmpty");
  positions(c, fl, f.m, tol, "made");
  c.near(fl.area(), area(f.m), 1e-9 * f.size * f.size + 1e-14 * f.maxAbs * f.size * 50, "area", "area");
  Box b = box(f.m);
  P ref = cv::of(fl.getRefPoint());
  c.check(ref.x >= b.x0 && ref.x <= b.x1 && ref.y >= b.y0 && ref.y <= b.y1, "ref_point", "reference point ", g::str({ref}), " is away from the field");
  // another reference point, or other cells, or another name keep the rest
  P d {r.u(-1e3, 1e3), r.u(-1e3, 1e3)};
  MPoly m2 = f.m;
  F2CField g2 = fl.clone();
  for (int i = 0, n = r.i(0, 5); i < n; ++i) {
    int op = r.i(0, 4);
    if (op == 0) {P rp = cv::of(g2.getRefPoint()); g2.setRefPoint(cv::pt(rp + d)); m2 = mapM(m2, [&] (P p) {return p + d;}); tol += 1e-12;}
    if (op == 1) {id = vf::cat("id", r.i(0, 99)); g2.setId(id);}
    if (op == 2) {P rp = cv::of(g2.getRefPoint()); MPoly part {m2[r.next() % m2.size()]}; m2 = part; g2.setField(cv::cells(mapM(part, [&] (P p) {return p - rp;})));}
    if (op == 3) {g2.setCRS("EPSG:28992"); g2.setPrevCRS("UTM:32N datum:WGS84"); c.check(g2.getPrevCRS() == "UTM:32N datum:WGS84" && g2.getEPSGCoordSystem() == 28992, "systems", "systems set");}
    if (op == 4) {F2CField g3(g2.getCellsAbsPosition(), id); positions(c, g3, m2, 3 * tol, "again");}
    c.check(g2.getId() == id || op != 1, "id_set", "identifier '", g2.getId(), "'");
    positions(c, g2, m2, 3 * tol, "edited");
    c.near(g2.area(), area(m2), 1e-9 * f.size * f.size + 1e-14 * f.maxAbs * f.size * 50, "area_edited", "area");
  }
  positions(c, fl, f.m, tol, "kept");
  c.check(cv::snapG(cells) == s0, "input_changed", "the cells given changed");
  c.sig(area(f.m)); c.sig(f.off.x);
}
// heights are kept like the other coordinates
SCENARIO(raised, 600, 30000) {
  auto& r = c.rng;
  gen::Opt o; o.minSize = 5; o.maxSize = 3000;
  gen::Gen f = gen::field(r, o);
  double base = r.u(-200, 4000), sx = r.u(-0.3, 0.3), sy = r.u(-0.3, 0.3);
  P at = f.m[0].rings[0][0];
  auto h = [&] (P p) {return base + sx * (p.x - at.x) + sy * (p.y - at.y);};
  c.desc = vf::cat(f.kind, " ", g::str(f.m), " height ", base, " slopes ", sx, " ", sy);
  F2CCells cells;
  for (auto& p : f.m) {
    F2CCell cell;
    for (auto& ring : p.rings) {
      Ring q = open(ring); q.push_back(q[0]);
      F2CLinearRing lr; for (auto& x : q) {lr.addPoint(x.x, x.y, h(x));}
      cell.addRing(lr);
    }
    cells.addGeometry(cell);
  }
  F2CField fl(cells, "up");
  double tol = 1e-9 * f.size + 4e-16 * f.maxAbs * 8 + 1e-9;
  auto look = [&] (const F2CField& x, double up, const char* k) {
    F2CCells a = x.getCellsAbsPosition();
    MPoly m = cv::of(a);
    c.require(m.size() == f.m.size(), std::string(k) + "_cells", "cells ", m.size());
    size_t n = 0;
    for (size_t i = 0; i < a.size(); ++i) {
      c.require(m[i].rings.size() == f.m[i].rings.size(), std::string(k) + "_rings", "rings");
      for (size_t j = 0; j < m[i].rings.size(); ++j) {
        const F2CLinearRing rg = j == 0 ? a.getCellBorder(i) : a.getInteriorRing(i, j - 1);
        Ring want = open(f.m[i].rings[j]); want.push_back(want[0]);
        c.require(rg.size() == want.size(), std::string(k) + "_points", "points ", rg.size());
        for (size_t t = 0; t < want.size(); ++t, ++n) {
          F2CPoint p = rg.getGeometry(t);
          c.check(std::fabs(p.getZ() - h(want[t]) - up) <= tol && dist(cv::of(p), want[t]) <= tol, std::string(k) + "_height", "point ", p.getX(), " ", p.getY(), " ", p.getZ(), " want ", want[t].x, " ", want[t].y, " ", h(want[t]) + up);
        }
      }
    }
    c.count("raised_points", n);
  };
  look(fl, 0, "made"); look(fl.clone(), 0, "clone"); look(F2CField(fl.getCellsAbsPosition()), 0, "again");
  double up = r.u(-50, 50);
  fl.setRefPoint(fl.getRefPoint() + F2CPoint(0, 0, up)); look(fl, up, "moved"); look(fl.clone(), up, "moved_clone");
  c.sig(area(f.m)); c.sig(base);
}
SCENARIO(nothing, 50, 500) {
  F2CField a, b {F2CCells()}, d(F2CCells(F2CCell()), "x");
  for (auto* f : {&a, &b, &d}) {
    c.check(f->isEmpty() && f->area() == 0 && f->getCellsAbsPosition().isEmpty(), "nothing", "field of nothing");
    c.check(f->clone().isEmpty(), "nothing_clone", "clone of a field of nothing");
    reads(c, *f, "", Sys(), "nothing");
  }
  c.count("nothing"); c.sig(c.rng.next());
}
SCENARIO(texts, 4500, 150000) {
  auto& r = c.rng;
  F2CField f;
  Sys s;
  std::string t;
  int k = r.i(0, 9);
  const std::vector<std::string> hemis {"N", "S", "n", "s", "Z", "W"}, datums {"etrs89", "WGS84", "ED50", "NAD27", "x", "84WG", "7"};
  auto zone = [&] {return std::to_string(r.i(1, 60));};
  if (k <= 2) {   // text with a UTM system
    s.zone = zone(); s.hemi = r.pick(hemis);
    std::string sep = r.pick({":", ": ", " ", "", ":  "});
    t = std::string(r.p(0.2) ? "+proj " : "") + "UTM" + sep + s.zone + s.hemi;
    s.utm = sep[0] == ':';
    if (r.p(0.6)) {s.datum = r.pick(datums); t += r.pick({" ", " +", ", ", "; "}) + "datum" + r.pick({":", " ", "=", ": "}) + s.datum; if (r.p(0.3)) {t += r.pick({" +units=m", ";", " "});}}
    f.setCRS(t);
    reads(c, f, t, s, "utm_text");
  } else if (k <= 4) {   // text with an EPSG system
    s.code = r.p(0.2) ? r.i(1, 9) : r.p(0.1) ? int(r.pick({0.0, 2147483647.0})) : r.i(1000, 99999); s.epsg = true;
    t = r.pick({"", "urn:ogc:def:crs:", "crs="}) + "EPSG:" + r.pick({"", ":", "6.9:"}) + std::to_string(s.code);
    if (r.p(0.2)) {t += r.pick({" ", ";", " (m)"});}
    f.setCRS(t);
    reads(c, f, t, s, "epsg_text");
  } else if (k == 5) {   // neither
    t = r.pick({"", "32N", "WGS84", "utm:32N", "epsg:4326", "EPSG 4326", "local", "12", "UTM", "N"});
    f.setCRS(t);
    reads(c, f, t, s, "no_system");
  } else if (k == 6) {
    s.code = r.p(0.1) ? int(r.pick({-5.0, 0.0, 2147483647.0, -2147483648.0})) : r.i(1, 99999); s.epsg = true;
    f.setEPSGCoordSystem(s.code);
    reads(c, f, f.getCRS(), s, "epsg_set");
  } else {
    s.zone = zone(); s.hemi = r.pick(hemis);
    std::string u = r.pick({"", "UTM", "UTM:", "UTM: ", "UTM "}) + s.zone + s.hemi;
    s.utm = true;
    if (k == 7) {
      if (r.p(0.5)) {s.datum = r.pick(datums); u += " datum:" + s.datum;
        if (u[0] != 'U') {u = "UTM:" + u;}}
      f.setUTMCoordSystem(u);
    } else {
      s.datum = r.pick(datums);
      f.setUTMCoordSystem(u, r.pick({"", " ", "datum:", "datum "}) + s.datum);
    }
    reads(c, f, f.getCRS(), s, "utm_set");
    // and again from its own text
    if (r.p(0.4)) {
      F2CField h; h.setUTMCoordSystem(f.getCRS()); reads(c, h, h.getCRS(), s, "utm_reset");
      F2CField q = f.clone(); reads(c, q, f.getCRS(), s, "utm_clone");
    }
  }
  // changing from one system to another leaves nothing of the old one
  if (r.p(0.3)) {
    Sys n; n.code = r.i(1000, 9999); n.epsg = true; f.setEPSGCoordSystem(n.code); reads(c, f, f.getCRS(), n, "switched");
    Sys u; u.utm = true; u.zone = zone(); u.hemi = "S"; f.setUTMCoordSystem(u.zone + "S"); reads(c, f, f.getCRS(), u, "switched_back");
  }
  c.sig(t + s.zone + s.hemi + s.datum + std::to_string(s.code)); c.sig(k);
}
VF_MAIN
