// BUILD: shim
// NOTE: UTM by an independent Krueger series, Web Mercator by its formula; fields, swaths, strips, routes and paths all compared with it point by point
#include "vfall.hpp"
#include "earth.hpp"
#include "fields2cover/utils/transformation.h"
using namespace g;
using namespace earth;
using f2c::Transform;
namespace {
MPoly to(const MPoly& m, const Sys& s) {return mapM(m, [&] (P q) {return s.of(q);});}
void same(vf::Case& c, const MPoly& a, const MPoly& want, double tol, const std::string& k) {
  c.require(a.size() == want.size(), k + "_cells", "cells ", a.size(), " want ", want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    c.require(a[i].rings.size() == want[i].rings.size(), k + "_rings", "rings ", a[i].rings.size());
    for (size_t j = 0; j < want[i].rings.size(); ++j) {
      Ring w = open(want[i].rings[j]); w.push_back(w[0]);
      c.require(a[i].rings[j].size() == w.size(), k + "_points", "points ", a[i].rings[j].size(), " want ", w.size());
      for (size_t n = 0; n < w.size(); ++n) {c.check(dist(a[i].rings[j][n], w[n]) <= tol, k + "_at", "point ", g::str({a[i].rings[j][n]}), " want ", g::str({w[n]})); c.count("points");}
    }
  }
}
void near(vf::Case& c, const std::vector<P>& a, const std::vector<P>& w, double tol, const std::string& k) {
  c.require(a.size() == w.size(), k + "_size", a.size(), " points, want ", w.size());
  for (size_t i = 0; i < w.size(); ++i) {c.check(dist(a[i], w[i]) <= tol, k + "_at", "point ", i, " at ", g::str({a[i]}), " want ", g::str({w[i]})); c.count("points");}
}
F2CField make(const MPoly& ll, const Sys& s) {
  F2CField f(cv::cells(to(ll, s)), "the id");
  f.setCRS(s.name);
  return f;
}
}  // namespace
SCENARIO(to_utm, 700, 30000) {
  auto& r = c.rng;
  Place p = place(r);
  bool opt = r.p(0.7);
  Sys s = r.p(0.3) ? Sys {"", 0} : sysFor(r, p.ll);
  c.desc = vf::cat("at ", g::str({p.ll}), " from '", s.name, "' opt ", opt, " ", g::str(p.m));
  F2CField f = make(p.m, s);
  MPoly before = cv::of(f.getCellsAbsPosition());
  Transform::transformToUTM(f, opt);
  std::string crs = f.getCRS();
  c.check(f.getId() == "the id", "id", "identifier ", f.getId());
  // the zone of the field, the hemisphere and the datum
  std::string z = f.getUTMZone(), h = f.getUTMHemisphere(), d = f.getUTMDatum();
  c.require(f.isCoordSystemUTM() && !z.empty() && !h.empty(), "utm", "coordinate system '", crs, "'");
  int zone = std::stoi(z); bool north = h == "+north";
  int za = zoneOf(p.b.x0), zb = zoneOf(p.b.x1);
  c.check(zone == za || zone == zb, "zone", "zone ", zone, " for longitudes ", p.b.x0, " .. ", p.b.x1);
  P ref = p.m[0].rings[0][0];
  if (std::fabs(ref.x / 6 - std::round(ref.x / 6)) > 1e-7) {c.check(zone == zoneOf(ref.x), "zone_of_start", "zone ", zone, " for ", ref.x);}
  if (std::fabs(ref.y) > 1e-7) {c.check(north == (ref.y > 0), "hemisphere", "hemisphere ", h, " for latitude ", ref.y);}
  bool grs = d == "ETRS89" || d == "etrs89";
  c.check(grs || d == "WGS84", "datum", "datum '", d, "'");
  auto in = [&] (double g) {return p.b.x0 > -16.1 + g && p.b.x1 < 32.88 - g && p.b.y0 > 40.18 + g && p.b.y1 < 84.73 - g;};
  auto out = [&] (double g) {return p.b.x1 < -16.1 - g || p.b.x0 > 32.88 + g || p.b.y1 < 40.18 - g || p.b.y0 > 84.73 + g;};
  if (s.name == "EPSG:4258") {c.check(grs, "datum_etrs89", "datum '", d, "' from ", s.name);}
  else if (s.name == "EPSG:4326" || !opt || out(1e-6)) {c.check(!grs, "datum_wgs84", "datum '", d, "'");}
  else if (in(1e-6)) {c.check(grs, "datum_europe", "datum '", d, "' in Europe");}
  same(c, cv::of(f.getCellsAbsPosition()), mapM(p.m, [&] (P q) {return utm(q, zone, north, grs);}), 2e-3, "utm");
  // back again
  F2CPoint gps = Transform::getRefPointInGPS(f);
  P rp = cv::of(f.getRefPoint());
  P g0 = cv::of(gps);
  c.check(dist(utm(g0, zone, north, false), rp) <= 2e-3, "gps", "reference point in GPS ", g::str({g0}), " gives ", g::str({utm(g0, zone, north, false)}), " want ", g::str({rp}));
  std::string prev = f.getPrevCRS();
  c.check(!prev.empty(), "prev", "no system remembered");
  if (!s.name.empty()) {c.check(prev == s.name, "prev_same", "remembers '", prev, "' but came from '", s.name, "'");}
  if (r.p(0.5)) {f = f.clone();}
  Transform::transformToPrevCRS(f);
  same(c, cv::of(f.getCellsAbsPosition()), before, s.tol(), "back");
  c.check(f.getCRS() == prev && f.getPrevCRS() == crs, "back_systems", "now '", f.getCRS(), "' before '", f.getPrevCRS(), "'");
  Transform::transformToPrevCRS(f);
  same(c, cv::of(f.getCellsAbsPosition()), mapM(p.m, [&] (P q) {return utm(q, zone, north, grs);}), 4e-3, "again");
  c.sig(p.ll.x); c.sig(s.name); c.sig(crs);
}
// a chain of systems; things transformed along with the field
SCENARIO(along, 500, 25000) {
  auto& r = c.rng;
  Place p = place(r);
  Sys s = sysFor(r, p.ll), t = sysFor(r, p.ll);
  c.desc = vf::cat("at ", g::str({p.ll}), " from '", s.name, "' to '", t.name, "'");
  F2CField f = make(p.m, s);
  P ref = cv::of(f.getRefPoint());
  auto spot = [&] {return P {r.u(p.b.x0, p.b.x1 + 1e-6), r.u(p.b.y0, p.b.y1 + 1e-6)};};
  auto abs = [&] (P ll) {return s.of(ll);};
  auto rel = [&] (P ll) {return s.of(ll) - ref;};
  auto mapv = [&] (const std::vector<P>& v, auto fn) {std::vector<P> o; for (auto q : v) {o.push_back(fn(q));} return o;};
  auto far = [&] (P q) {return t.of(q);};
  std::vector<P> run {spot(), spot()};
  for (int i = r.i(0, 4); i > 0; --i) {run.push_back(spot());}
  // one swath, several, given absolutely or relative to the field
  auto mk = [&] (bool absolute, const std::vector<P>& v, int id) {
    F2CSwath w(cv::line(mapv(v, [&] (P q) {return absolute ? abs(q) : rel(q);})), 1.5 + id, id, id % 2 ? f2c::types::SwathType::MAINLAND : f2c::types::SwathType::HEADLAND);
    w.setCreationDir(id % 4 != 0);
    return w;
  };
  auto keeps = [&] (const F2CSwath& w, int id, const std::string& k) {
    c.check(w.getWidth() == 1.5 + id && w.getId() == id && w.getCreationDir() == (id % 4 != 0) &&
      w.getType() == (id % 2 ? f2c::types::SwathType::MAINLAND : f2c::types::SwathType::HEADLAND), k + "_keeps", "swath lost its width, number, kind or direction");
  };
  int n = r.i(1, 5);
  std::vector<std::vector<P>> runs;
  F2CSwaths sa, sr;
  for (int i = 0; i < n; ++i) {runs.push_back({spot(), spot()}); if (r.p(0.4)) {runs.back().push_back(spot());} sa.emplace_back(mk(true, runs[i], i)); sr.emplace_back(mk(false, runs[i], i));}
  auto list = [&] (const F2CSwaths& w, const std::string& k) {
    c.require(w.size() == size_t(n), k + "_count", w.size(), " swaths of ", n);
    for (int i = 0; i < n; ++i) {near(c, cv::of(w.at(i).getPath()), mapv(runs[i], far), t.tol(), k); keeps(w.at(i), i, k);}
  };
  const std::string snapF = cv::snapG(f.getField());
  list(Transform::transformSwaths(sa, s.name, t.name), "swaths");
  list(Transform::transformSwathsWithFieldRef(sr, f, t.name), "swaths_ref");
  near(c, cv::of(Transform::transformSwath(sa.at(0), s.name, t.name).getPath()), mapv(runs[0], far), t.tol(), "swath");
  near(c, cv::of(Transform::transformSwathWithFieldRef(sr.at(0), f, t.name).getPath()), mapv(runs[0], far), t.tol(), "swath_ref");
  for (int i = 0; i < n; ++i) {   // the originals stay
    near(c, cv::of(sa.at(i).getPath()), mapv(runs[i], abs), 0, "swath_kept"); near(c, cv::of(sr.at(i).getPath()), mapv(runs[i], rel), 0, "swath_ref_kept");
  }
  // strips, in absolute coordinates
  F2CStrips ss;
  for (int i = 0; i < n; ++i) {F2CStrip st; st.setName(vf::cat("strip", i)); st.setCell(cv::cell(to({p.m[i % p.m.size()]}, s)[0])); ss.push_back(st);}
  auto strips = [&] (const F2CStrips& o, const std::string& k) {
    c.require(o.size() == size_t(n), k + "_count", o.size(), " strips");
    for (int i = 0; i < n; ++i) {c.check(o[i].getName() == vf::cat("strip", i), k + "_name", "name ", o[i].getName()); same(c, cv::of(o[i].getCell()), to({p.m[i % p.m.size()]}, t), t.tol(), k);}
  };
  strips(Transform::transformStrips(ss, s.name, t.name), "strips");
  same(c, cv::of(Transform::transformStrip(ss[0], s.name, t.name).getCell()), to({p.m[0]}, t), t.tol(), "strip");
  same(c, cv::of(ss[0].getCell()), to({p.m[0]}, s), 0, "strip_kept");
  // loose points and geometries
  near(c, cv::of(Transform::transformMultiPointWithFieldRef([&] {F2CMultiPoint m; for (auto q : run) {m.get()->addGeometry(cv::pt(rel(q)).get());} return m;}(), f, t.name)), mapv(run, far), t.tol(), "multipoint_ref");
  {
    F2CPoint q = cv::pt(abs(run[0])); P qa = cv::of(q);
    near(c, {cv::of(Transform::transform(q, s.name, t.name))}, {far(run[0])}, t.tol(), "point");
    near(c, {cv::of(Transform::transform(cv::pt(rel(run[0])), f.getRefPoint(), s.name, t.name))}, {far(run[0])}, t.tol(), "point_ref");
    near(c, {cv::of(q)}, {qa}, 0, "point_kept");
    F2CLineString ln = cv::line(mapv(run, abs));
    near(c, cv::of(Transform::transform(ln, s.name, t.name)), mapv(run, far), t.tol(), "line");
    near(c, cv::of(ln), mapv(run, abs), 0, "line_kept");
    near(c, cv::of(Transform::transform(cv::line(mapv(run, rel)), f.getRefPoint(), s.name, t.name)), mapv(run, far), t.tol(), "line_ref");
    same(c, cv::of(Transform::transform(cv::cells(to(p.m, s)), s.name, t.name)), to(p.m, t), t.tol(), "cells");
  }
  // routes
  std::vector<std::vector<P>> conns {run, {spot(), spot()}};
  {
    F2CRoute q; F2CMultiPoint m0, m1;
    for (auto x : conns[0]) {m0.get()->addGeometry(cv::pt(rel(x)).get());}
    for (auto x : conns[1]) {m1.get()->addGeometry(cv::pt(rel(x)).get());}
    q.addConnection(m0); q.addSwaths(sr); q.addConnection(m1); q.addSwaths(sr);
    F2CRoute w = Transform::transformRouteWithFieldRef(q, f, t.name);
    c.require(w.sizeVectorSwaths() == 2 && w.sizeConnections() == q.sizeConnections(), "route_shape", w.sizeVectorSwaths(), " groups, ", w.sizeConnections(), " connections");
    list(w.getSwaths(0), "route_swaths"); list(w.getSwaths(1), "route_swaths1");
    for (size_t i = 0; i < q.sizeConnections(); ++i) {near(c, cv::of(w.getConnection(i)), mapv(conns.at(i), far), t.tol(), "route_connection");}
    near(c, cv::of(q.getConnection(0)), mapv(conns[0], rel), 0, "route_kept");
    near(c, cv::of(q.getSwaths(0).at(0).getPath()), mapv(runs[0], rel), 0, "route_swath_kept");
  }
  // paths: positions, kinds, directions, speeds and lengths
  F2CPath pa;
  std::vector<P> at;
  for (int i = 0, k = r.i(1, 8); i < k; ++i) {
    F2CPathState st; at.push_back(spot()); st.point = cv::pt(rel(at.back()));
    st.dir = r.p(0.7) ? f2c::types::PathDirection::FORWARD : f2c::types::PathDirection::BACKWARD;
    st.type = f2c::types::PathSectionType(r.i(1, 3)); st.velocity = r.u(0.1, 5); st.angle = r.u(0, 6.28); st.len = r.u(0, 1e-9);
    pa.addState(st);
  }
  pa.back().len = 0;
  F2CPath pb = Transform::transformPathWithFieldRef(pa, f, t.name);
  c.require(pb.size() == pa.size(), "path_size", pb.size(), " states of ", pa.size());
  for (size_t i = 0; i < pa.size(); ++i) {
    near(c, {cv::of(pb[i].point)}, {far(at[i])}, t.tol(), "path");
    c.check(pb[i].dir == pa[i].dir && pb[i].type == pa[i].type && pb[i].velocity == pa[i].velocity, "path_keeps", "state lost its direction, kind or speed");
    if (i + 1 < pa.size()) {c.near(pb[i].len, dist(cv::of(pb[i].point), cv::of(pb[i + 1].point)), 1e-6, "path_len", "length of a state"); c.check(dist(cv::of(pb[i].atEnd()), cv::of(pb[i + 1].point)) <= 1e-6, "path_ends", "state ends at ", g::str({cv::of(pb[i].atEnd())}), " but the next starts at ", g::str({cv::of(pb[i + 1].point)}));}
    near(c, {cv::of(pa[i].point)}, {rel(at[i])}, 0, "path_kept");
  }
  F2CPath pc; for (auto q : at) {F2CPathState st; st.point = cv::pt(abs(q)); st.angle = 1; pc.addState(st);}
  F2CPath pd = Transform::transformPath(pc, s.name, t.name);
  c.require(pd.size() == pc.size(), "path_abs_size", pd.size());
  for (size_t i = 0; i < at.size(); ++i) {near(c, {cv::of(pd[i].point)}, {far(at[i])}, t.tol(), "path_abs"); near(c, {cv::of(pc[i].point)}, {abs(at[i])}, 0, "path_abs_kept");}
  c.check(cv::snapG(f.getField()) == snapF && cv::of(f.getRefPoint()).x == ref.x && f.getCRS() == s.name, "field_kept", "transforming other things changed the field");
  // the field itself, and everything back by what it remembers
  F2CField g2 = f.clone();
  Transform::transform(g2, t.name);
  same(c, cv::of(g2.getCellsAbsPosition()), to(p.m, t), t.tol(), "field");
  c.check(g2.getCRS() == t.name && g2.getPrevCRS() == s.name && g2.getId() == "the id", "field_systems", "systems '", g2.getCRS(), "', '", g2.getPrevCRS(), "'");
  same(c, cv::of(f.getCellsAbsPosition()), to(p.m, s), s.kind ? 1e-6 : 1e-11, "field_clone_kept");
  P ref2 = cv::of(g2.getRefPoint());
  auto rel2 = [&] (P q) {return t.of(q) - ref2;};
  F2CSwath w2(cv::line(mapv(runs[0], rel2)), 2.0, 7);
  near(c, cv::of(Transform::transformToPrevCRS(w2, g2).getPath()), mapv(runs[0], abs), s.tol(), "prev_swath");
  F2CSwaths w3; w3.emplace_back(w2);
  near(c, cv::of(Transform::transformToPrevCRS(w3, g2).at(0).getPath()), mapv(runs[0], abs), s.tol(), "prev_swaths");
  F2CRoute q2; q2.addSwaths(w3);
  near(c, cv::of(Transform::transformToPrevCRS(q2, g2).getSwaths(0).at(0).getPath()), mapv(runs[0], abs), s.tol(), "prev_route");
  F2CStrip st2; st2.setName("z"); st2.setCell(cv::cell(to({p.m[0]}, t)[0]));
  F2CStrip st3 = Transform::transformToPrevCRS(st2, g2);
  same(c, cv::of(st3.getCell()), to({p.m[0]}, s), s.tol(), "prev_strip");
  c.check(st3.getName() == "z", "prev_strip_name", st3.getName());
  F2CStrips st4 {st2, st2};
  same(c, cv::of(Transform::transformToPrevCRS(st4, g2).at(1).getCell()), to({p.m[0]}, s), s.tol(), "prev_strips");
  F2CPath pe; for (auto q : at) {F2CPathState st; st.point = cv::pt(rel2(q)); pe.addState(st);}
  F2CPath pf = Transform::transformToPrevCRS(pe, g2);
  for (size_t i = 0; i < at.size(); ++i) {near(c, {cv::of(pf[i].point)}, {abs(at[i])}, s.tol(), "prev_path");}
  c.sig(p.ll.x); c.sig(s.name + t.name);
}
// the systems are flat maps: heights are carried along
SCENARIO(heights, 250, 12000) {
  auto& r = c.rng;
  Place p = place(r);
  Sys s = sysFor(r, p.ll), t = sysFor(r, p.ll);
  double base = r.u(-100, 3000);
  c.desc = vf::cat("at ", g::str({p.ll}), " from '", s.name, "' to '", t.name, "', height ", base);
  auto spot = [&] {return P {r.u(p.b.x0, p.b.x1 + 1e-6), r.u(p.b.y0, p.b.y1 + 1e-6)};};
  int n = r.i(2, 6);
  std::vector<P> at; std::vector<double> up;
  for (int i = 0; i < n; ++i) {at.push_back(spot()); up.push_back(base + r.u(-20, 20));}
  auto p3 = [] (P q, double z) {return F2CPoint(q.x, q.y, z);};
  auto ok = [&] (const F2CPoint& q, int i, double z0, const char* k) {
    c.check(std::fabs(q.getZ() + z0 - up[i]) <= 2e-3, k, "height ", q.getZ(), " and ", z0, " want ", up[i]);
    c.check(dist(cv::of(q), t.of(at[i])) <= t.tol(), std::string(k) + "_at", "point ", g::str({cv::of(q)}), " want ", g::str({t.of(at[i])}));
    c.count("heights");
  };
  F2CField f = make(p.m, s);
  P rf = cv::of(f.getRefPoint());
  double zr = r.p(0.5) ? r.u(-50, 50) : 0;
  f.setRefPoint(F2CPoint(rf.x, rf.y, zr));
  F2CLineString a, b; F2CMultiPoint mb; F2CPath pa, pb;
  for (int i = 0; i < n; ++i) {
    F2CPoint qa = p3(s.of(at[i]), up[i]), qb = p3(s.of(at[i]) - rf, up[i] - zr);
    a.addPoint(qa); b.addPoint(qb); mb.addPoint(qb);
    F2CPathState x; x.point = qa; pa.addState(x); x.point = qb; pb.addState(x);
    ok(Transform::transform(qa, s.name, t.name), i, 0, "point");
    ok(Transform::transform(qb, f.getRefPoint(), s.name, t.name), i, 0, "point_ref");
  }
  auto line = [&] (const F2CLineString& l, const char* k) {c.require(l.size() == size_t(n), std::string(k) + "_size", l.size()); for (int i = 0; i < n; ++i) {ok(l.getGeometry(i), i, 0, k);}};
  line(Transform::transform(a, s.name, t.name), "line");
  line(Transform::transform(b, f.getRefPoint(), s.name, t.name), "line_ref");
  line(Transform::transformSwath(F2CSwath(a, 1), s.name, t.name).getPath(), "swath");
  line(Transform::transformSwathWithFieldRef(F2CSwath(b, 1), f, t.name).getPath(), "swath_ref");
  F2CMultiPoint m2 = Transform::transformMultiPointWithFieldRef(mb, f, t.name);
  F2CPath p1 = Transform::transformPath(pa, s.name, t.name), p2 = Transform::transformPathWithFieldRef(pb, f, t.name);
  c.require(m2.size() == size_t(n) && p1.size() == size_t(n) && p2.size() == size_t(n), "sizes", m2.size(), " ", p1.size(), " ", p2.size());
  for (int i = 0; i < n; ++i) {ok(m2.getGeometry(i), i, 0, "multipoint_ref"); ok(p1[i].point, i, 0, "path"); ok(p2[i].point, i, 0, "path_ref");}
  F2CRoute q; q.addConnection(mb);
  F2CSwaths sw; sw.emplace_back(F2CSwath(b, 1)); q.addSwaths(sw);
  F2CRoute w = Transform::transformRouteWithFieldRef(q, f, t.name);
  line(w.getSwaths(0).at(0).getPath(), "route_swath");
  for (int i = 0; i < n; ++i) {ok(w.getConnection(0).getGeometry(i), i, 0, "route_connection");}
  c.sig(p.ll.x); c.sig(s.name + t.name);
}
SCENARIO(refused, 250, 10000) {
  auto& r = c.rng;
  Place p = place(r);
  Sys s = sysFor(r, p.ll);
  F2CField f = make(p.m, s);
  std::string bad = r.pick({"", "NONE", "EPSG:999999", "EPSG:", "EPSG:-5", "EPSG:x", "WGS84", "epsg:4326", "UTM:0N datum:WGS84", "UTM:61N datum:WGS84", "UTM:N datum:WGS84", "UTM: datum:WGS84", "UTM:32N datum:NOPE", "31N"});
  c.desc = vf::cat("'", bad, "' from '", s.name, "' at ", g::str({p.ll}));
  const std::string s0 = cv::snapG(f.getField());
  P ref = cv::of(f.getRefPoint());
  auto kept = [&] (const std::string& crs, const std::string& k) {
    c.check(cv::snapG(f.getField()) == s0 && dist(cv::of(f.getRefPoint()), ref) == 0 && f.getCRS() == crs && f.getPrevCRS().empty(), k, "the field changed although it was refused");
  };
  c.throws([&] {Transform::transform(f, bad);}, "field", "field to ", bad);
  kept(s.name, "field_kept");
  F2CSwaths w; w.emplace_back(F2CSwath(cv::line({{0, 0}, {1, 1}}), 1));
  c.throws([&] {Transform::transformSwaths(w, s.name, bad);}, "swaths", "swaths to ", bad);
  c.throws([&] {Transform::transformSwaths(w, bad, s.name);}, "swaths_from", "swaths from ", bad);
  c.throws([&] {Transform::transform(F2CPoint(1, 1), bad, s.name);}, "point_from", "point from ", bad);
  c.throws([&] {Transform::transform(F2CPoint(1, 1), s.name, bad);}, "point_to", "point to ", bad);
  c.throws([&] {Transform::transformToPrevCRS(f);}, "prev", "nothing remembered");
  kept(s.name, "prev_kept");
  f.setCRS(bad);
  c.throws([&] {Transform::transform(f, "EPSG:4326");}, "field_from", "field from ", bad);
  kept(bad, "field_from_kept");
  if (!bad.empty()) {c.throws([&] {Transform::transformToUTM(f);}, "utm_from", "field to UTM from ", bad); kept(bad, "utm_from_kept");}
  else {   // no system, and coordinates that are no degrees
    F2CField h(cv::cells(mapM(p.m, [&] (P q) {return q + P {r.p(0.5) ? 400. : -400., 0};})));
    const std::string h0 = cv::snapG(h.getField());
    c.throws([&] {Transform::transformToUTM(h);}, "utm_local", "field far from any degrees");
    c.check(cv::snapG(h.getField()) == h0 && h.getCRS().empty(), "utm_local_kept", "the field changed although it was refused");
  }
  c.throws([&] {Transform::getRefPointInGPS(f);}, "gps", "reference point of a field in ", bad);
  // positions no map can show
  F2CField far(cv::cells(mapM(p.m, [] (P q) {return q + P {0, 1e5};})));
  far.setCRS("EPSG:4326");
  const std::string f0 = cv::snapG(far.getField());
  c.throws([&] {Transform::transform(far, "UTM:31N datum:WGS84");}, "nowhere", "latitude of thousands of degrees");
  c.check(cv::snapG(far.getField()) == f0 && far.getCRS() == "EPSG:4326", "nowhere_kept", "the field changed although it was refused");
  c.count("refused"); c.sig(bad); c.sig(s.name);
}
VF_MAIN
