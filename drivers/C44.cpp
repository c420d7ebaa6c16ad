// BUILD: shim
// QUICK: 1.5
// NOTE: the one-call planners compared with the stages done one by one, with buffers made by GEOS directly and, for fields on Earth, with projections by formula; or-tools and the steering library are stand-ins
#include "vfall.hpp"
#include "swl.hpp"
#include "refs.hpp"
#include "earth.hpp"
#include "fields2cover.h"
using namespace g;
namespace t = f2c::types;
namespace {
struct Job {
  double w, cov; f2c::Options o; F2CRobot b {2, 2};
  double back() const {return o.hg_alg == f2c::HGAlg::CONST ? w * o.hg_swaths : 0;}
  std::string str() const {return vf::cat("width ", w, " cov ", cov, " hg ", int(o.hg_alg), "x", o.hg_swaths, " sg ", int(o.sg_alg), "/", int(o.sg_obj), " angle ", o.sg_angle, " pp ", int(o.pp_alg));}
};
// robot sizes that give a field of the given size a handful of swaths
Job job(vf::Rng& r, double size) {
  Job j;
  j.w = size * r.u(0.015, 0.07); j.cov = size * r.u(0.08, 0.25);
  if (r.p(0.2)) {j.w = j.cov = size * r.u(0.06, 0.12);}
  j.b = F2CRobot(j.w, j.cov);
  if (r.p(0.2)) {j.o.hg_alg = f2c::HGAlg::NONE;}
  j.o.hg_swaths = r.i(0, 4);
  j.o.sg_alg = r.p(0.7) ? f2c::SGAlg::GIVEN_ANGLE : f2c::SGAlg::BRUTE_FORCE;
  j.o.sg_obj = f2c::SGObjFunc(r.i(0, 4));
  j.o.sg_angle = gen::angle(r);
  j.o.pp_alg = f2c::PPAlg(r.i(0, 3));
  return j;
}
std::unique_ptr<f2c::obj::SGObjective> objective(f2c::SGObjFunc f) {
  switch (f) {
    case f2c::SGObjFunc::N_SWATH: return std::make_unique<f2c::obj::NSwath>();
    case f2c::SGObjFunc::SWATH_LENGTH: return std::make_unique<f2c::obj::SwathLength>();
    case f2c::SGObjFunc::FIELD_COV: return std::make_unique<f2c::obj::FieldCoverage>();
    case f2c::SGObjFunc::OVERLAPS: return std::make_unique<f2c::obj::Overlaps>();
    default: return std::make_unique<f2c::obj::NSwathModified>();
  }
}
std::vector<swl::M> swathsOf(const F2CRoute& rt) {
  std::vector<swl::M> v;
  for (size_t i = 0; i < rt.sizeVectorSwaths(); ++i) {auto s = swl::of(rt.getSwaths(i)); v.insert(v.end(), s.begin(), s.end());}
  return v;
}
// same plan, point by point
void sameRoute(vf::Case& c, const F2CRoute& a, const F2CRoute& b, const std::string& k, double tol = 0) {
  if (!c.check(a.sizeVectorSwaths() == b.sizeVectorSwaths() && a.sizeConnections() == b.sizeConnections(), k + "_size",
      a.sizeVectorSwaths(), " groups and ", a.sizeConnections(), " connections, not ", b.sizeVectorSwaths(), " and ", b.sizeConnections())) {return;}
  for (size_t i = 0; i < a.sizeVectorSwaths(); ++i) {
    c.check(swl::same(swl::of(a.getSwaths(i)), swl::of(b.getSwaths(i)), tol), k + "_swaths", "group ", i, " differs");
  }
  for (size_t i = 0; i < a.sizeConnections(); ++i) {
    c.check(swl::samePts(cv::of(a.getConnection(i)), cv::of(b.getConnection(i)), tol), k + "_connection", "connection ", i, ": ", g::str(cv::of(a.getConnection(i))), " not ", g::str(cv::of(b.getConnection(i))));
  }
}
void samePath(vf::Case& c, const F2CPath& a, const F2CPath& b, const std::string& k) {
  if (!c.check(a.size() == b.size(), k + "_size", a.size(), " states, not ", b.size())) {return;}
  for (size_t i = 0; i < a.size(); ++i) {
    auto& p = a[i]; auto& q = b[i];
    if (!c.check(dist(cv::of(p.point), cv::of(q.point)) == 0 && p.angle == q.angle && p.len == q.len && p.velocity == q.velocity && p.dir == q.dir && p.type == q.type, k + "_state", "state ", i, " differs")) {return;}
  }
  c.count("states", int64_t(a.size()));
}
double distTo(P p, const MPoly& m) {double d = INFINITY; g::edges(m, [&] (P u, P v) {d = std::min(d, g::distSeg(p, u, v));}); return d;}
// what any plan of the field has to be
void judge(vf::Case& c, const MPoly& field, const Job& j, const F2CRoute& rt) {
  g::Box bx = g::box(field);
  double sc = 1; for (double x : {bx.x0, bx.y0, bx.x1, bx.y1}) {sc = std::max(sc, std::fabs(x));}
  double tol = 1e-6 + 1e-9 * sc;
  MPoly land = j.back() > 0 ? refs::buffer(field, -j.back()) : field;
  auto got = swathsOf(rt);
  // the stages one by one, on the reference mainland
  F2CCells fl = cv::cells(land);
  f2c::sg::BruteForce bf;
  F2CSwathsByCells want;
  if (!land.empty()) {
    want = j.o.sg_alg == f2c::SGAlg::GIVEN_ANGLE ? bf.generateSwaths(j.o.sg_angle, j.cov, fl) : bf.generateBestSwaths(*objective(j.o.sg_obj), j.cov, fl);
  }
  std::vector<swl::M> w;
  for (auto& s : want) {auto v = swl::of(s); w.insert(w.end(), v.begin(), v.end());}
  c.count("swaths", int64_t(w.size()));
  c.count(w.empty() ? "empty_plans" : "plans");
  if (w.empty()) {c.check(got.empty(), "invented", got.size(), " swaths on no mainland"); return;}
  std::vector<bool> used(got.size(), false);
  size_t missing = 0;
  for (auto& s : w) {
    bool ok = false;
    for (size_t i = 0; i < got.size() && !ok; ++i) {
      if (used[i]) {continue;}
      swl::M q = got[i];
      q.id = s.id;
      if (std::fabs(q.w - s.w) > 1e-9 * s.w) {continue;}
      q.w = s.w;
      if (swl::samePts(q.pts, s.pts, tol) || swl::samePts(swl::rev(q).pts, s.pts, tol)) {used[i] = true; ok = true;}
    }
    missing += !ok;
  }
  c.check(missing == 0, "swath_missing", missing, " of ", w.size(), " swaths of the mainland are not in the route's ", got.size());
  c.check(got.size() == w.size(), "swath_count", got.size(), " swaths in the route, ", w.size(), " on the mainland");
  // connections run over one headland track (or the border), and join the swaths
  int n = j.o.hg_alg == f2c::HGAlg::CONST ? j.o.hg_swaths : 0;
  std::vector<MPoly> tracks;
  if (n == 0) {tracks.push_back(field);}
  for (int i = 0; i < n; ++i) {tracks.push_back(refs::buffer(field, -j.w * (i + 0.5)));}
  std::vector<double> off(tracks.size(), 0);
  std::vector<P> ends; for (auto& s : got) {ends.push_back(s.pts.front()); ends.push_back(s.pts.back());}
  size_t pts = 0;
  for (size_t i = 0; i < rt.sizeConnections(); ++i) {
    auto k = cv::of(rt.getConnection(i));
    pts += k.size();
    for (auto p : k) {
      double d = INFINITY; for (auto e : ends) {d = std::min(d, dist(e, p));}
      if (d < tol) {continue;}
      for (size_t x = 0; x < tracks.size(); ++x) {off[x] = std::max(off[x], distTo(p, tracks[x]));}
    }
    if (!k.empty() && i > 0 && i <= rt.sizeVectorSwaths()) {
      auto& s = rt.getSwaths(i - 1);
      if (s.size() > 0) {c.check(dist(k.front(), cv::of(s.back().endPoint())) < tol, "connection_start", "connection ", i, " does not start where the swath before ends");}
    }
    if (!k.empty() && i > 0 && i < rt.sizeVectorSwaths()) {
      auto& s = rt.getSwaths(i);
      if (s.size() > 0) {c.check(dist(k.back(), cv::of(s.at(0).startPoint())) < tol, "connection_end", "connection ", i, " does not end where the next swath starts");}
    }
  }
  c.count("connection_points", int64_t(pts));
  double best = *std::min_element(off.begin(), off.end());
  c.check(best < 1e-4 + tol, "off_headland", "connections leave every headland track, by ", best);
  // nowhere to go round: one connected track means every swath is linked with the next
  size_t pieces = tracks[0].size(); bool one = true;
  for (auto& m : tracks) {one = one && m.size() == 1 && m[0].rings.size() == 1;}
  if (one && pieces == 1) {
    for (size_t i = 1; i < rt.sizeVectorSwaths(); ++i) {
      auto a = cv::of(rt.getSwaths(i - 1).back().endPoint()), b = cv::of(rt.getSwaths(i).at(0).startPoint());
      c.check(dist(a, b) < tol || (i < rt.sizeConnections() && rt.getConnection(i).size() >= 2), "unlinked", "no way from swath ", i - 1, " to ", i);
    }
    c.count("linked_plans");
  }
}
void pathCovers(vf::Case& c, const F2CRoute& rt, const F2CPath& p, const Job& j) {
  auto sw = swathsOf(rt);
  size_t k = 0, legs = 0;
  for (auto& s : sw) {
    for (size_t i = 0; i + 1 < s.pts.size(); ++i) {
      double l = dist(s.pts[i], s.pts[i + 1]);
      while (k < p.size() && p[k].type != t::PathSectionType::SWATH) {++k;}
      if (!c.check(k < p.size(), "path_swath_missing", "the path ends before swath ", s.id)) {return;}
      c.check(dist(cv::of(p[k].point), s.pts[i]) < 1e-6 && std::fabs(p[k].len - l) < 1e-6 * (1 + l), "path_swath", "swath ", s.id, " leg ", i, " is driven from (", p[k].point.getX(), ",", p[k].point.getY(), ") for ", p[k].len);
      c.check(p[k].velocity == j.b.getCruiseVel(), "path_speed", "a swath is driven at ", p[k].velocity);
      ++k; ++legs;
    }
  }
  while (k < p.size()) {c.check(p[k].type != t::PathSectionType::SWATH, "path_extra", "a swath too many"); ++k;}
  c.count("legs", int64_t(legs));
}
std::unique_ptr<f2c::pp::TurningBase> turner(f2c::PPAlg a) {
  switch (a) {
    case f2c::PPAlg::DUBINS_CC: return std::make_unique<f2c::pp::DubinsCurvesCC>();
    case f2c::PPAlg::REEDS_SHEPP: return std::make_unique<f2c::pp::ReedsSheppCurves>();
    case f2c::PPAlg::REEDS_SHEPP_HC: return std::make_unique<f2c::pp::ReedsSheppCurvesHC>();
    default: return std::make_unique<f2c::pp::DubinsCurves>();
  }
}
gen::Gen small(vf::Rng& r, bool single = false, double maxSize = 200) {
  gen::Opt o; o.minSize = maxSize / 10; o.maxSize = maxSize; o.maxN = 7; o.holes = r.p(0.15); o.multi = !single && r.p(0.2); o.offsets = r.p(0.2);
  return gen::field(r, o);
}
double sizeOf(const MPoly& m) {g::Box b = g::box(m); return std::max(b.x1 - b.x0, b.y1 - b.y0);}
}  // namespace
SCENARIO(routes, 100, 6000) {
  gen::Gen f = small(c.rng);
  Job j = job(c.rng, sizeOf(f.m));
  c.desc = vf::cat(j.str(), " ", f.kind, " ", g::str(f.m));
  F2CCells in = cv::cells(f.m);
  std::string before = cv::snapG(in);
  F2CRoute rt = f2c::planCovRoute(j.b, in, j.o);
  c.check(cv::snapG(in) == before, "cells_changed", "the field changed");
  c.sig(j.w); c.sig(j.cov); c.sig(g::area(f.m)); c.sig(uint64_t(rt.sizeVectorSwaths()));
  judge(c, f.m, j, rt);
  if (f.m.size() == 1 && c.rng.p(0.5)) {sameRoute(c, f2c::planCovRoute(j.b, in.getGeometry(0), j.o), rt, "cell");}
}
SCENARIO(paths, 32, 3000) {
  gen::Gen f = small(c.rng, true, 12);
  Job j = job(c.rng, sizeOf(f.m));
  if (j.o.sg_alg == f2c::SGAlg::BRUTE_FORCE && c.rng.p(0.7)) {j.o.sg_alg = f2c::SGAlg::GIVEN_ANGLE;}
  j.b.setCruiseVel(c.rng.u(1, 4)); j.b.setTurnVel(c.rng.u(0.5, 2));
  j.b.setMaxCurv(c.rng.u(1, 4)); j.b.setMaxDiffCurv(c.rng.u(1, 4));
  c.desc = vf::cat(j.str(), " ", f.kind, " ", g::str(f.m));
  F2CCells in = cv::cells(f.m);
  F2CRoute rt = f2c::planCovRoute(j.b, in, j.o);
  F2CPath p = f2c::planCovPath(j.b, in, j.o);
  c.sig(j.w); c.sig(g::area(f.m)); c.sig(uint64_t(p.size()));
  pathCovers(c, rt, p, j);
  samePath(c, p, f2c::pp::PathPlanning::planPath(j.b, rt, *turner(j.o.pp_alg)), "staged");
  if (f.m.size() == 1 && c.rng.p(0.3)) {samePath(c, f2c::planCovPath(j.b, in.getGeometry(0), j.o), p, "cell");}
}
SCENARIO(defaults, 16, 800) {
  gen::Gen f = small(c.rng, true, 10);
  Job j = job(c.rng, sizeOf(f.m));
  j.o.hg_alg = f2c::HGAlg::CONST; j.o.hg_swaths = 3; j.o.sg_alg = f2c::SGAlg::BRUTE_FORCE; j.o.sg_obj = f2c::SGObjFunc::N_SWATH_MOD; j.o.pp_alg = f2c::PPAlg::DUBINS;
  c.desc = vf::cat("defaults ", j.str(), " ", g::str(f.m));
  F2CCells in = cv::cells(f.m);
  F2CRoute a = f2c::planCovRoute(j.b, in);
  judge(c, f.m, j, a);
  F2CField fl(in, "f");
  sameRoute(c, f2c::planCovRoute(j.b, fl), f2c::planCovRoute(j.b, fl, j.o, true), "field");
  sameRoute(c, f2c::planCovRoute(j.b, fl, true), f2c::planCovRoute(j.b, fl, j.o, true), "field_local");
  samePath(c, f2c::planCovPath(j.b, fl), f2c::planCovPath(j.b, fl, j.o, true), "field_path");
  samePath(c, f2c::planCovPath(j.b, in), f2c::planCovPath(j.b, in, j.o), "cells_path");
  c.sig(j.w); c.sig(uint64_t(a.sizeVectorSwaths()));
}
// a field with coordinates of its own: the plan is in the field's local coordinates
SCENARIO(local_fields, 40, 2500) {
  bool path = c.rng.p(0.3);
  gen::Gen f = small(c.rng, false, path ? 12 : 200);
  Job j = job(c.rng, sizeOf(f.m));
  if (j.o.sg_alg == f2c::SGAlg::BRUTE_FORCE && c.rng.p(0.7)) {j.o.sg_alg = f2c::SGAlg::GIVEN_ANGLE;}
  c.desc = vf::cat("local ", j.str(), " ", f.kind, " ", g::str(f.m));
  F2CField fl(cv::cells(f.m), "f");
  P ref = cv::of(fl.getRefPoint());
  std::string before = cv::snapG(fl.getField());
  F2CRoute rt = f2c::planCovRoute(j.b, fl, j.o, true);
  c.check(cv::snapG(fl.getField()) == before && dist(cv::of(fl.getRefPoint()), ref) == 0 && fl.getId() == "f" && fl.getCRS().empty(), "field_changed", "planning changed the field");
  judge(c, g::mapM(f.m, [&] (P p) {return p - ref;}), j, rt);
  if (path) {
    F2CPath p = f2c::planCovPath(j.b, fl, j.o, true);
    pathCovers(c, rt, p, j);
  }
  c.sig(j.w); c.sig(g::area(f.m));
}
// a field on Earth: planned on the plane, given back in the field's own system
SCENARIO(fields_on_earth, 40, 2500) {
  auto& r = c.rng;
  bool path = r.p(0.3);
  earth::Place pl = earth::place(r, path ? 5 : 20, path ? 12 : 250);
  earth::Sys s = r.p(0.3) ? earth::Sys {"EPSG:4326", 0} : earth::sysFor(r, pl.ll);
  int zone = earth::zoneOf(pl.ll.x);
  F2CField fl(cv::cells(g::mapM(pl.m, [&] (P q) {return s.of(q);})), "f");
  fl.setCRS(s.name);
  double size = (pl.b.y1 - pl.b.y0) * 111000;
  Job j = job(r, size);
  j.o.sg_alg = f2c::SGAlg::GIVEN_ANGLE;
  c.desc = vf::cat("at ", g::str({pl.ll}), " in ", s.name, " ", j.str(), " ", g::str(pl.m));
  // the plan made on the plane by hand
  F2CField u = fl.clone();
  f2c::Transform::transformToUTM(u);
  P ref = cv::of(u.getRefPoint());
  bool grs = u.getUTMDatum() == "ETRS89"; bool north = u.getUTMHemisphere() == "+north"; zone = std::stoi(u.getUTMZone());
  F2CRoute plane = f2c::planCovRoute(j.b, u.getField(), j.o);
  judge(c, cv::of(u.getField()), j, plane);
  std::string before = cv::snapG(fl.getField()); P ref0 = cv::of(fl.getRefPoint());
  F2CRoute rt = f2c::planCovRoute(j.b, fl, j.o, false);
  c.check(cv::snapG(fl.getField()) == before && dist(cv::of(fl.getRefPoint()), ref0) == 0 && fl.getCRS() == s.name, "field_changed", "planning changed the field");
  // points of the plan, taken back to the plane: by formula, or from other systems as one line
  auto same = [&] (std::vector<P> a, const std::vector<P>& b, const std::string& k) {
    if (!c.check(a.size() == b.size(), k + "_size", a.size(), " points, not ", b.size())) {return;}
    if (a.empty()) {return;}
    if (s.kind == 0) {for (auto& p : a) {p = earth::utm(p, zone, north, grs);}}
    else {a = cv::of(f2c::Transform::transform(cv::line(a), s.name, u.getCRS()));}
    for (size_t i = 0; i < a.size(); ++i) {
      P q = a[i] - ref;
      if (!c.check(dist(q, b[i]) < 5e-3, k + "_at", "point ", i, " at (", q.x, ",", q.y, "), not (", b[i].x, ",", b[i].y, ")")) {return;}
    }
    c.count("points", int64_t(a.size()));
  };
  if (!c.check(rt.sizeVectorSwaths() == plane.sizeVectorSwaths() && rt.sizeConnections() == plane.sizeConnections(), "earth_size", rt.sizeVectorSwaths(), " groups, not ", plane.sizeVectorSwaths())) {return;}
  for (size_t i = 0; i < rt.sizeVectorSwaths(); ++i) {
    auto a = swl::of(rt.getSwaths(i)), b = swl::of(plane.getSwaths(i));
    if (!c.check(a.size() == b.size(), "earth_group", "group ", i)) {return;}
    for (size_t k = 0; k < a.size(); ++k) {same(a[k].pts, b[k].pts, "earth_swath"); c.check(a[k].id == b[k].id && std::fabs(a[k].w - b[k].w) < 1e-9, "earth_swath_marks", "swath ", k);}
  }
  for (size_t i = 0; i < rt.sizeConnections(); ++i) {same(cv::of(rt.getConnection(i)), cv::of(plane.getConnection(i)), "earth_connection");}
  if (path) {
    F2CPath p = f2c::planCovPath(j.b, fl, j.o, false), q = f2c::planCovPath(j.b, u.getField(), j.o);
    std::vector<P> a, b;
    for (auto& x : p) {a.push_back(cv::of(x.point));}
    for (auto& x : q) {b.push_back(cv::of(x.point));}
    if (q.size() && q.back().len > 0) {b.push_back(cv::of(q.atEnd()));}
    same(a, b, "earth_path");
  }
  c.sig(pl.ll.x); c.sig(s.name); c.sig(uint64_t(rt.sizeVectorSwaths()));
}
VF_MAIN
