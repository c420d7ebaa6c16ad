// Pieces of planning work, each on objects of its own, with a log of everything seen.
#pragma once
#include "vfall.hpp"
#include "swl.hpp"
#include "files.hpp"
#include <sys/stat.h>
#include "fields2cover/utils/random.h"
#include "fields2cover/utils/spline.h"
#include "fields2cover/utils/transformation.h"
#include "fields2cover/utils/parser.h"
#include "fields2cover/headland_generator/constant_headland.h"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
#include "fields2cover/swath_generator/brute_force.h"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
#include "fields2cover/route_planning/custom_order.h"
#include "fields2cover/objectives/hg_obj/rem_area.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/objectives/rp_obj/complete_turn_path_obj.h"
#include "fields2cover/objectives/pp_obj/path_length.h"
#include "fields2cover/path_planning/path_planning.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"
#include "fields2cover/route_planning/route_planner_base.h"
using namespace g;
namespace jobs {
struct Log {
  std::string s; size_t events {0};
  void num(double v) {char b[40]; snprintf(b, sizeof b, "%a ", v); s += b; ++events;}
  void txt(const std::string& t) {s += t; s += ' '; ++events;}
  void geo(const OGRGeometry* o) {txt(std::to_string(vf::hashStr(cv::snap(o))) + ":" + std::to_string(o->WkbSize()));}
  void sw(const F2CSwaths& v) {for (size_t i = 0; i < v.size(); ++i) {auto m = swl::of(v.at(i)); num(m.id); num(m.w); num(m.dir); num(m.type); for (auto p : m.pts) {num(p.x); num(p.y);}}}
  void path(const F2CPath& p) {for (auto& s : p) {num(s.point.getX()); num(s.point.getY()); num(s.angle); num(s.len); num(int(s.dir)); num(int(s.type)); num(s.velocity);}}
  void sw(const F2CSwathsByCells& v) {for (size_t i = 0; i < v.size(); ++i) {txt("cell"); sw(v.at(i));}}
};
inline std::vector<std::unique_ptr<f2c::obj::SGObjective>> sgObjs() {
  std::vector<std::unique_ptr<f2c::obj::SGObjective>> o;
  o.push_back(std::make_unique<f2c::obj::NSwath>()); o.push_back(std::make_unique<f2c::obj::NSwathModified>());
  o.push_back(std::make_unique<f2c::obj::SwathLength>()); o.push_back(std::make_unique<f2c::obj::FieldCoverage>()); o.push_back(std::make_unique<f2c::obj::Overlaps>());
  return o;
}
// read-only calls, on objects which may be shared
inline void readCells(Log& l, const F2CCells& cs, vf::Rng& r) {
  l.num(cs.area()); l.num(cs.size()); l.num(cs.isConvex()); l.num(cs.getDimMinX()); l.num(cs.getHeight()); l.num(cs.getWidth());
  l.geo(cs.convexHull().get()); l.txt(cs.exportToWkt().substr(0, 60)); l.txt(cs.exportToJson().substr(0, 60));
  F2CPoint p = cs.getCell(0).getExteriorRing().getGeometry(1);
  F2CPoint q = p + F2CPoint(r.u(-5, 5), r.u(-5, 5));
  l.num(cs.isPointInBorder(q)); l.num(cs.isPointIn(q)); l.num(cs.distance(q));
  l.geo(cs.closestPointOnBorderTo(q).get());
  F2CCell c = cs.getCell(0);
  l.num(c.area()); l.num(c.isConvex()); l.geo(c.createLineUntilBorder(q, r.u(0, 6)).get());
  l.geo(cs.getLinesInside(F2CLineString(q, q + F2CPoint(900, 500))).get());
  l.geo(F2CCells::buffer(c, r.u(0.5, 2)).get());
  l.geo(cs.difference(F2CCells::buffer(c, -0.5)).get()); l.geo(cs.intersection(c).get()); l.geo(cs.unionCascaded().get());
  l.geo(cs.clone().get()); l.num(cs == cs.clone()); l.geo(cs.getCellWherePoint(q).get());
  l.num(cs.getCell(0).getExteriorRing().isClockwise()); l.num(cs.getCell(0).getExteriorRing().length());
  l.geo(cs.getCellBorder(0).get());
  f2c::hg::ConstHL hl; l.geo(hl.generateHeadlandArea(cs, 1.0, 1).get());
  f2c::decomp::TrapezoidalDecomp td; td.setSplitAngle(r.u(0, 3)); l.geo(td.decompose(cs).get());
  f2c::sg::BruteForce bf; l.sw(bf.generateSwaths(r.u(0, 3), 6, cs));
  f2c::obj::RemArea ra; l.num(ra.computeCost(cs, cs));
}
inline void readSwaths(Log& l, const F2CSwaths& v, vf::Rng& r) {
  l.num(v.size());
  f2c::rp::SpiralOrder so(2 + r.i(0, 4)); l.sw(so.genSortedSwaths(v));
  f2c::rp::BoustrophedonOrder bo; l.sw(bo.genSortedSwaths(v, r.i(0, 3)));
  f2c::rp::SnakeOrder sn; l.sw(sn.genSortedSwaths(v, r.i(0, 3)));
  l.sw(v.clone());
  for (size_t i = 0; i < v.size(); ++i) {l.num(v.at(i).length()); l.num(v.at(i).getInAngle()); l.num(v.at(i).getOutAngle()); l.geo(v.at(i).areaCovered().get()); l.geo(v.at(i).endPoint().get()); l.num(v.at(i).clone() == v.at(i));}
  f2c::obj::SwathLength sl; l.num(sl.computeCost(v)); f2c::obj::NSwath ns; l.num(ns.computeCost(v));
  f2c::obj::DirectDistPathObj dd; l.num(dd.computeCost(v));
}
inline F2CCells someField(vf::Rng& r) {
  gen::Opt o; o.minSize = 20; o.maxSize = 60; o.maxN = 7;
  return cv::cells(gen::field(r, o).m);
}
// one piece of planning work on its own objects; everything seen goes to the log
const int KINDS = 19;
inline void job(Log& l, int kind, uint64_t seed, const std::string& dir) {
  vf::Rng r(seed);
  try {
    switch (kind) {
      case 0: {   // field to ordered swaths
        F2CCells f = someField(r);
        f2c::hg::ConstHL hl;
        F2CCells m = hl.generateHeadlands(f, r.u(0.5, 3));
        l.geo(m.get());
        for (auto& t : hl.generateHeadlandSwaths(f, 1.0, 2, r.p(0.5))) {l.geo(t.get());}
        f2c::decomp::BoustrophedonDecomp bd; bd.setSplitAngle(r.u(0, 3));
        F2CCells d = bd.decompose(m);
        l.geo(d.get());
        f2c::sg::BruteForce bf; bf.setAllowOverlap(r.p(0.5));
        F2CSwathsByCells sw = bf.generateSwaths(r.u(0, 3), r.u(3, 6), d);
        l.sw(sw);
        f2c::rp::SpiralOrder so(4); f2c::rp::SnakeOrder sn; f2c::rp::BoustrophedonOrder bo;
        for (size_t i = 0; i < sw.size(); ++i) {l.sw(so.genSortedSwaths(sw.at(i))); l.sw(sn.genSortedSwaths(sw.at(i))); l.sw(bo.genSortedSwaths(sw.at(i), 2));}
        break;
      }
      case 1: {   // best angle, with parallel evaluation inside
        F2CCells f = someField(r);
        auto os = sgObjs();
        f2c::sg::BruteForce bf; bf.setStepAngle(r.u(0.3, 0.9));
        auto& o = *os[r.i(0, 4)];
        l.sw(bf.generateBestSwaths(o, r.u(6, 9), f.getCell(0))); l.num(bf.computeBestAngle(o, 6.5, f.getCell(0)));
        break;
      }
      case 2: {F2CCells f = someField(r); readCells(l, f, r); break;}
      case 3: {F2CSwaths v; for (auto& m : swl::parallel(r, r.i(2, 20))) {v.push_back(swl::make(m));} readSwaths(l, v, r); break;}
      case 4: {   // graphs
        F2CGraph2D gr; std::vector<F2CPoint> ps; int n = r.i(3, 9);
        for (int i = 0; i < n; ++i) {ps.emplace_back(r.u(-9, 9), r.u(-9, 9));}
        for (int i = 0; i < 3 * n; ++i) {F2CPoint a = r.pick(ps), b = r.pick(ps); if (!(a == b)) {if (r.p(0.5)) {gr.addEdge(a, b);} else {gr.addDirectedEdge(a, b);}}}
        for (int i = 0; i < 5; ++i) {for (auto& p : gr.shortestPath(r.pick(ps), r.pick(ps))) {l.geo(p.get());} l.num(gr.shortestPathCost(r.pick(ps), r.pick(ps)));}
        for (auto& v : gr.allPathsBetween(r.pick(ps), r.pick(ps))) {l.num(v.size());}
        break;
      }
      case 5: {
        f2c::Random g {uint32_t(seed)};
        for (int i = 0; i < 6; ++i) {l.num(g.getRandomDouble()); l.num(g.getRandomExp(1, 9)); l.num(g.getAngleRandom()); l.geo(g.generateRandCell(50, 5).get()); l.geo(g.genConvexCell(9).get()); l.geo(g.genNonConvexField(9).getField().get());}
        break;
      }
      case 6: {
        std::vector<double> x, y; double t = 0; for (int i = 0, n = r.i(3, 12); i < n; ++i) {t += r.u(0.1, 2); x.push_back(t); y.push_back(r.u(-3, 3));}
        f2c::CubicSpline s(x, y, r.p(0.3)); for (int i = 0; i < 20; ++i) {l.num(s(r.u(x[0], t)));}
        break;
      }
      case 7: {   // coordinate systems
        gen::Opt o; o.minSize = 0.001; o.maxSize = 0.01; o.offsets = false; o.multi = false;
        F2CPoint at(r.u(-170, 170), r.u(-60, 70));
        F2CCells cs = cv::cells(gen::field(r, o).m) + at;
        F2CField f(cs, "f"); f.setCRS("EPSG:4326");
        f2c::Transform::transformToUTM(f, r.p(0.5)); l.txt(f.getCRS()); l.geo(f.getCellsAbsPosition().get());
        F2CSwath s(F2CLineString(F2CPoint(0, 0), F2CPoint(30, 40)), 2.0);
        l.geo(f2c::Transform::transformToPrevCRS(s, f).getPath().get());
        f2c::Transform::transformToPrevCRS(f); l.txt(f.getCRS()); l.geo(f.getCellsAbsPosition().get());
        F2CField u(someField(r), "u"); f2c::Transform::transform(u, "EPSG:99999999"); l.txt("no error");
        break;
      }
      case 8: {   // files
        std::string p = dir + "/t" + std::to_string(seed) + ".json";
        {std::ofstream o(p); o << "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"properties\":{\"Name\":\"a" << seed % 97 << "\"},\"geometry\":{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[" << r.u(3, 9) << ",0],[5," << r.u(2, 7) << "],[0,0]]]}}]}";}
        F2CFields fs; f2c::Parser::importJson(p, fs);
        for (auto& f : fs) {l.txt(f.getId()); l.geo(f.getField().get());}
        break;
      }
      case 9: {   // routes
        F2CRoute ro; auto ms = swl::parallel(r, r.i(2, 9));
        for (auto& m : ms) {F2CMultiPoint con; for (int i = 0, n = r.i(0, 3); i < n; ++i) {con.addPoint(F2CPoint(r.u(0, 9), r.u(0, 9)));} {F2CSwaths one; one.push_back(swl::make(m)); ro.addConnectedSwaths(con, one);}}
        l.num(ro.length()); l.geo(ro.asLineString().get()); l.num(ro.sizeVectorSwaths()); l.geo(ro.clone().asLineString().get());
        break;
      }
      case 10: {   // robots, fields and points
        F2CRobot b(r.u(1, 4), r.u(5, 9)); b.setMaxCurv(r.u(0.1, 1)); l.num(b.getMinTurningRadius()); l.num(b.getCovWidth());
        F2CField f(someField(r), "x"); l.num(f.area()); l.geo(f.getCellsAbsPosition().get()); l.geo(f.getRefPoint().get()); f.setCRS("EPSG:28992"); l.txt(f.getCRS()); l.txt(f.clone().getId());
        l.num(f.getEPSGCoordSystem()); l.num(F2CPoint::mod_2pi(r.u(-50, 50))); l.num(F2CPoint::getAngContinuity(r.u(-9, 9), r.u(-9, 9))); l.num(F2CPoint(1, 2).rotateFromPoint(1.0, F2CPoint(3, 4)).getX());
        break;
      }
      case 12: {   // paths over swaths
        F2CSwaths v; for (auto& m : swl::parallel(r, r.i(1, 4))) {v.push_back(swl::make(m));}
        F2CRobot b(2, 4, 0.3 + r.u(0, 1), 0.4); b.setMaxCurv(r.u(0.3, 1));
        f2c::rp::SnakeOrder sn; v = sn.genSortedSwaths(v);
        std::unique_ptr<f2c::pp::TurningBase> t;
        switch (r.i(0, 2)) {case 0: t = std::make_unique<f2c::pp::DubinsCurves>(); break; case 1: t = std::make_unique<f2c::pp::ReedsSheppCurves>(); break; default: t = std::make_unique<f2c::pp::DubinsCurvesCC>(); break;}
        t->setDiscretization(0.2); t->setUsingCache(r.p(0.5));
        F2CPath p = f2c::pp::PathPlanning::planPath(b, v, *t);
        l.path(p); l.num(p.length()); l.path(p.discretizeSwath(5)); l.geo(p.toLineString().get());
        f2c::obj::PathLength pl; l.num(pl.computeCost(p));
        std::string f = dir + "/p" + std::to_string(seed) + ".txt";
        p.saveToFile(f); F2CPath q; q.loadFile(f); l.path(q);
        break;
      }
      case 13: {   // routes over a headland
        F2CCells f = cv::cells(MPoly {Poly {{Ring {{0, 0}, {60, 0}, {60, 50}, {0, r.u(30, 50)}}}}});
        f2c::hg::ConstHL hl; F2CCells mid = hl.generateHeadlands(f, 1.5), in = hl.generateHeadlands(f, 3);
        f2c::sg::BruteForce bf; F2CSwathsByCells s = bf.generateSwaths(0.1, r.u(14, 20), in);
        f2c::rp::RoutePlannerBase rp; if (r.p(0.5)) {rp.setStartAndEndPoint(F2CPoint(0, 0));}
        F2CRoute ro = rp.genRoute(mid, s, false, 1e-4, r.p(0.5));
        l.geo(ro.asLineString().get()); for (size_t i = 0; i < ro.sizeVectorSwaths(); ++i) {l.sw(ro.getSwaths(i));}
        break;
      }
      case 14: {   // GML
        std::string p = dir + "/g" + std::to_string(seed) + ".gml";
        {std::ofstream o(p); o << "<Parcel id=\"f" << seed % 91 << "\"><Field><geometry><gml:Polygon srsName=\"EPSG:4258\"><gml:outerBoundaryIs><gml:LinearRing><gml:coordinates>0,0 " << r.u(3, 9) << ",0 5," << r.u(2, 7) << " 0,0</gml:coordinates></gml:LinearRing></gml:outerBoundaryIs></gml:Polygon></geometry></Field></Parcel>";}
        F2CFields fs; f2c::Parser::importGml(p, fs);
        for (auto& f : fs) {l.txt(f.getId()); l.geo(f.getField().get());}
        break;
      }
      case 15: {   // files which are broken or not there
        std::string p = dir + "/b" + std::to_string(seed) + (r.p(0.5) ? ".json" : ".gml"), q = p;
        const char* t[] = {"{", "[]", "{\"type\":\"FeatureCollection\",\"features\":[{\"geometry\":{\"coordinates\":[[[1]]]}}]}", "<a><b></a>", "<Field><geometry/></Field>", "", "{\"features\":[{\"properties\":{},\"geometry\":{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[1,0],[1,\"x\"],[0,0]]]}}]}"};
        int k = r.i(0, 7);
        if (k < 7) {std::ofstream o(p); o << t[k];}
        auto go = [&] (auto f) {try {f(); l.txt("ok");} catch (const std::exception& e) {l.txt(typeid(e).name());}};
        go([&] {F2CFields fs; l.num(f2c::Parser::importJson(p, fs)); l.num(fs.size());});
        go([&] {F2CFields fs; f2c::Parser::importGml(p, fs); l.num(fs.size());});
        go([&] {l.num(f2c::Parser::importCellJson(p).area());});
        go([&] {l.num(f2c::Parser::importSwathsJson(p).size());});
        go([&] {l.num(f2c::Parser::importStripsJson(p).size());});
        go([&] {l.txt(f2c::Parser::importFieldGml(p, r.p(0.5)).getId());});
        break;
      }
      case 16: {   // requests that are refused
        F2CCells f = someField(r);
        F2CSwaths v; for (auto& m : swl::parallel(r, 4)) {v.push_back(swl::make(m));}
        auto go = [&] (auto g2) {try {g2(); l.txt("ok");} catch (const std::exception& e) {l.txt(typeid(e).name());}};
        f2c::sg::BruteForce bf; f2c::hg::ConstHL hl; f2c::obj::NSwath ns; f2c::rp::CustomOrder co({0, 1, 9, 2});
        go([&] {l.sw(bf.generateSwaths(1, -1, f));}); go([&] {l.sw(bf.generateSwaths(1, 0, f.getCell(0)));});
        go([&] {bf.setStepAngle(-1); l.sw(bf.generateBestSwaths(ns, 3, f.getCell(0)));});
        go([&] {l.geo(hl.generateHeadlands(f, -1).get());}); go([&] {l.num(hl.generateHeadlandSwaths(f, -1, 2).size());});
        go([&] {l.geo(f.getGeometry(99).get());}); go([&] {l.geo(f.getCell(0).getGeometry(77).get());}); go([&] {l.geo(f.getCell(0).getInteriorRing(5).get());});
        go([&] {l.geo(F2CLineString().getGeometry(3).get());}); go([&] {l.geo(F2CMultiPoint().getGeometry(1).get());}); go([&] {l.sw(co.genSortedSwaths(v));});
        go([&] {l.num(v.at(9).getId());}); go([&] {F2CRobot b(-1, 2); l.num(b.getWidth());}); go([&] {f2c::CubicSpline s({2, 1, 0}, {1, 2, 3}); l.num(s(1));});
        go([&] {f2c::Random g(1); l.geo(g.generateRandCell(-2, 5).get());}); go([&] {f2c::Random g(1); l.geo(g.generateRandCell(2, 2).get());});
        go([&] {F2CGraph g2; g2.addEdge(1, 2, 3); l.num(g2.shortestPath(1, 7).size()); l.num(g2.shortestPathCost(8, 9));}); go([&] {F2CGraph2D g2; l.num(g2.nodeToIndex(F2CPoint(1, 1)));});
        go([&] {F2CField e(f, "x"); f2c::Transform::transform(e, "EPSG:99999999"); l.txt(e.getCRS());}); go([&] {F2CField e(f, "x"); e.setCRS("nonsense"); f2c::Transform::transformToUTM(e); l.txt(e.getCRS());});
        go([&] {l.geo(F2CCell::buffer(f.getCell(0), -1e4).get());}); go([&] {f.importFromWkt("POLYGON ((0 0, 1"); l.geo(f.get());}); go([&] {f.importFromWkt("POINT (1 2)"); l.geo(f.get());});
        break;
      }
      case 17: {   // lines, rings and edits of cells
        F2CCells f = someField(r);
        F2CMultiLineString ml; F2CLineString ln; F2CMultiPoint mp;
        for (int i = 0, n = r.i(2, 8); i < n; ++i) {F2CPoint p(r.u(-60, 60), r.u(-60, 60)); ln.addPoint(p); mp.addPoint(p); if (i > 1) {ml.addGeometry(ln);}}
        l.geo(ml.intersection(f).get()); l.geo(f.intersection(F2CCells::buffer(ln, 2)).get()); l.geo(f.splitByLine(ln).get()); l.geo(f.splitByLine(ml).get());
        f.addRing(0, F2CLinearRing({F2CPoint(0, 0), F2CPoint(1, 0), F2CPoint(0, 1), F2CPoint(0, 0)})); l.geo(f.get());
        f.setGeometry(0, f.getCell(f.size() - 1)); f.addGeometry(f.getCell(0)); l.geo(f.get()); l.num(ln.length()); l.geo(mp.get());
        for (auto& cell : f) {for (auto& ring : cell) {l.num(ring.length()); for (auto& p : ring) {l.num(p.getX());}}}
        l.geo((f + F2CPoint(1, 2)).get()); f *= 3; l.geo(f.get()); l.geo(F2CPoint(0, 0).rotateFromPoint(1.0, f).get());
        F2CSwath s(ln, 2, 3); l.geo(s.getPath().get()); F2CSwaths sws; sws.append(ln, f, 2); l.sw(sws);
        break;
      }
      case 18: {   // set operations on cells which touch along borders and in corners
        auto some = [&] {
          MPoly m;
          for (int i = 0, n = r.i(1, 3); i < n; ++i) {
            double x = r.i(0, 6) + 12 * i, y = r.i(0, 6), w = r.i(3, 8), h = r.i(3, 8), u = r.i(1, int(w) - 1), v = r.i(1, int(h) - 1);
            Ring q = r.p(0.4) ? Ring {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}} : r.p(0.5) ? Ring {{x, y}, {x + w, y}, {x + w, y + v}, {x + u, y + v}, {x + u, y + h}, {x, y + h}}
              : Ring {{x, y}, {x + w, y}, {x + w, y + h}, {x + w - 1, y + h}, {x + w - 1, y + v}, {x + 1, y + v}, {x + 1, y + h}, {x, y + h}};
            m.push_back(Poly {{q}});
          }
          return cv::cells(m);
        };
        for (int i = 0; i < 4; ++i) {
          F2CCells a = some(), b = some();
          auto go = [&] (auto f) {try {f();} catch (const std::exception& e) {l.txt(typeid(e).name());}};
          go([&] {l.geo(a.intersection(b).get());}); go([&] {l.geo(a.difference(b).get());}); go([&] {l.geo(a.unionOp(b).get());});
          go([&] {l.geo(F2CCells::intersection(a.getCell(0), b.getCell(0)).get());}); go([&] {l.geo(a.intersection(b.getCell(0)).get());}); go([&] {l.geo(a.unionOp(b.getCell(0)).get());}); go([&] {l.geo(a.difference(b.getCell(0)).get());});
          F2CLineString ln {F2CPoint(r.i(0, 8), r.i(0, 8)), F2CPoint(r.i(9, 30), r.i(0, 8)), F2CPoint(r.i(0, 30), r.i(0, 12))};
          go([&] {l.geo(a.getLinesInside(ln).get());}); go([&] {l.geo(a.splitByLine(ln).get());}); go([&] {l.geo(F2CMultiLineString::intersection(ln, b).get());});
          go([&] {l.geo(F2CCells::buffer(a, -0.5).get());}); go([&] {l.geo(F2CCells::buffer(a, -1.5).get());}); go([&] {l.geo(a.convexHull().get());});
          go([&] {l.num(a.isPointInBorder(ln.getGeometry(0))); l.num(a.isPointIn(ln.getGeometry(0)));});
        }
        break;
      }
      default: {   // custom order and list edits
        F2CSwaths v; for (auto& m : swl::any(r, r.i(2, 9))) {v.push_back(swl::make(m));}
        std::vector<size_t> ids; for (size_t i = 0; i < v.size(); ++i) {ids.push_back(i);}
        r.shuffle(ids);
        f2c::rp::CustomOrder co(ids); l.sw(co.genSortedSwaths(v)); v.reverseDirOddSwaths(); v.sort(); l.sw(v);
        break;
      }
    }
  } catch (const std::exception& e) {l.txt(std::string("threw ") + e.what());}
}
}  // namespace jobs
