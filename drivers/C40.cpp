// BUILD: shim
// NOTE: random programs over a pool of objects of every type (empty, single-element and degenerate ones too) whose owners come and go, under AddressSanitizer, UBSan and library assertions; pieces of whole planning work besides
#include "jobs.hpp"
#include "fields2cover/objectives/sg_obj/sg_objective.h"
using namespace jobs;
namespace {
struct Pool {
  vf::Rng& r;
  std::vector<F2CPoint> pt; std::vector<F2CLineString> ls; std::vector<F2CLinearRing> lr; std::vector<F2CMultiPoint> mp; std::vector<F2CMultiLineString> ml;
  std::vector<F2CCell> ce; std::vector<F2CCells> cs; std::vector<F2CSwath> sw; std::vector<F2CSwaths> ss; std::vector<F2CSwathsByCells> sb;
  std::vector<F2CRoute> ro; std::vector<F2CStrip> st; std::vector<F2CField> fi; std::vector<F2CRobot> rb; std::vector<F2CGraph> gr; std::vector<F2CGraph2D> g2;
  std::vector<F2CPath> pa;
  double sink {0}; size_t seen {0};
  explicit Pool(vf::Rng& rr) : r(rr) {   // references into the pool stay good while values are put
    pt.reserve(8); ls.reserve(8); lr.reserve(8); mp.reserve(8); ml.reserve(8); ce.reserve(8); cs.reserve(8); sw.reserve(8); ss.reserve(8); sb.reserve(8);
    ro.reserve(8); st.reserve(8); fi.reserve(8); rb.reserve(8); gr.reserve(8); g2.reserve(8); pa.reserve(8);
  }
  void num(double v) {sink += v == v && std::fabs(v) < 1e300 ? v : 1; ++seen;}
  void txt(const std::string& s) {for (char ch : s) {sink += ch;} ++seen;}
  // every coordinate is read
  void geo(const OGRGeometry* g) {num(double(vf::hashStr(cv::snap(g)) % 1000));}
  void put(const F2CPoint& v) {geo(v.get()); set(pt, v);} void put(const F2CLineString& v) {geo(v.get()); set(ls, v);} void put(const F2CLinearRing& v) {geo(v.get()); set(lr, v);}
  void put(const F2CMultiPoint& v) {geo(v.get()); set(mp, v);} void put(const F2CMultiLineString& v) {geo(v.get()); set(ml, v);} void put(const F2CCell& v) {geo(v.get()); set(ce, v);}
  void put(const F2CCells& v) {geo(v.get()); if (v.get()->WkbSize() < 20000) {set(cs, v);}}
  void put(const F2CSwath& v) {geo(v.getPath().get()); num(v.getWidth()); set(sw, v);}
  void put(const F2CSwaths& v) {for (auto& s : v) {geo(s.getPath().get()); num(s.getId());} if (v.size() < 60) {set(ss, v);}}
  void put(const F2CSwathsByCells& v) {for (auto& x : v) {for (auto& s : x) {geo(s.getPath().get());}} if (v.sizeTotal() < 200) {set(sb, v);}}
  void put(const F2CRoute& v) {for (auto& x : v.getVectorSwaths()) {for (auto& s : x) {geo(s.getPath().get());}} for (auto& x : v.getConnections()) {geo(x.get());} if (v.sizeVectorSwaths() < 30) {set(ro, v);}}
  void put(const F2CStrip& v) {geo(v.getCell().get()); txt(v.getName()); set(st, v);}
  void put(const F2CField& v) {geo(v.getField().get()); geo(v.getRefPoint().get()); txt(v.getId()); txt(v.getCRS()); set(fi, v);}
  void put(const F2CRobot& v) {txt(v.getName()); num(v.getWidth()); set(rb, v);}
  void put(const F2CGraph& v) {num(v.numEdges()); set(gr, v);} void put(const F2CGraph2D& v) {num(v.numEdges()); for (auto& p : v.getNodes()) {geo(p.get());} set(g2, v);}
  void put(const F2CPath& v) {for (auto& s : v) {geo(s.point.get()); num(s.len); num(int(s.dir)); num(int(s.type));} if (v.size() < 400) {set(pa, v);}}
  template <class T> void set(std::vector<T>& v, const T& x) {
    if (v.size() < 4) {v.push_back(x);} else {v[r.next() % v.size()] = x;}
  }
  template <class T> T& get(std::vector<T>& v) {if (v.empty()) {v.emplace_back();} return v[r.next() % v.size()];}
  F2CPoint& P() {return get(pt);} F2CLineString& L() {return get(ls);} F2CLinearRing& R() {return get(lr);} F2CMultiPoint& MP() {return get(mp);} F2CMultiLineString& ML() {return get(ml);}
  F2CCell& C() {return get(ce);} F2CCells& CS() {return get(cs);} F2CSwath& S() {return get(sw);} F2CSwaths& SS() {return get(ss);} F2CSwathsByCells& SB() {return get(sb);}
  F2CRoute& RO() {return get(ro);} F2CStrip& ST() {return get(st);} F2CField& F() {return get(fi);} F2CRobot& RB() {return get(rb);} F2CGraph& G() {return get(gr);} F2CGraph2D& G2() {return get(g2);} F2CPath& PA() {return get(pa);}
  double x() {switch (r.i(0, 6)) {case 0: return 0; case 1: return r.i(-5, 5); case 2: return r.i(0, 10) * 0.5; case 3: return r.u(-1e6, 1e6); case 4: return r.u(-1e-9, 1e-9); default: return r.u(-20, 20);}}
  double ang() {return gen::angle(r);}
  double w() {return r.p(0.1) ? 0 : r.p(0.1) ? -1 : r.u(0.3, 6);}
  size_t ix() {return size_t(r.i(0, 5));}
  int n(int k) {return r.i(0, k);}
};
struct Op {const char* name; std::function<void(Pool&)> f;};
#define OP(NAME, ...) {NAME, [] (Pool& p) {auto& r = p.r; (void) r; __VA_ARGS__}}
bool tractable(const F2CCells& c, double w) {   // not millions of swaths
  if (!(w > 0)) {return true;}
  if (c.size() == 0) {return true;}
  OGREnvelope e; c.get()->getEnvelope(&e);
  return std::hypot(e.MaxX - e.MinX, e.MaxY - e.MinY) / w < 300 && c.get()->WkbSize() < 6000;
}
bool tractable(const F2CCell& c, double w) {F2CCells s; s.get()->addGeometry(c.get()); return tractable(s, w);}
const std::vector<Op>& ops() {
  static const std::vector<Op> o = {
  // making things
  OP("Point", p.put(F2CPoint(p.x(), p.x(), r.p(0.1) ? p.x() : 0));),
  OP("LineString", F2CLineString l; for (int i = 0, n = p.n(5); i < n; ++i) {l.addPoint(r.p(0.2) ? p.P() : F2CPoint(p.x(), p.x()));} p.put(l);),
  OP("LineString2", p.put(F2CLineString(p.P(), p.P()));),
  OP("LinearRing", F2CLinearRing l; int n = p.n(6); for (int i = 0; i < n; ++i) {l.addPoint(p.x(), p.x());} if (n > 0 && r.p(0.8)) {l.addPoint(l.getGeometry(0));} p.put(l);),
  OP("ring of shape", Ring q = gen::star(r, r.i(3, 7)); for (auto& v : q) {v = v * 15;} p.put(cv::ring(q));),
  OP("MultiPoint", F2CMultiPoint m; for (int i = 0, n = p.n(4); i < n; ++i) {m.addPoint(p.P());} p.put(m);),
  OP("MultiLineString", F2CMultiLineString m; for (int i = 0, n = p.n(3); i < n; ++i) {m.addGeometry(p.L());} p.put(m);),
  OP("Cell", p.put(r.p(0.2) ? F2CCell() : F2CCell(p.R()));),
  OP("Cells", p.put(r.p(0.2) ? F2CCells() : F2CCells(p.C()));),
  OP("field cells", gen::Opt o; o.minSize = 5; o.maxSize = 20; o.maxN = 6; p.put(cv::cells(gen::field(r, o).m));),
  OP("Swath", p.put(r.p(0.1) ? F2CSwath() : F2CSwath(p.L(), p.w(), p.n(9)));),
  OP("Swaths", F2CSwaths s; for (int i = 0, n = p.n(6); i < n; ++i) {s.push_back(p.S());} p.put(s);),
  OP("parallel swaths", F2CSwaths s; for (auto& m : swl::parallel(r, p.n(9))) {s.push_back(swl::make(m));} p.put(s);),
  OP("SwathsByCells", F2CSwathsByCells s; for (int i = 0, n = p.n(3); i < n; ++i) {s.push_back(p.SS());} p.put(s);),
  OP("Field", p.put(r.p(0.2) ? F2CField() : F2CField(p.CS(), r.p(0.5) ? "" : "f"));),
  OP("Strip", F2CStrip s; if (r.p(0.7)) {s.setCell(p.C()); s.setName("n");} p.put(s);),
  OP("Robot", p.put(r.p(0.3) ? F2CRobot() : F2CRobot(p.w(), p.w(), p.w(), p.w()));),
  OP("Route", p.put(F2CRoute());), OP("Graph", p.put(F2CGraph());), OP("Graph2D", p.put(F2CGraph2D());), OP("Path", p.put(F2CPath());),
  // forgetting things
  OP("drop", switch (p.n(9)) {case 0: p.pt.clear(); break; case 1: p.ls.clear(); break; case 2: p.lr.clear(); break; case 3: p.ce.clear(); break; case 4: p.cs.clear(); break; case 5: p.sw.clear(); break; case 6: p.ss.clear(); break; case 7: p.fi.clear(); break; case 8: p.ml.clear(); break; default: p.ro.clear(); p.sb.clear(); break;}),
  OP("drop front", if (p.cs.size() > 1) {p.cs.erase(p.cs.begin());} if (p.ce.size() > 1) {p.ce.erase(p.ce.begin());} if (p.ss.size() > 1) {p.ss.erase(p.ss.begin());} if (p.lr.size() > 1) {p.lr.erase(p.lr.begin());}),
  OP("move about", switch (p.n(6)) {case 0: {F2CCells c = std::move(p.CS()); p.CS() = F2CCells(); p.cs.back() = c; for (auto& q : p.cs) {if (!q.get()) {q = F2CCells();}} break;} case 1: {F2CPoint a = p.P(); p.P() = std::move(a); break;} case 2: {F2CSwaths a = std::move(p.SS()); p.put(a); break;} case 3: {F2CSwath a(p.S()); p.S() = std::move(a); break;} case 4: {F2CField a = p.F(); F2CField b(std::move(a)); p.put(b); break;} case 5: {F2CRobot a(p.RB()); p.RB() = std::move(a); break;} default: {F2CCell a = p.C(); p.C() = a; break;}}),
  // points
  OP("P arith", F2CPoint a = p.P(); F2CPoint b = p.P(); p.put(a + b); p.put(a - b); p.num(a * b); p.put(a * p.x()); p.put(a / (1 + std::fabs(p.x()))); p.num(a == b); p.num(a != b); p.num(a < b); a *= p.x(); p.put(a); p.num(F2CPoint::det(a, b));),
  OP("P angles", p.num(p.P().getAngleFromPoints(p.P())); p.num(p.P().getAngleFromPoint()); p.num(F2CPoint::getAngleFromPoints(p.P(), p.P(), p.P())); p.put(p.P().getPointFromAngle(p.ang(), p.x()));),
  OP("P rotate", p.put(p.P().rotateFromPoint(p.ang(), p.P())); p.put(p.P().rotateFromPoint(p.ang(), p.L())); p.put(p.P().rotateFromPoint(p.ang(), p.CS())); p.put(p.P().rotateFromPoint(p.ang(), p.R())); p.put(p.P().rotateFromPoint(p.ang(), p.C())); p.put(p.P().rotateFromPoint(p.ang(), p.ML())); p.put(p.P().rotateFromPoint(p.ang(), p.MP()));),
  OP("P vectors", std::vector<F2CPoint> v = p.pt; for (auto& q : p.P().rotateFromPoint(p.ang(), v)) {p.put(q);}),
  OP("P segments", p.num(p.P().signedDistance2Segment(p.P(), p.P())); p.put(p.P().closestPointInSegment(p.P(), p.P())); p.put(F2CPoint::intersectionOfLines(p.P(), p.P(), p.P(), p.P()));),
  OP("P set", p.P().setX(p.x()); p.P().setY(p.x()); p.P().setZ(p.x()); p.P().setPoint(p.P()); p.P().setPoint(1, 2, 3); OGRPoint q(p.x(), p.x()); p.P().setPoint(q); p.put(p.P().clone());),
  // relations
  OP("relations", p.num(p.P().distance(p.L())); p.num(p.P().distance(p.CS())); p.num(p.L().distance(p.R())); p.num(p.CS().distance(p.C())); p.num(p.P().within(p.CS())); p.num(p.P().touches(p.C())); p.num(p.L().crosses(p.CS())); p.num(p.L().disjoint(p.MP())); p.num(p.C().intersects(p.CS())); p.num(p.CS() == p.CS()); p.num(p.L() != p.L()); p.num(p.CS().isEmpty());),
  OP("boxes", p.num(p.CS().getDimMinX()); p.num(p.L().getDimMaxX()); p.num(p.R().getDimMinY()); p.num(p.C().getDimMaxY()); p.num(p.ML().getHeight()); p.num(p.MP().getWidth()); p.num(p.C().getMinSafeLength());),
  OP("text out", p.txt(p.CS().exportToWkt()); p.txt(p.L().exportToGML()); p.txt(p.C().exportToJson()); p.txt(p.P().exportToKML()); p.txt(p.MP().exportToWkt()); p.txt(p.R().exportToJson());),
  OP("text in", F2CCells c; c.importFromWkt(p.CS().exportToWkt()); p.put(c); F2CCell d; d.importFromWkt(p.C().exportToWkt()); p.put(d); F2CLineString l; l.importFromWkt(p.L().exportToWkt()); p.put(l); F2CPoint q; q.importFromWkt(p.P().exportToWkt()); p.put(q);),
  OP("text in wrong", switch (p.n(5)) {case 0: p.C().importFromWkt("POINT (1 2)"); break; case 1: p.CS().importFromWkt(p.C().exportToWkt()); break; case 2: p.L().importFromWkt(""); break; case 3: p.P().importFromWkt("POINT EMPTY"); break; case 4: p.MP().importFromWkt(p.L().exportToWkt()); break; default: p.ML().importFromWkt("MULTILINESTRING ((0 0, 1"); break;}),
  // lines and rings
  OP("L read", auto& l = p.L(); p.num(l.length()); p.num(l.size()); p.put(l.startPoint()); p.put(l.endPoint());), OP("L angles", auto& l = p.L(); p.num(l.startAngle()); p.num(l.endAngle());), OP("L get", p.put(p.L().getGeometry(p.ix()));), OP("L set", p.L().setGeometry(p.ix(), p.P());), OP("L clone", p.put(p.L().clone()); F2CLineString a = p.L(); p.put(a);),
  OP("L edit", auto& l = p.L(); if (l.size() < 30) {l.addPoint(p.P()); l.addGeometry(p.P()); l.addPoint(1, 2);}), OP("L scale", p.L() *= p.x();), OP("L reverse", p.put(F2CLineString(p.L().clone())); p.L().reversePoints(); p.put(p.L().closestPointTo(p.P()));), OP("L loop", for (auto& q : p.L()) {p.num(q.getX()); q = q + F2CPoint(1, 1);}), OP("L cloop", const F2CLineString& l = p.L(); for (auto& q : l) {p.put(F2CPoint(q));}),
  OP("L simplify", p.put(p.L().simplify(std::fabs(p.x()))); p.put(p.L() + p.P()); p.put(p.L() - p.P());), OP("L isconvex", const F2CLineString l = p.L(); if (l.size() > 0) {p.put(F2CPoint(l[0])); p.put(F2CPoint(l.back())); p.put(F2CPoint(l.at(int(l.size()) - 1)));}),
  OP("R read", auto& l = p.R(); p.num(l.length()); p.num(l.size()); p.num(l.area());), OP("R clockwise", p.num(p.R().isClockwise()); p.R().reversePoints(); p.put(p.R().closestPointTo(p.P()));), OP("R filter", p.num(p.R().isClosed()); p.R().closeRing(); p.geo(p.R().get()); p.R() *= p.x();), OP("R buffer", p.put(F2CCell::buffer(p.R(), p.w()));), OP("R get", p.put(p.R().getGeometry(p.ix()));), OP("R set", p.R().setGeometry(p.ix(), p.P());), OP("R start", p.put(p.R().startPoint()); p.put(p.R().endPoint());),
  OP("R loop", for (auto& q : p.R()) {p.num(q.getY()); q = q - F2CPoint(1, 1);}), 
  OP("MP", auto& m = p.MP(); p.num(m.size()); p.put(m.getGeometry(p.ix()));), OP("MP set", p.MP().setGeometry(p.ix(), p.P());), OP("MP add", if (p.MP().size() < 20) {p.MP().addPoint(p.P()); p.MP().addPoint(1, 2); p.MP().addPoints(p.MP());}), OP("MP ends", p.put(p.MP().getFirstPoint()); p.put(p.MP().getLastPoint());), OP("MP angle", p.num(p.MP().getOutAngle(p.ix())); p.num(p.MP().getInAngle(p.ix())); p.num(p.MP().getPointAngle(p.ix()));), OP("MP loop", for (auto& q : p.MP()) {p.num(q.getX());} p.MP() *= p.x(); p.put(p.MP().clone());),
  OP("ML", auto& m = p.ML(); p.num(m.size()); p.put(m.getGeometry(p.ix()));), OP("ML segs", p.put(F2CMultiLineString::getLineSegments(p.L())); p.put(F2CMultiLineString::getLineSegments(p.R())); p.ML() *= p.x();), OP("ML set", p.ML().setGeometry(p.ix(), p.L());), OP("ML add", if (p.ML().size() < 20) {p.ML().addGeometry(p.L());}), OP("ML loop", for (auto& l : p.ML()) {for (auto& q : l) {p.num(q.getX());}} p.num(p.ML().length());), OP("ML cut", p.put(p.ML().intersection(p.CS())); p.put(F2CMultiLineString::intersection(p.L(), p.CS()));), OP("ML cell", p.put(p.ML().intersection(p.C())); p.put(p.ML().clone()); p.put(p.ML().simplify(1));),
  // cells
  OP("C read", auto& c = p.C(); p.num(c.area()); p.num(c.size()); p.put(c.getGeometry(p.ix()));), OP("C rings", p.put(F2CLinearRing(p.C().getExteriorRing()));), OP("C hole", p.put(F2CLinearRing(p.C().getInteriorRing(p.ix())));), OP("C set", p.C().setGeometry(p.ix(), p.R());), OP("C add", if (p.C().size() < 5) {p.C().addRing(p.R());}), OP("C add2", if (p.C().size() < 5) {p.C().addGeometry(p.R());}),
  OP("C convex", p.num(p.C().isConvex());), OP("C hull", p.put(p.C().convexHull()); p.put(F2CCell::convexHull(p.MP())); p.put(F2CCell::convexHull(p.L()));), OP("C hull2", p.put(F2CCell::convexHull(p.CS()));), OP("C scale", p.C() *= r.u(-2, 2);), OP("C buffer", p.put(F2CCell::buffer(p.C(), r.u(-2, 3)));), OP("C buffer L", p.put(F2CCell::buffer(p.L(), p.w()));), OP("C buffer P", p.put(F2CCell::buffer(p.P(), p.w()));),
  OP("C lines", p.put(p.C().createSemiLongLine(p.P(), p.ang())); p.put(p.C().createStraightLongLine(p.P(), p.ang()));), OP("C inside", p.put(p.C().getLinesInside(p.L())); p.put(p.C().getLinesInside(p.ML()));), OP("C point", p.num(p.C().isPointInBorder(p.P())); p.num(p.C().isPointIn(p.P()));), OP("C until", p.put(p.C().createLineUntilBorder(p.P(), p.ang()));), OP("C closest", p.put(p.C().closestPointOnBorderTo(p.P()));),
  OP("C loop", for (auto& q : p.C()) {for (auto& v : q) {v = v + F2CPoint(0.5, 0);}}), OP("C at", const F2CCell& c = p.C(); if (c.size() > 0) {p.put(F2CLinearRing(c[0])); p.put(F2CLinearRing(c.back()));}), OP("C shift", p.put(p.C() + p.P()); p.put(p.C() - p.P()); p.put(p.C().clone()); p.put(p.C().simplify(std::fabs(p.x())));),
  OP("C borrow", p.put(p.CS().getGeometry(p.ix()));), OP("C borrow const", const F2CCells& c = p.CS(); p.put(F2CCell(c.getGeometry(p.ix())));), OP("ring borrow", F2CCells t = p.CS().clone(); F2CLinearRing q = t.getGeometry(0).getGeometry(0); t = F2CCells(); F2CCells u = p.CS(); p.put(F2CLinearRing(q.clone()));),
  OP("CS read", auto& c = p.CS(); p.num(c.area()); p.num(c.size()); p.num(c.isConvex());), OP("CS get", p.put(F2CCell(p.CS().getCell(p.ix())));), OP("CS border", p.put(F2CLinearRing(p.CS().getCellBorder(p.ix())));), OP("CS hole", p.put(F2CLinearRing(p.CS().getInteriorRing(p.ix(), p.ix())));), OP("CS set", p.CS().setGeometry(p.ix(), p.C());), OP("CS add", if (p.CS().size() < 5) {p.CS().addGeometry(p.C());}), OP("CS addRing", p.CS().addRing(p.ix(), p.R());),
  OP("CS hull", p.put(p.CS().convexHull());), OP("CS and", p.put(p.CS().intersection(p.CS()));), OP("CS and1", p.put(p.CS().intersection(p.C())); p.put(F2CCells::intersection(p.C(), p.C()));), OP("CS minus", p.put(p.CS().difference(p.CS())); p.put(p.CS().difference(p.C()));), OP("CS or", p.put(p.CS().unionOp(p.CS())); p.put(p.CS().unionOp(p.C()));), OP("CS cascade", p.put(p.CS().unionCascaded());),
  OP("CS split", p.put(p.CS().splitByLine(p.L()));), OP("CS split2", p.put(p.CS().splitByLine(p.ML()));), OP("CS inside", p.put(p.CS().getLinesInside(p.L())); p.put(p.CS().getLinesInside(p.ML()));), OP("CS buffer", p.put(F2CCells::buffer(p.CS(), r.u(-2, 3)));), OP("CS buffer C", p.put(F2CCells::buffer(p.C(), r.u(-2, 3)));), OP("CS buffer side", p.put(F2CCells::buffer(p.L(), r.u(0, 3), r.i(-1, 1)));),
  OP("CS where", F2CCell c = p.CS().getCellWherePoint(p.P()); p.cs.clear(); p.put(c);), OP("CS point", p.num(p.CS().isPointInBorder(p.P())); p.num(p.CS().isPointIn(p.P()));), OP("CS until", p.put(p.CS().createLineUntilBorder(p.P(), p.ang()));), OP("CS closest", p.put(p.CS().closestPointOnBorderTo(p.P()));), OP("CS shift", p.put(p.CS() + p.P()); p.put(p.CS() - p.P()); p.put(p.CS().clone()); p.put(p.CS().simplify(std::fabs(p.x())));), OP("CS scale", p.CS() *= r.u(-2, 2);),
  OP("CS loop", for (auto& c : p.CS()) {for (auto& q : c) {for (auto& v : q) {v = v - F2CPoint(0.25, 0);}}}), OP("CS at", const F2CCells& c = p.CS(); if (c.size() > 0) {F2CCell k = c[int(c.size()) - 1]; p.put(k); p.put(F2CCell(c.back())); p.put(F2CCell(c.at(0)));}), OP("CS from", p.put(F2CCells(p.L().get())); p.put(F2CCells(static_cast<const OGRGeometry*>(p.C().get()))); p.put(F2CCells(static_cast<const OGRGeometry*>(p.MP().get())));),
  // swaths
  OP("S read", auto& s = p.S(); p.num(s.length()); p.num(s.getId()); p.num(s.getWidth()); p.num(s.numPoints()); p.num(int(s.getType())); p.num(s.getCreationDir());), OP("S area", p.num(p.S().area()); p.put(p.S().areaCovered());), OP("S area in", p.num(p.S().area(p.CS())); p.put(p.S().areaCovered(p.CS()));), OP("S ends", p.put(p.S().startPoint()); p.put(p.S().endPoint());), OP("S angles", p.num(p.S().getInAngle()); p.num(p.S().getOutAngle());),
  OP("S get", p.put(p.S().getPoint(r.i(0, 3)));), OP("S edit", auto& s = p.S(); s.setPath(p.L()); s.setId(p.n(9)); s.setWidth(r.u(0, 5)); s.setCreationDir(r.p(0.5));), OP("S reverse", p.S().reverse();), OP("S dir", p.num(p.S().hasSameDir(p.S())); p.S().targetSameDirAs(p.S()); p.S().targetOppositeDirAs(p.S());), OP("S move", p.S().moveTo(p.P()); p.put(p.S().clone()); p.put(p.S().getPath());), OP("S compare", p.num(p.S() == p.S()); p.num(p.S() != p.S()); p.num(p.S() < p.S()); p.num(p.S() >= p.S());),
  OP("SS read", auto& s = p.SS(); p.num(s.size()); if (s.size() > 0) {p.put(s.back()); p.put(s[0]); p.put(s.at(s.size() - 1));}), OP("SS at", p.put(p.SS().at(p.ix()));), OP("SS append", if (p.SS().size() < 30) {p.SS().append(p.L(), 1); p.SS().append(p.ML(), 2);}), OP("SS append in", if (p.SS().size() < 30) {p.SS().append(p.L(), p.CS(), 1); p.SS().append(p.ML(), p.C(), 1);}), OP("SS append SS", if (p.SS().size() < 20) {p.SS().append(p.SS());}), OP("SS sort", p.SS().sort(); p.SS().reverse(); p.SS().reverseDirOddSwaths(); p.SS().moveTo(p.P()); p.put(p.SS().clone());),
  OP("SS own", auto& s = p.SS(); if (s.size() > 0 && s.size() < 20) {s.push_back(s[0]); s.emplace_back(s.back()); s.at(0) = s.back();}), OP("SB", auto& s = p.SB(); p.num(s.sizeTotal()); p.put(s.flatten()); p.put(s.clone()); if (s.size() > 0) {p.put(s.back()); p.put(s[0]);}), OP("SB at", p.put(p.SB().at(p.ix())); p.put(p.SB().getSwath(p.ix()));), OP("SB reverse", p.SB().reverse(); if (p.SB().size() < 5) {p.SB().push_back(p.SS());}),
  // planning
  OP("headlands", f2c::hg::ConstHL h; if (tractable(p.CS(), 0.1)) {} p.put(h.generateHeadlands(p.CS(), r.u(0, 3))); p.put(h.generateHeadlandArea(p.CS(), r.u(0.1, 1), p.n(3)));), OP("headland swaths", f2c::hg::ConstHL h; for (auto& c : h.generateHeadlandSwaths(p.CS(), r.u(0.1, 1), p.n(3), r.p(0.5))) {p.put(c);}),
  OP("decompose", auto& c = p.CS(); if (tractable(c, 0.2)) {f2c::decomp::TrapezoidalDecomp t; t.setSplitAngle(p.ang()); p.put(t.decompose(c)); f2c::decomp::BoustrophedonDecomp b; b.setSplitAngle(p.ang()); p.put(b.decompose(c));}),
  OP("swaths", double w = p.w(); auto& c = p.CS(); if (tractable(c, w)) {f2c::sg::BruteForce b; b.setAllowOverlap(r.p(0.5)); p.put(b.generateSwaths(p.ang(), w, c));}), OP("swaths of cell", double w = p.w(); auto& c = p.C(); if (tractable(c, w)) {f2c::sg::BruteForce b; p.put(b.generateSwaths(p.ang(), w, c));}),
  OP("best swaths", double w = r.u(1, 4); auto& c = p.C(); if (tractable(c, w * 5)) {f2c::sg::BruteForce b; b.setStepAngle(r.u(0.5, 2)); auto o = sgObjs(); p.put(b.generateBestSwaths(*o[r.i(0, 4)], w, c));}),
  OP("costs", auto o = sgObjs(); for (auto& q : o) {p.num(q->computeCost(p.SS())); p.num(q->computeCost(p.SB()));}), OP("costs in", auto o = sgObjs(); for (auto& q : o) {p.num(q->computeCost(p.C(), p.SS())); p.num(q->computeCost(p.CS(), p.SS()));}), OP("costs fast", auto o = sgObjs(); for (auto& q : o) {if (q->isFastCompAvailable()) {p.num(q->computeCost(p.ang(), r.u(1, 3), p.C())); }}),
  OP("hg cost", f2c::obj::RemArea a; p.num(a.computeCost(p.C(), p.C())); p.num(a.computeCost(p.CS(), p.CS())); p.num(a.computeCost(p.CS(), p.C())); ), OP("rp cost", f2c::obj::DirectDistPathObj d; p.num(d.computeCost(p.SS())); p.num(d.computeCost(p.MP())); p.num(d.computeCost(p.S(), p.MP())); p.num(d.computeCost(p.SS(), p.MP())); p.num(d.computeCost(p.MP(), p.S())); p.num(d.computeCost(p.MP(), p.SS())); p.num(d.computeCost(p.RO())); p.num(d.computeCost(p.P(), p.P())); p.num(d.computeCost(p.S(), p.S())); p.num(d.computeCost(p.pt));), OP("rp cost S", f2c::obj::DirectDistPathObj d; p.num(d.computeCost(p.S(), p.P())); p.num(d.computeCost(p.P(), p.S())); p.num(d.computeCost(p.P(), 1, p.S())); p.num(d.computeCost(p.S(), p.P(), 2));),
  OP("order", f2c::rp::BoustrophedonOrder b; f2c::rp::SnakeOrder s; f2c::rp::SpiralOrder q(size_t(p.n(7))); p.put(b.genSortedSwaths(p.SS(), p.n(3))); p.put(s.genSortedSwaths(p.SS(), p.n(5))); p.put(q.genSortedSwaths(p.SS(), p.n(3)));), OP("custom", std::vector<size_t> v; for (size_t i = 0, n = r.p(0.7) ? p.SS().size() : p.ix(); i < n; ++i) {v.push_back(r.p(0.9) ? i : p.ix());} f2c::rp::CustomOrder c(v); p.put(c.genSortedSwaths(p.SS()));),
  OP("route add", auto& o = p.RO(); if (o.sizeVectorSwaths() < 10) {switch (p.n(6)) {case 0: o.addSwaths(p.SS()); break; case 1: o.addConnectedSwaths(p.MP(), p.SS()); break; case 2: o.addSwath(p.S()); break; case 3: o.addConnection(); break; case 4: o.addConnection(p.P()); break; case 5: o.addConnection(p.pt); break; default: o.addConnection(p.MP()); break;}}),
  OP("route graph", auto& o = p.RO(); if (o.sizeVectorSwaths() < 10) {o.addSwath(p.S(), p.G2());}), OP("route read", auto& o = p.RO(); p.num(o.length()); p.put(o.asLineString()); p.num(o.isEmpty()); p.put(o.clone());), OP("route ends", auto& o = p.RO(); p.put(o.startPoint()); p.put(o.endPoint());), OP("route last", auto& o = p.RO(); if (o.sizeVectorSwaths() > 0) {p.put(o.getLastSwaths()); p.put(o.getSwaths(o.sizeVectorSwaths() - 1)); o.setSwaths(0, p.SS());} if (o.sizeConnections() > 0) {p.put(o.getLastConnection()); p.put(o.getConnection(0)); o.setConnection(0, p.MP());}),
  OP("graph", auto& g = p.G(); for (int i = 0; i < 3; ++i) {size_t a = p.ix(); size_t b = p.ix(); switch (p.n(3)) {case 0: g.addEdge(a, b, p.n(9)); break; case 1: g.addDirectedEdge(a, b, p.n(9)); break; case 2: g.removeEdge(a, b); break; default: g.removeDirectedEdge(a, b); break;}} p.num(g.numEdges()); p.num(g.numNodes());), OP("graph ask", auto& g = p.G(); p.num(g.shortestPath(p.ix(), p.ix()).size()); p.num(g.shortestPathCost(p.ix(), p.ix())); p.num(g.getCostFromEdge(p.ix(), p.ix())); p.num(g.getEdgesFrom(p.ix()).size());), OP("graph all", auto& g = p.G(); p.num(g.allPathsBetween(p.ix(), p.ix()).size()); g.shortestPathsAndCosts(); p.num(g.getCosts().size()); p.num(g.getPaths().size());),
  OP("graph2d", auto& g = p.G2(); if (g.numNodes() < 12) {for (int i = 0; i < 3; ++i) {switch (p.n(5)) {case 0: g.addEdge(p.P(), p.P()); break; case 1: g.addDirectedEdge(p.P(), p.P(), p.n(9)); break; case 2: g.removeEdge(p.P(), p.P()); break; case 3: g.removeDirectedEdge(p.P(), p.P()); break; default: g.addEdge(p.P(), p.P(), p.n(9)); break;}}} p.num(g.numNodes());), OP("graph2d ask", auto& g = p.G2(); p.num(g.shortestPathCost(p.P(), p.P())); for (auto& q : g.shortestPath(p.P(), p.P())) {p.put(q);}), OP("graph2d index", auto& g = p.G2(); p.put(g.indexToNode(p.ix())); p.num(g.nodeToIndex(p.P())); p.num(g.allPathsBetween(p.P(), p.P()).size());),
  // fields
  OP("field read", auto& f = p.F(); p.num(f.area()); p.num(f.isEmpty()); p.put(f.getCellsAbsPosition()); p.put(f.clone()); p.txt(f.getUTMZone());), OP("field crs", p.F().setCRS(r.pick({"", "EPSG:4326", "UTM:31N", "EPSG:28992", "UTM:31N datum:etrs89", "EPSG:", "UTM:", "x", "UTM:99N", "EPSG:99999999999999999999"}));), OP("field parse", auto& f = p.F(); p.num(f.isCoordSystemUTM()); p.num(f.isCoordSystemEPSG()); p.txt(f.getUTMDatum()); p.txt(f.getUTMHemisphere()); p.txt(f.getUTMCoordSystem());), OP("field epsg", p.num(p.F().getEPSGCoordSystem()); p.F().setEPSGCoordSystem(r.i(0, 40000)); p.F().setUTMCoordSystem("31N"); p.F().setUTMCoordSystem("32S", "wgs84");), OP("field set", p.F().setField(p.CS()); p.F().setRefPoint(p.P()); p.F().setId("q"); p.F().setPrevCRS(p.F().getCRS());), OP("field borrow", F2CCells& c = p.F().getField(); p.put(c); p.F().getRefPoint() = p.P();),
  OP("field utm", auto& f = p.F(); if (r.p(0.1)) {f2c::Transform::transformToUTM(f, r.p(0.5));}), OP("field transform", if (r.p(0.1)) {f2c::Transform::transform(p.F(), r.p(0.5) ? "EPSG:4326" : "UTM:31N");}), OP("field back", if (r.p(0.1)) {f2c::Transform::transformToPrevCRS(p.F()); p.put(f2c::Transform::getRefPointInGPS(p.F()));}), OP("field back S", if (r.p(0.1)) {p.put(f2c::Transform::transformToPrevCRS(p.S(), p.F())); p.put(f2c::Transform::transformToPrevCRS(p.SS(), p.F())); p.put(f2c::Transform::transformToPrevCRS(p.RO(), p.F()));}), OP("field back P", if (r.p(0.1)) {p.put(f2c::Transform::transformToPrevCRS(p.PA(), p.F())); p.put(f2c::Transform::transformToPrevCRS(p.ST(), p.F()));}),
  OP("robot", auto& b = p.RB(); b.setWidth(r.u(1, 3)); b.setCovWidth(r.u(1, 3)); b.setMaxCurv(r.u(0.1, 2)); b.setMinTurningRadius(r.u(0.5, 3)); b.setTurnVel(r.u(0.1, 2)); p.num(b.getMinTurningRadius()); p.num(b.getTurnVel()); p.num(b.getMaxDiffCurv()); b.setName("b"); p.put(F2CRobot(b));), OP("strip", auto& s = p.ST(); s.getCell() = p.C(); p.put(s.clone()); p.put(s.getCell()); s.setName("x");),
  // paths
  OP("path add", auto& a = p.PA(); if (a.size() < 40) {a.addState(p.P(), p.ang(), r.p(0.1) ? 0 : r.u(0, 9), r.p(0.3) ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD, r.p(0.5) ? f2c::types::PathSectionType::TURN : f2c::types::PathSectionType::SWATH, r.u(0.1, 3));}), OP("path swath", if (p.PA().size() < 40) {p.PA().appendSwath(p.S(), 2);}), OP("path plus", if (p.PA().size() < 40) {p.PA() += p.PA();}), OP("path read", auto& a = p.PA(); p.num(a.length()); p.num(a.getTaskTime()); p.txt(a.serializePath()); p.put(a.at(p.x()).point);), OP("path ends", auto& a = p.PA(); p.put(a.atStart()); p.put(a.atEnd());), OP("path box", auto& a = p.PA(); p.num(a.getDimMinX()); p.num(a.getDimMaxY()); p.num(a.getDimMinY()); p.num(a.getDimMaxX());), OP("path line", p.put(p.PA().toLineString());),
  OP("path move", auto& a = p.PA(); a.moveTo(p.P()); a.rotateFromPoint(p.P(), p.ang()); a.mirrorX(); a.mirrorY(); a.setBackwardDir(); a.setForwardDir(); a.setTurnType(); a.setSwathType();), OP("path split", if (p.PA().length() < 200) {p.put(p.PA().discretizeSwath(r.u(0.5, 3)));}), OP("path populate", p.PA().populate(p.n(30)); p.put(p.PA());), OP("path reduce", p.PA().reduce(r.u(0, 2)); p.put(p.PA());), OP("path discretize", if (p.PA().length() < 50) {p.PA().discretize(r.u(0.5, 2)); p.put(p.PA());}), OP("path cost", f2c::obj::PathLength o; p.num(o.computeCost(p.PA()));),
  OP("path plan", auto& s = p.SS(); if (s.size() < 5 && p.PA().size() < 400) {bool ok = true; for (auto& q : s) {ok &= q.length() < 300 && q.numPoints() > 1 && std::hypot(q.startPoint().getX() - s[0].startPoint().getX(), q.startPoint().getY() - s[0].startPoint().getY()) < 100;} if (ok) {F2CRobot b(2, 3, 1, 0.3); f2c::pp::DubinsCurves d; d.setDiscretization(0.3); p.put(f2c::pp::PathPlanning::planPath(b, s, d));}}),
  };
  return o;
}
}  // namespace
SCENARIO(programs, 25000, 1500000) {
  auto& r = c.rng;
  Pool p(r);
  auto& all = ops();
  int n = r.i(10, 90);
  // some programs keep to a few calls
  std::vector<size_t> some;
  if (r.p(0.5)) {for (int i = 0, m = r.i(3, 12); i < m; ++i) {some.push_back(r.next() % all.size());}}
  size_t thrown = 0;
  for (int i = 0; i < n; ++i) {
    const Op& o = !some.empty() && r.p(0.7) ? all[r.pick(some)] : all[r.next() % all.size()];
    c.desc += std::string(i ? ", " : "") + o.name;
    if (getenv("VF_TRACE")) {fprintf(stderr, "%s\n", o.name);}
    try {o.f(p);} catch (const std::exception& e) {++thrown; c.check(typeid(e) != typeid(std::bad_alloc), "out_of_memory", o.name, " runs out of memory"); c.check(typeid(e) != typeid(std::length_error) || (!strstr(e.what(), "vector") || !strstr(e.what(), "::")), "length", o.name, ": ", e.what());}
  }
  c.check(p.sink == p.sink, "sink", "nothing read");
  c.count("calls", n); c.count("calls_refused", thrown); c.count("values_read", p.seen);
  c.sig(p.sink); c.sig(n);
}
SCENARIO(planning, 380, 20000) {
  uint64_t seed = c.rng.next(); int k = int(c.idx) % KINDS;
  c.desc = vf::cat("work ", k, ":", seed);
  Log l; job(l, k, seed, getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp");
  c.check(l.events > 0, "nothing", "nothing observed"); c.count("values_read", l.events);
  c.sig(k); c.sig(vf::hashStr(l.s));
}
VF_MAIN
