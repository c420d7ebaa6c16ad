// NOTE: algebraic identities, own nearest points and intersections in long double
// QUICK: 3
#include "swl.hpp"
using g::P;
namespace {
typedef long double LD;
struct V {double x, y, z;};
V of(const F2CPoint& p) {return {p.get()->getX(), p.get()->getY(), p.get()->getZ()};}
F2CPoint mk(V v) {return F2CPoint(v.x, v.y, v.z);}
double scale(vf::Rng& r) {return r.pick({1.0, 10.0, 300.0, 1e4, 6e6, 0.01});}
V rv(vf::Rng& r, double s) {return {r.p(0.1) ? 0.0 : r.u(-s, s), r.p(0.1) ? 0.0 : r.u(-s, s), r.p(0.5) ? 0.0 : r.u(-s, s)};}
bool near(V a, V b, double t) {return std::fabs(a.x - b.x) <= t && std::fabs(a.y - b.y) <= t && std::fabs(a.z - b.z) <= t;}
std::string str(V v) {return vf::cat("(", v.x, " ", v.y, " ", v.z, ")");}
double crossL(P a, P b, P c) {return double((LD(b.x) - a.x) * (LD(c.y) - a.y) - (LD(b.y) - a.y) * (LD(c.x) - a.x));}
}  // namespace
SCENARIO(arithmetic, 60000, 4000000) {
  auto& r = c.rng;
  double s = scale(r), k = r.p(0.2) ? r.i(-4, 4) : r.u(-50, 50), t = 1e-12 * s * s + 1e-12 * s * (1 + std::fabs(k));
  V a = rv(r, s), b = rv(r, s);
  F2CPoint pa = mk(a), pb = mk(b);
  auto is = [&] (const F2CPoint& q, V w, double tt, const char* key) {c.check(near(of(q), w, tt), key, key, " gave ", str(of(q)), " expected ", str(w), " for ", str(a), str(b), k);};
  is(pa, a, 0, "constructor");
  is(pa + pb, {a.x + b.x, a.y + b.y, a.z + b.z}, 1e-15 * s * 4, "sum");
  is(pa - pb, {a.x - b.x, a.y - b.y, a.z - b.z}, 1e-15 * s * 4, "difference");
  is(pa * k, {a.x * k, a.y * k, a.z * k}, 1e-15 * s * 60, "scaled");
  if (k != 0) {is(pa / k, {a.x / k, a.y / k, a.z / k}, 1e-14 * s / std::fabs(k), "divided"); is((pa * k) / k, a, 1e-14 * s, "scaled_back");}
  is((pa + pb) - pb, a, 1e-14 * s, "sum_back");
  F2CPoint m = pa; m *= k;
  is(m, {a.x * k, a.y * k, a.z * k}, 1e-15 * s * 60, "scaled_in_place");
  is(pa, a, 0, "operand_changed"); is(pb, b, 0, "operand_changed");
  c.near(pa * pb, double(LD(a.x) * b.x + LD(a.y) * b.y + LD(a.z) * b.z), t, "dot_product");
  c.near(F2CPoint::det(pa, pb), double(LD(a.x) * b.y - LD(a.y) * b.x), t, "determinant");
  c.near(F2CPoint::det(pa, pb), -F2CPoint::det(pb, pa), t, "determinant_sign");
  c.near(pa.distance(pb), std::hypot(a.x - b.x, a.y - b.y), 1e-14 * s, "distance");
  c.near(pb.distance(pa), pa.distance(pb), 1e-14 * s, "distance_back");
  OGRPoint og(a.x, a.y, a.z), os = og + pb, od = og - pb;
  c.check(near({os.getX(), os.getY(), os.getZ()}, {a.x + b.x, a.y + b.y, a.z + b.z}, 1e-14 * s) && near({od.getX(), od.getY(), od.getZ()}, {a.x - b.x, a.y - b.y, a.z - b.z}, 1e-14 * s), "ogr_sum", "sum with an OGR point");
  // accessors
  F2CPoint q; q.setPoint(a.x, a.y, a.z); is(q, a, 0, "set_point"); q.setPoint(pb); is(q, b, 0, "set_point2"); q.setPoint(og); is(q, a, 0, "set_point3");
  q.setX(b.x); q.setY(b.y); q.setZ(b.z); is(q, b, 0, "set_xyz");
  c.check(q.X() == b.x && q.Y() == b.y && q.Z() == b.z && q.getX() == b.x && q.getY() == b.y && q.getZ() == b.z, "get_xyz", "coordinates read");
  F2CPoint cp(pa), as; as = pa; F2CPoint mv(std::move(cp)); is(as, a, 0, "assigned"); is(mv, a, 0, "moved");
  // vectors of points
  std::vector<F2CPoint> vp {pa, pb, mk(rv(r, s))};
  auto vs = vp + pb, vd = vp - pb, ve = pb - vp;
  c.require(vs.size() == 3 && vd.size() == 3 && ve.size() == 3, "vector_size", "size of moved vectors");
  for (int i = 0; i < 3; ++i) {V w = of(vp[i]);
    is(vs[i], {w.x + b.x, w.y + b.y, w.z + b.z}, 4e-15 * s, "vector_sum"); is(vd[i], {w.x - b.x, w.y - b.y, w.z - b.z}, 4e-15 * s, "vector_difference"); is(ve[i], {b.x - w.x, b.y - w.y, b.z - w.z}, 4e-15 * s, "vector_mirrored");}
  c.count("pairs"); c.sig(a.x); c.sig(b.y);
}
SCENARIO(comparing, 60000, 3000000) {
  auto& r = c.rng;
  V a = r.p(0.5) ? V {double(r.i(-3, 3)), double(r.i(-3, 3)), r.p(0.7) ? 0.0 : r.i(-1, 1)} : rv(r, scale(r));
  V b = a;
  double e = r.pick({0.0, 1e-9, 5e-8, 2e-7, 1e-5, 1.0});
  int which = r.i(0, 3);
  double sg = r.p(0.5) ? 1 : -1;
  if (which == 0) {b.x += sg * e;} else if (which == 1) {b.y += sg * e;} else if (which == 2) {b.z += sg * e;} else {b = r.p(0.5) ? rv(r, 3) : V {double(r.i(-3, 3)), double(r.i(-3, 3)), 0};}
  double d = std::max({std::fabs(a.x - b.x), std::fabs(a.y - b.y), std::fabs(a.z - b.z)});
  F2CPoint pa = mk(a), pb = mk(b);
  bool eq = pa == pb;
  c.check(eq == (pb == pa) && eq == !(pa != pb) && eq == !(pb != pa), "equal_consistent", "== and != for ", str(a), str(b));
  if (d < 0.8e-7) {c.check(eq, "equal", str(a), " and ", str(b), " are not equal");}
  if (d > 1.2e-7) {c.check(!eq, "different", str(a), " and ", str(b), " are equal");}
  bool lt = pa < pb, gt = pb < pa;
  c.check(lt == (a.x < b.x || (a.x == b.x && a.y < b.y)), "less", str(a), " < ", str(b), " is ", lt);
  c.check(gt == (b.x < a.x || (b.x == a.x && b.y < a.y)), "less", str(b), " < ", str(a), " is ", gt);
  c.check(!(lt && gt), "order", "both before the other");
  if (d == 0) {c.check(std::hash<F2CPoint>()(pa) == std::hash<F2CPoint>()(pb), "hash", "equal points hash differently");}
  c.count(eq ? "equal" : "different"); c.sig(a.x); c.sig(b.y); c.sig(e);
}
SCENARIO(printing, 2000, 60000) {
  auto& r = c.rng;
  double v[3];
  for (double& x : v) {x = r.p(0.3) ? r.i(-100, 100) : (r.p(0.5) ? 1 : -1) * r.logu(1e-8, 1e9);}
  F2CPoint p(v[0], v[1], v[2]);
  int prec = r.p(0.5) ? 6 : 17;
  std::ostringstream os; os.precision(prec); os << p << "|";
  double w[3] {NAN, NAN, NAN}; char tail = 0;
  int n = std::sscanf(os.str().c_str(), "Point(%lf, %lf, %lf)%c", &w[0], &w[1], &w[2], &tail);
  c.require(n == 4 && tail == '|', "print_form", "printed as ", os.str());
  for (int i = 0; i < 3; ++i) {c.check(std::fabs(w[i] - v[i]) <= std::fabs(v[i]) * (prec == 6 ? 1e-5 : 0), "print_value", "coordinate ", i, " is ", v[i], ", printed as ", os.str()); c.sig(v[i]);}
}
SCENARIO(rotation, 30000, 2000000) {
  auto& r = c.rng;
  double s = scale(r), ang = gen::angle(r);
  P o {r.u(-s, s), r.u(-s, s)}, p {r.u(-s, s), r.u(-s, s)};
  if (r.p(0.1)) {o = {0, 0};}
  double t = 2e-14 * s;
  auto want = [&] (P q, double an) {LD C = std::cos(LD(an)), S = std::sin(LD(an)), x = LD(q.x) - o.x, y = LD(q.y) - o.y; return P {double(x * C - y * S + o.x), double(x * S + y * C + o.y)};};
  auto is = [&] (P got, P w, const char* key) {c.check(std::fabs(got.x - w.x) <= t && std::fabs(got.y - w.y) <= t, key, key, " ", ang, " about ", g::str({o}), " of a point is ", g::str({got}), " expected ", g::str({w}));};
  F2CPoint fo = cv::pt(o), fp = cv::pt(p);
  F2CPoint q = fo.rotateFromPoint(ang, fp);
  is(cv::of(q), want(p, ang), "rotated");
  is(cv::of(fo.rotateFromPoint(-ang, q)), p, "rotated_back");
  c.near(q.distance(fo), g::dist(p, o), t, "distance_kept");
  is(cv::of(fp), p, "operand");
  double d = r.p(0.1) ? 0 : r.u(-s, s);
  F2CPoint f = fp.getPointFromAngle(ang, d);
  c.near(cv::of(f).x, double(LD(p.x) + d * std::cos(LD(ang))), t, "from_angle_x"); c.near(cv::of(f).y, double(LD(p.y) + d * std::sin(LD(ang))), t, "from_angle_y");
  c.near(f.distance(fp), std::fabs(d), t, "from_angle_distance");
  // whole geometries
  std::vector<P> ps; for (int i = 0, n = r.i(0, 6); i < n; ++i) {ps.push_back({r.u(-s, s), r.u(-s, s)});}
  auto all = [&] (const std::vector<P>& got, const std::vector<P>& src, const char* key) {
    c.require(got.size() == src.size(), key, key, ": ", got.size(), " points of ", src.size());
    for (size_t i = 0; i < got.size(); ++i) {is(got[i], want(src[i], ang), key);}
  };
  F2CLineString l = cv::line(ps);
  all(cv::of(fo.rotateFromPoint(ang, l)), ps, "rotated_line");
  c.check(swl::samePts(cv::of(l), ps), "line_changed", "rotating changed the line");
  c.count("points"); c.sig(ang); c.sig(o.x); c.sig(p.x);
}
SCENARIO(rotated_geometries, 8000, 400000) {
  auto& r = c.rng;
  double ang = gen::angle(r);
  gen::Gen f = gen::field(r);
  P o {r.u(-2, 2) * f.size + f.off.x, r.u(-2, 2) * f.size + f.off.y};
  if (r.p(0.2)) {o = {0, 0};}
  double t = 1e-13 * (f.maxAbs + std::fabs(o.x) + std::fabs(o.y));
  auto want = [&] (P q) {LD C = std::cos(LD(ang)), S = std::sin(LD(ang)), x = LD(q.x) - o.x, y = LD(q.y) - o.y; return P {double(x * C - y * S + o.x), double(x * S + y * C + o.y)};};
  auto all = [&] (const std::vector<P>& got, const std::vector<P>& src, const char* key) {
    c.require(got.size() == src.size(), key, key, ": ", got.size(), " points of ", src.size());
    for (size_t i = 0; i < got.size(); ++i) {P w = want(src[i]); c.check(std::fabs(got[i].x - w.x) <= t && std::fabs(got[i].y - w.y) <= t, key, "point ", g::str({got[i]}), " expected ", g::str({w}));}
  };
  auto poly = [&] (const g::Poly& got, const g::Poly& src, const char* key) {
    c.require(got.rings.size() == src.rings.size(), key, key, " rings");
    for (size_t i = 0; i < got.rings.size(); ++i) {all(got.rings[i], src.rings[i], key);}
  };
  F2CPoint fo = cv::pt(o);
  F2CCells cs = cv::cells(f.m);
  std::string before = cv::snapG(cs);
  g::MPoly src = cv::of(cs), got = cv::of(fo.rotateFromPoint(ang, cs));
  c.require(got.size() == src.size(), "cells", "cells lost when rotating");
  for (size_t i = 0; i < got.size(); ++i) {poly(got[i], src[i], "rotated_cells");}
  F2CCell c0 = cs.getGeometry(0);
  poly(cv::of(fo.rotateFromPoint(ang, c0))[0], src[0], "rotated_cell");
  F2CLinearRing rg = c0.getExteriorRing();
  all(cv::of(fo.rotateFromPoint(ang, rg)), src[0].rings[0], "rotated_ring");
  F2CMultiPoint mp; for (auto p : src[0].rings[0]) {mp.addPoint(p.x, p.y);}
  all(cv::of(fo.rotateFromPoint(ang, mp)), src[0].rings[0], "rotated_points");
  F2CMultiLineString ml; for (auto& rr : src[0].rings) {ml.addGeometry(cv::line(rr));}
  auto gm = cv::of(fo.rotateFromPoint(ang, ml));
  c.require(gm.size() == src[0].rings.size(), "rotated_lines", "lines lost when rotating");
  for (size_t i = 0; i < gm.size(); ++i) {all(gm[i], src[0].rings[i], "rotated_lines");}
  std::vector<F2CPoint> vp; for (auto p : src[0].rings[0]) {vp.push_back(cv::pt(p));}
  auto vr = fo.rotateFromPoint(ang, vp);
  std::vector<P> vg; for (auto& p : vr) {vg.push_back(cv::of(p));}
  all(vg, src[0].rings[0], "rotated_vector");
  c.check(cv::snapG(cs) == before, "source", "rotating changed its operand");
  // moved there and back
  P d {r.u(-9, 9), r.u(-9, 9)};
  F2CCells mv = cs + cv::pt(d);
  g::MPoly gm2 = cv::of(mv);
  c.require(gm2.size() == src.size(), "moved", "cells lost when moving");
  for (size_t i = 0; i < src.size(); ++i) {c.require(gm2[i].rings.size() == src[i].rings.size(), "moved", "rings lost"); for (size_t j = 0; j < src[i].rings.size(); ++j) {c.require(gm2[i].rings[j].size() == src[i].rings[j].size(), "moved", "points lost"); for (size_t k = 0; k < src[i].rings[j].size(); ++k) {P q = gm2[i].rings[j][k], w = src[i].rings[j][k] + d; c.check(std::fabs(q.x - w.x) <= t && std::fabs(q.y - w.y) <= t, "moved", "point ", g::str({q}), " expected ", g::str({w}));}}}
  c.count("fields"); c.sig(ang); c.sig(f.size); c.sig(o.x);
}
SCENARIO(nearest, 30000, 2000000) {
  auto& r = c.rng;
  double s = r.pick({1.0, 10.0, 300.0, 1e4});
  P off = r.p(0.3) ? P {r.u(2e5, 8e5), r.u(1e6, 9e6)} : P {0, 0};
  auto rp = [&] {return off + (r.p(0.3) ? P {s * r.i(-4, 4) / 4, s * r.i(-4, 4) / 4} : P {r.u(-s, s), r.u(-s, s)});};
  double t = 1e-12 * s + 4e-15 * (g::norm(off));
  P a = rp(), b = rp(), p = rp();
  if (r.p(0.1)) {b = a;}
  if (r.p(0.1)) {double q = r.u(-0.5, 1.5); p = a + (b - a) * q;}
  if (r.p(0.1)) {p = a;}
  F2CPoint fa = cv::pt(a), fb = cv::pt(b), fp = cv::pt(p);
  P n = cv::of(fp.closestPointInSegment(fa, fb));
  double best = g::distSeg(p, a, b);
  c.near(g::dist(n, p), best, t, "segment_distance", g::str({p, a, b}));
  c.check(g::distSeg(n, a, b) <= t, "on_segment", "closest point ", g::str({n}), " is off the segment ", g::str({a, b}));
  if (!g::eq(a, b) && g::dist(a, b) > 1e-3 * s) {
    double sd = fp.signedDistance2Segment(fa, fb), want = crossL(a, b, p) / g::dist(a, b);
    c.near(sd, want, t, "signed_distance", g::str({p, a, b}));
    c.near(fp.signedDistance2Segment(fb, fa), -want, t, "signed_distance_back", g::str({p, a, b}));
  }
  // lines and rings
  std::vector<P> l; for (int i = 0, k = r.i(1, 8); i < k; ++i) {l.push_back(rp());}
  if (r.p(0.2)) {l.insert(l.begin() + r.i(0, int(l.size()) - 1), l[0]);}
  F2CLineString fl = cv::line(l);
  n = cv::of(fl.closestPointTo(fp));
  auto dl = [&] (P q, const std::vector<P>& w) {return w.size() == 1 ? g::dist(q, w[0]) : g::distLine(q, w);};
  c.near(g::dist(n, p), dl(p, l), t, "line_distance", g::str({p}), g::str(l));
  c.check(dl(n, l) <= t, "on_line", "closest point ", g::str({n}), " is off the line ", g::str(l));
  auto lr = l; lr.push_back(l[0]);
  F2CLinearRing fr = cv::ring(l);
  lr = cv::of(fr);
  n = cv::of(fr.closestPointTo(fp));
  c.near(g::dist(n, p), dl(p, lr), t, "ring_distance", g::str({p}), g::str(lr));
  c.check(dl(n, lr) <= t, "on_ring", "closest point ", g::str({n}), " is off the ring ", g::str(lr));
  c.throws([&] {F2CLineString().closestPointTo(fp);}, "empty_line", "closest point of an empty line");
  c.throws([&] {F2CLinearRing().closestPointTo(fp);}, "empty_ring", "closest point of an empty ring");
  c.count("points"); c.sig(p.x); c.sig(a.x); c.sig(b.y); c.sig(double(l.size()));
}
SCENARIO(crossing, 40000, 3000000) {
  auto& r = c.rng;
  double s = r.pick({1.0, 10.0, 300.0});
  P off = r.p(0.2) ? P {r.u(2e5, 8e5), r.u(1e6, 9e6)} : P {0, 0};
  auto rp = [&] {return off + (r.p(0.3) ? P {s * r.i(-4, 4) / 4, s * r.i(-4, 4) / 4} : P {r.u(-s, s), r.u(-s, s)});};
  P a = rp(), b = rp(), d = rp(), e = rp();
  P u = b - a, v = e - d;
  double den = g::crs(u, v), nu = g::norm(u), nv = g::norm(v);
  F2CPoint x = F2CPoint::intersectionOfLines(cv::pt(a), cv::pt(b), cv::pt(d), cv::pt(e));
  if (nu < 0.05 * s || nv < 0.05 * s || std::fabs(den) < 0.02 * nu * nv) {c.count("parallel_or_short"); return;}
  P q = cv::of(x);
  double M = s + g::norm(off);
  double sn = std::fabs(den) / (nu * nv);
  double t = 1e-14 * M * M / std::min(nu, nv) / sn + 1e-12 * s / sn;
  c.check(std::fabs(crossL(a, b, q)) / nu <= t, "on_first", "intersection ", g::str({q}), " off the line ", g::str({a, b}), " and ", g::str({d, e}));
  c.check(std::fabs(crossL(d, e, q)) / nv <= t, "on_second", "intersection ", g::str({q}), " off the line ", g::str({d, e}), " and ", g::str({a, b}));
  P y = cv::of(F2CPoint::intersectionOfLines(cv::pt(d), cv::pt(e), cv::pt(a), cv::pt(b)));
  c.check(g::dist(q, y) <= 2 * t / sn, "symmetric", "intersections ", g::str({q, y}));
  c.count("crossings"); c.sig(a.x); c.sig(b.y); c.sig(d.x);
}
VF_MAIN
