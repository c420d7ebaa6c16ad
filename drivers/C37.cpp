// BUILD: shim
// NOTE: a planner of our own (on the library's Dubins planner) numbers its turns through their speed, so that the planned path splits into the swaths and turns it was made of
#include "vfall.hpp"
#include "swl.hpp"
#include "fields2cover/path_planning/path_planning.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"
using namespace g;
namespace pp = f2c::pp;
namespace t = f2c::types;
namespace {
double m2(double a) {a = std::fmod(a, 2 * g::PI); return a < 0 ? a + 2 * g::PI : a;}
double angDiff(double a, double b) {double d = m2(a - b); return std::min(d, 2 * g::PI - d);}
struct Pose {P p; double a;};
std::string show(const Pose& q) {return vf::cat("(", q.p.x, ",", q.p.y, ") ", q.a);}
// turns of one planner, numbered from 1 through their speed
template <class B> struct Numbered : B {
  std::vector<int> sizes;
  F2CPath createSimpleTurn(const F2CRobot& b, double d, double a0, double a1) override {
    F2CPath p = B::createSimpleTurn(b, d, a0, a1);
    sizes.push_back(int(p.size()));
    for (auto& s : p) {s.velocity = double(sizes.size());}
    return p;
  }
};
struct Turner {
  Numbered<pp::DubinsCurves> du; Numbered<pp::ReedsSheppCurves> rs; Numbered<pp::DubinsCurvesCC> dc; Numbered<pp::ReedsSheppCurvesHC> rh;
  int w;
  explicit Turner(vf::Rng& r) : w(r.i(0, 3)) {get().setUsingCache(false); get().setDiscretization(r.p(0.2) ? 0.01 : r.u(0.02, 0.1));}
  pp::TurningBase& get() {switch (w) {case 0: return du; case 1: return rs; case 2: return dc; default: return rh;}}
  const std::vector<int>& sizes() {switch (w) {case 0: return du.sizes; case 1: return rs.sizes; case 2: return dc.sizes; default: return rh.sizes;}}
};
struct Robot {F2CRobot b {2, 3}; double curv, cruise;};
Robot robot(vf::Rng& r) {
  Robot q; q.curv = r.u(0.3, 1); q.cruise = r.i(1, 20) + 0.5;
  q.b.setMaxCurv(q.curv); q.b.setMaxDiffCurv(r.u(0.2, 1)); q.b.setCruiseVel(q.cruise);
  if (r.p(0.5)) {q.b.setTurnVel(r.u(0.2, 3));}
  return q;
}
using Run = std::vector<t::PathState>;
Pose first(const Run& r) {return {cv::of(r[0].point), r[0].angle};}
Pose last(const Run& r) {return {cv::of(r.back().point), r.back().angle};}
double legAngle(P a, P b) {return m2(std::atan2(b.y - a.y, b.x - a.x));}
struct Walk {
  vf::Case& c; const F2CPath& p; double cruise; size_t k {0}; int turn {0};
  // the legs of one swath
  bool swath(const swl::M& s, const std::string& what) {
    double sc = 1; for (auto q : s.pts) {sc = std::max({sc, std::fabs(q.x), std::fabs(q.y)});}
    for (size_t i = 0; i + 1 < s.pts.size(); ++i, ++k) {
      if (!c.check(k < p.size(), "swath_missing", what, ": the path ends before leg ", i)) {return false;}
      auto& q = p[k];
      double l = dist(s.pts[i], s.pts[i + 1]);
      if (!c.check(q.type == t::PathSectionType::SWATH && q.dir == t::PathDirection::FORWARD && q.velocity == cruise, "swath_marks", what, " leg ", i, " is of type ", int(q.type), " at ", q.velocity)) {return false;}
      if (!c.check(dist(cv::of(q.point), s.pts[i]) == 0 && std::fabs(q.len - l) < 1e-12 * sc + 1e-12, "swath_leg", what, " leg ", i, " starts at (", q.point.getX(), ",", q.point.getY(), ") with length ", q.len)) {return false;}
      c.check(l < 1e-9 * sc || angDiff(q.angle, legAngle(s.pts[i], s.pts[i + 1])) < 1e-9 + 1e-15 * sc / l, "swath_heading", what, " leg ", i);
      c.count("legs");
    }
    return true;
  }
  // the next turn's states, none if a swath or another turn follows
  Run run() {
    Run r;
    while (k < p.size() && p[k].type == t::PathSectionType::TURN && int(p[k].velocity) == turn + 1 && p[k].velocity == turn + 1) {r.push_back(p[k]); ++k;}
    if (!r.empty()) {++turn;}
    return r;
  }
};
bool samePose(const Pose& a, const Pose& b, double eps = 1e-6) {return dist(a.p, b.p) < eps * (1 + 1e-6 * norm(b.p)) && angDiff(a.a, b.a) < 10 * eps;}
// states of a turn follow each other
void noJumps(vf::Case& c, const Run& r, P end, double slack, const std::string& what) {
  c.count("steps", r.size());
  for (size_t i = 0; i < r.size(); ++i) {
    P e = cv::of(r[i].atEnd()), n = i + 1 < r.size() ? cv::of(r[i + 1].point) : end;
    if (dist(e, n) <= slack) {continue;}
    if (!c.check(false, "jump", what, ": ", dist(e, n), " between state ", i, " of ", r.size(), " and the next")) {return;}
  }
}
// swaths in any arrangement, not touching their own kind of trouble (legs of some length)
std::vector<swl::M> group(vf::Rng& r, int n) {
  auto v = r.p(0.5) ? swl::parallel(r, n) : swl::any(r, n);
  P o = v.empty() || v[0].pts.empty() ? P {} : v[0].pts[0];
  P to {r.u(-100, 100), r.u(-100, 100)};
  for (auto& s : v) {
    for (auto& q : s.pts) {q = q - o; double l = norm(q); if (l > 150) {q = q * (150 / l);} q = q + to;}
    // no legs without length
    std::vector<P> k; for (auto q : s.pts) {if (k.empty() || dist(k.back(), q) > 1e-3) {k.push_back(q);}}
    if (k.size() < 2) {k.push_back(k[0] + P {1, 2});}
    s.pts = k;
    if (r.p(0.3)) {s = swl::rev(s);}
  }
  return v;
}
F2CSwaths make(const std::vector<swl::M>& v) {F2CSwaths s; for (auto& m : v) {s.emplace_back(swl::make(m));} return s;}
Pose outOf(const swl::M& m) {size_t n = m.pts.size(); return {m.pts[n - 1], legAngle(m.pts[n - 2], m.pts[n - 1])};}
Pose into(const swl::M& m) {return {m.pts[0], legAngle(m.pts[0], m.pts[1])};}
bool swathsOfGroup(vf::Case& c, Walk& w, const std::vector<swl::M>& v, double slack, const std::string& what) {
  for (size_t i = 0; i < v.size(); ++i) {
    std::string here = vf::cat(what, " swath ", i);
    if (!w.swath(v[i], here)) {return false;}
    if (i + 1 == v.size()) {break;}
    Pose a = outOf(v[i]), b = into(v[i + 1]);
    Run r = w.run();
    if (samePose(a, b, 1e-5) && r.size() <= 1) {c.count("no_turn_needed"); continue;}
    if (!c.check(!r.empty(), "turn_missing", here, ": no turn from ", show(a), " to ", show(b))) {return false;}
    c.check(samePose(first(r), a), "turn_start", here, ": turn starts at ", show(first(r)), " instead of ", show(a));
    noJumps(c, r, b.p, slack, here);
    // no further than one short step before the end, heading the right way
    c.check(angDiff(r.back().angle, b.a) < 0.25, "turn_end_heading", here, ": turn ends heading ", r.back().angle, " instead of ", b.a);
    double L = 0; for (auto& s : r) {L += s.len;}
    c.check(L >= dist(a.p, b.p) - slack, "turn_short", here);
    c.count("turns");
  }
  return true;
}
}  // namespace
SCENARIO(swaths, 150, 12000) {
  auto& r = c.rng;
  Turner tr(r); Robot q = robot(r);
  auto v = group(r, r.p(0.1) ? r.i(0, 1) : r.i(2, 8));
  c.desc = vf::cat(v.size(), " swaths, planner ", tr.w);
  for (auto& s : v) {c.sig(s.pts[0].x);}
  c.sig(q.curv);
  F2CSwaths s = make(v);
  F2CPath p = pp::PathPlanning::planPath(q.b, s, tr.get());
  c.check(swl::same(swl::of(s), v), "swaths_changed", "the swaths themselves changed");
  Walk w {c, p, q.cruise};
  if (!swathsOfGroup(c, w, v, 0.05, "")) {return;}
  c.check(w.k == p.size(), "extra", p.size() - w.k, " states after the last swath");
  double L = 0; for (auto& m : v) {for (size_t i = 0; i + 1 < m.pts.size(); ++i) {L += dist(m.pts[i], m.pts[i + 1]);}}
  double S = 0; for (auto& e : p) {if (e.type == t::PathSectionType::SWATH) {S += e.len;}}
  c.near(S, L, 1e-9 * (1 + L), "swath_length", "");
}
namespace {
struct Con {std::vector<P> pts;};
Con connection(vf::Rng& r, Pose a, Pose b, int style) {
  Con k;
  switch (style) {
    case 0: break;
    case 1: k.pts = {a.p + P {r.u(-5, 5), r.u(-5, 5)}}; break;
    case 2: k.pts = {a.p, b.p}; break;
    case 3: {int n = r.i(3, 12); for (int i = 0; i < n; ++i) {k.pts.push_back(a.p + (b.p - a.p) * (double(i) / (n - 1)) + (i && i + 1 < n ? P {r.u(-10, 10), r.u(-10, 10)} : P {}));} break;}
    case 4: {   // long legs with square corners
      int n = r.i(4, 8); P x = a.p; P d = g::dirOf(r.i(0, 3) * g::PI / 2 + (r.p(0.5) ? 0.3 : 0));
      for (int i = 0; i < n; ++i) {k.pts.push_back(x); x = x + d * r.u(40, 80); d = i % 2 ? P {d.y, -d.x} : P {-d.y, d.x}; if (r.p(0.3)) {d = d * (i % 2 ? 1 : -1);}}
      break;
    }
    default: {int n = r.i(2, 30); double R = r.u(5, 60), th = r.u(0, 6); for (int i = 0; i < n; ++i) {k.pts.push_back(a.p + g::dirOf(th + 0.15 * i) * R);}}
  }
  if (k.pts.size() > 1 && r.p(0.15)) {size_t i = 1 + r.next() % (k.pts.size() - 1); k.pts.insert(k.pts.begin() + long(i), k.pts[i]);}
  return k;
}
// the poses passed between two groups
bool along(vf::Case& c, Walk& w, const Pose* from, const Con& k, const Pose* to, const std::string& what, bool followed, double radius) {
  Pose a, b;
  size_t n = k.pts.size();
  auto angleOf = [&] (size_t i) {P d = k.pts[i + 1] - k.pts[i]; return norm(d) > 0 ? legAngle(k.pts[i], k.pts[i + 1]) : 0.0;};
  if ((!from && !n) || (!to && !n) || (!from && !to && n < 2)) {
    Run r = w.run();
    return c.check(r.empty(), "connection_invented", what, ": turns without a connection");
  }
  if (from) {a = *from;} else {a.p = k.pts[0]; a.a = n > 1 ? angleOf(0) : NAN;}
  if (to) {b = *to;} else {b.p = k.pts[n - 1]; b.a = n > 1 ? angleOf(n - 2) : NAN;}
  std::vector<Pose> seen; std::vector<Run> rs;
  P at = a.p; double ang = a.a;
  for (;;) {
    Run r = w.run();
    if (r.empty()) {break;}
    Pose f = first(r), l = last(r);
    if (!c.check(dist(f.p, at) < 1e-6 && (std::isnan(ang) || angDiff(f.a, ang) < 1e-5), "connection_gap", what, ": part ", rs.size(), " starts at ", show(f), " instead of (", at.x, ",", at.y, ") ", ang)) {return false;}
    noJumps(c, r, l.p, 0.05, what);
    at = l.p; ang = l.a; seen.push_back(l); rs.push_back(r);
  }
  c.count("connections"); c.count("parts", rs.size());
  if (rs.empty()) {return c.check(dist(a.p, b.p) < 1e-5 && (std::isnan(a.a) || std::isnan(b.a) || angDiff(a.a, b.a) < 1e-4), "connection_missing", what, ": nothing from ", show(a), " to ", show(b));}
  c.check(dist(at, b.p) < 1e-6 && (std::isnan(b.a) || angDiff(ang, b.a) < 1e-5), "connection_end", what, ": ends at (", at.x, ",", at.y, ") ", ang, " instead of ", show(b));
  // points passed on the way are within the connection
  P lo {INFINITY, INFINITY}, hi {-INFINITY, -INFINITY};
  for (auto q : k.pts) {lo = {std::min(lo.x, q.x), std::min(lo.y, q.y)}; hi = {std::max(hi.x, q.x), std::max(hi.y, q.y)};}
  for (size_t i = 0; i + 1 < seen.size(); ++i) {
    P q = seen[i].p;
    c.check(q.x >= lo.x - 1e-6 && q.x <= hi.x + 1e-6 && q.y >= lo.y - 1e-6 && q.y <= hi.y + 1e-6, "off_connection", what, ": passes ", show(seen[i]), " off the connection");
    if (followed) {
      double d = INFINITY; for (size_t j = 0; j + 1 < n; ++j) {d = std::min(d, g::distSeg(q, k.pts[j], k.pts[j + 1]));}
      c.check(d < 1e-6, "left_connection", what, ": passes ", show(seen[i]), ", ", d, " off the connection");
    }
  }
  if (followed && dist(a.p, b.p) > 12 * radius) {
    // inner corners but the first and last are driven round closely
    for (size_t j = 2; j + 2 < n; ++j) {
      if (dist(k.pts[j], a.p) < 12 * radius || dist(k.pts[j], b.p) < 12 * radius) {continue;}
      double d = INFINITY; for (auto& s : seen) {d = std::min(d, dist(s.p, k.pts[j]));}
      c.check(d < 2 * radius + 1e-6, "corner_missed", what, ": corner ", j, " is passed ", d, " away");
      c.count("corners");
    }
  }
  return true;
}
}  // namespace
SCENARIO(routes, 130, 14000) {
  auto& r = c.rng;
  Turner tr(r); Robot q = robot(r);
  q.b.setMaxCurv(q.curv = r.u(0.8, 1)); q.b.setMaxDiffCurv(r.u(0.8, 1));
  int n = r.p(0.05) ? 0 : r.i(1, 4);
  F2CRoute route;
  std::vector<std::vector<swl::M>> gs; std::vector<Con> ks; std::vector<bool> sq;
  for (int i = 0; i < n; ++i) {gs.push_back(group(r, r.i(1, 3)));}
  c.desc = vf::cat(n, " groups, planner ", tr.w);
  for (int i = 0; i <= n; ++i) {
    if (i == n && r.p(0.5)) {break;}
    Pose a, b; bool ha = i > 0, hb = i < n;
    if (ha) {a = outOf(gs[i - 1].back());}
    if (hb) {b = into(gs[i][0]);}
    if (!ha) {a = hb ? Pose {b.p + P {r.u(-60, 60), r.u(-60, 60)}, 0} : Pose {{r.u(-60, 60), 0}, 0};}
    if (!hb) {b = {a.p + P {r.u(-60, 60), r.u(-60, 60)}, 0};}
    int st = r.i(0, 5);
    ks.push_back(connection(r, a, b, st)); 
    bool dup = false; for (size_t j = 1; j < ks.back().pts.size(); ++j) {dup |= dist(ks.back().pts[j], ks.back().pts[j - 1]) == 0;}
    sq.push_back(st == 4 && !dup);
    for (auto p : ks.back().pts) {c.sig(p.x);}
    if (i < n) {c.sig(gs[i][0].pts[0].x);}
  }
  for (size_t i = 0; i < ks.size(); ++i) {
    F2CMultiPoint mp; for (auto p : ks[i].pts) {mp.addPoint(cv::pt(p));}
    if (i < gs.size()) {route.addConnectedSwaths(mp, make(gs[i]));} else {route.addConnection(mp);}
  }
  if (!c.check(route.sizeVectorSwaths() == gs.size() && route.sizeConnections() == ks.size(), "route", route.sizeVectorSwaths(), " ", route.sizeConnections())) {return;}
  F2CPath p = pp::PathPlanning::planPath(q.b, route, tr.get());
  Walk w {c, p, q.cruise};
  for (size_t i = 0; i < ks.size(); ++i) {
    Pose a, b; if (i > 0) {a = outOf(gs[i - 1].back());} if (i < gs.size()) {b = into(gs[i][0]);}
    if (!along(c, w, i > 0 ? &a : nullptr, ks[i], i < gs.size() ? &b : nullptr, vf::cat("connection ", i, " of ", ks[i].pts.size(), " points"), sq[i], 1.6)) {return;}
    if (i < gs.size() && !swathsOfGroup(c, w, gs[i], 0.05, vf::cat("group ", i))) {return;}
  }
  c.check(w.k == p.size(), "extra", p.size() - w.k, " states after the end");
}
// connections between any two poses
SCENARIO(between, 200, 14000) {
  auto& r = c.rng;
  Turner tr(r); Robot q = robot(r);
  q.b.setMaxCurv(q.curv = r.u(0.8, 1)); q.b.setMaxDiffCurv(r.u(0.8, 1));
  Pose a {{r.u(-100, 100), r.u(-100, 100)}, r.u(-7, 7)}, b {{r.u(-100, 100), r.u(-100, 100)}, r.u(-7, 7)};
  int st = r.i(0, 5);
  Con k = connection(r, a, b, st); if (st == 4) {b.p = k.pts.back();}
  bool dup = false; for (size_t j = 1; j < k.pts.size(); ++j) {dup |= dist(k.pts[j], k.pts[j - 1]) == 0;}
  c.desc = vf::cat("from ", show(a), " to ", show(b), " along ", g::str(k.pts)); c.sig(a.p.x); c.sig(b.p.x);
  F2CMultiPoint mp; for (auto p : k.pts) {mp.addPoint(cv::pt(p));}
  F2CPath p = pp::PathPlanning::planPathForConnection(q.b, cv::pt(a.p), a.a, mp, cv::pt(b.p), b.a, tr.get());
  Walk w {c, p, q.cruise};
  if (!along(c, w, &a, k, &b, "connection", st == 4 && !dup, 1.6)) {return;}
  c.check(w.k == p.size(), "extra", p.size() - w.k, " states after the end");
}
VF_MAIN
