// BUILD: shim
// QUICK: 4
// NOTE: turns come from a planner of our own whose lengths are known in closed form, and from the library's Dubins planner on the stand-in for its steering library
#include "vfall.hpp"
#include "swl.hpp"
#include "fields2cover/objectives/pp_obj/pp_objective.h"
#include "fields2cover/objectives/pp_obj/path_length.h"
#include "fields2cover/objectives/rp_obj/complete_turn_path_obj.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
using namespace g;
namespace ob = f2c::obj;
namespace pp = f2c::pp;
namespace {
// length of the turn of our own planner: the same for a turn and its mirror
double known(double k, double curv, double d, double a0, double a1) {
  return 1 + k + d * (2 + std::cos(a0) + 0.5 * std::cos(a1)) + (1 + std::cos(a0 - a1)) / (curv + 0.1);
}
struct Own : pp::TurningBase {
  double k {0};
  F2CPath createSimpleTurn(const F2CRobot& b, double d, double a0, double a1) override {
    double l = known(k, b.getMaxCurv(), d, a0, a1), f = 0;
    F2CPath p;
    for (double part : {0.2, 0.5, 0.3, 0.0}) {
      F2CPathState s;
      s.point = F2CPoint(d * f, 0.1 * f);
      s.angle = a0; s.len = part * l; s.velocity = b.getTurnVel();
      s.dir = part == 0.5 ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD;
      s.type = f2c::types::PathSectionType::TURN;
      p.addState(s);
      f += part;
    }
    return p;
  }
};
struct Time : ob::PPObjective {
  double computeCost(const F2CPath& p) override {
    double t = 0;
    for (auto& s : p) {t += s.len / s.velocity;}
    return t;
  }
};
struct Worth : ob::PPObjective {bool isMinimizing() const override {return false;}};
struct Pose {P p; double a;};
Pose pose(vf::Rng& r, double s, P o) {return {o + P {r.u(-s, s), r.u(-s, s)}, r.p(0.3) ? r.i(-4, 8) * g::PI / 2 : r.u(-7, 13)};}
double turn(double k, double curv, const Pose& a, const Pose& b) {
  P d = b.p - a.p;
  double h = std::atan2(d.y, d.x);
  return known(k, curv, norm(d), a.a - h, b.a - h);
}
F2CRobot robot(double curv, double vel) {F2CRobot b(2, 3); b.setMaxCurv(curv); b.setTurnVel(vel); b.setMaxDiffCurv(0.3); return b;}
double legHeading(P a, P b) {return std::atan2(b.y - a.y, b.x - a.x);}

// every overload of one objective; len(a, b) is the cost of a turn
template <class O, class F> void overloads(vf::Case& c, O& x, F cost, double s, P o, double tol) {
  auto& r = c.rng;
  Pose a = pose(r, s, o), b = pose(r, s, o);
  double D = dist(a.p, b.p), t0 = 1e-12 * (s + norm(o)) * 20;
  F2CPoint A = cv::pt(a.p), B = cv::pt(b.p);
  c.near(x.computeCost(A, a.a, B, b.a), cost(a, b), tol, "turn", "between two poses");
  c.near(x.computeCost(B, b.a, A, a.a), cost(b, a), tol, "turn_back", "and back");
  c.near(x.computeCost(A, B), D, t0, "points", "between two points");
  c.near(x.computeCost(A, a.a, B), D, t0, "heading_point", "from a pose to a point");
  c.near(x.computeCost(A, B, b.a), D, t0, "point_heading", "from a point to a pose");
  auto sw = [&] (std::vector<P>& l) {
    l.clear();
    int n = r.i(2, 4);
    for (int i = 0; i < n; ++i) {l.push_back(pose(r, s, o).p);}
    F2CSwath q(cv::line(l), 2.0, 0);
    if (r.p(0.4)) {q.reverse(); std::reverse(l.begin(), l.end());}
    return q;
  };
  auto in = [] (const std::vector<P>& l) {return Pose {l[0], legHeading(l[0], l[1])};};
  auto out = [] (const std::vector<P>& l) {size_t n = l.size(); return Pose {l[n - 1], legHeading(l[n - 2], l[n - 1])};};
  std::vector<P> l1, l2;
  F2CSwath s1 = sw(l1), s2 = sw(l2);
  c.near(x.computeCost(s1), length(l1), t0, "swath", "swath");
  c.near(x.computeCost(s1, s2), cost(out(l1), in(l2)), tol, "swath_swath", "from a swath to the next");
  c.near(x.computeCost(s1, B, b.a), cost(out(l1), b), tol, "swath_pose", "from a swath to a pose");
  c.near(x.computeCost(A, a.a, s1), cost(a, in(l1)), tol, "pose_swath", "from a pose to a swath");
  c.near(x.computeCost(s1, B), dist(l1.back(), b.p), t0, "swath_point", "from a swath to a point");
  c.near(x.computeCost(A, s1), dist(a.p, l1[0]), t0, "point_swath", "from a point to a swath");
  F2CSwaths all; double tot = 0, legs = 0;
  std::vector<P> prev;
  int n = r.i(0, 5);
  for (int i = 0; i < n; ++i) {
    std::vector<P> l;
    all.emplace_back(sw(l));
    tot += length(l); legs += length(l);
    if (i) {tot += cost(out(prev), in(l)); c.count("turns");}
    prev = l;
  }
  c.near(x.computeCost(all), tot, tol * (n + 1), "swaths", "swaths and the turns between them");
  std::vector<P> ps; F2CMultiPoint mp;
  int m = r.i(0, 4);
  for (int i = 0; i < m; ++i) {ps.push_back(pose(r, s, o).p); mp.addPoint(ps[i].x, ps[i].y);}
  c.near(x.computeCost(mp), length(ps), t0, "list", "list of points");
  F2CRoute rt;
  rt.addSwaths(all);
  c.near(x.computeCost(rt), tot, tol * (n + 1), "route", "route of one group");
  c.count("turns", 5);
  c.sig(tot); c.sig(D);
}
}  // namespace

SCENARIO(path_cost, 1500, 40000) {
  auto& r = c.rng;
  F2CPath p; double tot = 0, t = 0;
  int n = r.i(0, 30);
  for (int i = 0; i < n; ++i) {
    F2CPathState s;
    s.point = F2CPoint(r.u(-1e3, 1e3), r.u(-1e3, 1e3));
    s.angle = r.u(0, 6); s.len = r.p(0.2) ? 0 : r.logu(1e-3, 1e3); s.velocity = r.u(0.1, 5);
    s.dir = r.p(0.5) ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD;
    s.type = f2c::types::PathSectionType(r.i(1, 3));
    tot += s.len; t += s.len / s.velocity;
    p.addState(s);
  }
  c.desc = vf::cat(n, " states, ", tot, " m");
  double eps = 1e-12 * (1 + tot);
  ob::PPObjective a; ob::PathLength b; Time d; Worth w;
  c.near(a.computeCost(p), tot, eps, "path", "path");
  c.near(b.computeCost(p), tot, eps, "length", "path length");
  c.near(b.computeCostWithMinimizingSign(p), tot, eps, "sign", "path length, to be minimised");
  c.near(w.computeCostWithMinimizingSign(p), -tot, eps, "sign", "to be maximised");
  c.near(d.computeCostWithMinimizingSign(p), t, 1e-12 * (1 + t), "own", "own objective");
  c.check(a.isMinimizing() && !a.isMaximizing() && b.isMinimizing() && !b.isMaximizing(), "goal", "lengths are to be minimised");
  c.count("states", n); c.sig(tot);
}
SCENARIO(known_turns, 3000, 80000) {
  auto& r = c.rng;
  double s = r.logu(1, 300), curv = r.u(0.05, 1.5), vel = r.u(0.3, 4);
  P o = r.p(0.2) ? P {r.u(1e5, 9e5), r.u(1e6, 6e6)} : P {0, 0};
  Own own; own.k = r.u(0, 9);
  bool cached = r.p(0.4);
  own.setUsingCache(cached);
  auto tol = [&] {return cached ? 0.02 * (1 + s) / curv : 1e-9 * (s + 1 / curv) * (1 + norm(o) / 1e4);};
  c.desc = vf::cat("curv ", curv, " size ", s, cached ? " cached" : "");
  if (r.p(0.5)) {
    ob::CompleteTurnPathObj<Own> x(robot(curv, vel), own);
    for (int i = 0; i < 2; ++i) {
      overloads(c, x, [&] (Pose a, Pose b) {return turn(own.k, curv, a, b);}, s, o, tol());
      // another robot or planner takes over at once
      if (r.p(0.5)) {curv = r.u(0.05, 1.5); x.setRobot(robot(curv, vel));}
      else {own.k = r.u(0, 9); x.setTurnPlanner(own);}
    }
    overloads(c, x, [&] (Pose a, Pose b) {return turn(own.k, curv, a, b);}, s, o, tol());
    ob::CompleteTurnPathObj<Own> y(robot(curv, vel));
    double k = own.k;
    y.setTurnPlanner(own);
    own.k += 1;   // its own copy of the planner
    overloads(c, y, [&] (Pose a, Pose b) {return turn(k, curv, a, b);}, s, o, tol());
  } else {
    ob::CompleteTurnPathObj<Own, Time> x(robot(curv, vel), own);
    overloads(c, x, [&] (Pose a, Pose b) {return turn(own.k, curv, a, b) / vel;}, s, o, tol() / vel);
    ob::RPObjective& base = x;
    overloads(c, base, [&] (Pose a, Pose b) {return turn(own.k, curv, a, b) / vel;}, s, o, tol() / vel);
    vel = r.u(0.3, 4);
    x.setRobot(robot(curv, vel));
    overloads(c, x, [&] (Pose a, Pose b) {return turn(own.k, curv, a, b) / vel;}, s, o, tol() / vel);
  }
}
SCENARIO(library_turns, 200, 6000) {
  auto& r = c.rng;
  double s = r.logu(2, 40), curv = r.u(0.2, 1);
  F2CRobot b = robot(curv, r.u(0.3, 4));
  c.desc = vf::cat("curv ", curv, " size ", s);
  auto run = [&] (auto planner) {
    planner.setUsingCache(false);
    planner.setDiscretization(0.05);
    auto other = planner;
    ob::CompleteTurnPathObj<decltype(planner)> x(b, planner);
    overloads(c, x, [&] (Pose u, Pose v) {
      F2CPath p = other.createTurn(b, cv::pt(u.p), u.a, cv::pt(v.p), v.a);
      double l = 0;
      for (auto& q : p) {l += q.len;}
      return l;
    }, s, {0, 0}, 1e-6 * (s + 1 / curv));
  };
  if (r.p(0.5)) {run(pp::DubinsCurves());} else {run(pp::ReedsSheppCurves());}
}
VF_MAIN
