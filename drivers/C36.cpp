// BUILD: shim
// QUICK: 2.0
// NOTE: planners of our own mark every turn with the number of the call that made it; turns returned are compared with that call's curve placed by an independent motion
#include "vfall.hpp"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"
using namespace g;
namespace pp = f2c::pp;
namespace t = f2c::types;
namespace {
double m2(double a) {a = std::fmod(a, 2 * g::PI); return a < 0 ? a + 2 * g::PI : a;}
double angDiff(double a, double b) {double d = m2(a - b); return std::min(d, 2 * g::PI - d);}
struct St {P p; double ang, len, vel; int dir, type;};
using Sts = std::vector<St>;
Sts of(const F2CPath& p) {Sts v; for (auto& s : p) {v.push_back({{s.point.getX(), s.point.getY()}, s.angle, s.len, s.velocity, int(s.dir), int(s.type)});} return v;}
std::string show(const Sts& v) {std::string o; for (size_t i = 0; i < v.size() && i < 8; ++i) {o += vf::cat("[", v[i].p.x, ",", v[i].p.y, " a", v[i].ang, " l", v[i].len, " v", v[i].vel, " d", v[i].dir, " t", v[i].type, "]");} return o;}
struct Robot {double curv, diff, vel;};
F2CRobot make(const Robot& q) {F2CRobot b(2, 3); b.setMaxCurv(q.curv); b.setMaxDiffCurv(q.diff); b.setTurnVel(q.vel); return b;}
struct Call {Robot q; double dist, a0, a1, disc; Sts made;};
// curves of any shape, the velocity of each state says which call made them
struct Own : pp::TurningBase {
  vf::Rng rng; std::vector<Call> calls;
  int kind {0};
  double off {0};   // distance by which the curve misses the end
  explicit Own(uint64_t s) : rng(s) {}
  F2CPath createSimpleTurn(const F2CRobot& b, double d, double a0, double a1) override {
    F2CPath p;
    int n = kind == 2 ? rng.i(0, 1) : rng.i(2, 12);
    int id = int(calls.size());
    for (int i = 0; i < n; ++i) {
      t::PathState s;
      double u = n > 1 ? double(i) / (n - 1) : 0;
      bool end = i == 0 || i + 1 == n;
      s.point = F2CPoint(u * d + (end ? 0 : rng.u(-3, 3)) + (i + 1 == n ? off : 0), end ? 0 : rng.u(-1, 5));
      s.angle = i == 0 ? a0 : i + 1 == n ? a1 : rng.u(-10, 10);
      s.len = i + 1 == n ? 0 : rng.u(0, 4);
      s.dir = rng.p(0.5) ? t::PathDirection::FORWARD : t::PathDirection::BACKWARD;
      s.type = rng.p(0.7) ? t::PathSectionType::TURN : rng.p(0.5) ? t::PathSectionType::SWATH : t::PathSectionType::HL_SWATH;
      s.velocity = id + 1 + 0.001 * i;
      p.addState(s);
    }
    calls.push_back({{b.getMaxCurv(), b.getMaxDiffCurv(), b.getTurnVel()}, d, a0, a1, discretization, of(p)});
    return p;
  }
};
struct Pose {P p; double a;};
// the curve made for distance and two angles, at its place
Sts place(const Sts& v, const Pose& s, const Pose& e, bool& mirrored) {
  P d = e.p - s.p; double dir = norm(d) > 0 ? std::atan2(d.y, d.x) : 0;
  mirrored = m2(s.a - dir) > g::PI;
  Sts o = v;
  for (auto& q : o) {
    if (mirrored) {q.p.y = -q.p.y; q.ang = -q.ang;}
    q.p = s.p + g::rot(q.p, dir); q.ang = m2(q.ang + dir);
  }
  return o;
}
void compareTurn(vf::Case& c, const Sts& got, const Sts& made, const Pose& s, const Pose& e, const std::string& what) {
  bool mir; Sts want = place(made, s, e, mir);
  if (!c.check(got.size() == want.size(), "states", what, ": ", got.size(), " states instead of ", want.size())) {return;}
  double sc = 1 + std::fabs(s.p.x) + std::fabs(s.p.y) + std::fabs(e.p.x) + std::fabs(e.p.y), tol = 1e-12 * sc + 1e-11;
  for (size_t i = 0; i < got.size(); ++i) {
    // the first and the last point may be put onto the poses asked for
    bool snap = (i == 0 && dist(want[i].p, s.p) < 0.0501 && dist(got[i].p, s.p) == 0) || (i + 1 == got.size() && dist(want[i].p, e.p) < 0.0501 && dist(got[i].p, e.p) == 0);
    if (!c.check(snap || dist(got[i].p, want[i].p) <= 4 * tol, "placed", what, ": state ", i, " at ", g::str(std::vector<P> {got[i].p}), " instead of ", g::str(std::vector<P> {want[i].p}))) {return;}
    c.check(angDiff(got[i].ang, want[i].ang) < 1e-9 && got[i].ang >= 0 && got[i].ang < 2 * g::PI + 1e-12, "heading", what, ": state ", i, " heads ", got[i].ang, " instead of ", want[i].ang);
    c.check(got[i].len == want[i].len && got[i].vel == want[i].vel && got[i].dir == want[i].dir && got[i].type == want[i].type, "kept", what, ": state ", i, ": ", show(Sts {got[i]}), " instead of ", show(Sts {want[i]}));
  }
  c.count("states", got.size());
  c.count(mir ? "mirrored" : "not_mirrored");
}
Pose pose(vf::Rng& r) {
  double sc = r.p(0.15) ? 1e6 : r.p(0.5) ? 10 : 1000;
  double a = r.p(0.3) ? g::PI / 2 * r.i(-4, 8) : r.p(0.1) ? r.u(-1e-9, 1e-9) : r.u(-10, 10);
  return {r.p(0.2) ? P {double(r.i(-5, 5)), double(r.i(-5, 5))} : P {r.u(-sc, sc), r.u(-sc, sc)}, a};
}
Pose other(vf::Rng& r, const Pose& s) {
  Pose e = pose(r);
  switch (r.i(0, 4)) {
    case 0: e.p = s.p + g::dirOf(r.u(0, 6.3)) * r.u(0, 20); break;
    case 1: e.p = s.p + g::dirOf(s.a) * r.u(-20, 20); break;           // along the heading
    case 2: e.p = s.p; break;
    case 3: e.p = s.p + g::dirOf(g::PI / 2 * r.i(0, 3)) * r.u(0, 20); break;
    default: break;
  }
  if (r.p(0.3)) {e.a = s.a + g::PI;}
  return e;
}
Robot robot(vf::Rng& r) {return {r.logu(0.05, 2), r.logu(0.02, 2), r.logu(0.1, 5)};}
// the call whose curve this is
const Call* callOf(const Own& o, const Sts& v) {size_t k = size_t(std::floor(v[0].vel + 1e-6)); return k >= 1 && k <= o.calls.size() ? &o.calls[k - 1] : nullptr;}
void checkArgs(vf::Case& c, const Call& k, const Robot& q, const Pose& s, const Pose& e, double tol, const std::string& what) {
  P d = e.p - s.p; double dir = norm(d) > 0 ? std::atan2(d.y, d.x) : 0, a0 = m2(s.a - dir), a1 = m2(e.a - dir);
  if (a0 > g::PI) {a0 = m2(-a0); a1 = m2(-a1);}
  double sc = 1e-15 * (std::fabs(s.p.x) + std::fabs(s.p.y) + std::fabs(e.p.x) + std::fabs(e.p.y));
  double at = tol + 1e-12 + (norm(d) > 0 ? 4 * sc / norm(d) : 0);
  c.near(k.dist, norm(d), tol + sc + 1e-12 * norm(d), "asked_distance", what);
  c.near(k.q.curv, q.curv, tol, "asked_curvature", what);
  c.near(k.q.diff, q.diff, tol, "asked_curvature_change", what);
  c.near(k.q.vel, q.vel, tol, "asked_velocity", what);
  c.check(angDiff(k.a0, a0) <= at || (angDiff(k.a0, -a0) <= at && (a0 < at || a0 > g::PI - at)), "asked_start", what, ": planned from ", k.a0, " for ", a0);
  // on the verge between the two mirror images the end angle may be either's
  bool verge = a0 < at + 1e-9 || std::fabs(a0 - g::PI) < at + 1e-9;
  c.check(angDiff(k.a1, a1) <= at || (verge && angDiff(k.a1, -a1) <= at), "asked_end", what, ": planned to ", k.a1, " for ", a1);
  c.check(k.a0 <= g::PI + 1e-9, "normal_form", what, ": start angle ", k.a0);
}
}  // namespace
// without the cache: each turn is the planner's own, in place
SCENARIO(placed, 12000, 600000) {
  auto& r = c.rng;
  Own o(r.next()); o.setUsingCache(false);
  o.kind = r.p(0.05) ? 2 : 0; o.off = r.p(0.3) ? r.u(-0.06, 0.06) : r.p(0.1) ? r.u(-2, 2) : 0;
  Pose s = pose(r), e = other(r, s); Robot q = robot(r);
  c.sig(s.p.x); c.sig(s.a); c.sig(e.p.x); c.sig(e.a);
  c.desc = vf::cat("from (", s.p.x, ",", s.p.y, ") ", s.a, " to (", e.p.x, ",", e.p.y, ") ", e.a);
  F2CPath p = o.createTurn(make(q), cv::pt(s.p), s.a, cv::pt(e.p), e.a);
  if (!c.check(o.calls.size() == 1, "calls", o.calls.size())) {return;}
  Call& k = o.calls[0];
  checkArgs(c, k, q, s, e, 0, "turn");
  if (k.made.size() <= 1) {c.check(p.size() == 0, "no_turn", p.size(), " states of a turn with ", k.made.size()); return;}
  Sts got = of(p);
  // on the verge the mirrored curve is as good
  P d = e.p - s.p; double a0 = m2(s.a - (norm(d) > 0 ? std::atan2(d.y, d.x) : 0));
  double eps = 1e-9 + (norm(d) > 0 ? 1e-14 * (std::fabs(s.p.x) + std::fabs(s.p.y) + std::fabs(e.p.x) + std::fabs(e.p.y)) / norm(d) : 0);
  if (a0 < eps || std::fabs(a0 - g::PI) < eps || a0 > 2 * g::PI - eps || (norm(d) < 1e-9 && norm(d) > 0)) {
    c.count("verge");
  } else {compareTurn(c, got, k.made, s, e, "turn");}
  // joins the poses
  c.check(dist(got[0].p, s.p) < 1e-9 * (1 + norm(s.p)), "starts", "starts ", dist(got[0].p, s.p), " from the start");
  c.check(angDiff(got[0].ang, s.a) < 1e-8 + 10 * eps, "start_heading", "starts heading ", got[0].ang, " instead of ", s.a);
  c.check(angDiff(got.back().ang, e.a) < 1e-8 + 10 * eps, "end_heading", "ends heading ", got.back().ang, " instead of ", e.a);
  if (std::fabs(o.off) < 0.0499) {c.check(dist(got.back().p, e.p) < 1e-9 * (1 + norm(e.p)), "ends", "ends ", dist(got.back().p, e.p), " from the end");}
}
// with the cache: histories of requests, many near each other
SCENARIO(history, 1500, 80000) {
  auto& r = c.rng;
  Own o(r.next());
  if (r.p(0.5)) {o.setUsingCache(true);}
  c.check(o.getUsingCache(), "cache_on", "");
  struct Req {Robot q; Pose s, e; double disc; int epoch;}; int epoch = 0;
  std::vector<Req> seen; std::vector<Sts> res;
  int n = r.i(3, 40); double disc = 0.01;
  o.setDiscretization(disc);
  c.desc = vf::cat(n, " requests");
  for (int i = 0; i < n; ++i) {
    Req x; bool same = false; size_t j = 0; std::string how = "new";
    if (seen.empty() || r.p(0.3)) {x.q = robot(r); x.s = pose(r); if (r.p(0.9)) {x.s.p = x.s.p * 1e-3;} x.e = other(r, x.s); if (norm(x.e.p - x.s.p) < 0.01) {x.e.p = x.s.p + g::dirOf(r.u(0, 6)) * r.u(0.1, 10);}}
    else {
      j = r.next() % seen.size(); x = seen[j];
      double eps = r.p(0.4) ? r.u(1.02e-3, 3e-3) : r.p(0.5) ? r.u(0.01, 1) : 1e-4;
      P d = x.e.p - x.s.p; double len = norm(d);
      switch (r.i(0, 8)) {
        case 0: same = true; how = "again"; break;
        case 1: x.q.curv += eps; how = "curvature"; break;
        case 2: x.q.diff += eps; how = "curvature change"; break;
        case 3: x.e.p = x.s.p + d * ((len + eps) / len); how = "distance"; break;
        case 4: x.s.a += eps; how = "start angle"; break;
        case 5: x.e.a += eps; how = "end angle"; break;
        case 6: x.q.vel += eps; how = "turn velocity"; break;
        case 7: {P m {r.u(-50, 50), r.u(-50, 50)}; double a = r.u(-7, 7); x.s = {m + g::rot(x.s.p, a), x.s.a + a}; x.e = {m + g::rot(x.e.p, a), x.e.a + a}; how = "elsewhere"; break;}
        default: x.q = seen[r.next() % seen.size()].q; how = "robot"; break;
      }
    }
    if (r.p(0.05)) {++epoch; disc = r.p(0.5) ? 0.01 : r.logu(0.001, 0.5); o.setDiscretization(disc); c.check(o.getDiscretization() == disc, "discretization", "");}
    x.disc = disc; x.epoch = epoch;
    size_t before = o.calls.size();
    F2CPath p = o.createTurn(make(x.q), cv::pt(x.s.p), x.s.a, cv::pt(x.e.p), x.e.a);
    Sts got = of(p);
    std::string what = vf::cat("request ", i, " (", how, ")");
    c.count("requests"); c.count(o.calls.size() == before ? "from_cache" : "planned");
    c.sig(x.s.p.x); c.sig(x.e.a);
    if (!c.check(got.size() >= 2, "empty", what)) {return;}
    const Call* k = callOf(o, got);
    if (!c.check(k, "unknown_turn", what, ": not a turn of the planner: ", show(got))) {return;}
    checkArgs(c, *k, x.q, x.s, x.e, 1e-3 + 1e-9, what);
    c.check(k->disc == disc, "stale_discretization", what, ": planned with discretization ", k->disc, " instead of ", disc);
    // the made curve in place, up to the thousandths of the request it was made for
    P d = x.e.p - x.s.p; double a0 = m2(x.s.a - std::atan2(d.y, d.x));
    bool verge = a0 < 2e-3 || std::fabs(a0 - g::PI) < 2e-3 || a0 > 2 * g::PI - 2e-3;
    if (!verge) {compareTurn(c, got, k->made, x.s, x.e, what);}
    if (same && epoch == seen[j].epoch && got.size() == res[j].size()) {
      bool eq = true; for (size_t q = 0; q < got.size(); ++q) {eq &= dist(got[q].p, res[j][q].p) == 0 && got[q].ang == res[j][q].ang && got[q].vel == res[j][q].vel;}
      // repeated with nothing in between that emptied the memory: the very same turn
      c.check(eq || k->disc != disc || o.calls.size() != before, "repeated", what, " differs from the first time");
    }
    seen.push_back(x); res.push_back(got);
  }
  // off: planned anew each time
  if (r.p(0.5)) {
    o.setUsingCache(false); c.check(!o.getUsingCache(), "cache_off", "");
    size_t before = o.calls.size(), j = r.next() % seen.size();
    auto& x = seen[j];
    F2CPath p = o.createTurn(make(x.q), cv::pt(x.s.p), x.s.a, cv::pt(x.e.p), x.e.a);
    c.check(o.calls.size() == before + 1, "cache_used", "turned off, but not planned anew");
    checkArgs(c, o.calls.back(), x.q, x.s, x.e, 0, "uncached");
  }
}
// a repeated request is not planned again
SCENARIO(repeated, 1500, 60000) {
  auto& r = c.rng;
  Own o(r.next());
  Pose s = pose(r), e = other(r, s); Robot q = robot(r);
  c.sig(s.p.x); c.sig(e.a); c.desc = vf::cat("from (", s.p.x, ",", s.p.y, ") ", s.a, " to (", e.p.x, ",", e.p.y, ") ", e.a);
  Sts a = of(o.createTurn(make(q), cv::pt(s.p), s.a, cv::pt(e.p), e.a));
  int others = r.i(0, 5);
  for (int i = 0; i < others; ++i) {Pose u = pose(r), v = other(r, u); o.createTurn(make(robot(r)), cv::pt(u.p), u.a, cv::pt(v.p), v.a);}
  Sts b = of(o.createTurn(make(q), cv::pt(s.p), s.a, cv::pt(e.p), e.a));
  bool eq = a.size() == b.size(); for (size_t k = 0; eq && k < a.size(); ++k) {eq = dist(a[k].p, b[k].p) == 0 && a[k].ang == b[k].ang && a[k].vel == b[k].vel && a[k].len == b[k].len;}
  c.check(eq, "repeated", "the same request gives another turn: ", show(a), " / ", show(b));
}
// the library's planners (curves from the stand-in library)
SCENARIO(planners, 1200, 60000) {
  auto& r = c.rng;
  pp::DubinsCurves du; pp::DubinsCurvesCC dc; pp::ReedsSheppCurves rs; pp::ReedsSheppCurvesHC rh;
  pp::TurningBase* ps[] = {&du, &dc, &rs, &rh};
  int w = r.i(0, 3); auto* pl = ps[w];
  bool cache = r.p(0.5); pl->setUsingCache(cache);
  double disc = r.logu(0.01, 0.3); pl->setDiscretization(disc);
  Robot q {r.logu(0.1, 1), r.logu(0.1, 1), r.logu(0.1, 5)};
  int n = r.i(1, 4);
  c.desc = vf::cat("planner ", w, " ", n, " turns");
  Pose s = pose(r), e;
  for (int i = 0; i < n; ++i) {
    if (i > 0 && r.p(0.5)) {q.vel = r.logu(0.1, 5);} else {s = pose(r); e = {s.p + g::dirOf(r.u(0, 7)) * r.u(0.5, 40), r.u(-7, 7)};}
    c.sig(s.p.x); c.sig(e.a);
    F2CPath p = pl->createTurn(make(q), cv::pt(s.p), s.a, cv::pt(e.p), e.a);
    Sts v = of(p);
    std::string what = vf::cat("planner ", w, " turn ", i, " from (", s.p.x, ",", s.p.y, ") ", s.a, " to (", e.p.x, ",", e.p.y, ") ", e.a);
    if (!c.check(v.size() >= 2, "no_turn", what)) {return;}
    double sc = 1e-9 * (1 + norm(s.p) + norm(e.p));
    double slack = cache ? 0.003 : 1e-6;
    c.check(dist(v[0].p, s.p) <= sc, "starts", what);
    c.check(dist(v.back().p, e.p) <= sc, "ends", what, ": ends ", dist(v.back().p, e.p), " away");
    c.check(angDiff(v[0].ang, s.a) <= slack && angDiff(v.back().ang, e.a) <= slack, "headings", what, ": ", v[0].ang, " ", v.back().ang);
    double L = 0; bool ok = true, lens = true, near = true;
    for (size_t k = 0; k < v.size(); ++k) {
      ok &= std::fabs(v[k].vel - q.vel) <= (cache ? 1e-3 : 0) && v[k].type == int(t::PathSectionType::TURN) && (v[k].dir == 1 || v[k].dir == -1);
      if (k + 1 < v.size()) {lens &= std::fabs(v[k].len - dist(v[k].p, v[k + 1].p)) <= slack + 1e-9 + 1e-7 * sc * 1e7; near &= v[k].len <= disc + slack + 1e-6; L += v[k].len;}
    }
    c.check(ok, "marks", what, ": not all turns at the turn velocity ", q.vel);
    c.check(lens && v.back().len == 0, "lengths", what, ": lengths are not those between the states");
    c.check(near, "coarse", what, ": coarser than ", disc);
    c.check(L >= dist(s.p, e.p) - slack - sc, "short", what);
    c.count("planned"); c.count("states", v.size());
  }
}
// a turn is valid when it stays on its side and ends where and how it should
SCENARIO(validity, 6000, 300000) {
  auto& r = c.rng;
  F2CPath p;
  int n = r.i(1, 12);
  double d = r.u(0, 20), ang = r.u(-7, 7), md = r.p(0.5) ? 0.05 : r.logu(1e-3, 2), mr = r.p(0.5) ? 0.1 : r.logu(1e-3, 1.9);
  double low = INFINITY;
  for (int i = 0; i < n; ++i) {
    f2c::types::PathState q;
    double y = r.p(0.7) ? r.u(0, 5) : -md * (r.p(0.5) ? r.u(0.5, 1.5) : r.u(0, 4));
    q.point = F2CPoint(r.u(-3, 25), y); q.angle = r.u(-7, 7); q.len = r.u(0, 1); q.dir = r.p(0.8) ? f2c::types::PathDirection::FORWARD : f2c::types::PathDirection::BACKWARD;
    if (i + 1 == n) {   // the end near what is wanted
      q.angle = ang + (r.p(0.6) ? 0 : r.p(0.5) ? (r.p(0.5) ? 1 : -1) * std::acos(1 - mr) * r.u(0.8, 1.2) : r.u(-3, 3)) + 2 * g::PI * r.i(-1, 1);
      q.len = r.p(0.3) ? 0 : r.u(0, 1);
      double s = q.dir == f2c::types::PathDirection::FORWARD ? 1 : -1;
      P e {d + (r.p(0.6) ? 0 : r.u(-1.4, 1.4) * md), r.p(0.6) ? 0 : r.u(-1.4, 1.4) * md};
      P at = e - g::dirOf(q.angle) * (s * q.len);
      q.point = F2CPoint(at.x, at.y);
    }
    low = std::min(low, q.point.getY());
    p.addState(q);
  }
  const auto& z = p[size_t(n - 1)];
  double sg = z.dir == f2c::types::PathDirection::FORWARD ? 1 : -1;
  P e = cv::of(z.point) + g::dirOf(z.angle) * (sg * z.len);
  // margins by which each condition holds
  double m[] = {low + md, std::cos(z.angle - ang) - (1 - mr), md - std::fabs(e.x - d), md - std::fabs(e.y)};
  bool want = true;
  for (double x : m) {if (std::fabs(x) < 1e-9) {c.count("verge"); return;} want = want && x > 0;}
  bool dflt = md == 0.05 && mr == 0.1;
  bool got = dflt ? f2c::pp::TurningBase::isTurnValid(p, d, ang) : f2c::pp::TurningBase::isTurnValid(p, d, ang, md, mr);
  c.check(got == want, "validity", "a turn with margins ", m[0], " ", m[1], " ", m[2], " ", m[3], " is called ", got ? "valid" : "invalid");
  c.count(want ? "valid_turns" : "invalid_turns"); c.sig(d); c.sig(ang);
}
VF_MAIN
