// NOTE: driven line rebuilt and measured independently; every overload against its definition
// QUICK: 40
#include "vfall.hpp"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/objectives/rp_obj/rp_objective.h"
using namespace g;
namespace ob = f2c::obj;

typedef std::vector<P> L;
static P rp(vf::Rng& r, double s, P o) {
  if (r.p(0.3)) {return o + P {double(r.i(-3, 3)), double(r.i(-3, 3))};}
  return o + P {r.u(-s, s), r.u(-s, s)};
}
static L rl(vf::Rng& r, int n, double s, P o) {L l; for (int i = 0; i < n; ++i) {l.push_back(rp(r, s, o));} return l;}
static f2c::types::MultiPoint mp(const L& l) {f2c::types::MultiPoint m; for (auto p : l) {m.addPoint(p.x, p.y);} return m;}

SCENARIO(overloads, 800, 20000) {
  double s = c.rng.logu(1, 1000);
  P o = c.rng.p(0.2) ? P {c.rng.u(1e5, 9e5), c.rng.u(1e6, 6e6)} : P {0, 0};
  ob::DirectDistPathObj dd; ob::RPObjective rpo;
  ob::RPObjective& x = c.rng.p(0.7) ? static_cast<ob::RPObjective&>(dd) : rpo;
  P a = rp(c.rng, s, o), b = rp(c.rng, s, o);
  double t = 1e-12 * (s + norm(o)) * 20, an = c.rng.u(0, 6), bn = c.rng.u(-9, 9), D = dist(a, b);
  F2CPoint A = cv::pt(a), B = cv::pt(b);
  c.near(x.computeCost(A, B), D, t, "pp", "points");
  c.near(x.computeCost(A, an, B), D, t, "pap", "point, angle, point");
  c.near(x.computeCost(A, B, bn), D, t, "ppa", "points, angle");
  c.near(x.computeCost(A, an, B, bn), D, t, "papa", "points and angles");
  L l1 = rl(c.rng, c.rng.i(2, 6), s, o), l2 = rl(c.rng, c.rng.i(2, 6), s, o);
  F2CSwath s1(cv::line(l1), 2.0, 0), s2(cv::line(l2), 2.0, 1);
  if (c.rng.p(0.4)) {s1.reverse(); std::reverse(l1.begin(), l1.end());}
  c.desc = vf::cat(str(l1), str(l2));
  c.sig(D); c.sig(length(l1)); c.sig(length(l2));
  c.near(x.computeCost(s1), length(l1), t, "s", "swath");
  c.near(x.computeCost(s1, A), dist(l1.back(), a), t, "sp", "swath to point");
  c.near(x.computeCost(s1, A, an), dist(l1.back(), a), t, "spa", "swath to point with angle");
  c.near(x.computeCost(A, s1), dist(a, l1.front()), t, "ps", "point to swath");
  c.near(x.computeCost(A, an, s1), dist(a, l1.front()), t, "pas", "point with angle to swath");
  c.near(x.computeCost(s1, s2), dist(l1.back(), l2.front()), t, "ss", "swath to swath");
  L ps = rl(c.rng, c.rng.i(0, 6), s, o);
  std::vector<F2CPoint> vp; for (auto p : ps) {vp.push_back(cv::pt(p));}
  auto M = mp(ps);
  c.near(x.computeCost(vp), length(ps), t, "v", "list of points");
  c.near(x.computeCost(M), length(ps), t, "m", "point list");
  c.near(x.computeCost(s1, M), ps.empty() ? 0 : dist(l1.back(), ps.front()), t, "sm", "swath to points");
  c.near(x.computeCost(M, s1), ps.empty() ? 0 : dist(ps.back(), l1.front()), t, "ms", "points to swath");
  F2CSwaths sw; std::vector<L> ls;
  int n = c.rng.i(0, 5);
  double tot = 0;
  for (int i = 0; i < n; ++i) {
    L l = rl(c.rng, c.rng.i(2, 4), s, o);
    sw.append(cv::line(l), 1.5);
    tot += length(l);
    if (i) {tot += dist(ls.back().back(), l.front());}
    ls.push_back(l);
  }
  c.count("swaths", n + 2); c.count("points", ps.size());
  c.near(x.computeCost(sw), tot, t, "S", "swaths with the legs between them");
  c.near(x.computeCost(sw, M), ps.empty() || !n ? 0 : dist(ls.back().back(), ps.front()), t, "Sm", "swaths to points");
  c.near(x.computeCost(M, sw), ps.empty() || !n ? 0 : dist(ps.back(), ls.front().front()), t, "mS", "points to swaths");
}
// any history of additions to a route: the cost is the length of the line driven
SCENARIO(routes, 1200, 30000) {
  double s = c.rng.logu(1, 500);
  P o = c.rng.p(0.2) ? P {c.rng.u(1e5, 9e5), c.rng.u(1e6, 6e6)} : P {0, 0};
  F2CRoute r;
  L driven;
  std::string h;
  int n = c.rng.i(0, 12), id = 0;
  auto sw = [&] (L& l) {l = rl(c.rng, c.rng.i(2, 4), s, o); F2CSwath x(cv::line(l), 1.0, id++); return x;};
  for (int i = 0; i < n; ++i) {
    switch (c.rng.i(0, 6)) {
      case 0: {L l; r.addSwath(sw(l)); driven.insert(driven.end(), l.begin(), l.end()); h += "s"; break;}
      case 1: {
        F2CSwaths g; int k = c.rng.i(0, 3);
        for (int j = 0; j < k; ++j) {L l; g.emplace_back(sw(l)); driven.insert(driven.end(), l.begin(), l.end());}
        r.addSwaths(g); h += vf::cat("S", k); break;
      }
      case 2: {P p = rp(c.rng, s, o); r.addConnection(cv::pt(p)); driven.push_back(p); h += "p"; break;}
      case 3: {L ps = rl(c.rng, c.rng.i(0, 3), s, o); r.addConnection(mp(ps)); driven.insert(driven.end(), ps.begin(), ps.end()); h += vf::cat("m", ps.size()); break;}
      case 4: {r.addConnection(); h += "e"; break;}
      case 5: {
        L ps = rl(c.rng, c.rng.i(0, 3), s, o); F2CSwaths g; int k = c.rng.i(0, 3);
        driven.insert(driven.end(), ps.begin(), ps.end());
        for (int j = 0; j < k; ++j) {L l; g.emplace_back(sw(l)); driven.insert(driven.end(), l.begin(), l.end());}
        r.addConnectedSwaths(mp(ps), g); h += vf::cat("C", ps.size(), ",", k); break;
      }
      default: {L l; r.addSwath(sw(l)); driven.insert(driven.end(), l.begin(), l.end()); h += "s"; break;}
    }
  }
  c.desc = vf::cat("history ", h, " driven ", str(driven));
  c.sig(h); c.sig(length(driven));
  ob::DirectDistPathObj dd;
  double t = 1e-12 * (s + norm(o)) * (10 + 4 * driven.size());
  c.near(dd.computeCost(r), length(driven), t, "route", "length driven after ", h);
  c.near(dd.computeCost(r), r.length(), t, "route_line", "cost and length of the route");
  c.near(dd.computeCostWithMinimizingSign(r), length(driven), t, "route_sign", "to be minimised");
  c.count("routes"); c.count("driven_points", driven.size());
}
VF_MAIN
