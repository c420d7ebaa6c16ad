// NOTE: metamorphic: headlands, decompositions, swaths, orders, connections and objective values of a field and of the moved, turned, scaled or renumbered field compared piece by piece
#include "vfall.hpp"
#include "swl.hpp"
#include "refs.hpp"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/headland_generator/constant_headland.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "fields2cover/swath_generator/brute_force.h"
#include "fields2cover/objectives/hg_obj/rem_area.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
using namespace g;
namespace ob = f2c::obj;
namespace {
struct Motion {
  double th {0}, s {1}; P t;
  P operator()(P p) const {return g::rot(p, th) * s + t;}
};
using Lines = std::vector<std::vector<P>>;
std::vector<P> linesOf(const F2CSwath& s) {return cv::of(s.getPath());}
double crossPos(P p, double a) {return -p.x * std::sin(a) + p.y * std::cos(a);}
// no line lies within eps of a vertex, and the number of lines does not hang on rounding
bool clearOfLines(const MPoly& m, double a, double w, double eps) {
  for (auto& poly : m) {
    std::vector<double> v; double lo = INFINITY, hi = -INFINITY;
    g::edges(poly, [&] (P p, P) {double y = crossPos(p, a); v.push_back(y); lo = std::min(lo, y); hi = std::max(hi, y);});
    double h2 = (hi - lo) / w * 2;
    if (std::fabs(h2 - std::round(h2)) * w < 2 * eps) {return false;}
    for (double y : v) {double k = (y - lo) / w - 0.5; if (std::fabs(k - std::round(k)) * w < eps) {return false;}}
  }
  return true;
}
// no two vertices on one line of the given direction
bool generalPosition(const MPoly& m, double a, double eps) {
  std::vector<double> v;
  g::edges(m, [&] (P p, P) {v.push_back(crossPos(p, a));});
  std::sort(v.begin(), v.end());
  for (size_t i = 1; i < v.size(); ++i) {if (v[i] - v[i - 1] < eps) {return false;}}
  return true;
}
double tolOf(const MPoly& m) {double x = 1; g::edges(m, [&] (P p, P) {x = std::max({x, std::fabs(p.x), std::fabs(p.y)});}); return x * 1e-10 + 1e-8;}
// polygons of one set paired with those of the other
void samePieces(vf::Case& c, const MPoly& a, const MPoly& b, double tol, const char* key, const char* what) {
  if (!c.check(a.size() == b.size(), std::string(key) + "_count", what, ": ", a.size(), " pieces become ", b.size())) {return;}
  auto cen = [] (const Poly& p) {P s; double n = 0; g::edges(p.rings[0], [&] (P u, P v) {double l = dist(u, v); s = s + (u + v) * (0.5 * l); n += l;}); return n > 0 ? s * (1 / n) : p.rings[0][0];};
  std::vector<bool> used(b.size(), false);
  for (auto& p : a) {
    size_t best = b.size(); double bd = INFINITY;
    for (size_t j = 0; j < b.size(); ++j) {if (!used[j]) {double d = dist(cen(p), cen(b[j])) + std::fabs(g::area(p) - g::area(b[j])) / (1 + g::perimeter(MPoly {p})); if (d < bd) {bd = d; best = j;}}}
    used[best] = true;
    double per = g::perimeter(MPoly {p});
    c.near(g::area(b[best]), g::area(p), tol * per + 1e-9, std::string(key) + "_area", what);
    c.near(g::areaSymDiff(MPoly {p}, MPoly {b[best]}), 0, 2 * tol * per + 1e-9, std::string(key) + "_shape", what);
  }
}
void sameLines(vf::Case& c, const F2CSwaths& a, const F2CSwaths& b, const Motion& mo, double tol, bool directed) {
  if (!c.check(a.size() == b.size(), "swath_count", a.size(), " swaths become ", b.size())) {return;}
  for (size_t i = 0; i < a.size(); ++i) {
    auto u = linesOf(a[i]), v = linesOf(b[i]);
    for (auto& p : u) {p = mo(p);}
    bool ok = u.size() == v.size(), rev = ok;
    for (size_t k = 0; ok && k < u.size(); ++k) {ok = dist(u[k], v[k]) < tol;}
    if (!directed) {for (size_t k = 0; rev && k < u.size(); ++k) {rev = dist(u[u.size() - 1 - k], v[k]) < tol;} ok = ok || rev;}
    if (!c.check(ok, "swath_moved", "swath ", i, " is not the moved one: ", g::str(u), " / ", g::str(v))) {return;}
    c.near(b[i].getWidth(), a[i].getWidth() * mo.s, 1e-9 * (1 + a[i].getWidth() * mo.s), "swath_width", "width");
  }
}
std::vector<int> ids(const F2CSwaths& s) {std::vector<int> v; for (auto& x : s) {v.push_back(x.getId());} return v;}
struct Rec {std::vector<std::pair<std::string, double>> v; void add(const char* n, double x) {v.emplace_back(n, x);}};
void compare(vf::Case& c, gen::Gen f, const Motion& mo, const std::function<MPoly(MPoly)>& redo, const char* kind, bool moved, double e) {
  auto& r = c.rng;
  MPoly A = f.m;
  MPoly B = redo(g::mapM(A, [&] (P p) {return mo(p);}));
  double tol = std::max(tolOf(A) * mo.s, tolOf(B));
  F2CCells FA = cv::cells(A), FB = cv::cells(B);
  double per = g::perimeter(B);
  // whole field
  c.near(FB.area(), FA.area() * mo.s * mo.s, tol * per + 1e-9, "field_area", kind);
  // headlands
  double w = f.size * r.u(0.03, 0.12) * (1 + e);
  f2c::hg::ConstHL hl;
  F2CCells HA = hl.generateHeadlands(FA, w), HB = hl.generateHeadlands(FB, w * mo.s);
  MPoly ha = g::mapM(cv::of(HA), [&] (P p) {return mo(p);}), hb = cv::of(HB);
  double btol = 1e-3 * w * mo.s;   // the buffer may drop features below a hundredth of the distance
  c.check(ha.empty() == hb.empty(), "headland_empty", kind);
  c.near(g::area(hb), g::area(ha), std::max(btol, tol) * per, "headland_area", kind, " by ", w);
  c.near(g::areaSymDiff(ha, hb), 0, 2 * std::max(btol, tol) * per, "headland_shape", kind, " by ", w);
  c.count("headlands");
  ob::RemArea ra;
  c.near(ra.computeCost(FB, HB), ra.computeCost(FA, HA), 2 * std::max(btol, tol) * per / std::max(1e-9, g::area(B)) + 1e-9, "remaining_area", kind);
  int nr = r.i(1, 3);
  bool out = r.p(0.5);
  auto ra1 = hl.generateHeadlandSwaths(FA, w / nr, nr, out), rb1 = hl.generateHeadlandSwaths(FB, w / nr * mo.s, nr, out);
  if (c.check(ra1.size() == rb1.size(), "rings_count", kind)) {
    // excused when each ring is what GEOS itself makes of the field or of the ring before it, in both frames
    auto asGeos = [&] (const std::vector<F2CCells>& rs, const MPoly& F, double s) {
      double step = w / nr * s;
      MPoly prev;
      for (size_t i = 0; i < rs.size(); ++i) {
        MPoly me = cv::of(rs[i]);
        MPoly want = out ? refs::buffer(F, -step * (i + 0.5)) : i == 0 ? refs::buffer(F, -step * (nr - 0.5)) : refs::buffer(prev, step);
        if (g::areaSymDiff(me, want) > 1e-6 * s * s * (1 + g::area(F))) {return false;}
        prev = me;
      }
      return true;
    };
    bool bad = false;
    for (size_t i = 0; i < ra1.size(); ++i) {bad |= std::fabs(rb1[i].area() - ra1[i].area() * mo.s * mo.s) > 4 * std::max(btol, tol) * per;}
    c.excusing(bad && asGeos(ra1, A, 1) && asGeos(rb1, B, mo.s), "geos_wrong", [&] {
      for (size_t i = 0; i < ra1.size(); ++i) {
        c.near(rb1[i].area(), ra1[i].area() * mo.s * mo.s, 4 * std::max(btol, tol) * per, "rings_area", kind, " ring ", i);
      }
    });
  }
  // decomposition
  double a = r.u(0, 2 * g::PI), a2 = a + mo.th;
  if (generalPosition(A, a, 1e-3 * f.size) && moved) {
    f2c::decomp::TrapezoidalDecomp tA, tB; f2c::decomp::BoustrophedonDecomp bA, bB;
    tA.setSplitAngle(a); tB.setSplitAngle(a2); bA.setSplitAngle(a); bB.setSplitAngle(a2);
    samePieces(c, g::mapM(cv::of(tA.decompose(FA)), [&] (P p) {return mo(p);}), cv::of(tB.decompose(FB)), std::max(tol * 10, 1e-6 * mo.s), "trapezoids", kind);
    samePieces(c, g::mapM(cv::of(bA.decompose(FA)), [&] (P p) {return mo(p);}), cv::of(bB.decompose(FB)), std::max(tol * 10, 1e-6 * mo.s), "boustrophedon", kind);
    c.count("decompositions");
  }
  // swaths
  double sw = f.size * r.u(0.05, 0.3) * (1 + e), b = r.u(0, 2 * g::PI);
  bool over = r.p(0.5);
  if (!clearOfLines(A, b, sw, std::max(100 * tol / mo.s, 1e-5 * f.size))) {c.count("not_clear"); return;}
  f2c::sg::BruteForce ga, gb; ga.setAllowOverlap(over); gb.setAllowOverlap(over);
  auto SA = ga.generateSwaths(b, sw, FA), SB = gb.generateSwaths(b + mo.th, sw * mo.s, FB);
  if (!c.check(SA.size() == SB.size(), "cells_count", kind)) {return;}
  double stol = 200 * tol;
  Rec qa, qb;
  for (size_t i = 0; i < SA.size(); ++i) {
    sameLines(c, SA[i], SB[i], mo, stol, true);
    F2CCell ca = FA.getCell(i), cb = FB.getCell(i);
    c.count("swaths", SA[i].size());
    if (SA[i].size() == 0 || SA[i].size() != SB[i].size()) {continue;}
    double s = mo.s;
    ob::FieldCoverage fc; ob::NSwath ns; ob::NSwathModified nm; ob::Overlaps ov; ob::SwathLength sl; ob::DirectDistPathObj dd;
    qa.add("coverage", fc.computeCost(ca, SA[i])); qb.add("coverage", fc.computeCost(cb, SB[i]));
    qa.add("number", ns.computeCost(SA[i])); qb.add("number", ns.computeCost(SB[i]));
    qa.add("estimate", nm.computeCost(b, sw, ca)); qb.add("estimate", nm.computeCost(b + mo.th, sw * s, cb));
    qa.add("overlap", ov.computeCost(ca, SA[i])); qb.add("overlap", ov.computeCost(cb, SB[i]));
    qa.add("length", sl.computeCost(SA[i]) * s); qb.add("length", sl.computeCost(SB[i]));
    size_t k = r.next() % SA[i].size();
    qa.add("area of a swath", SA[i].at(k).area() * s * s); qb.add("area of a swath", SB[i].at(k).area());
    qa.add("area inside of a swath", SA[i].at(k).area(FA) * s * s); qb.add("area inside of a swath", SB[i].at(k).area(FB));
    // orders: directions may all turn round at once, since swaths are first given one direction by their coordinates
    f2c::rp::BoustrophedonOrder bo; f2c::rp::SnakeOrder sn; f2c::rp::SpiralOrder sp(size_t(r.i(2, 6)));
    int v = r.i(0, 3);
    for (int o = 0; o < 3; ++o) {
      auto sort = [&] (const F2CSwaths& x) {return o == 0 ? bo.genSortedSwaths(x, v) : o == 1 ? sn.genSortedSwaths(x, v) : sp.genSortedSwaths(x, v);};
      F2CSwaths oa = sort(SA[i]), ob_ = sort(SB[i]);
      if (!c.check(ids(oa) == ids(ob_), "order", kind, " order ", o, " variant ", v)) {continue;}
      int same = 0, rev = 0;
      for (size_t q = 0; q < oa.size(); ++q) {
        P x = mo(cv::of(oa[q].startPoint())), y = cv::of(ob_[q].startPoint());
        dist(x, y) < stol ? ++same : ++rev;
      }
      c.check(same == 0 || rev == 0 || SA[i].at(0).length() * s < 4 * stol, "order_directions", kind, ": ", same, " the same way and ", rev, " the other");
      // kept to translations, the directions are the same, too
      if (mo.th == 0) {c.check(rev == 0, "order_direction", kind, ": ", rev, " turned round");}
      if (rev) {continue;}   // turns at the other ends
      qa.add("way", dd.computeCost(oa) * s); qb.add("way", dd.computeCost(ob_));
      F2CRoute ra_, rb_; ra_.addSwaths(oa); rb_.addSwaths(ob_);
      qa.add("route", ra_.length() * s); qb.add("route", rb_.length());
      c.count("orders");
    }
  }
  for (size_t i = 0; i < qa.v.size() && i < qb.v.size(); ++i) {
    double x = qa.v[i].second, y = qb.v[i].second;
    c.near(y, x, 1e-6 * std::max(1.0, std::fabs(x)) + stol * 4, "objective_" + qa.v[i].first, kind, ", width ", sw, " angle ", b);
  }
  c.count("objectives", qa.v.size());
}
Motion someMotion(vf::Rng& r, double size, bool turn) {
  Motion m;
  if (turn) {m.th = r.p(0.2) ? g::PI / 2 * r.i(1, 3) : r.p(0.2) ? r.u(-1e-3, 1e-3) : r.u(-7, 7);}
  switch (r.i(0, 4)) {
    case 0: m.t = {0, 0}; break;
    case 1: m.t = {r.u(-10, 10) * size, r.u(-10, 10) * size}; break;
    case 2: m.t = {500000 + r.u(-3e5, 3e5), r.u(1e6, 9e6)}; break;
    case 3: m.t = {double(r.i(-1000, 1000)), double(r.i(-1000, 1000))}; break;
    default: m.t = {-size * r.u(0, 3), -size * r.u(0, 3)};
  }
  return m;
}
gen::Gen someField(vf::Case& c) {
  gen::Opt o; o.offsets = c.rng.p(0.3);
  auto f = gen::field(c.rng, o);
  c.sig(g::area(f.m)); c.sig(f.kind);
  return f;
}
}  // namespace
SCENARIO(translated, 400, 40000) {
  auto f = someField(c); Motion m = someMotion(c.rng, f.size, false);
  c.desc = vf::cat(f.kind, " moved by (", m.t.x, ", ", m.t.y, ") ", g::str(f.m)); c.sig(m.t.x);
  auto r0 = c.rng;
  c.robust([&] (double e) {c.rng = r0; compare(c, f, m, [] (MPoly p) {return p;}, "moved", true, e);});
}
SCENARIO(turned, 600, 60000) {
  auto f = someField(c); Motion m = someMotion(c.rng, f.size, true);
  c.desc = vf::cat(f.kind, " turned by ", m.th, " moved by (", m.t.x, ", ", m.t.y, ") ", g::str(f.m)); c.sig(m.th);
  auto r0 = c.rng;
  c.robust([&] (double e) {c.rng = r0; compare(c, f, m, [] (MPoly p) {return p;}, "turned", true, e);});
}
SCENARIO(scaled, 350, 30000) {
  gen::Opt o; o.offsets = false;
  auto f = gen::field(c.rng, o); c.sig(g::area(f.m));
  Motion m; m.s = c.rng.p(0.3) ? c.rng.pick({0.5, 2, 4, 0.25}) : c.rng.logu(0.1, 10);
  c.desc = vf::cat(f.kind, " scaled by ", m.s, " ", g::str(f.m)); c.sig(m.s);
  auto r0 = c.rng;
  c.robust([&] (double e) {c.rng = r0; compare(c, f, m, [] (MPoly p) {return p;}, "scaled", true, e);});
}
SCENARIO(renumbered, 500, 40000) {
  auto f = someField(c); Motion m;
  auto r1 = c.rng; uint64_t k = r1.next();
  c.desc = vf::cat(f.kind, " renumbered ", g::str(f.m)); c.sig(k);
  auto redo = [k] (MPoly p) {
    vf::Rng q(k);
    for (auto& poly : p) {
      for (auto& ring : poly.rings) {
        Ring o = g::open(ring);
        std::rotate(o.begin(), o.begin() + q.next() % o.size(), o.end());
        if (q.p(0.5)) {std::reverse(o.begin(), o.end());}
        ring = o;
      }
      if (poly.rings.size() > 2 && q.p(0.5)) {std::swap(poly.rings[1], poly.rings.back());}
    }
    return p;
  };
  auto r0 = r1;
  c.robust([&] (double e) {c.rng = r0; compare(c, f, m, redo, "renumbered", true, e);});
}
// the best of a full circle of angles costs the same when the field turns by a whole number of steps
SCENARIO(best, 100, 6000) {
  gen::Opt o; o.offsets = false; o.holes = c.rng.p(0.3); o.multi = false;
  auto f = gen::field(c.rng, o);
  int n = c.rng.i(4, 24); double step = 2 * g::PI / n * (1 - 1e-12);
  Motion m = someMotion(c.rng, f.size, false); m.th = step * c.rng.i(1, n - 1);
  double w = f.size * c.rng.u(0.15, 0.4);
  c.desc = vf::cat(f.kind, " n ", n, " width ", w, " ", g::str(f.m)); c.sig(w); c.sig(n);
  c.robust([&] (double e) {
    double ww = w * (1 + e);
    bool clear = true;
    for (int i = 0; i < n; ++i) {clear = clear && clearOfLines(f.m, i * step, ww, 1e-5 * f.size);}
    if (!clear) {c.count("not_clear"); return;}
    F2CCell A = cv::cell(f.m[0]), B = cv::cell(g::mapM(f.m, [&] (P p) {return m(p);})[0]);
    ob::NSwath ns; ob::NSwathModified nm; ob::SwathLength sl; ob::FieldCoverage fc; ob::Overlaps ov;
    for (ob::SGObjective* q : std::vector<ob::SGObjective*> {&ns, &nm, &sl, &fc, &ov}) {
      f2c::sg::BruteForce g1; g1.setStepAngle(step);
      F2CSwaths a = g1.generateBestSwaths(*q, ww, A), b = g1.generateBestSwaths(*q, ww, B);
      double x, y;
      if (q == &nm) {x = nm.computeCost(g1.computeBestAngle(*q, ww, A), ww, A); y = nm.computeCost(g1.computeBestAngle(*q, ww, B), ww, B);}
      else {x = q->computeCost(A, a); y = q->computeCost(B, b);}
      c.near(y, x, 1e-5 * std::max(1.0, std::fabs(x)), "best_cost", "objective ", int(q == &ns ? 0 : q == &nm ? 1 : q == &sl ? 2 : q == &fc ? 3 : 4));
      c.count("searches", 2);
    }
  });
}
VF_MAIN
