// NOTE: swaths compared stretch by stretch with an independent line sweep
// QUICK: 21
#include "vfall.hpp"
#include "fields2cover/swath_generator/brute_force.h"
using namespace g;

struct Stretch {double x0, x1;};
// compares the swaths of one cell with the sweep over it
static void checkCell(vf::Case& c, const Poly& p, double a, double w, const F2CSwaths& sw, double size, double maxAbs) {
  double tol = 1e-8 * size + 2e-14 * maxAbs;
  MPoly m {p};
  for (auto& r : m[0].rings) {for (auto& v : r) {v = rot(v, -a);}}
  Box b = box(m);
  double H = b.y1 - b.y0;
  // what the library returned, in the sweeping frame
  std::map<long, std::vector<Stretch>> got;
  double lastY = -INFINITY;
  for (size_t i = 0; i < sw.size(); ++i) {
    const F2CSwath& s = sw.at(i);
    c.count("swaths");
    c.check(s.getId() == int(i), "id", "swath ", i, " has id ", s.getId());
    c.check(s.getWidth() == w, "width", "swath width ", s.getWidth(), " want ", w);
    c.check(s.getType() == f2c::types::SwathType::MAINLAND, "type", "swath is not marked as mainland");
    std::vector<P> l = cv::of(s.getPath());
    if (!c.check(l.size() >= 2, "points", "swath with ", l.size(), " points")) {continue;}
    std::vector<P> q;
    for (auto v : l) {q.push_back(rot(v, -a));}
    double y = q[0].y, x0 = INFINITY, x1 = -INFINITY;
    for (auto v : q) {
      c.check(std::fabs(v.y - y) <= tol, "straight", "swath is not along the angle: off by ", v.y - y);
      x0 = std::min(x0, v.x); x1 = std::max(x1, v.x);
    }
    c.check(l.size() == 2 || length(l) <= x1 - x0 + tol, "straight", "swath turns back");
    double k = (y - b.y0) / w - 0.5;
    c.check(std::fabs(k - std::round(k)) * w <= tol, "position", "swath at ", y - b.y0, " from the lowest edge, width ", w);
    c.check(y >= lastY - tol, "order", "swath ", i, " is not after the previous one across the cell");
    lastY = y;
    got[std::lround(k)].push_back({x0, x1});
    for (auto v : l) {c.check(inside(v, p) || distBorder(v, MPoly {p}) <= tol, "leaves", "swath end is out of the cell");}
  }
  long n = 0;
  for (long k = 0; (k + 0.5) * w < H; ++k, ++n) {
    double y = b.y0 + (k + 0.5) * w;
    bool tangent = false;
    edges(m, [&](P u, P) {if (std::fabs(u.y - y) < 20 * tol) {tangent = true;}});
    if (tangent) {c.count("tangent_lines"); got.erase(k); continue;}
    auto want = clip({b.x0 - 1, y}, {b.x1 + 1, y}, m, true);
    double L = b.x1 - b.x0 + 2;
    bool thin = false;
    for (size_t i = 0; i < want.size(); ++i) {
      if ((want[i].second - want[i].first) * L < 1e-5 * size) {thin = true;}
      if (i && (want[i].first - want[i - 1].second) * L < 1e-5 * size) {thin = true;}
    }
    if (thin) {c.count("thin_lines"); got.erase(k); continue;}
    c.count("lines");
    auto& gk = got[k];
    std::sort(gk.begin(), gk.end(), [](const Stretch& u, const Stretch& v) {return u.x0 < v.x0;});
    if (c.check(gk.size() == want.size(), gk.size() < want.size() ? "missing" : "extra", "line ", k, " of ", long(std::ceil(H / w)), " has ", gk.size(), " swaths, want ", want.size())) {
      for (size_t i = 0; i < gk.size(); ++i) {
        double u0 = b.x0 - 1 + want[i].first * L, u1 = b.x0 - 1 + want[i].second * L;
        // ends may slide along borders almost parallel to the line
        double e = 1e-6 * size + 2e-12 * maxAbs;
        c.check(std::fabs(gk[i].x0 - u0) <= e && std::fabs(gk[i].x1 - u1) <= e, "stretch", "line ", k, " swath ", gk[i].x0, "..", gk[i].x1, " want ", u0, "..", u1);
        if (want.size() > 1) {c.count("split_stretches");}
      }
    }
    got.erase(k);
  }
  for (auto& kv : got) {
    for (auto& s : kv.second) {c.check(s.x1 - s.x0 <= 1e-5 * size, "extra", "swath on line ", kv.first, " of ", n, " which is out of the cell");}
  }
  c.sig(double(sw.size())); c.sig(H); c.sig(w);
}
static double someWidth(vf::Rng& r, double size) {
  switch (r.i(0, 5)) {
    case 0: return size * r.u(0.5, 5);
    case 1: return size * r.u(0.02, 0.06);
    default: return size * r.logu(0.03, 0.6);
  }
}
static double someAngle(vf::Rng& r, const gen::Gen& f) {
  if (r.p(0.7)) {return gen::angle(r);}
  auto& ring = f.m[0].rings[0];
  size_t i = r.next() % (ring.size() - 1);
  P d = ring[i + 1] - ring[i];
  return std::atan2(d.y, d.x) + g::PI / 2 * r.i(0, 3);
}
SCENARIO(single_cell, 1500, 40000) {
  gen::Opt o; o.multi = false;
  gen::Gen f = gen::field(c.rng, o);
  double a = someAngle(c.rng, f), w = someWidth(c.rng, f.size);
  bool ov = c.rng.p(0.4);
  F2CCell in = cv::cell(f.m[0]);
  c.desc = vf::cat(f.kind, " angle=", a, " width=", w, " overlap=", ov, " ", str(f.m));
  std::string before = cv::snapG(in);
  c.robust([&] (double e) {
    f2c::sg::BruteForce sg;
    sg.setAllowOverlap(ov);
    c.check(sg.getAllowOverlap() == ov, "flag", "overlap flag not kept");
    F2CSwaths s = sg.generateSwaths(a + e, w, in);
    c.check(cv::snapG(in) == before, "input_modified", "the cell was modified");
    checkCell(c, f.m[0], a + e, w, s, f.size, f.maxAbs);
  });
}
SCENARIO(several_cells, 500, 10000) {
  gen::Opt o; o.maxN = 8;
  gen::Gen f = gen::field(c.rng, o);
  if (c.rng.p(0.5)) {   // make sure there are several
    gen::Gen f2 = gen::field(c.rng, o);
    Box b1 = box(f.m), b2 = box(f2.m);
    P d {b1.x1 + f.size - b2.x0, b1.y0 - b2.y0};
    for (auto& p : f2.m) {for (auto& r : p.rings) {for (auto& v : r) {v = v + d;}}; f.m.push_back(p);}
    f.maxAbs = std::max(f.maxAbs, std::max(std::fabs(box(f.m).x1), std::fabs(box(f.m).y1)));
    f.size = std::max(f.size, f2.size);
  }
  double a = someAngle(c.rng, f), w = someWidth(c.rng, f.size);
  F2CCells in = cv::cells(f.m);
  c.desc = vf::cat(f.kind, " angle=", a, " width=", w, " ", str(f.m));
  std::string before = cv::snapG(in);
  c.robust([&] (double e) {
    f2c::sg::BruteForce sg;
    F2CSwathsByCells s = sg.generateSwaths(a + e, w, in);
    c.check(cv::snapG(in) == before, "input_modified", "the cells were modified");
    c.require(s.size() == f.m.size(), "groups", s.size(), " groups of swaths for ", f.m.size(), " cells");
    c.count("cells", s.size());
    for (size_t i = 0; i < f.m.size(); ++i) {checkCell(c, f.m[i], a + e, w, s.at(i), f.size, f.maxAbs);}
  });
}
// dyadic coordinates: counts are exact, and lines may touch vertices
SCENARIO(exact, 400, 4000) {
  int W = c.rng.i(4, 40), n = c.rng.i(2, 6), w2 = c.rng.i(1, 12);
  double w = w2 / 2.0;
  // tents: apexes at heights in quarters; roof between tents at lower heights
  Ring r {{0, 0}, {double(W * n), 0}};
  std::vector<double> top, low;
  for (int i = n - 1; i >= 0; --i) {
    top.push_back(c.rng.i(20, 60) / 4.0);
    r.push_back({W * (i + 0.5), top.back()});
    if (i) {low.push_back(c.rng.i(1, 16) / 4.0); r.push_back({double(W * i), low.back()});}
  }
  double H = *std::max_element(top.begin(), top.end());
  F2CCell in = cv::cell({{r}});
  c.desc = vf::cat("tents w=", w, " ", str(r));
  f2c::sg::BruteForce sg;
  sg.setAllowOverlap(c.rng.p(0.5));
  F2CSwaths s = sg.generateSwaths(0, w, in);
  std::map<double, std::vector<Stretch>> by;
  for (auto& x : s) {
    auto l = cv::of(x.getPath());
    double k = l[0].y / w - 0.5;
    double key = std::fabs(k - std::round(k)) < 1e-9 ? (std::round(k) + 0.5) * w : l[0].y;
    by[key].push_back({std::min(l.front().x, l.back().x), std::max(l.front().x, l.back().x)});
  }
  c.sig(H); c.sig(w); c.sig(double(s.size())); c.count("swaths", s.size());
  for (long k = 0; (k + 0.5) * w < H; ++k) {
    double y = (k + 0.5) * w;
    // exact stretches: between roof crossings; touching an apex gives nothing
    std::vector<Stretch> want;
    std::vector<double> xs;
    bool merged = false;
    edges(r, [&](P u, P v) {
      if ((u.y > y) != (v.y > y)) {xs.push_back(u.x + (v.x - u.x) * (y - u.y) / (v.y - u.y));}
      if (u.y == y) {merged = true;}
    });
    std::sort(xs.begin(), xs.end());
    double len = 0, glen = 0;
    for (size_t i = 0; i + 1 < xs.size(); i += 2) {want.push_back({xs[i], xs[i + 1]}); len += xs[i + 1] - xs[i];}
    auto gk = by[y];
    for (auto& q : gk) {glen += q.x1 - q.x0;}
    gk.erase(std::remove_if(gk.begin(), gk.end(), [](const Stretch& q) {return q.x1 - q.x0 < 1e-7;}), gk.end());
    c.near(glen, len, 1e-7 * W * n, merged ? "touch_length" : "length", "length worked at height ", y);
    if (merged) {c.count("touching_lines");}
    else {c.check(gk.size() == want.size(), "count", gk.size(), " swaths at height ", y, ", want ", want.size());}
    by.erase(y);
  }
  for (auto& kv : by) {for (auto& q : kv.second) {c.check(q.x1 - q.x0 < 1e-7, "extra", "swath at height ", kv.first);}}
}
// rectangles with a known number of rows
SCENARIO(rows, 300, 3000) {
  double w = c.rng.i(1, 64) / 8.0;
  int full = c.rng.i(0, 30), rem = c.rng.i(0, 7);
  double H = w * full + w * rem / 8;
  if (H == 0 || rem == 4) {H += w / 8;}   // a line on the border is not decided
  double L = c.rng.i(1, 100), x = c.rng.i(-50, 50), y = c.rng.i(-50, 50);
  Ring r {{x, y}, {x + L, y}, {x + L, y + H}, {x, y + H}};
  if (c.rng.p(0.5)) {std::reverse(r.begin(), r.end());}
  F2CCell in = cv::cell({{r}});
  f2c::sg::BruteForce sg;
  sg.setAllowOverlap(c.rng.p(0.5));
  F2CSwaths s = sg.generateSwaths(0, w, in);
  long want = 0;
  while ((want + 0.5) * w < H) {++want;}
  c.desc = vf::cat("rect H=", H, " w=", w);
  c.sig(H); c.sig(w); c.count("swaths", s.size());
  c.check(long(s.size()) == want, "rows", s.size(), " swaths, want ", want);
  for (size_t i = 0; i < s.size(); ++i) {
    c.check(s[i].getId() == int(i) && std::fabs(s[i].startPoint().getY() - (y + (i + 0.5) * w)) < 1e-9, "row_position", "row ", i, " at ", s[i].startPoint().getY());
    c.near(s[i].length(), L, 1e-12 * L, "row_length");
  }
}
VF_MAIN
