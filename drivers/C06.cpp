// NOTE: coverage of sampled points and exact areas of the strips worked
// QUICK: 29
#include "vfall.hpp"
#include "fields2cover/swath_generator/brute_force.h"
using namespace g;

static Ring rectOf(P a, P b, double w) {
  P d = b - a; double L = norm(d);
  P n = P {-d.y, d.x} * (w / 2 / L);
  return {a + n, b + n, b - n, a - n};
}
SCENARIO(coverage, 1200, 30000) {
  gen::Opt o; o.multi = false;
  gen::Gen f = gen::field(c.rng, o);
  double a = gen::angle(c.rng), w = f.size * c.rng.logu(0.04, 0.7);
  bool ov = c.rng.p(0.5);
  F2CCell in = cv::cell(f.m[0]);
  c.desc = vf::cat(f.kind, " angle=", a, " width=", w, " overlap=", ov, " ", str(f.m));
  c.robust([&] (double e) {
    f2c::sg::BruteForce sg;
    sg.setAllowOverlap(ov);
    F2CSwaths s = sg.generateSwaths(a + e, w, in);
    double tol = 1e-8 * f.size + 2e-14 * f.maxAbs;
    double y0 = INFINITY, y1 = -INFINITY;
    edges(f.m, [&](P p, P) {double y = rot(p, -(a + e)).y; y0 = std::min(y0, y); y1 = std::max(y1, y);});
    struct S {double y, x0, x1;};
    std::vector<S> l;
    MPoly strips;
    double sum = 0;
    for (auto& x : s) {
      auto q = cv::of(x.getPath());
      P u = rot(q.front(), -(a + e)), v = rot(q.back(), -(a + e));
      l.push_back({u.y, std::min(u.x, v.x), std::max(u.x, v.x)});
      if (dist(q.front(), q.back()) > 100 * tol) {
        strips.push_back({{rectOf(q.front(), q.back(), w)}});
        sum += w * dist(q.front(), q.back());
      }
    }
    c.sig(double(s.size())); c.sig(w); c.sig(a); c.count("swaths", s.size());
    // spacing of the passes
    std::vector<double> ys;
    for (auto& q : l) {ys.push_back(q.y);}
    std::sort(ys.begin(), ys.end());
    ys.erase(std::unique(ys.begin(), ys.end(), [&](double p, double q) {return std::fabs(p - q) <= tol;}), ys.end());
    for (size_t i = 1; i < ys.size(); ++i) {c.near(ys[i] - ys[i - 1], w, tol, "spacing", "between passes ", i - 1, " and ", i);}
    if (y1 - y0 > w * 0.5 + 10 * tol) {
      if (c.check(!ys.empty(), "none", "no pass over a cell ", y1 - y0, " deep")) {
        c.near(ys[0] - y0, w / 2, tol, "first", "first pass from the edge");
        c.check(y1 - ys.back() <= w + tol, "remainder", "remainder of ", y1 - ys.back() - w / 2);
      }
    }
    // points of the cell, and points out of it
    for (int i = 0; i < 60; ++i) {
      P p;
      if (!gen::interiorPoint(c.rng, f.m, p, 50 * tol)) {break;}
      P q = rot(p, -(a + e));
      if (y1 - q.y <= w / 2 + tol) {c.count("points_in_remainder"); continue;}
      c.count("points");
      double d = INFINITY;
      for (double y : ys) {d = std::min(d, std::fabs(y - q.y));}
      c.check(d <= w / 2 + tol, "gap", "point ", p.x, " ", p.y, " is ", d, " from the nearest pass");
      // how many strips work it
      int n = 0;
      for (auto& t : l) {if (std::fabs(t.y - q.y) < w / 2 - tol && q.x > t.x0 + tol && q.x < t.x1 - tol) {++n;}}
      c.check(n <= 1, "twice", "a point inside a pass is worked by ", n, " passes");
    }
    if (strips.size() <= 60) {
      c.near(areaUnion(strips), sum, 1e-6 * sum + 1e-6 * f.size * w + 1e-9 * f.maxAbs * w, "strips_overlap", "union of the strips worked");
    }
  });
}
SCENARIO(area_covered, 1200, 30000) {
  gen::Opt o; o.offsets = true;
  gen::Gen f = gen::field(c.rng, o);
  Box b = box(f.m);
  P p {c.rng.u(b.x0, b.x1), c.rng.u(b.y0, b.y1)};
  double len = f.size * c.rng.logu(0.01, 3), ang = gen::angle(c.rng), w = f.size * c.rng.logu(0.01, 1);
  P q = p + dirOf(ang) * len;
  F2CSwath s(cv::line({p, q}), w, 3);
  MPoly r {{{rectOf(p, q, w)}}};
  F2CCells in = cv::cells(f.m);
  c.desc = vf::cat(f.kind, " swath ", str(std::vector<P> {p, q}), " w=", w, " ", str(f.m));
  double tolA = 1e-9 * len * w + (1e-8 * f.size + 1e-13 * f.maxAbs) * (len + w) * 1e-2;
  c.sig(len); c.sig(w); c.sig(area(f.m));
  auto ac = cv::of(s.areaCovered());
  c.check(areaSymDiff(ac, r) <= tolA, "rectangle", "covered area is not the rectangle of the swath: ", str(ac));
  c.near(s.area(), len * w, tolA, "area");
  c.robust([&] (double e) {
    F2CSwath t(cv::line({p + P {e * len, 0}, q}), w, 3);
    MPoly rt {{{rectOf(p + P {e * len, 0}, q, w)}}};
    auto cc = cv::of(t.areaCovered(in));
    double want = areaInter(rt, f.m), got = area(cc);
    double lim = tolA + 1e-8 * f.size * w + 1e-9 * want + 1e-13 * f.maxAbs * f.size;
    c.near(got, want, lim, "clipped_area", "covered area inside the cells");
    c.check(areaDiff(cc, rt) <= lim && areaDiff(cc, f.m) <= lim, "clipped_out", "covered area leaves the strip or the cells");
    c.near(t.area(in), want, lim, "area_in", "Swath::area(cells)");
    if (want > 0) {c.count("swaths_in_cells");}
  });
  c.check(s.getWidth() == w && cv::of(s.getPath()).size() == 2, "swath_modified", "swath modified by computing its area");
}
VF_MAIN
