// QUICK: 4
#include "vfall.hpp"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
using namespace g;

// is the cell crossed in one stretch by every line of direction a?
static int worstCrossings(const Poly& p, double a, double gap) {
  Poly q = p;
  std::vector<double> ys;
  for (auto& r : q.rings) {for (auto& v : r) {v = rot(v, -a); ys.push_back(v.y);}}
  std::sort(ys.begin(), ys.end());
  int worst = 0;
  for (size_t i = 0; i + 1 < ys.size(); ++i) {
    if (ys[i + 1] - ys[i] <= gap) {continue;}
    double y = (ys[i] + ys[i + 1]) / 2;
    int n = 0;
    edges(q, [&](P u, P v) {if ((u.y > y) != (v.y > y)) {++n;}});
    worst = std::max(worst, n);
  }
  return worst;
}
static bool nearlyConvex(const Poly& p, double tol) {
  if (p.rings.size() != 1) {return false;}
  // every vertex is within tol of the hull's border
  Ring h = hull(p.rings[0]);
  for (auto v : p.rings[0]) {if (distBorder(v, h) > tol) {return false;}}
  return true;
}
static double someAngle(vf::Rng& r, const gen::Gen& f) {
  if (r.p(0.5)) {return gen::angle(r);}
  auto& p = f.m[r.next() % f.m.size()];
  auto& ring = p.rings[r.next() % p.rings.size()];
  size_t i = r.next() % (ring.size() - 1);
  P d = ring[i + 1] - ring[i];
  return std::atan2(d.y, d.x) + g::PI / 2 * r.i(0, 3);
}
SCENARIO(simple_cells, 600, 12000) {
  gen::Opt o; o.maxSize = 300; o.maxN = 9; o.offsets = c.rng.p(0.3);
  gen::Gen f = gen::field(c.rng, o);
  double a = someAngle(c.rng, f);
  c.desc = vf::cat(f.kind, " angle=", a, " ", str(f.m));
  F2CCells in = cv::cells(f.m);
  c.robust([&] (double e) {
    f2c::decomp::TrapezoidalDecomp t;
    f2c::decomp::BoustrophedonDecomp b;
    t.setSplitAngle(a + e); b.setSplitAngle(a + e);
    double tol = 1e-5 * std::max(1.0, f.size / 100) + 1e-10 * f.maxAbs;
    MPoly gt = cv::of(t.decompose(in)), gb = cv::of(b.decompose(in));
    c.sig(area(gt)); c.sig(int(gt.size())); c.sig(int(gb.size()));
    for (int kind = 0; kind < 2; ++kind) {
      std::string k = kind ? "b_" : "t_";
      for (auto& p : kind ? gb : gt) {
        c.count(kind ? "boustrophedon_cells" : "trapezoidal_cells");
        if (area(p) < tol * f.size) {c.count("sliver_cells"); continue;}
        c.check(p.rings.size() == 1, k + "hole", "cell with ", p.rings.size() - 1, " holes");
        int w = worstCrossings(p, a + e, tol);
        c.check(w <= 2, k + "not_monotone", "a line along the split angle crosses the border of a cell ", w, " times: ", str(MPoly {p}));
        if (!kind) {c.check(nearlyConvex(p, tol), k + "not_convex", "trapezoidal cell is not convex: ", str(MPoly {p}));}
      }
    }
    c.check(gb.size() <= gt.size(), "more_than_trapezoidal", gb.size(), " boustrophedon cells and ", gt.size(), " trapezoidal");
    if (f.isConvex) {
      c.check(gb.size() == 1, "b_convex_split", "a convex field was split in ", gb.size());
      c.check(areaSymDiff(gb, f.m) <= 1e-9 * area(f.m), "b_convex_changed", "a convex field was changed");
      c.count("convex_fields");
    }
  });
}
SCENARIO(convex_whole, 250, 5000) {
  gen::Opt o; o.maxSize = 300; o.convexOnly = true; o.multi = false; o.holes = false;
  gen::Gen f = gen::field(c.rng, o);
  double a = someAngle(c.rng, f);
  c.desc = vf::cat(f.kind, " angle=", a, " ", str(f.m));
  F2CCells in = cv::cells(f.m);
  f2c::decomp::BoustrophedonDecomp b;
  b.setSplitAngle(a);
  MPoly gb = cv::of(b.decompose(in));
  c.sig(area(f.m)); c.sig(a);
  c.check(gb.size() == 1, "b_convex_split", "a convex field was split in ", gb.size());
  c.check(areaSymDiff(gb, f.m) <= 1e-9 * area(f.m) + 1e-14 * f.maxAbs * f.size, "b_convex_changed", "a convex field was changed");
}
// number of cells of shapes whose decomposition is known
SCENARIO(known_counts, 200, 2000) {
  double s = c.rng.logu(10, 500), rotA = c.rng.p(0.5) ? 0 : c.rng.u(0, 2 * g::PI);
  int n = c.rng.i(2, 6);
  Ring r;
  int kind = c.rng.i(0, 1);
  int wantT, wantB;
  // sweeping along the teeth's direction (90 deg) or across them (0 deg)
  bool along = c.rng.p(0.5);
  if (kind == 0) {
    // comb with n teeth of different heights above a base
    Ring p {{-1, -1}, {1, -1}};
    double w = 2.0 / (2 * n - 1), base = -0.5;
    for (int i = 0; i < n; ++i) {
      double x1 = 1 - 2 * i * w, x0 = x1 - w, h = 0.2 + 0.1 * ((i * 3) % 7);
      p.push_back({x1, h}); p.push_back({x0, h});
      if (i + 1 < n) {p.push_back({x0, base}); p.push_back({x0 - w, base});}
    }
    r = p;
    wantT = along ? 2 * n - 1 : n + 1;   // columns; or base + n teeth
    wantB = along ? 1 : n + 1;           // lines along the teeth cross the comb once
  } else {
    // rectangle with a square hole
    r = {{-1, -1}, {1.5, -1}, {1.5, 1.25}, {-1, 1.25}};
    wantT = wantB = 4;
  }
  auto mv = [&](Ring q) {for (auto& v : q) {v = rot(v * s, rotA);} return q;};
  Poly p {{mv(r)}};
  if (kind == 1) {p.rings.push_back(mv({{-0.25, -0.25}, {-0.25, 0.25}, {0.25, 0.25}, {0.25, -0.25}}));}
  double a = rotA + (along ? g::PI / 2 : 0) + g::PI * c.rng.i(-1, 2);
  c.desc = vf::cat("kind ", kind, " n=", n, " along=", along, " angle=", a, " ", str(MPoly {p}));
  c.robust([&] (double e) {
  f2c::decomp::TrapezoidalDecomp t;
  f2c::decomp::BoustrophedonDecomp b;
  t.setSplitAngle(a + e); b.setSplitAngle(a + e);
  F2CCells in = cv::cells(MPoly {p});
  int nt = 0, nb = 0;
  for (auto& q : cv::of(t.decompose(in))) {if (area(q) > 1e-4 * s * s) {++nt;}}
  for (auto& q : cv::of(b.decompose(in))) {if (area(q) > 1e-4 * s * s) {++nb;}}
  c.sig(s); c.sig(rotA); c.sig(kind * 10 + n);
  c.check(nt == wantT, "t_count", "trapezoidal: ", nt, " cells, want ", wantT);
  c.check(nb == wantB, "b_count", "boustrophedon: ", nb, " cells, want ", wantB);
  });
}
SCENARIO(angle_setting, 100, 1000) {
  f2c::decomp::TrapezoidalDecomp t;
  f2c::decomp::BoustrophedonDecomp b;
  std::string hist;
  Poly p {{gen::cshape(c.rng)}};
  for (auto& v : p.rings[0]) {v = v * 50;}
  F2CCells in = cv::cells(MPoly {p});
  double last = 0;
  int n = c.rng.i(1, 5);
  for (int i = 0; i < n; ++i) {
    last = gen::angle(c.rng);
    t.setSplitAngle(last); b.setSplitAngle(last);
    c.check(t.getSplitAngle() == last && b.getSplitAngle() == last, "get_angle", "angle read back differs from the last one set");
    if (c.rng.p(0.5)) {t.decompose(in); b.decompose(in);}
    c.check(t.getSplitAngle() == last && b.getSplitAngle() == last, "get_angle_after", "decomposing changed the angle");
  }
  c.sig(last);
  f2c::decomp::TrapezoidalDecomp t2; t2.setSplitAngle(last);
  f2c::decomp::BoustrophedonDecomp b2; b2.setSplitAngle(last);
  c.check(cv::snapG(t.decompose(in)) == cv::snapG(t2.decompose(in)), "t_last_angle", "earlier angles influence the result");
  c.check(cv::snapG(b.decompose(in)) == cv::snapG(b2.decompose(in)), "b_last_angle", "earlier angles influence the result");
}
VF_MAIN
