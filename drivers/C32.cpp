// NOTE: two generators with one seed driven in step, copies and moves taken on the way; drawn numbers against wide binomial bounds; cells against an independent convexity and simplicity check
// QUICK: 6
#include "vfall.hpp"
#include "fields2cover/utils/random.h"
using namespace g;
namespace {
struct Shape {Ring r; double area, diam;};
// the cell has one closed simple ring with n corners and the asked area
Shape shape(vf::Case& c, const F2CCell& cell, size_t n, double area, const std::string& k) {
  MPoly m = cv::of(cell);
  c.require(m.size() == 1 && m[0].rings.size() == 1, k + "_rings", "rings");
  Ring q = m[0].rings[0];
  c.require(q.size() == n + 1, k + "_sides", "points ", q.size(), " want ", n + 1);
  c.check(q[0].x == q.back().x && q[0].y == q.back().y, k + "_closed", "ring not closed");
  Ring o = open(q);
  Box b = box(m);
  double d = std::hypot(b.x1 - b.x0, b.y1 - b.y0);
  c.check(std::isfinite(d), k + "_finite", "coordinates not finite");
  c.near(std::fabs(g::area(o)), area, 1e-9 * area + 1e-13 * d * d, k + "_area", "area");
  for (size_t i = 0; i < o.size(); ++i) {
    for (size_t j = i + 2; j < o.size(); ++j) {
      if (i == 0 && j + 1 == o.size()) {continue;}
      P p = o[i], p2 = o[(i + 1) % n], s = o[j], s2 = o[(j + 1) % n];
      auto side = [] (P a, P b2, P x) {return (b2.x - a.x) * (x.y - a.y) - (b2.y - a.y) * (x.x - a.x);};
      double e = 1e-12 * d * d, a1 = side(p, p2, s), a2 = side(p, p2, s2), b1 = side(s, s2, p), b2 = side(s, s2, p2);
      bool cross = ((a1 > e && a2 < -e) || (a1 < -e && a2 > e)) && ((b1 > e && b2 < -e) || (b1 < -e && b2 > e));
      c.check(!cross, k + "_simple", "sides ", i, " and ", j, " cross: ", g::str({Poly {{o}}}));
    }
  }
  c.count("cells");
  return {o, area, d};
}
// largest turn against the orientation, relative (0 for convex rings)
double inward(const Shape& s) {
  double sg = g::sarea(s.r) > 0 ? 1 : -1, worst = 0;
  size_t n = s.r.size();
  for (size_t i = 0; i < n; ++i) {
    P a = s.r[i], b = s.r[(i + 1) % n], d = s.r[(i + 2) % n];
    double cr = sg * ((b.x - a.x) * (d.y - b.y) - (b.y - a.y) * (d.x - b.x));
    worst = std::max(worst, -cr / (s.diam * s.diam));
  }
  return worst;
}
double draw(f2c::Random& g, int k, double a, double b) {
  switch (k) {
    case 0: return g.getRandomDouble();
    case 1: return g.getRandomLinear(a, a + b);
    case 2: return g.getRandomExp(b, b * 3);
    case 3: return g.getRandomExpDist(b);
    case 4: return g.getAngleRandom();
    case 5: return g.generateRandCell(b, 5).getExteriorRing().getGeometry(1).getX();
    case 6: return g.genConvexCell(b, 4).getExteriorRing().getGeometry(2).getY();
    case 7: return g.genNonConvexField(b).getField().getCellBorder(0).getGeometry(3).getX();
    default: return g.generateRandField(b, 3).getRefPoint().getX();
  }
}
}  // namespace
SCENARIO(sequence, 1500, 60000) {
  auto& r = c.rng;
  uint32_t seed = r.p(0.2) ? uint32_t(r.i(0, 3)) : uint32_t(r.next());
  f2c::Random a(seed), b(seed), other(seed + 1);
  std::string log = vf::cat("seed ", seed);
  std::vector<double> va, vo;
  for (int i = 0, n = r.i(5, 40); i < n; ++i) {
    int k = r.i(0, 8); double p = r.u(-50, 50), q = r.u(0.1, 50);
    log += vf::cat(" ", k); c.desc = log;
    int act = r.i(0, 9);
    if (act == 0) {f2c::Random t(a); draw(t, k, p, q); f2c::Random u(std::move(t)); (void) u;}       // a copy draws for itself
    if (act == 1) {f2c::Random t(a); a = f2c::Random(5); draw(a, 0, 0, 1); a = t;}
    if (act == 2) {f2c::Random t(std::move(a)); a = std::move(t);}
    if (act == 3) {draw(other, k, p, q); srand(unsigned(i)); (void) rand();}
    if (act == 4) {f2c::Random t(b); double v = draw(t, k, p, q); double w = draw(a, k, p, q), z = draw(b, k, p, q); c.check(v == w && w == z, "copy", "the copy draws ", v, ", the generators ", w, " and ", z); continue;}
    double v = draw(a, k, p, q), w = draw(b, k, p, q);
    c.check(v == w, "same_seed", "draw ", i, " of kind ", k, ": ", v, " and ", w);
    va.push_back(v); vo.push_back(draw(other, k, p, q));
    c.count("draws");
  }
  c.check(va.size() < 3 || va != vo, "other_seed", "another seed draws the same");
  c.sig(double(seed)); c.sig(log);
}
SCENARIO(spread, 150, 4000) {
  auto& r = c.rng;
  f2c::Random g {uint32_t(r.next())};
  int k = r.i(0, 4), N = 4000, B = 10;
  double lo = r.u(-100, 100), hi = lo + std::pow(10, r.u(-3, 3)), el = std::pow(10, r.u(-3, 2)), eh = el * std::pow(10, r.u(0.1, 4)), lam = std::pow(10, r.u(-2, 2));
  c.desc = vf::cat("kind ", k, " ", lo, " ", hi, " ", el, " ", eh, " ", lam);
  std::vector<int> bin(B, 0);
  double prev = 0; int repeated = 0;
  for (int i = 0; i < N; ++i) {
    double v, u;   // u: what has to be uniform on [0, 1]
    switch (k) {
      case 0: v = g.getRandomDouble(); u = v; break;
      case 1: v = g.getRandomLinear(lo, hi); u = (v - lo) / (hi - lo); c.check(v >= lo && v <= hi, "linear_range", v, " outside ", lo, " .. ", hi); break;
      case 2: v = g.getRandomExp(el, eh); u = std::log(v / el) / std::log(eh / el); c.check(v >= el * (1 - 1e-12) && v <= eh * (1 + 1e-12), "exp_range", v, " outside ", el, " .. ", eh); break;
      case 3: v = g.getRandomExpDist(lam); u = 1 - std::exp(-lam * v); c.check(v >= 0 && std::isfinite(v), "exp_dist_range", v); break;
      default: v = g.getAngleRandom(); u = v / (2 * M_PI); c.check(v >= 0 && v < 2 * M_PI, "angle_range", v); break;
    }
    c.check(u >= -1e-9 && u <= 1 + 1e-9, "range", "draw ", v);
    repeated += i > 0 && v == prev; prev = v;
    ++bin[std::min(B - 1, std::max(0, int(u * B)))];
  }
  for (int i = 0; i < B; ++i) {c.check(std::abs(bin[i] - N / B) < 8 * std::sqrt(N * 0.1 * 0.9), "uneven", "bin ", i, " has ", bin[i], " of ", N);}
  c.check(repeated < 5, "repeated", repeated, " draws equal to the one before");
  c.count("numbers", N); c.sig(k); c.sig(lo);
}
SCENARIO(cells, 5000, 200000) {
  auto& r = c.rng;
  f2c::Random g {uint32_t(r.next())};
  double a = std::pow(10, r.u(-3, 7)); int n = r.p(0.2) ? 3 : r.p(0.1) ? r.i(15, 60) : r.i(4, 12);
  double w0 = r.u(0.05, 1.0), w1 = w0 + r.u(0.01, 2);
  int k = r.i(0, 5);
  c.desc = vf::cat("kind ", k, " area ", a, " sides ", n, " width ", w0, " ", w1);
  // widths are kept up to the scale
  auto widths = [&] (const Shape& s, double lo, double hi, const std::string& key) {
    double mn = 1e300, mx = 0;
    for (auto p : s.r) {double d = std::hypot(p.x, p.y); mn = std::min(mn, d); mx = std::max(mx, d);}
    c.check(mx <= mn * (hi / lo) * (1 + 1e-9), key, "corners ", mn, " .. ", mx, " from the centre, asked for ", lo, " .. ", hi);
  };
  if (k == 0) {widths(shape(c, g.generateRandCell(a, n), n, a, "cell"), 0.5, 1, "usual_widths");}
  if (k == 1) {widths(shape(c, g.generateRandCell(a, n, w0, w1), n, a, "cell_width"), w0, w1, "widths");}
  auto ofField = [&] (const F2CField& f, size_t sides, const std::string& key) {
    c.check(f.getId().empty() && f.getCRS().empty(), key + "_plain", "field with a name or system");
    F2CCells abs = f.getCellsAbsPosition();
    c.require(abs.get()->getNumGeometries() == 1, key + "_one", "cells");
    return shape(c, F2CCell(abs.get()->getGeometryRef(0)->toPolygon()), sides, a, key);
  };
  if (k == 2) {
    if (r.p(0.5)) {widths(ofField(g.generateRandField(a, n, w0, w1), n, "field_width"), w0, w1, "field_widths");}
    else {widths(ofField(g.generateRandField(a, n), n, "field"), 0.5, 1, "usual_field_widths");}
  }
  int nc = r.i(3, 6);
  if (k == 3) {
    Shape s = r.p(0.5) ? shape(c, g.genConvexCell(a, nc), nc, a, "convex") : ofField(g.genConvexField(a, nc), nc, "convex_field");
    c.check(inward(s) <= 1e-9, "convex_inward", "a convex cell turns inwards by ", inward(s));
  }
  if (k == 4) {
    Shape s = r.p(0.5) ? shape(c, g.genNonConvexCell(a), 9, a, "non_convex") : ofField(g.genNonConvexField(a), 9, "non_convex_field");
    c.check(inward(s) > 0, "non_convex_inward", "a non-convex cell is convex");
  }
  if (k == 5) {Shape s = r.p(0.5) ? shape(c, g.genConvexCell(a), 4, a, "convex_default") : ofField(g.genConvexField(a), 4, "convex_default_field"); c.check(inward(s) <= 1e-9, "convex_default_inward", "a convex cell turns inwards by ", inward(s));}
  c.sig(a); c.sig(n); c.sig(k);
}
SCENARIO(refused, 800, 10000) {
  auto& r = c.rng;
  f2c::Random g {uint32_t(r.next())};
  int n = r.i(-5, 2); double bad = r.p(0.3) ? 0 : -std::pow(10, r.u(-5, 5));
  c.desc = vf::cat(n, " sides, area ", bad);
  c.throws([&] {g.generateRandCell(100, n);}, "sides", "cell of ", n, " sides");
  c.throws([&] {g.generateRandField(100, n);}, "sides_field", "field of ", n, " sides");
  c.throws([&] {g.generateRandCell(bad, 5);}, "area", "cell of area ", bad);
  c.throws([&] {g.generateRandField(bad, 5);}, "area_field", "field of area ", bad);
  size_t few = size_t(r.i(0, 2));
  c.throws([&] {g.genConvexCell(100, few);}, "convex_sides", "convex cell of ", few, " sides");
  c.throws([&] {g.genConvexField(bad, 4);}, "convex_area", "convex field of area ", bad);
  c.throws([&] {g.genNonConvexCell(bad);}, "non_convex_area", "non-convex cell of area ", bad);
  c.throws([&] {g.genNonConvexField(bad);}, "non_convex_area_field", "non-convex field of area ", bad);
  c.count("refusals", 8); c.sig(n); c.sig(bad);
}
VF_MAIN
