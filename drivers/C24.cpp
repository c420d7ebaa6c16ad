// NOTE: lines clipped by an own edge-by-edge clipper; rays followed edge by edge to the first crossing
// QUICK: 4
#include "vfall.hpp"
using namespace g;
namespace {
using Line = std::vector<P>;
double sizeOf(const MPoly& m) {Box b = box(m); return std::max(b.x1 - b.x0, b.y1 - b.y0);}
// distance of the vertices of m to the segment a-b
double nearestVertex(P a, P b, const MPoly& m) {
  double d = 1e300;
  edges(m, [&] (P p, P) {d = std::min(d, distSeg(p, a, b));});
  return d;
}
// Checks the stretches `got` of the polylines `in` within m
void clipped(vf::Case& c, const MPoly& m, const std::vector<Line>& in, const F2CMultiLineString& got, double tol, const std::string& k) {
  const double s = sizeOf(m);
  double want = 0, sum = 0;
  size_t n = 0;
  bool clear = true;
  for (auto& l : in) {
    bool open = false;   // the last stretch reaches the end of the segment
    for (size_t i = 0; i + 1 < l.size(); ++i) {
      if (eq(l[i], l[i + 1])) {continue;}
      auto st = clip(l[i], l[i + 1], m);
      double L = dist(l[i], l[i + 1]);
      clear = clear && nearestVertex(l[i], l[i + 1], m) > 1e-6 * s;
      double prev = -1;
      for (auto& x : st) {
        want += (x.second - x.first) * L;
        if ((x.second - x.first) * L < 1e-6 * s || (prev >= 0 && (x.first - prev) * L < 1e-6 * s)) {clear = false;}
        if (!(open && x.first <= 1e-12)) {++n;}
        prev = x.second; open = false;
        c.count("stretches");
        // the middle of the stretch is part of the result
        P mid = l[i] + (l[i + 1] - l[i]) * ((x.first + x.second) / 2);
        double d = 1e300;
        for (auto& r : cv::of(got)) {if (r.size() > 1) {d = std::min(d, distLine(mid, r));}}
        if ((x.second - x.first) * L > 100 * tol) {c.check(d <= tol, k + "lost", "the part of the line around ", mid.x, " ", mid.y, " is in the cell but not in the result: nearest at ", d);}
      }
      open = !st.empty() && st.back().second >= 1 - 1e-12;
      for (P e : {l[i], l[i + 1]}) {if (distBorder(e, m) < 1e-6 * s) {clear = false;}}
    }
  }
  for (auto& r : cv::of(got)) {
    if (r.empty()) {continue;}
    sum += length(r);
    for (size_t i = 0; i + 1 < r.size(); ++i) {
      for (double t : {0.0, 0.31, 0.5, 1.0}) {
        P p = r[i] + (r[i + 1] - r[i]) * t;
        c.check(inside(p, m) || distBorder(p, m) <= tol, k + "outside", "result point ", p.x, " ", p.y, " outside of the cell by ", distBorder(p, m));
        double d = 1e300;
        for (auto& l : in) {d = std::min(d, distLine(p, l));}
        c.check(d <= tol, k + "off_line", "result point ", p.x, " ", p.y, " off the line by ", d);
        c.count("points");
      }
    }
  }
  double lt = 1e-7 * want + tol * 100 * (1 + n);
  if (clear) {
    c.near(sum, want, lt, k + "length", "length of the stretches");
    c.near(got.length(), want, lt, k + "total", "length()");
    c.check(got.size() == n, k + "count", "lines inside: ", got.size(), " want ", n);
    c.count("clear");
  }
}
}  // namespace
SCENARIO(long_lines, 6000, 300000) {
  gen::Gen f = gen::field(c.rng);
  double a = gen::angle(c.rng);
  Box b = box(f.m);
  c.desc = vf::cat(f.kind, " a=", a, " ", str(f.m));
  P p {c.rng.u(b.x0, b.x1), c.rng.u(b.y0, b.y1)};
  int at = c.rng.i(0, 5);
  if (at == 0) {p = f.m[0].rings[0][0];}
  if (at == 1) {p = {b.x0, b.y0};}
  if (at == 2) {p = {b.x1, b.y1};}
  c.robust([&] (double e) {
    double ang = a + e, tol = 1e-9 * f.size + 1e-12 * f.maxAbs;
    P u = dirOf(ang);
    F2CCells A = cv::cells(f.m);
    F2CCell one = cv::cell(f.m[0]);
    MPoly m1 {f.m[0]};
    const std::string s0 = cv::snapG(A);
    auto dir = [&] (const F2CLineString& l, bool both, const MPoly& m, const char* k) {
      Line q = cv::of(l);
      c.require(q.size() == 2, std::string(k) + "_points", "long line of ", q.size(), " points");
      double L = dist(q[0], q[1]), t = 1e-12 * L + 1e-15 * f.maxAbs * 8;
      c.near(dot(q[1] - q[0], u), L, t * 10, std::string(k) + "_direction", "direction of the line");
      Box bb = box(m);
      double r = -1e300, l0 = 1e300, off = 0;
      for (P v : {P {bb.x0, bb.y0}, P {bb.x1, bb.y0}, P {bb.x0, bb.y1}, P {bb.x1, bb.y1}}) {r = std::max(r, dot(v - p, u)); l0 = std::min(l0, dot(v - p, u));}
      off = std::fabs(crs(u, q[0] - p));
      c.check(off <= t * 10, std::string(k) + "_through", "line passes the point at ", off);
      bool in = p.x >= bb.x0 && p.x <= bb.x1 && p.y >= bb.y0 && p.y <= bb.y1;
      if (in) {
        c.check(dot(q[1] - p, u) >= r - t * 10, std::string(k) + "_reach", "the line ends within the bounding area, ", dot(q[1] - p, u), " < ", r);
        if (both) {c.check(dot(q[0] - p, u) <= l0 + t * 10, std::string(k) + "_reach_back", "the line starts within the bounding area");}
      }
      if (!both) {c.check(dist(q[0], p) <= t, std::string(k) + "_start", "semi line does not start at the point");}
    };
    F2CPoint fp = cv::pt(p);
    dir(A.createStraightLongLine(fp, ang), true, f.m, "straight");
    dir(A.createSemiLongLine(fp, ang), false, f.m, "semi");
    dir(one.createStraightLongLine(fp, ang), true, m1, "straight1");
    dir(one.createSemiLongLine(fp, ang), false, m1, "semi1");
    c.near(A.getMinSafeLength(), (b.x1 - b.x0) + (b.y1 - b.y0), 1e-9 * f.size + 1e-15 * f.maxAbs * 8, "safe_length", "safe length");
    F2CLineString l = A.createStraightLongLine(fp, ang);
    Line q = cv::of(l);
    if (!e || at > 2) {
      clipped(c, f.m, {q}, A.getLinesInside(l), tol, "line_cells_");
      clipped(c, m1, {q}, one.getLinesInside(l), tol, "line_cell_");
      clipped(c, m1, {q}, F2CMultiLineString::intersection(l, one), tol, "intersection_");
    }
    // sets of parallel lines
    F2CMultiLineString ml;
    std::vector<Line> in;
    for (int i = 0, n = c.rng.i(0, 6); i < n; ++i) {
      P o = p + P {-u.y, u.x} * (f.size * c.rng.u(-1, 1));
      double h0 = c.rng.p(0.5) ? 9 : c.rng.u(0, 1), h1 = c.rng.p(0.5) ? 9 : c.rng.u(-0.5, 1);
      Line w {o - u * (h0 * f.size), o + u * (h1 * f.size)};
      in.push_back(w); ml.addGeometry(cv::line(w));
    }
    clipped(c, f.m, in, A.getLinesInside(ml), tol, "lines_cells_");
    clipped(c, m1, in, one.getLinesInside(ml), tol, "lines_cell_");
    c.check(cv::snapG(A) == s0, "input_changed", "cells changed by clipping");
    c.sig(a); c.sig(p.x); c.sig(double(in.size()));
  });
}
SCENARIO(polylines, 4000, 200000) {
  gen::Gen f = gen::field(c.rng);
  double a = gen::angle(c.rng);
  Box b = box(f.m);
  P mid {(b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2};
  double R = dist({b.x0, b.y0}, {b.x1, b.y1}) / 2 * c.rng.u(0.3, 1.3);
  int n = c.rng.i(2, 9);
  // monotone along a: does not cross itself
  std::vector<double> xs;
  for (int i = 0; i < n; ++i) {xs.push_back(c.rng.u(-1, 1));}
  std::sort(xs.begin(), xs.end());
  Line base;
  for (double x : xs) {base.push_back({x * R, c.rng.u(-0.6, 0.6) * R});}
  c.desc = vf::cat(f.kind, " a=", a, " ", str(base), " ", str(f.m));
  c.robust([&] (double e) {
    double tol = 1e-9 * f.size + 1e-12 * f.maxAbs;
    Line l; for (auto p : base) {l.push_back(mid + rot(p, a + e));}
    F2CCells A = cv::cells(f.m);
    F2CLineString fl = cv::line(l);
    clipped(c, f.m, {l}, A.getLinesInside(fl), tol, "cells_");
    clipped(c, {f.m[0]}, {l}, cv::cell(f.m[0]).getLinesInside(fl), tol, "cell_");
    F2CMultiLineString ml(fl);
    Line l2; for (auto p : l) {l2.push_back(p + rot(P {0, 1.5 * R}, a + e));}
    ml.addGeometry(cv::line(l2));
    clipped(c, f.m, {l, l2}, A.getLinesInside(ml), tol, "two_cells_");
    clipped(c, f.m, {l, l2}, ml.intersection(A), tol, "two_intersection_");
    c.sig(a); c.sig(R); c.sig(n);
  });
}
SCENARIO(rays, 20000, 1500000) {
  gen::Opt o; o.maxSize = 2000;
  gen::Gen f = gen::field(c.rng, o);
  double a = gen::angle(c.rng);
  size_t ci = c.rng.next() % f.m.size();
  MPoly m {f.m[ci]};
  int from = c.rng.i(0, 3);
  P p; size_t vr = 0, vi = 0; double ve = 0;
  if (c.rng.p(0.2)) {   // inside, very close to the border
    from = 0;
    Ring r = open(m[0].rings[c.rng.next() % m[0].rings.size()]);
    size_t i = c.rng.next() % r.size();
    P q = r[i], w = r[(i + 1) % r.size()];
    double L = dist(q, w), d = c.rng.logu(2e-5, 2e-2);
    if (L < 1e-3) {return;}
    P nrm {-(w.y - q.y) / L, (w.x - q.x) / L};
    if (c.rng.p(0.5)) {nrm = nrm * -1.0;}
    p = q + (w - q) * c.rng.u(0.1, 0.9) + nrm * d;
    if (!inside(p, m) || distBorder(p, m) < 2e-5) {return;}
    if (c.rng.p(0.6)) {a = std::atan2(nrm.y, nrm.x) + c.rng.u(-1.3, 1.3); if (c.rng.p(0.6)) {a += M_PI;}}
    c.count("close_to_border");
  } else if (from <= 1) {
    if (!gen::interiorPoint(c.rng, m, p, 1e-3 * f.size)) {return;}
  } else {
    vr = c.rng.next() % m[0].rings.size();
    Ring r = open(m[0].rings[vr]);
    vi = c.rng.next() % r.size();
    p = r[vi];
    if (from == 3) {ve = c.rng.pick({0.5, 0.25, 0.1, 0.9, 0.333}); p = r[vi] + (r[(vi + 1) % r.size()] - r[vi]) * ve;}
  }
  c.desc = vf::cat(f.kind, " p=", str({p}), " a=", a, " ", str(m));
  c.robust([&] (double e) {
    double ang = a + e, tol = 1e-8 * f.size + 1e-12 * f.maxAbs;
    P u = dirOf(ang);
    const double nearV = 1e-5 * f.size + 2e-5 + 1e-9 * f.maxAbs;
    // crossings of the ray, away from p
    double hit = 1e300;
    bool clear = true;
    edges(m, [&] (P q, P r) {
      if (eq(q, r)) {return;}
      if (distSeg(p, q, r) < 1e-9 * f.size + 1e-14 * f.maxAbs) {   // p is on this edge
        double s = std::fabs(crs(r - q, u)) / dist(q, r);
        if (s < 1e-3) {clear = false;}
        return;
      }
      double dp = crs(u, q - p), dr = crs(u, r - p);
      if ((dp > 0) == (dr > 0)) {return;}
      double k = dp / (dp - dr);
      double t = dot(q + (r - q) * k - p, u);
      if (t > 0) {hit = std::min(hit, t); if (std::fabs(crs(r - q, u)) / dist(q, r) < 1e-3 && t < hit + nearV) {clear = false;}}
    });
    P far = p + u * std::min(hit + nearV, 1e7);
    edges(m, [&] (P q, P) {if (dist(q, p) > nearV / 10 && distSeg(q, p, far) < nearV) {clear = false;}});
    if (from >= 2) {   // is the start a vertex with the ray close to one of its edges, or is the cell thinner than 1e-5
      edges(m, [&] (P q, P r) {if (dist(q, p) > 1e-9 * f.size && dist(r, p) > 1e-9 * f.size && distSeg(p, q, r) > 1e-9 * f.size + 1e-14 * f.maxAbs && distSeg(p, q, r) < nearV) {clear = false;}});
    }
    F2CCells A = cv::cells(f.m);
    F2CCell one = cv::cell(f.m[ci]);
    F2CPoint fp = cv::pt(p);
    bool in = from <= 1 || inside(p + u * nearV, m);
    for (int k = 0; k < 2; ++k) {
      // a border point may be a rounding error off the cell: cells may not find it
      if (k && from == 3) {break;}
      F2CLineString l = k ? A.createLineUntilBorder(fp, ang) : one.createLineUntilBorder(fp, ang);
      const std::string key = k ? "cells_" : "cell_";
      Line q = cv::of(l);
      c.require(q.empty() || q.size() == 2, key + "points", "ray of ", q.size(), " points");
      if (!q.empty()) {
        c.check(eq(q[0], p) || dist(q[0], p) <= 1e-12 * f.maxAbs, key + "start", "ray does not start at the point: ", str(q));
        c.check(distBorder(q[1], m) <= tol, key + "end_off_border", "ray ends ", distBorder(q[1], m), " from the border");
        c.check(std::fabs(crs(u, q[1] - p)) <= tol && dot(u, q[1] - p) > 0, key + "direction", "ray leaves its direction: ", str(q));
      }
      if (!clear) {c.count("grazing"); continue;}
      if (in && hit < 1e299) {
        c.require(!q.empty(), key + "no_ray", "no ray, the border is at ", hit);
        c.near(dist(q[0], q[1]), hit, tol * 10, key + "length", "border at");
        c.count("rays_inside");
      } else if (!in) {
        c.check(q.empty(), key + "leaves", "ray of ", l.length(), " m although the direction leaves the cell at once");
        c.count("rays_leaving");
      }
    }
    c.sig(a); c.sig(p.x); c.sig(p.y);
  });
}
SCENARIO(degenerate, 200, 4000) {
  auto& r = c.rng;
  double a = gen::angle(r);
  F2CPoint p(r.u(-5, 5), r.u(-5, 5));
  F2CCell e; F2CCells es;
  c.check(e.createLineUntilBorder(p, a).size() == 0, "empty_ray", "ray in an empty cell");
  c.check(es.createLineUntilBorder(p, a).size() == 0, "empty_rays", "ray in empty cells");
  F2CLineString l({F2CPoint(-1, 0), F2CPoint(3, r.u(-1, 1))});
  c.check(e.getLinesInside(l).size() == 0 && es.getLinesInside(l).size() == 0, "empty_lines", "lines inside nothing");
  F2CCells sq(F2CCell(F2CLinearRing({F2CPoint(0, 0), F2CPoint(2, 0), F2CPoint(2, 2), F2CPoint(0, 2), F2CPoint(0, 0)})));
  c.check(sq.getLinesInside(F2CLineString()).size() == 0, "no_line", "an empty line inside a cell");
  c.check(sq.getLinesInside(F2CMultiLineString()).size() == 0, "no_lines", "empty lines inside a cell");
  c.check(sq.createLineUntilBorder(F2CPoint(7 + r.u(0, 1), 1), a).size() == 0, "outside_ray", "ray from a point in no cell");
  c.near(F2CMultiLineString().length(), 0, 0, "no_length", "length of no lines");
  c.count("degenerate"); c.sig(a);
}
VF_MAIN
