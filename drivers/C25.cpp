// NOTE: areas, location and border distances recomputed edge by edge; convexity by own turn test at every start vertex and orientation
#include "vfall.hpp"
using namespace g;
namespace {
MPoly turned(const MPoly& m, vf::Rng& r) {   // other start vertices and orientation
  MPoly x = m;
  for (auto& p : x) {for (auto& q : p.rings) {q = open(q); std::rotate(q.begin(), q.begin() + r.next() % q.size(), q.end()); if (r.p(0.5)) {std::reverse(q.begin(), q.end());}}}
  return x;
}
double distSet(P p, const std::vector<P>& v) {double d = 1e300; for (auto q : v) {d = std::min(d, dist(p, q));} return d;}
std::vector<P> verts(const MPoly& m) {std::vector<P> v; edges(m, [&] (P a, P) {v.push_back(a);}); return v;}
}  // namespace
SCENARIO(measures, 6000, 500000) {
  gen::Gen f = gen::field(c.rng);
  c.desc = vf::cat(f.kind, " ", str(f.m));
  MPoly m = turned(f.m, c.rng), m1 {m[0]};
  F2CCells A = cv::cells(m);
  F2CCell one = cv::cell(m[0]);
  double s = f.size, M = f.maxAbs;
  double at = 1e-9 * s * s + 1e-14 * M * s * 100, lt = 1e-9 * s + 1e-14 * M;
  c.near(A.area(), area(m), at, "area_cells", "area");
  c.near(one.area(), area(m1), at, "area_cell", "area");
  auto ext = [&] (const auto& x, const MPoly& mm, const char* k) {
    Box b = box(mm);
    c.check(x.getDimMinX() == b.x0 && x.getDimMaxX() == b.x1 && x.getDimMinY() == b.y0 && x.getDimMaxY() == b.y1, k, "extents ", x.getDimMinX(), " ", x.getDimMaxX(), " ", x.getDimMinY(), " ", x.getDimMaxY());
    c.near(x.getWidth(), b.x1 - b.x0, 0, k, "width"); c.near(x.getHeight(), b.y1 - b.y0, 0, k, "height");
    c.near(x.getMinSafeLength(), b.x1 - b.x0 + b.y1 - b.y0, lt, k, "safe length");
  };
  ext(A, m, "extents_cells"); ext(one, m1, "extents_cell");
  ext(one.getExteriorRing(), MPoly {Poly {{m[0].rings[0]}}}, "extents_ring");
  c.check(A.size() == m.size() && one.size() == m[0].rings.size() && !A.isEmpty() && !one.isEmpty(), "sizes", "sizes ", A.size(), " ", one.size());
  for (size_t i = 0; i < one.size(); ++i) {
    c.near(one.getGeometry(i).length(), perimeter(m[0].rings[i]), lt * 10, "perimeter", "perimeter of ring ", i);
    c.near(one.getGeometry(i).area(), area(m[0].rings[i]), at, "area_ring", "area of ring ", i);
  }
  c.near(F2CCell().area() + F2CCells().area(), 0, 0, "area_empty", "area of nothing");
  c.count("cells"); c.sig(area(m)); c.sig(perimeter(m));
}
SCENARIO(location, 1500, 300000) {
  gen::Gen f = gen::field(c.rng);
  MPoly m = turned(f.m, c.rng), m1 {m[0]};
  c.desc = vf::cat(f.kind, " ", str(m));
  F2CCells A = cv::cells(m);
  F2CCell one = cv::cell(m[0]);
  const std::string s0 = cv::snapG(A);
  Box b = box(m);
  double s = f.size, gap = 1e-9 * s + 1e-12 * f.maxAbs, lt = 1e-9 * s + 1e-13 * f.maxAbs;
  auto vs = verts(m), v1 = verts(m1);
  for (int t = 0; t < 24; ++t) {
    int k = c.rng.i(0, 9);
    P p {c.rng.u(b.x0 - 0.2 * s, b.x1 + 0.2 * s), c.rng.u(b.y0 - 0.2 * s, b.y1 + 0.2 * s)};
    bool vertex = k == 0;
    if (vertex) {p = vs[c.rng.next() % vs.size()];}
    else if (k == 1) {p = {p.x, vs[c.rng.next() % vs.size()].y};}   // level with a vertex
    else if (k == 2) {p = {vs[c.rng.next() % vs.size()].x, p.y};}
    else if (k == 3) {P v = vs[c.rng.next() % vs.size()]; double e = s * c.rng.logu(1e-7, 1e-2); p = v + P {c.rng.u(-e, e), c.rng.u(-e, e)};}
    F2CPoint fp = cv::pt(p);
    std::string w = vf::cat("point ", p.x, " ", p.y);
    bool onv1 = false; for (auto v : v1) {onv1 = onv1 || eq(v, p);}
    double d = distBorder(p, m), d1 = distBorder(p, m1);
    if (vertex) {
      c.check(!A.isPointIn(fp) && A.isPointInBorder(fp), "vertex_cells", w, " is a vertex: in ", A.isPointIn(fp), " border ", A.isPointInBorder(fp));
      if (onv1) {c.check(!one.isPointIn(fp) && one.isPointInBorder(fp), "vertex_cell", w);}
      c.count("vertices");
    }
    bool in = inside(p, m), in1 = inside(p, m1);
    if (!vertex && d > gap) {
      c.check(A.isPointIn(fp) == in, "in_cells", w, " in: ", A.isPointIn(fp), " want ", in);
      c.check(!A.isPointInBorder(fp), "border_cells", w, " is on no border");
      c.check(A.disjoint(fp) == !in && A.intersects(fp) == in, "disjoint", w);
      c.count(in ? "inside" : "outside");
    }
    if (!onv1 && d1 > gap) {
      c.check(one.isPointIn(fp) == in1, "in_cell", w, " in: ", one.isPointIn(fp), " want ", in1);
      c.check(!one.isPointInBorder(fp), "border_cell", w, " is on no border");
    }
    c.near(A.distance(fp), in ? 0 : d, lt, "distance", w);
    P q = cv::of(A.closestPointOnBorderTo(fp)), q1 = cv::of(one.closestPointOnBorderTo(fp));
    c.near(dist(p, q), d, lt, "closest_cells", w, " closest ", q.x, " ", q.y);
    c.check(distBorder(q, m) <= lt, "closest_cells_on", w, " closest ", q.x, " ", q.y, " is off the border");
    c.near(dist(p, q1), d1, lt, "closest_cell", w);
    c.check(distBorder(q1, m1) <= lt, "closest_cell_on", w);
    // the cell found is usable on its own
    F2CCell* got;
    {
      F2CCells tmp = cv::cells(m);
      got = new F2CCell(tmp.getCellWherePoint(fp));
    }
    std::unique_ptr<F2CCell> own(got);
    if (vertex || d > gap) {
      bool any = in || vertex;
      c.check(own->isEmpty() == !any, "where", w, " cell found: ", !own->isEmpty(), " want ", any);
      if (any && !own->isEmpty()) {
        MPoly g1 = cv::of(*own);
        bool same = false;
        for (auto& x : m) {
          bool here = inside(p, MPoly {x});
          for (auto v : verts({x})) {here = here || eq(v, p);}
          if (here && cv::snapG(cv::cells({x})) == cv::snapG(F2CCells(*own))) {same = true;}
        }
        c.check(same, "where_other", w, " the cell found is not the one with the point");
        c.count("found");
      }
    }
    c.sig(p.x); c.sig(p.y);
  }
  c.check(cv::snapG(A) == s0, "input_changed", "cells changed by asking");
}
SCENARIO(exact_borders, 6000, 200000) {
  // vertices on an even grid: the middles of edges are exact
  auto& r = c.rng;
  Ring o;
  int k = r.i(0, 3);
  if (k == 0) {o = {{0, 0}, {16, 0}, {16, 12}, {0, 12}};}
  else if (k == 1) {o = {{0, 0}, {16, 4}, {20, 16}, {4, 12}};}
  else if (k == 2) {o = {{0, 0}, {16, 0}, {16, 12}, {12, 12}, {12, 4}, {4, 4}, {4, 12}, {0, 12}};}
  else {o = {{0, 0}, {8, -8}, {16, 0}, {16, 12}, {8, 8}, {0, 12}};}
  Poly p {{o}};
  bool hole = k < 2 && r.p(0.6);
  if (hole) {Ring h = k == 0 ? Ring {{4, 4}, {8, 4}, {8, 8}, {4, 8}} : Ring {{8, 6}, {12, 8}, {10, 10}}; if (r.p(0.5)) {std::reverse(h.begin(), h.end());} p.rings.push_back(h);}
  double sc = r.pick({1.0, 0.125, 1024.0}), dx = r.pick({0.0, -32.0, 524288.0}), dy = r.pick({0.0, 64.0, -4194304.0});
  MPoly m {p};
  if (r.p(0.4)) {Poly q = p; for (auto& x : q.rings) {for (auto& v : x) {v = v + P {64, 32};}} m.push_back(q);}
  m = mapM(m, [&] (P v) {return P {v.x * sc + dx, v.y * sc + dy};});
  m = turned(m, r);
  c.desc = str(m);
  F2CCells A = cv::cells(m);
  F2CCell one = cv::cell(m[0]);
  edges(m, [&] (P a, P b) {
    for (double t : {0.0, 0.5, 0.25}) {
      P q = a + (b - a) * t;
      F2CPoint fq = cv::pt(q);
      std::string w = vf::cat("point ", q.x, " ", q.y);
      c.check(A.isPointInBorder(fq), "on_border", w, " is on an edge");
      c.check(!A.isPointIn(fq), "border_not_in", w, " is on an edge, not inside");
      c.check(!A.getCellWherePoint(fq).isEmpty(), "border_cell", w, " no cell found");
      c.near(dist(cv::of(A.closestPointOnBorderTo(fq)), q), 0, 1e-9 * sc, "border_closest", w);
      c.check(A.distance(fq) == 0, "border_distance", w);
      c.count("border_points");
    }
  });
  edges({m[0]}, [&] (P a, P b) {
    F2CPoint q = cv::pt(a + (b - a) * 0.5);
    c.check(one.isPointInBorder(q) && !one.isPointIn(q), "on_border_cell", "middle of ", str({a, b}));
  });
  for (auto& pp : m) {
    if (pp.rings.size() > 1) {
      P cen {0, 0}; Ring h = open(pp.rings[1]);
      for (auto v : h) {cen = cen + v * (1.0 / h.size());}
      c.check(!A.isPointIn(cv::pt(cen)) && !A.isPointInBorder(cv::pt(cen)) && A.getCellWherePoint(cv::pt(cen)).isEmpty(), "in_hole", "middle of a hole");
      c.count("hole_points");
    }
  }
  c.sig(sc); c.sig(dx); c.sig(dy); c.sig(k); c.sig(double(m.size())); c.sig(m[0].rings[0][0].x); c.sig(double(hole));
}
SCENARIO(convexity, 6000, 1000000) {
  gen::Opt o; o.holes = c.rng.p(0.3); o.multi = c.rng.p(0.2);
  gen::Gen f = gen::field(c.rng, o);
  Ring base = open(f.m[0].rings[0]);
  bool holes = f.m[0].rings.size() > 1;
  double s = f.size;
  // dents must be clearly deeper than rounding; every vertex turn is measured
  bool cvx = true, clear = true;
  {
    Ring r = base;
    if (sarea(r) < 0) {std::reverse(r.begin(), r.end());}
    size_t n = r.size();
    for (size_t i = 0; i < n; ++i) {
      P a = r[i], b = r[(i + 1) % n], d = r[(i + 2) % n];
      if (dist(a, b) < 1e-3 * s || dist(b, d) < 1e-3 * s) {clear = false;}
      double x = crs(b - a, d - b) / (dist(a, b) * dist(b, d));
      if (std::fabs(x) > 1e-12 + 1e-13 * f.maxAbs / s && std::fabs(x) < 1e-5) {clear = false;}
      if (x < -1e-5) {cvx = false;}
    }
  }
  c.desc = vf::cat(f.kind, " ", str(f.m));
  if (!clear) {c.count("unclear"); return;}
  for (size_t k = 0; k < std::min<size_t>(base.size(), 14); ++k) {
    for (int rev = 0; rev < 2; ++rev) {
      Ring r = base;
      std::rotate(r.begin(), r.begin() + k, r.end());
      if (rev) {std::reverse(r.begin(), r.end());}
      if (c.rng.p(0.15)) {size_t j = c.rng.next() % r.size(); r.insert(r.begin() + j, r[j]);}   // repeated point
      Poly p = f.m[0]; p.rings[0] = r;
      F2CCell x = cv::cell(p);
      c.check(x.isConvex() == (cvx && !holes), "convex_cell", "isConvex ", x.isConvex(), " start ", k, " reversed ", rev, " holes ", holes);
      F2CCells xs(x);
      c.check(xs.isConvex() == (cvx && !holes), "convex_cells", "isConvex of one cell as a set ", xs.isConvex());
      if (f.m.size() > 1) {
        MPoly mm = f.m; mm[0] = p;
        c.check(!cv::cells(mm).isConvex(), "convex_many", "several cells are convex");
      }
      c.count(cvx && !holes ? "convex" : "not_convex");
    }
  }
  c.check(!F2CCell().isConvex() && !F2CCells().isConvex(), "convex_empty", "nothing is convex");
  c.sig(area(f.m)); c.sig(double(base.size()));
}
SCENARIO(hulls, 4000, 400000) {
  gen::Gen f = gen::field(c.rng);
  c.desc = vf::cat(f.kind, " ", str(f.m));
  F2CCells A = cv::cells(f.m);
  auto isHull = [&] (const F2CCell& h, const std::vector<P>& v, const char* k) {
    MPoly H = cv::of(h);
    Ring w = hull(v);
    double at = 1e-9 * f.size * f.size + 1e-13 * f.maxAbs * f.size * 10, lt = 1e-9 * f.size + 1e-13 * f.maxAbs;
    c.require(H.size() == 1 && H[0].rings.size() == 1, k, "hull of ", H.size(), " rings");
    c.near(area(H), area(w), at, k, "hull area");
    c.near(perimeter(H), perimeter(w), lt * 10, k, "hull perimeter");
    for (auto p : v) {c.check(inside(p, H) || distBorder(p, H) <= lt, k, "point ", p.x, " ", p.y, " outside of the hull");}
    for (auto p : H[0].rings[0]) {c.check(distSet(p, v) <= lt, k, "hull vertex is no vertex");}
    c.count("hulls");
  };
  isHull(A.convexHull(), verts(f.m), "hull_cells");
  isHull(cv::cell(f.m[0]).convexHull(), verts({f.m[0]}), "hull_cell");
  isHull(F2CCell::convexHull(A), verts(f.m), "hull_static");
  std::vector<P> ps;
  for (int i = 0, n = c.rng.i(3, 20); i < n; ++i) {ps.push_back(f.off + P {c.rng.u(-1, 1) * f.size, c.rng.u(-1, 1) * f.size});}
  F2CMultiPoint mp; for (auto p : ps) {mp.addPoint(cv::pt(p));}
  if (area(hull(ps)) > 1e-3 * f.size * f.size) {
    isHull(F2CCell::convexHull(mp), ps, "hull_points");
    isHull(F2CCell::convexHull(cv::line(ps)), ps, "hull_line");
  }
  c.sig(area(f.m)); c.sig(ps[0].x);
}
SCENARIO(simplify, 3000, 300000) {
  gen::Opt o; o.maxN = 20;
  gen::Gen f = gen::field(c.rng, o);
  // wiggle: more vertices along the edges
  MPoly m = f.m;
  double w = f.size * c.rng.logu(1e-5, 1e-2), tol = f.size * c.rng.logu(1e-6, 0.1);
  for (auto& p : m) {
    for (auto& r : p.rings) {
      Ring q; r = open(r);
      for (size_t i = 0; i < r.size(); ++i) {
        P a = r[i], b = r[(i + 1) % r.size()], n {-(b - a).y, (b - a).x};
        n = n * (1 / norm(n)); q.push_back(a);
        for (int k = 1, N = c.rng.i(0, 4); k <= N; ++k) {q.push_back(a + (b - a) * (double(k) / (N + 1)) + n * c.rng.u(-w, w));}
      }
      r = q;
    }
  }
  if (!refs::valid(m)) {c.count("invalid"); return;}
  c.desc = vf::cat(f.kind, " tol=", tol, " ", str(m));
  F2CCells A = cv::cells(m);
  const std::string s0 = cv::snapG(A);
  double lt = 1e-9 * f.size + 1e-13 * f.maxAbs;
  auto simple = [&] (const MPoly& in, const MPoly& out, const char* k) {
    auto v = verts(in);
    c.require(out.size() == in.size(), k, "cells ", out.size(), " of ", in.size());
    for (size_t i = 0; i < in.size(); ++i) {c.check(out[i].rings.size() == in[i].rings.size(), k, "rings ", out[i].rings.size());}
    for (auto p : verts(out)) {c.check(distSet(p, v) <= lt, k, "vertex ", p.x, " ", p.y, " is new");}
    for (auto p : v) {c.check(distBorder(p, out) <= 2 * tol + lt, k, "vertex ", p.x, " ", p.y, " is ", distBorder(p, out), " from the simplified border, tolerance ", tol);}
    edges(out, [&] (P a, P b) {for (double t : {0.25, 0.5, 0.8}) {P p = a + (b - a) * t; c.check(distBorder(p, in) <= 2 * tol + lt, k, "simplified border is ", distBorder(p, in), " from the border, tolerance ", tol);}});
    c.check(std::fabs(area(out) - area(in)) <= 2 * tol * perimeter(in) + lt * f.size, k, "area changed by more than the tolerance");
    c.check(verts(out).size() <= v.size(), k, "more vertices than before");
    c.count("simplified"); c.count("removed", v.size() - verts(out).size());
  };
  simple(m, cv::of(A.simplify(tol)), "simplify_cells");
  simple({m[0]}, cv::of(cv::cell(m[0]).simplify(tol)), "simplify_cell");
  std::vector<P> l = m[0].rings[0];
  std::vector<P> q = cv::of(cv::line(l).simplify(tol));
  c.require(q.size() >= 2 && eq(q[0], l[0]) && eq(q.back(), l.back()), "simplify_line", "ends of a line lost");
  for (auto p : l) {c.check(distLine(p, q) <= tol + lt, "simplify_line", "vertex ", distLine(p, q), " from the simplified line, tolerance ", tol);}
  for (auto p : q) {c.check(distSet(p, l) <= lt, "simplify_line", "new vertex");}
  c.check(cv::snapG(A) == s0, "input_changed", "cells changed by simplifying");
  c.check(F2CCell().simplify(tol).isEmpty() && F2CCells().simplify(tol).isEmpty() && F2CLineString().simplify(tol).isEmpty(), "simplify_empty", "simplified nothing");
  c.sig(tol); c.sig(w); c.sig(area(m));
}
VF_MAIN
