// NOTE: distances of sampled points and of every result vertex, exact offset areas of lines and convex cells
// QUICK: 6
#include "vfall.hpp"
using namespace g;
namespace {
using Segs = std::vector<std::pair<P, P>>;
Segs segs(const MPoly& m) {Segs s; edges(m, [&] (P a, P b) {if (!eq(a, b)) {s.push_back({a, b});}}); return s;}
Segs segs(const std::vector<P>& l) {Segs s; for (size_t i = 0; i + 1 < l.size(); ++i) {if (!eq(l[i], l[i + 1])) {s.push_back({l[i], l[i + 1]});}} return s;}
double distS(P p, const Segs& s) {double d = 1e300; for (auto& e : s) {d = std::min(d, distSeg(p, e.first, e.second));} return d;}
template <class F> bool tried(vf::Case& c, const MPoly& lib, bool can, F call) {
  (void)lib;
  try {call(); return true;} catch (const std::runtime_error&) {if (can) {throw;} c.count("geos_failed"); return false;}
}
// R: what is within d of the segments (and of the area m if any)
void grown(vf::Case& c, const Segs& s, const MPoly& m, const MPoly& R, double d, double tol, const MPoly& lib, const std::string& k) {
  double per = perimeter(R) + perimeter(lib);
  bool asLib = areaSymDiff(R, lib) <= tol * per + 1e-9 * area(lib);
  c.excusing(asLib, "geos_wrong", [&] {
    for (int t = 0; t < 40; ++t) {
      auto& e = s[c.rng.next() % s.size()];
      double u = c.rng.p(0.3) ? c.rng.pick({0.02, 0.5, 0.98}) : c.rng.u(0.01, 0.99), off = c.rng.p(0.3) ? 0.97 : c.rng.u(-0.97, 0.97);
      if (c.rng.p(0.5)) {off = -off;}
      P q = e.first + (e.second - e.first) * u, dd = (e.second - e.first) * (1 / dist(e.first, e.second)), p = q + P {-dd.y, dd.x} * (off * d);
      c.check(inside(p, R) || distBorder(p, R) <= tol, k + "missing", "point ", p.x, " ", p.y, " at ", std::fabs(off), " d beside an edge is not in the buffer, d ", d);
      c.count("points_beside");
    }
    edges(R, [&] (P a, P b) {
      for (double t : {0.0, 0.37, 0.5}) {
        P p = a + (b - a) * t;
        double x = (!m.empty() && inside(p, m)) ? 0 : distS(p, s);
        c.check(x <= 5.1 * d + tol, k + "far", "point of the buffer at ", x, " > 5.1 d, d ", d);
        // the border of the buffer is about d away, at least beside edges
        c.check(x >= 0.9 * d - tol || m.empty(), k + "border_near", "border of the grown cell at ", x, " d ", d);
        c.count("border_points");
      }
    });
    if (!m.empty()) {
      for (int t = 0; t < 15; ++t) {P p; if (gen::interiorPoint(c.rng, m, p)) {c.check(inside(p, R) || distBorder(p, R) <= tol, k + "inner_lost", "inner point lost");}}
    }
    c.check(std::fabs(area(R) - areaUnion(R)) <= tol * per + 1e-9 * area(R), k + "overlap", "parts of the buffer overlap");
  });
}
void shrunk(vf::Case& c, const MPoly& m, const MPoly& R, double d, double tol, const MPoly& lib, const std::string& k) {
  bool asLib = areaSymDiff(R, lib) <= tol * perimeter(m) * 2 + 1e-9 * area(m);
  c.excusing(asLib, "geos_wrong", [&] {
    edges(R, [&] (P a, P b) {
      for (double t : {0.0, 0.3, 0.5, 0.8}) {
        P p = a + (b - a) * t;
        double x = distBorder(p, m);
        c.check(inside(p, m) || x <= tol, k + "outside", "point of the shrunk cell outside of it");
        c.check(x >= 0.985 * d - tol, k + "shallow", "point of the shrunk cell only ", x, " inside, d ", d);
        c.count("shrunk_points");
      }
    });
    for (int t = 0; t < 30; ++t) {
      P p;
      if (!gen::interiorPoint(c.rng, m, p)) {break;}
      double x = distBorder(p, m);
      bool in = inside(p, R);
      if (in) {c.check(x >= 0.985 * d - tol, k + "shallow_in", "inner point kept at ", x, " d ", d);}
      if (x > 5 * d + tol) {c.check(in || distBorder(p, R) <= tol, k + "deep_lost", "point at ", x, " lost, d ", d);}
    }
  });
}
MPoly libLine(const std::vector<P>& l, double d) {return refs::buffer(refs::seq(l, 1), d);}
std::vector<P> rline(vf::Rng& r, double s, P o, int n) {std::vector<P> l; for (int i = 0; i < n; ++i) {l.push_back(o + P {r.u(-s, s), r.u(-s, s)});} return l;}
}  // namespace
SCENARIO(cells, 1500, 50000) {
  gen::Opt o; o.maxSize = 300; o.maxN = 9;
  gen::Gen f = gen::field(c.rng, o);
  double d = f.size * c.rng.logu(1e-3, 0.6), d2 = d * c.rng.u(1.05, 2);
  c.desc = vf::cat(f.kind, " d=", d, " ", str(f.m));
  c.robust([&] (double e) {
    double D = d * (1 + e), D2 = d2 * (1 + e), tol = 1e-9 * f.size + 1e-12 * f.maxAbs, per = perimeter(f.m);
    if (!refs::canBuffer(f.m, D) || !refs::canBuffer(f.m, -D) || !refs::canBuffer(f.m, D2) || !refs::canBuffer(f.m, -D2)) {c.count("geos_failed"); return;}
    F2CCells A = cv::cells(f.m);
    const std::string sa = cv::snapG(A);
    Segs s = segs(f.m);
    F2CCells up = A.buffer(D), down = A.buffer(-D), up2 = F2CCells::buffer(A, D2), down2 = F2CCells::buffer(A, -D2);
    MPoly U = cv::of(up), Dn = cv::of(down), U2 = cv::of(up2), D_2 = cv::of(down2);
    grown(c, s, f.m, U, D, tol, refs::buffer(f.m, D), "cells_");
    grown(c, s, f.m, U2, D2, tol, refs::buffer(f.m, D2), "cells_");
    shrunk(c, f.m, Dn, D, tol, refs::buffer(f.m, -D), "cells_");
    // one within the other (corners are cut beyond five times the distance, and rounding of tiny corners is up to 1%)
    double lim = tol * per * 4 + 1e-9 * area(U2) + 0.02 * D2 * D2 * double(nEdges(f.m));
    double l1 = areaDiff(U, U2), l2 = areaDiff(D_2, Dn);
    c.excusing(areaSymDiff(U, refs::buffer(f.m, D)) <= lim && areaSymDiff(U2, refs::buffer(f.m, D2)) <= lim && areaSymDiff(D_2, refs::buffer(f.m, -D2)) <= lim, "geos_wrong", [&] {
      c.check(l1 <= lim, "monotone_up", "growing more leaves out ", l1, " limit ", lim);
      c.check(l2 <= lim, "monotone_down", "shrinking more leaves ", l2, " limit ", lim);
    });
    c.check(areaSymDiff(cv::of(A.buffer(0)), f.m) <= tol * per + 1e-9 * area(f.m), "zero", "buffer of 0 changes the surface");
    // single cell
    F2CCell a0 = A.getGeometry(0);
    MPoly m0 {f.m[0]};
    if (refs::canBuffer(m0, D)) {grown(c, segs(m0), m0, cv::of(F2CCell::buffer(a0, D)), D, tol, refs::buffer(m0, D), "cell_");}
    if (refs::canBuffer(m0, -D)) {
      MPoly lib = refs::buffer(m0, -D);
      bool refused = false; F2CCell res;
      try {res = F2CCell::buffer(a0, -D);} catch (const std::exception&) {refused = true;}
      // a cell which falls apart is no cell
      if (refused) {c.check(lib.size() > 1, "cell_refused", "shrinking a cell to one cell is refused");} else {shrunk(c, m0, cv::of(res), D, tol, lib, "cell_");}
    }
    // band around its outer ring
    MPoly ringOnly {Poly {{f.m[0].rings[0]}}};
    if (refs::canBuffer(ringOnly, D) && refs::canBuffer(ringOnly, -D)) {
      F2CLinearRing rg = cv::ring(f.m[0].rings[0]);
      for (double w : {D, -D}) {
        MPoly B = cv::of(F2CCell::buffer(rg, w));
        MPoly bo = refs::buffer(ringOnly, D), bi = refs::buffer(ringOnly, -D);
        double bad = boolArea({&bo, &bi, &B}, [] (uint32_t m) {return ((m & 3) == 1) != bool(m & 4);});
        double lb = tol * per * 4 + 1e-9 * area(bo);
        c.check(bad <= lb, "band", "band of a ring is off by an area of ", bad, " limit ", lb);
        c.excusing(bad <= lb, "geos_wrong", [&] {
          Segs rs = segs(ringOnly);
          for (int t = 0; t < 20; ++t) {
            auto& ed = rs[c.rng.next() % rs.size()];
            double u = c.rng.u(0.01, 0.99), off = c.rng.u(-0.97, 0.97);
            P dd = (ed.second - ed.first) * (1 / dist(ed.first, ed.second)), p = ed.first + (ed.second - ed.first) * u + P {-dd.y, dd.x} * (off * D);
            c.check(inside(p, B) || distBorder(p, B) <= tol, "band_missing", "point beside the ring is not in its band");
          }
          edges(B, [&] (P a, P) {c.check(distS(a, rs) <= 5.1 * D + tol, "band_far", "band reaches ", distS(a, rs), " d ", D);});
        });
      }
    }
    if (f.isConvex) {
      double want = area(f.m) + per * D;
      Ring r = open(f.m[0].rings[0]);
      bool ok = true;
      size_t n = r.size();
      if (sarea(r) < 0) {std::reverse(r.begin(), r.end());}
      for (size_t i = 0; i < n; ++i) {
        P u = r[(i + 1) % n] - r[i], v = r[(i + 2) % n] - r[(i + 1) % n];
        double th = std::atan2(crs(u, v), dot(u, v));
        if (1 / std::cos(th / 2) > 4.8 || std::fabs(th) < 0.05 || norm(u) < 0.3 * D) {ok = ok && th == 0;}
        want += D * D * std::tan(th / 2);
      }
      if (ok) {c.count("convex_exact"); c.near(area(U), want, tol * per + 1e-9 * want, "convex_area", "area of a grown convex cell");}
    }
    c.check(cv::snapG(A) == sa, "operand_changed", "buffering changed its operand");
    c.sig(area(f.m)); c.sig(d); c.sig(area(U)); c.sig(area(Dn));
  });
}
SCENARIO(lines, 3000, 100000) {
  auto& r = c.rng;
  double s = r.logu(1, 300);
  P o = r.p(0.3) ? P {r.u(2e5, 8e5), r.u(1e6, 9e6)} : P {0, 0};
  int n = r.p(0.4) ? 2 : r.i(3, 6);
  auto l = rline(r, s, o, n);
  for (size_t i = 0; i + 1 < l.size(); ++i) {if (dist(l[i], l[i + 1]) < 0.02 * s) {return;}}
  double d = s * r.logu(1e-3, 0.5), tol = 1e-9 * s + 1e-13 * norm(o), shortest = 1e300;
  for (size_t i = 0; i + 1 < l.size(); ++i) {shortest = std::min(shortest, dist(l[i], l[i + 1]));}
  if (n > 2) {d = std::min(d, shortest * r.u(0.05, 0.3));}   // bends within the width are up to GEOS
  c.desc = vf::cat("d=", d, " ", str(l));
  c.robust([&] (double e) {
    double D = d * (1 + e);
    F2CLineString fl = cv::line(l);
    const std::string sl = cv::snapG(fl);
    MPoly lib = libLine(l, D);
    F2CCells b = F2CCells::buffer(fl, D);
    MPoly B = cv::of(b);
    grown(c, segs(l), {}, B, D, tol, lib, "line_");
    F2CCell one = F2CCell::buffer(fl, D);
    c.check(areaSymDiff(cv::of(one), B) <= tol * perimeter(B) + 1e-9 * area(B), "cell_or_cells", "buffers of a line as cell and as cells differ");
    if (n == 2) {
      P u = (l[1] - l[0]) * (1 / dist(l[0], l[1])), nn {-u.y, u.x};
      auto rect = [&] (double lo, double hi) {return MPoly {Poly {{Ring {l[0] + nn * lo, l[1] + nn * lo, l[1] + nn * hi, l[0] + nn * hi}}}};};
      double lim = tol * (dist(l[0], l[1]) + D) * 4 + 1e-9 * D * dist(l[0], l[1]);
      c.check(areaSymDiff(B, rect(-D, D)) <= lim, "rectangle", "buffer of a straight line is no rectangle, off by ", areaSymDiff(B, rect(-D, D)));
      for (int side : {1, -1, 3, -2}) {
        F2CCells h = F2CCells::buffer(fl, D, side);
        MPoly H = cv::of(h);
        MPoly w = side > 0 ? rect(0, D) : rect(-D, 0);
        c.check(areaSymDiff(H, w) <= lim, "one_side", "buffer on side ", side, " is off by ", areaSymDiff(H, w), " of ", area(w));
        for (auto&& cell : h) {for (auto&& ring : cell) {for (auto&& p : ring) {c.check(std::isfinite(p.getX()) && std::isfinite(p.getY()) && std::isfinite(p.getZ()), "finite", "point of a one-sided buffer is not finite: ", p.getX(), " ", p.getY(), " ", p.getZ());}}}
      }
      c.count("straight");
      F2CSwath sw(fl, 2 * D);
      c.near(sw.area(), 2 * D * dist(l[0], l[1]), lim, "swath_area");
    }
    // several lines
    auto l2 = rline(r, s, o, 2);
    if (dist(l2[0], l2[1]) > 0.02 * s) {
      F2CMultiLineString ml; ml.addGeometry(fl); ml.addGeometry(cv::line(l2));
      MPoly M = cv::of(F2CCells::buffer(ml, D));
      MPoly L2 = libLine(l2, D);
      double bad = boolArea({&lib, &L2, &M}, [] (uint32_t m) {return ((m & 3) != 0) != bool(m & 4);});
      c.check(bad <= tol * (perimeter(M) + perimeter(lib) + perimeter(L2)) + 1e-9 * area(M), "several_lines", "buffer of two lines is off by ", bad);
    }
    c.check(cv::snapG(fl) == sl, "operand_changed", "buffering changed its operand");
    c.sig(d); c.sig(l[0].x); c.sig(area(B));
  });
}
SCENARIO(points_and_empties, 1500, 50000) {
  auto& r = c.rng;
  P p {r.u(-100, 100), r.u(-100, 100)};
  if (r.p(0.3)) {p = p + P {5e5, 4e6};}
  double d = r.logu(0.01, 100), tol = 1e-9 * d + 1e-13 * norm(p);
  MPoly B = cv::of(F2CCell::buffer(cv::pt(p), d));
  c.require(B.size() == 1 && B[0].rings.size() == 1, "point", "buffer of a point is no cell");
  for (auto q : B[0].rings[0]) {c.check(dist(p, q) <= d + tol && dist(p, q) >= 0.9999 * d - tol, "point_radius", "border at ", dist(p, q), " d ", d);}
  c.near(area(B), PI * d * d, 0.0008 * PI * d * d, "point_area");
  for (int t = 0; t < 10; ++t) {P q = p + dirOf(r.u(0, 7)) * (d * (r.p(0.5) ? r.u(0, 0.99) : r.u(0.995, 0.9995))); c.check(inside(q, B), "point_missing", "point at ", dist(p, q), " not in the buffer of ", d);}
  auto none = [&] (const F2CCells& x, const char* k) {c.check(x.isEmpty() && x.size() == 0 && x.area() == 0, k, "buffer of nothing is ", x.exportToWkt());};
  none(F2CCells().buffer(d), "empty"); none(F2CCells().buffer(-d), "empty"); none(F2CCells::buffer(F2CLineString(), d), "empty_line");
  none(F2CCells::buffer(F2CCell(), d), "empty_cell");
  c.check(F2CCell::buffer(F2CCell(), d).isEmpty(), "empty_cell2", "buffer of an empty cell");
  // lines do not shrink, cells vanish
  F2CLineString l({cv::pt(p), cv::pt(p + P {d, 2 * d})});
  none(F2CCells::buffer(l, -d), "line_shrunk");
  double w = r.u(1, 50), h = r.u(1, 50), x = std::min(w, h) / 2;
  Ring q {p, p + P {w, 0}, p + P {w, h}, p + P {0, h}};
  F2CCells R(cv::cell(Poly {{q}}));
  none(R.buffer(-x * r.u(1.01, 20)), "vanished");
  double y = x * r.u(0.01, 0.95), a1 = (w - 2 * y) * (h - 2 * y), a2 = (w + 2 * y) * (h + 2 * y);
  c.near(R.buffer(-y).area(), a1, 1e-9 * w * h + 1e-13 * norm(p) * (w + h), "rectangle_shrunk");
  c.near(R.buffer(y).area(), a2, 1e-9 * a2 + 1e-13 * norm(p) * (w + h), "rectangle_grown");
  c.near(F2CCell::buffer(R.getGeometry(0).getExteriorRing(), y).area(), a2 - a1, 1e-9 * a2 + 1e-13 * norm(p) * (w + h), "rectangle_band");
  c.count("points"); c.sig(p.x); c.sig(d); c.sig(w);
}
VF_MAIN
