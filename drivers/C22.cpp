// NOTE: slab decomposition computes the exact area where result and boolean expression of the operands differ
// QUICK: 6
#include "vfall.hpp"
using namespace g;
namespace {
g::MPoly unitFix(vf::Rng& r) {   // shapes on an integer lattice: ties are exact
  auto rect = [&] (int x0, int y0, int x1, int y1) {return Ring {{double(x0), double(y0)}, {double(x1), double(y0)}, {double(x1), double(y1)}, {double(x0), double(y1)}};};
  int k = r.i(0, 4);
  int x = r.i(-4, 4), y = r.i(-4, 4), w = r.i(2, 6), h = r.i(2, 6);
  MPoly m;
  if (k <= 1) {m.push_back(Poly {{rect(x, y, x + w, y + h)}});}
  else if (k == 2) {m.push_back(Poly {{rect(x, y, x + w + 2, y + h + 2), rect(x + 1, y + 1, x + 1 + r.i(1, w - 1), y + 1 + r.i(1, h - 1))}});}
  else if (k == 3) {m.push_back(Poly {{rect(x, y, x + w, y + h)}}); m.push_back(Poly {{rect(x + w + r.i(1, 3), y, x + w + 5, y + h)}});}
  else {m.push_back(Poly {{Ring {{double(x), double(y)}, {double(x + w), double(y)}, {double(x + w), double(y + 1)}, {double(x + 1), double(y + 1)}, {double(x + 1), double(y + h)}, {double(x), double(y + h)}}}});}
  return m;
}
MPoly shift(const MPoly& m, P d) {return mapM(m, [d] (P p) {return p + d;});}
MPoly scaled(const MPoly& m, P c, double k) {return mapM(m, [=] (P p) {return c + (p - c) * k;});}
struct Two {MPoly a, b; std::string kind; double size, maxAbs;};
Two two(vf::Rng& r) {
  Two t;
  if (r.p(0.35)) {
    t.a = unitFix(r); t.b = unitFix(r); t.kind = "lattice";
    double k = r.pick({1.0, 16.0, 0.5});
    P o = r.p(0.3) ? P {262144.0 * r.i(0, 3), 4194304.0} : P {0, 0};
    t.a = mapM(t.a, [&] (P p) {return p * k + o;}); t.b = mapM(t.b, [&] (P p) {return p * k + o;});
    t.size = 10 * k; t.maxAbs = t.size + norm(o);
    if (r.p(0.1)) {t.b = t.a; t.kind = "lattice same";}
    return t;
  }
  gen::Opt o; o.maxSize = 300; o.maxN = 9;
  gen::Gen f = gen::field(r, o);
  gen::Opt o2 = o; o2.offsets = false; o2.minSize = f.size * 0.4; o2.maxSize = f.size * 2.5;
  gen::Gen q = gen::field(r, o2);
  t.a = f.m; t.size = f.size * 3; t.maxAbs = f.maxAbs + 4 * f.size;
  int k = r.i(0, 9);
  if (k == 0) {t.b = f.m; t.kind = "same";}
  else if (k == 1) {t.b = shift(f.m, P {r.u(-1, 1), r.u(-1, 1)} * f.size); t.kind = "shifted";}
  else if (k == 2) {t.b = scaled(f.m, f.m[0].rings[0][0], r.u(0.3, 1.7)); t.kind = "scaled";}
  else if (k == 3) {t.b = shift(q.m, f.off + P {20 * f.size, 0}); t.kind = "apart"; t.size *= 8; t.maxAbs += 30 * f.size;}
  else {t.b = shift(q.m, f.off + P {r.u(-1, 1), r.u(-1, 1)} * f.size); t.kind = "random";}
  return t;
}
// how far the result and the expression differ, and validity of the result
template <class F> void same(vf::Case& c, const MPoly& a, const MPoly& b, const F2CCells& res, F expr, double tol, const char* key) {
  MPoly r = cv::of(res);
  double bad = boolArea({&a, &b, &r}, [&] (uint32_t m) {return expr(m & 1, m & 2) != bool(m & 4);});
  double lim = tol * (perimeter(a) + perimeter(b) + perimeter(r)) + 1e-13 * (area(a) + area(b));
  c.check(bad <= lim, key, key, ": result differs from the expression by an area of ", bad, " (limit ", lim, "), areas ", area(a), " ", area(b), " ", area(r));
  double over = area(r) - areaUnion(r);
  c.check(std::fabs(over) <= lim, std::string(key) + "_overlap", "cells of the result overlap by ", over);
  c.near(res.area(), area(r), lim, std::string(key) + "_area");
  for (auto& p : r) {c.check(area(p) > 0, std::string(key) + "_no_area", "cell without area in the result");}
  for (int i = 0; i < res.get()->getNumGeometries(); ++i) {c.check(!res.get()->getGeometryRef(i)->IsEmpty() || res.size() == 0, std::string(key) + "_empty_cell", "empty cell in the result");}
}
}  // namespace
SCENARIO(pairs, 4000, 150000) {
  Two t = two(c.rng);
  c.desc = vf::cat(t.kind, " A ", str(t.a), " B ", str(t.b));
  c.robust([&] (double e) {
    MPoly bm = t.b;
    if (e != 0) {P o = bm[0].rings[0][0]; bm = mapM(bm, [&] (P p) {return o + (p - o) * (1 + e) + P {e, -e} * t.size;});}
    F2CCells A = cv::cells(t.a), B = cv::cells(bm);
    const std::string sa = cv::snapG(A), sb = cv::snapG(B);
    double tol = 1e-10 * t.size + 1e-14 * t.maxAbs;
    auto I = [] (bool x, bool y) {return x && y;};
    auto D = [] (bool x, bool y) {return x && !y;};
    auto U = [] (bool x, bool y) {return x || y;};
    F2CCells in = A.intersection(B), di = A.difference(B), un = A.unionOp(B);
    same(c, t.a, bm, in, I, tol, "intersection"); same(c, t.a, bm, di, D, tol, "difference"); same(c, t.a, bm, un, U, tol, "union");
    same(c, t.a, bm, A.getCellsInside(B), I, tol, "cells_inside");
    double AA = area(t.a), lim = tol * (perimeter(t.a) + perimeter(bm)) * 4 + 1e-12 * (AA + area(bm));
    c.near(in.area() + un.area(), AA + area(bm), lim, "inclusion_exclusion");
    c.near(in.area() + di.area(), AA, lim, "in_or_out");
    // single cells as operands
    F2CCell a0 = A.getGeometry(0), b0 = B.getGeometry(0);
    MPoly ma {t.a[0]}, mb {bm[0]};
    same(c, t.a, mb, A.intersection(b0), I, tol, "intersection_cell"); same(c, t.a, mb, A.difference(b0), D, tol, "difference_cell");
    same(c, t.a, mb, A.unionOp(b0), U, tol, "union_cell"); same(c, ma, mb, F2CCells::intersection(a0, b0), I, tol, "intersection_of_cells");
    // all in one set, with their overlaps
    F2CCells both = cv::cells(t.a);
    for (auto& p : bm) {both.addGeometry(cv::cell(p));}
    const std::string sboth = cv::snapG(both);
    F2CCells all = both.unionCascaded();
    same(c, t.a, bm, all, U, tol, "cascaded");
    c.check(cv::snapG(A) == sa && cv::snapG(B) == sb && cv::snapG(both) == sboth, "operand_changed", "an operand changed");
    c.count(in.size() ? "overlapping_pairs" : "pairs_without_common_area");
    c.sig(in.area()); c.sig(un.area()); c.sig(double(di.size()));
  });
}
// cells which overlap, touch along sides and touch at corners, all at once
SCENARIO(combs, 1200, 60000) {
  auto& r = c.rng;
  auto rect = [] (double x0, double y0, double x1, double y1) {return Ring {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};};
  int n = r.i(2, 9);
  bool comb = r.p(0.3);
  MPoly bar {Poly {{rect(0, 0, 4 * n, 4)}}}, teeth;
  Ring one;   // the teeth joined by a spine
  for (int i = 0; i < n; ++i) {
    int k = r.i(0, 4);   // overlapping, touching from above, touching from below, touching a corner or apart, inside
    double y0 = k == 0 ? r.i(1, 3) : k == 1 ? 4 : k == 2 ? -2 : k == 3 ? 5 : 1, y1 = k == 2 ? 0 : k == 4 ? 3 : 7;
    if (comb && (k == 2 || k == 4)) {y0 = 4; y1 = 7;}
    teeth.push_back(Poly {{rect(4 * i + 1, y0, 4 * i + 3, y1)}});
    if (comb) {one.push_back({4. * i + 1, y0}); one.push_back({4. * i + 3, y0}); if (i + 1 < n) {one.push_back({4. * i + 3, 7}); one.push_back({4. * i + 5, 7});}}
  }
  if (comb) {one.push_back({4. * n - 1, 9}); one.push_back({1, 9}); teeth = {Poly {{one}}};}
  else if (r.p(0.3)) {teeth.push_back(Poly {{rect(4 * n, 4, 4 * n + 2, 6)}});}
  double k = r.pick({1.0, 8.0, 0.25});
  P off = r.p(0.3) ? P {262144.0 * r.i(0, 3), 4194304.0} : P {0, 0};
  int turn = r.i(0, 3);
  auto put = [&] (P p) {for (int i = 0; i < turn; ++i) {p = {-p.y, p.x};} return p * k + off;};
  MPoly a = mapM(bar, put), b = mapM(teeth, put);
  c.desc = vf::cat("A ", str(a), " B ", str(b));
  F2CCells A = cv::cells(a), B = cv::cells(b);
  double tol = 1e-10 * 4 * n * k + 1e-14 * norm(off);
  auto I = [] (bool x, bool y) {return x && y;};
  auto D = [] (bool x, bool y) {return x && !y;};
  auto E = [] (bool x, bool y) {return y && !x;};
  auto U = [] (bool x, bool y) {return x || y;};
  same(c, a, b, A.intersection(B), I, tol, "intersection"); same(c, a, b, B.intersection(A), I, tol, "intersection_back");
  same(c, a, b, B.intersection(A.getCell(0)), I, tol, "intersection_with_cell"); same(c, a, b, B.getCellsInside(A), I, tol, "inside");
  same(c, a, b, A.difference(B), D, tol, "difference"); same(c, a, b, B.difference(A), E, tol, "difference_back");
  same(c, a, b, A.unionOp(B), U, tol, "union"); same(c, a, b, B.unionOp(A.getCell(0)), U, tol, "union_with_cell");
  if (B.size() == 1) {same(c, a, b, F2CCells::intersection(A.getCell(0), B.getCell(0)), I, tol, "intersection_of_cells");}
  // made from loose geometries: every area counts, lines and points do not
  OGRGeometryCollection gc; OGRPoint pt(1, 2); OGRLineString ln; ln.addPoint(0, 0); ln.addPoint(5, 5);
  for (auto& p : b) {if (r.p(0.3)) {gc.addGeometry(r.p(0.5) ? static_cast<OGRGeometry*>(&pt) : &ln);} gc.addGeometry(cv::cell(p).get());}
  if (r.p(0.5)) {gc.addGeometry(&ln);}
  F2CCells made(static_cast<const OGRGeometry*>(&gc));
  c.check(made.size() == b.size(), "made_of_loose", made.size(), " cells of ", b.size());
  same(c, a, b, made, [] (bool, bool y) {return y;}, tol, "loose");
  c.sig(n); c.sig(str(b));
}
SCENARIO(empties, 600, 20000) {
  Two t = two(c.rng);
  F2CCells A = cv::cells(t.a), none;
  F2CCell no;
  const std::string sa = cv::snapG(A);
  c.desc = vf::cat(t.kind, " A ", str(t.a));
  auto is = [&] (const F2CCells& r, double a, const char* key) {c.near(r.area(), a, 1e-9 * a, key); if (a == 0) {c.check(r.size() == 0 && r.isEmpty(), key, key, " is not empty but ", r.exportToWkt());}};
  double AA = area(t.a);
  is(A.intersection(none), 0, "with_empty"); is(none.intersection(A), 0, "empty_with"); is(A.intersection(no), 0, "with_empty_cell");
  is(A.difference(none), AA, "minus_empty"); is(none.difference(A), 0, "empty_minus"); is(A.difference(no), AA, "minus_empty_cell");
  is(A.unionOp(none), AA, "plus_empty"); is(none.unionOp(A), AA, "empty_plus"); is(A.unionOp(no), AA, "plus_empty_cell");
  is(none.unionCascaded(), 0, "no_cascade"); is(none.intersection(none), 0, "none"); is(none.difference(none), 0, "none"); is(none.unionOp(none), 0, "none");
  is(none.getCellsInside(A), 0, "empty_inside"); is(A.getCellsInside(none), 0, "inside_empty");
  is(F2CCells::intersection(no, A.getGeometry(0)), 0, "empty_cell"); is(F2CCells::intersection(A.getGeometry(0), no), 0, "empty_cell");
  F2CLineString l({F2CPoint(0, 0), F2CPoint(9, 9)});
  is(none.splitByLine(l), 0, "split_none");
  is(A.splitByLine(F2CMultiLineString()), AA, "split_by_nothing");
  is(A.splitByLine(F2CLineString()), AA, "split_by_empty_line");
  is(A.difference(A), 0, "minus_itself");
  c.check(cv::snapG(A) == sa, "operand_changed", "an operand changed");
  c.check(none.size() == 0 && no.size() == 0, "empty_changed", "an empty operand changed");
  // only touching: no common area
  double w = c.rng.i(1, 9), h = c.rng.i(1, 9), x = c.rng.i(-3, 3), y = c.rng.i(-3, 3);
  auto rect = [] (double x0, double y0, double a, double b) {return MPoly {Poly {{Ring {{x0, y0}, {x0 + a, y0}, {x0 + a, y0 + b}, {x0, y0 + b}}}}};};
  F2CCells L = cv::cells(rect(x, y, w, h)), R = cv::cells(rect(x + w, y + c.rng.i(-1, 1) * h, w, h));
  is(L.intersection(R), 0, "touching"); is(L.difference(R), w * h, "touching_minus"); is(L.unionOp(R), 2 * w * h, "touching_plus");
  c.count("empty_operands"); c.sig(AA); c.sig(w); c.sig(h);
}
SCENARIO(splits, 1500, 50000) {
  gen::Opt o; o.maxSize = 300; o.maxN = 9;
  gen::Gen f = gen::field(c.rng, o);
  auto& r = c.rng;
  Box b = box(f.m);
  int n = r.p(0.5) ? 1 : r.i(2, 4);
  std::vector<std::pair<P, double>> ls;
  for (int i = 0; i < n; ++i) {P q; if (!gen::interiorPoint(r, f.m, q)) {return;} ls.push_back({q, gen::angle(r)});}
  bool full = r.p(0.7);
  double D = (b.x1 - b.x0) + (b.y1 - b.y0);
  std::vector<std::vector<P>> lines;
  for (auto& l : ls) {
    if (full) {lines.push_back({l.first - dirOf(l.second) * D, l.first + dirOf(l.second) * D});}
    else {std::vector<P> v; for (int i = 0, k = r.i(2, 4); i < k; ++i) {v.push_back({r.u(b.x0, b.x1), r.u(b.y0, b.y1)});} lines.push_back(v);}
  }
  c.desc = vf::cat(f.kind, " ", str(f.m), " lines ", str(lines[0]));
  c.robust([&] (double e) {
    F2CCells A = cv::cells(f.m);
    const std::string sa = cv::snapG(A);
    F2CMultiLineString ml;
    auto lv = lines;
    for (size_t i = 0; i < lv.size(); ++i) {for (auto& p : lv[i]) {p = p + P {e, -e} * f.size;} ml.addGeometry(cv::line(lv[i]));}
    F2CCells res = lv.size() == 1 && r.p(0.5) ? A.splitByLine(cv::line(lv[0])) : A.splitByLine(ml);
    c.check(cv::snapG(A) == sa, "operand_changed", "splitting changed the cells");
    MPoly R = cv::of(res);
    double cuts = 0;
    for (auto& l : lv) {cuts += length(l);}
    double AA = area(f.m), tol = 1e-10 * f.size + 1e-14 * f.maxAbs, lim = tol * (perimeter(f.m) + 2 * cuts) + 1e-12 * AA + 1e-6 * 1 * cuts;
    c.check(areaDiff(f.m, R) <= lim, "split_lost", "splitting lost an area of ", areaDiff(f.m, R), " of ", AA);
    c.check(areaDiff(R, f.m) <= lim, "split_added", "splitting added an area of ", areaDiff(R, f.m));
    c.check(std::fabs(area(R) - areaUnion(R)) <= lim, "split_overlap", "pieces overlap by ", area(R) - areaUnion(R));
    c.count("pieces", R.size());
    if (full) {
      double side = 1e-6 + 1e-8 * f.size + 1e-13 * f.maxAbs;
      for (auto& l : lv) {
        P d = l[1] - l[0]; double len = norm(d);
        for (auto& p : R) {
          double lo = 0, hi = 0;
          for (auto q : p.rings[0]) {double s = crs(d, q - l[0]) / len; lo = std::min(lo, s); hi = std::max(hi, s);}
          // slivers between nearly coincident cuts are within reach of both sides
          c.check(lo >= -side || hi <= side, "straddles", "piece lies ", -lo, " on one and ", hi, " on the other side of a cut");
          c.count("sides");
        }
        // the line goes through the interior: there is something on both sides
        bool lft = false, rgt = false;
        for (auto& p : R) {for (auto q : p.rings[0]) {double s = crs(d, q - l[0]) / len; lft |= s > 0; rgt |= s < 0;}}
        c.check(lft && rgt, "one_side", "nothing left on a side of a cut");
      }
      c.check(R.size() >= f.m.size() + 1, "not_split", R.size(), " pieces of ", f.m.size(), " cells cut through");
    }
    c.sig(AA); c.sig(cuts); c.sig(double(R.size()));
  });
}
VF_MAIN
