// QUICK: 5
#include "vfall.hpp"
#include "fields2cover/headland_generator/constant_headland.h"
using namespace g;

// smallest distance of a vertex to the chord of its neighbours
static double flatness(const MPoly& m) {
  double f = INFINITY;
  for (auto& p : m) {for (auto& r0 : p.rings) {
    Ring r = open(r0);
    size_t n = r.size();
    for (size_t i = 0; i < n; ++i) {
      double d = distSeg(r[(i + 1) % n], r[i], r[(i + 2) % n]);
      if (d > 1e-9 * dist(r[i], r[(i + 2) % n])) {f = std::min(f, d);}
    }
  }}
  return f;
}

// the library's own failure to compute a buffer is reported by exception
template <class F> static bool tried(vf::Case& c, const gen::Gen& f, double d, F2CCells& out, F call) {
  try {out = call(); return true;} catch (const std::runtime_error&) {
    if (refs::canBuffer(f.m, -d)) {throw;}
    c.count("geos_failed"); return false;
  }
}
static void checkErosion(vf::Case& c, const gen::Gen& f, const F2CCells& res, double d, const std::string& k) {
  MPoly got = cv::of(res);
  double tol = 1e-6 * f.size + 2e-11 * f.maxAbs;
  // GEOS may drop vertices which stick out by less than a hundredth of the distance
  double ltol = tol + (flatness(f.m) < 0.03 * d ? 0.0105 * d : 0.0);
  double per = perimeter(f.m), A = area(f.m);
  c.sig(A); c.sig(d); c.sig(area(got)); c.count("mainland_vertices", nEdges(got));
  if (got.empty()) {c.count("eroded_away");}
  // 0. mitred erosion by the trusted library, of the whole set or cell by cell
  // (sharp corners of a hole may reach out of its cell into a neighbouring one)
  MPoly want;
  for (auto& p : f.m) {for (auto& q : refs::buffer(MPoly {p}, -d)) {want.push_back(q);}}
  double lim = 2 * tol * per + 1e-7 * A, d1 = areaSymDiff(got, want), d2 = d1;
  if (d1 > lim) {d2 = areaSymDiff(got, refs::buffer(f.m, -d));}
  bool asLib = c.check(d1 <= lim || d2 <= lim, k + "mitred", "mainland differs from mitred erosion by ", d1, " and ", d2, " d=", d);
  c.excusing(asLib, "geos_wrong", [&] {
    // 1. inside the field, at least d from every border
    edges(got, [&](P a, P b) {
      for (double t : {0.0, 0.3, 0.5, 0.8}) {
        P p = a + (b - a) * t;
        double db = distBorder(p, f.m);
        c.check(inside(p, f.m) || db <= tol, k + "outside_field", "mainland point ", p.x, " ", p.y, " outside field, d=", d);
        c.check(db >= d - ltol, k + "too_close", "mainland point ", p.x, " ", p.y, " at ", db, " < d=", d);
      }
    });
    c.check(areaDiff(got, f.m) <= tol * per + 1e-9 * A, k + "leaves_field", "mainland area outside field");
    for (auto& p : got) {
      for (size_t i = 1; i < p.rings.size(); ++i) {
        c.check(inside(p.rings[i][0], Poly {{p.rings[0]}}) || distBorder(p.rings[i][0], Poly {{p.rings[0]}}) <= tol, k + "hole_outside", "hole outside its cell");
      }
    }
    // 2. deep points are kept
    for (int t = 0; t < 40; ++t) {
      P p;
      if (!gen::interiorPoint(c.rng, f.m, p)) {break;}
      double db = distBorder(p, f.m);
      c.count("sampled_points");
      bool in = inside(p, got);
      if (in) {c.check(db >= d - ltol, k + "too_close_in", "kept point at ", db, " < d=", d);}
      if (db > 5 * d + ltol) {c.count("deep_points"); c.check(in || distBorder(p, got) <= tol, k + "deep_lost", "point at ", db, " > 5d lost, d=", d);}
      if (f.isConvex && db > 1.02 * d + ltol) {c.check(in || distBorder(p, got) <= tol, k + "convex_lost", "point at ", db, " lost from convex field, d=", d);}
    }
    // 3. exact erosion of a convex field
    if (f.isConvex) {
      Ring er = erodeConvex(f.m[0].rings[0], d);
      MPoly want;
      if (er.size() >= 3) {want.push_back({{er}});}
      // GEOS drops what is left shortly before a cell vanishes
      bool vanishing = erodeConvex(f.m[0].rings[0], 1.02 * d).size() < 3;
      c.check((got.empty() && vanishing) || areaSymDiff(got, want) <= ltol * per + 1e-7 * A, k + "convex_exact", "mainland differs from exact erosion by ",
        areaSymDiff(got, want), " areas ", area(got), " want ", area(want), " d=", d);
    }
  });
}

SCENARIO(erode, 6000, 100000) {
  gen::Gen f = gen::field(c.rng);
  double d0 = f.size * c.rng.pick({0.003, 0.01, 0.03, 0.07, 0.15, 0.4}) * c.rng.u(0.5, 1.5);
  c.desc = vf::cat(f.kind, " d=", d0, " ", str(f.m));
  F2CCells in = cv::cells(f.m);
  std::string before = cv::snapG(in);
  c.robust([&] (double eps) {
    double d = d0 * (1 + eps);
    f2c::hg::ConstHL hl;
    F2CCells res, res2;
    if (!tried(c, f, d, res, [&] {return hl.generateHeadlands(in, d);})) {return;}
    c.check(cv::snapG(in) == before, "input_modified", "input field modified");
    checkErosion(c, f, res, d, "");
    // n swaths of width w
    int n = c.rng.i(1, 12);
    if (!tried(c, f, d, res2, [&] {return hl.generateHeadlandArea(in, d / n, n);})) {return;}
    c.check(cv::snapG(in) == before, "input_modified", "input field modified by area");
    double tol = (1e-6 * f.size + 2e-11 * f.maxAbs) * perimeter(f.m);
    c.check(areaSymDiff(cv::of(res), cv::of(res2)) <= tol, "n_times_w", "n=", n, " w=", d / n, " differs from distance ", d);
  });
}
// different n for the same width
SCENARIO(n_swaths, 800, 20000) {
  gen::Gen f = gen::field(c.rng);
  double w0 = f.size * c.rng.u(0.004, 0.06);
  c.desc = vf::cat(f.kind, " w=", w0, " ", str(f.m));
  F2CCells in = cv::cells(f.m);
  c.robust([&] (double eps) {
    double w = w0 * (1 + eps);
    f2c::hg::ConstHL hl;
    for (int n = 0; n <= 6; ++n) {
      F2CCells r;
      if (!tried(c, f, n * w, r, [&] {return hl.generateHeadlandArea(in, w, n);})) {continue;}
      if (n == 0) {
        c.check(areaSymDiff(cv::of(r), f.m) <= 1e-9 * area(f.m) + 1e-10 * f.maxAbs * f.size, "zero_swaths", "0 swaths changed the field");
      } else {
        checkErosion(c, f, r, n * w, "n");
      }
    }
  });
}
SCENARIO(zero, 150, 2000) {
  gen::Gen f = gen::field(c.rng);
  c.desc = vf::cat(f.kind, " d=0 ", str(f.m));
  f2c::hg::ConstHL hl;
  F2CCells in = cv::cells(f.m);
  F2CCells r = hl.generateHeadlands(in, 0.0);
  MPoly got = cv::of(r);
  c.sig(area(got));
  c.check(areaSymDiff(got, f.m) <= 1e-9 * area(f.m) + 1e-10 * f.maxAbs * f.size, "zero", "distance 0 changed the field by ", areaSymDiff(got, f.m));
  c.check(got.size() == f.m.size(), "zero_count", "distance 0: ", got.size(), " cells from ", f.m.size());
}
// the result follows the field: translation by exact amounts
SCENARIO(big_distance, 100, 1000) {
  gen::Gen f = gen::field(c.rng);
  f2c::hg::ConstHL hl;
  c.desc = vf::cat(f.kind, " huge d ", str(f.m));
  F2CCells r = hl.generateHeadlands(cv::cells(f.m), f.size * c.rng.u(5, 50));
  c.sig(f.size);
  c.check(area(cv::of(r)) == 0, "nonempty", "a field shrunk beyond its width is not empty");
  F2CCells e;
  c.check(hl.generateHeadlands(e, 1.0).size() == 0, "empty_in", "empty field gives cells");
}
VF_MAIN
