// QUICK: 3
#include "vfall.hpp"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
using namespace g;

static gen::Opt opts() {gen::Opt o; o.maxSize = 300; o.maxN = 9; return o;}

static void checkSplit(vf::Case& c, const gen::Gen& f, const MPoly& got, const std::string& k, double cuts) {
  double tol = 1e-9 * f.size + 1e-14 * f.maxAbs, A = area(f.m);
  double lim = 1e-9 * A + tol * perimeter(f.m) + (6e-8 + 1e-14 * f.maxAbs) * cuts;
  c.sig(double(got.size())); c.sig(A); c.count("cells_out", got.size());
  c.check(areaDiff(f.m, got) <= lim, k + "lost", "surface lost ", areaDiff(f.m, got), " of ", A, " lim ", lim);
  c.check(areaDiff(got, f.m) <= lim, k + "added", "surface added ", areaDiff(got, f.m));
  double sum = area(got), uni = areaUnion(got);
  c.check(std::fabs(sum - uni) <= lim, k + "overlap", "cells overlap by ", sum - uni);
  for (size_t i = 0; i < got.size(); ++i) {
    c.check(area(got[i]) > 0, k + "no_area", "cell without area");
  }
  // holes stay holes: points of them are in no cell
  for (auto& p : f.m) {
    for (size_t h = 1; h < p.rings.size(); ++h) {
      for (int t = 0; t < 4; ++t) {
        P q;
        if (gen::interiorPoint(c.rng, MPoly {{{p.rings[h]}}}, q, 10 * tol)) {
          c.count("hole_points");
          c.check(!inside(q, got), k + "hole_filled", "point of a hole is inside a cell");
        }
      }
    }
  }
}
SCENARIO(decompose, 500, 15000) {
  gen::Gen f = gen::field(c.rng, opts());
  double a = gen::angle(c.rng);
  int kind = c.rng.i(0, 1);
  c.desc = vf::cat(kind ? "boustrophedon " : "trapezoidal ", f.kind, " angle=", a, " ", str(f.m));
  F2CCells in = cv::cells(f.m);
  std::string before = cv::snapG(in);
  c.robust([&] (double e) {
    f2c::decomp::TrapezoidalDecomp t;
    f2c::decomp::BoustrophedonDecomp b;
    f2c::decomp::TrapezoidalDecomp& d = kind ? b : t;
    d.setSplitAngle(a + e);
    std::string k = kind ? "b_" : "t_";
    f2c::obj::DecompObjective obj;
    F2CMultiLineString lines = d.genSplitLines(in, obj);
    c.check(cv::snapG(in) == before, k + "input_modified", "input modified by genSplitLines");
    Box bx = box(f.m);
    double cuts = 0, tol = 1e-6 * f.size + 1e-9 * f.maxAbs;
    for (auto& l : cv::of(lines)) {
      cuts += length(l);
      c.count("split_lines");
      for (auto p : l) {
        c.check(p.x >= bx.x0 - tol && p.x <= bx.x1 + tol && p.y >= bx.y0 - tol && p.y <= bx.y1 + tol, k + "line_leaves", "split line leaves the bounding area");
      }
    }
    F2CCells res = d.decompose(in);
    c.check(cv::snapG(in) == before, k + "input_modified", "input modified by decompose");
    checkSplit(c, f, cv::of(res), k, cuts);
    F2CCells sp = d.split(in, obj);
    c.check(cv::snapG(in) == before, k + "input_modified", "input modified by split");
    c.check(cv::of(sp).size() == cv::of(res).size() && areaSymDiff(cv::of(sp), cv::of(res)) <= 1e-9 * area(f.m), k + "split_vs_decompose",
      "split gives another result than decompose: ", cv::of(sp).size(), " and ", cv::of(res).size());
    if (c.rng.p(0.2)) {
      F2CCells mg = d.merge(in, obj);
      checkSplit(c, f, cv::of(mg), k + "merge_", 0);
    }
    // the same object again gives the same
    F2CCells res2 = d.decompose(in);
    c.check(cv::snapG(res2) == cv::snapG(res), k + "repeat", "second decomposition differs");
  });
}
SCENARIO(empty, 16, 64) {
  f2c::decomp::TrapezoidalDecomp t;
  f2c::decomp::BoustrophedonDecomp b;
  double a = gen::angle(c.rng);
  t.setSplitAngle(a); b.setSplitAngle(a);
  F2CCells e;
  c.sig(a);
  c.check(t.decompose(e).size() == 0, "t_empty", "cells out of nothing");
  c.check(b.decompose(e).size() == 0, "b_empty", "cells out of nothing");
}
VF_MAIN
