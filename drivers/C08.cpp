// NOTE: every objective recomputed with independent geometry
// QUICK: 3
#include "vfall.hpp"
#include "fields2cover/swath_generator/brute_force.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
using namespace g;
namespace ob = f2c::obj;

static Ring rectOf(P a, P b, double w) {
  P d = b - a; double L = norm(d);
  P n = P {-d.y, d.x} * (w / 2 / L);
  return {a + n, b + n, b - n, a - n};
}
static std::vector<std::vector<P>> randomLines(vf::Case& c, const gen::Gen& f, int n) {
  std::vector<std::vector<P>> l;
  Box b = box(f.m);
  double base = gen::angle(c.rng);
  for (int i = 0; i < n; ++i) {
    P p {c.rng.u(b.x0, b.x1), c.rng.u(b.y0, b.y1)};
    double a = c.rng.p(0.5) ? base : gen::angle(c.rng);
    l.push_back({p, p + dirOf(a) * (f.size * c.rng.logu(0.05, 2))});
  }
  return l;
}
SCENARIO(areas, 500, 12000) {
  gen::Opt o; o.offsets = c.rng.p(0.2); o.maxN = 8;
  gen::Gen f = gen::field(c.rng, o);
  int n = c.rng.i(0, 9);
  double w = f.size * c.rng.logu(0.02, 0.6);
  auto lines = randomLines(c, f, n);
  bool several = f.m.size() > 1 || c.rng.p(0.3);
  bool mixed = c.rng.p(0.4);    // different widths, for overlaps only
  std::vector<double> ws;
  for (int i = 0; i < n; ++i) {ws.push_back(mixed ? w * c.rng.u(0.3, 2) : w);}
  F2CCells in = cv::cells(f.m);
  F2CCell one = cv::cell(f.m[0]);
  MPoly m = several ? f.m : MPoly {f.m[0]};
  double A = area(m);
  c.desc = vf::cat(f.kind, " n=", n, " w=", w, " ", str(m));
  for (auto& l : lines) {c.desc += str(l);}
  c.sig(A); c.sig(w); c.sig(n);
  c.robust([&] (double e) {
    F2CSwaths s;
    MPoly rs;
    for (int i = 0; i < n; ++i) {
      P q = lines[i][1] + P {e * f.size, 2 * e * f.size};
      s.append(cv::line({lines[i][0], q}), ws[i]);
      rs.push_back({{rectOf(lines[i][0], q, ws[i])}});
    }
    ob::Overlaps ov;
    double wantOv = 0;
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < i; ++j) {
        MPoly a {rs[i]}, b {rs[j]};
        wantOv += boolArea({&a, &b, &m}, [](uint32_t k) {return k == 7;});
      }
    }
    wantOv /= A;
    double tol = 1e-6 * (1 + wantOv) + 1e-12 * f.maxAbs * n * f.size / A;
    c.near(several ? ov.computeCost(in, s) : ov.computeCost(one, s), wantOv, tol, "overlaps", "share of the area worked by each pair");
    if (wantOv > 0) {c.count("overlapping_sets");}
    if (!mixed) {
      ob::FieldCoverage fc;
      MPoly u = rs;
      double want = n ? areaInter(u, m) / A : 0;
      double got = several ? fc.computeCost(in, s) : fc.computeCost(one, s);
      c.near(got, want, 1e-6 + 1e-12 * f.maxAbs * n * f.size / A, "coverage", "fraction within half a width of a swath");
      c.check(got >= 0 && got <= 1 + 1e-9, "coverage_range", "coverage ", got);
      c.check(fc.isMaximizing() && !fc.isMinimizing(), "coverage_sign", "coverage is to be maximised");
      if (want > 0 && want < 1) {c.count("partial_coverage");}
    }
  });
}
SCENARIO(counts_and_lengths, 600, 12000) {
  gen::Opt o; o.offsets = c.rng.p(0.3); o.maxN = 8;
  gen::Gen f = gen::field(c.rng, o);
  int groups = c.rng.i(0, 5);
  F2CSwathsByCells by;
  F2CCells in = cv::cells(f.m);
  F2CCell one = cv::cell(f.m[0]);
  ob::NSwath ns; ob::SwathLength sl; ob::NSwathModified nm;
  double total = 0; size_t cnt = 0;
  c.desc = vf::cat(f.kind, " groups=", groups);
  c.sig(groups); c.sig(f.size);
  for (int k = 0; k < groups; ++k) {
    F2CSwaths s;
    double len = 0;
    int n = c.rng.i(0, 6);
    for (int i = 0; i < n; ++i) {
      std::vector<P> l;
      int np = c.rng.p(0.7) ? 2 : c.rng.i(2, 6);
      Box b = box(f.m);
      for (int j = 0; j < np; ++j) {l.push_back({c.rng.u(b.x0, b.x1), c.rng.u(b.y0, b.y1)});}
      double L = length(l);
      s.append(cv::line(l), c.rng.u(0.1, 10));
      if (c.rng.p(0.4)) {   // counted whatever its kind, number or direction
        s.back().setType(c.rng.p(0.5) ? f2c::types::SwathType::MAINLAND : f2c::types::SwathType::HEADLAND);
        s.back().setId(c.rng.i(-3, 20));
        if (c.rng.p(0.5)) {s.back().reverse();}
      }
      len += L;
      c.near(sl.computeCost(s.back()), L, 1e-12 * (L + f.maxAbs), "length_one", "length of a swath");
      c.near(ns.computeCost(s.back()), 1, 0, "count_one", "a swath counts one");
      c.near(nm.computeCost(s.back()), 1, 0, "count_one_m", "a swath counts one");
    }
    total += len; cnt += size_t(n);
    double tol = 1e-11 * (len + f.maxAbs);
    c.near(sl.computeCost(s), len, tol, "length", "sum of lengths");
    c.near(sl.computeCost(one, s), len, tol, "length_cell", "sum of lengths, with the cell");
    c.near(sl.computeCost(in, s), len, tol, "length_cells", "sum of lengths, with the cells");
    c.near(ns.computeCost(s), n, 0, "count", "number of swaths");
    c.near(ns.computeCost(one, s), n, 0, "count_cell", "number of swaths, with the cell");
    c.near(ns.computeCost(in, s), n, 0, "count_cells", "number of swaths, with the cells");
    c.near(nm.computeCost(s), n, 0, "count_m", "number of swaths");
    c.near(sl.computeCostWithMinimizingSign(s), len, tol, "length_sign", "cost with sign");
    by.emplace_back(s);
  }
  double tol = 1e-11 * (total + f.maxAbs);
  c.near(sl.computeCost(by), total, tol, "length_groups", "sum over the groups");
  c.near(sl.computeCost(one, by), total, tol, "length_groups_cell", "sum over the groups");
  c.near(sl.computeCost(in, by), total, tol, "length_groups_cells", "sum over the groups");
  c.near(ns.computeCost(by), double(cnt), 0, "count_groups", "number of swaths in groups");
  c.near(ns.computeCost(one, by), double(cnt), 0, "count_groups_cell", "number of swaths in groups");
  c.near(ns.computeCost(in, by), double(cnt), 0, "count_groups_cells", "number of swaths in groups");
  c.count("groups", groups); c.count("swaths", cnt);
}
SCENARIO(estimate, 600, 12000) {
  gen::Opt o; o.offsets = c.rng.p(0.3);
  o.multi = false;
  gen::Gen f = gen::field(c.rng, o);
  double a = gen::angle(c.rng), w = f.size * c.rng.logu(0.01, 2);
  F2CCell one = cv::cell(f.m[0]);
  double s = 0;
  edges(f.m, [&](P p, P q) {s += std::fabs(double(ld(q.x - p.x) * sinl(a) - ld(q.y - p.y) * cosl(a)));});
  ob::NSwathModified nm;
  c.desc = vf::cat(f.kind, " angle=", a, " w=", w, " ", str(f.m));
  c.sig(a); c.sig(w); c.sig(s);
  double want = s / (2 * w), tol = (1e-9 * f.size + 1e-14 * f.maxAbs) * 20 / w;
  c.near(nm.computeCost(a, w, one), want, tol, "estimate", "half the border seen across the angle over the width");
  c.near(nm.computeCostWithMinimizingSign(a, w, one), want, tol, "estimate_sign", "to be minimised");
  c.check(nm.isFastCompAvailable(), "fast", "the estimate needs no swaths");
  // a convex cell: the estimate is its extent across the angle over the width
  if (f.isConvex) {
    double y0 = INFINITY, y1 = -INFINITY;
    edges(f.m, [&](P p, P) {double y = rot(p, -a).y; y0 = std::min(y0, y); y1 = std::max(y1, y);});
    c.near(nm.computeCost(a, w, one), (y1 - y0) / w, tol + 1e-13 * f.maxAbs / w, "extent", "extent over width of a convex cell");
    c.count("convex");
  }
  c.near(nm.computeCost(a, -w, one), 0, 0, "no_width", "no estimate without width");
}
// group overloads of area objectives are sums over members
SCENARIO(group_sums, 120, 2000) {
  gen::Opt o; o.offsets = false; o.maxN = 6; o.maxSize = 100;
  gen::Gen f = gen::field(c.rng, o);
  F2CCells in = cv::cells(f.m);
  F2CCell one = cv::cell(f.m[0]);
  ob::FieldCoverage fc; ob::Overlaps ov;
  F2CSwathsByCells by;
  double s1 = 0, s2 = 0, s3 = 0, s4 = 0;
  int n = c.rng.i(0, 3);
  double w = f.size * c.rng.u(0.1, 0.5);
  for (int k = 0; k < n; ++k) {
    F2CSwaths s;
    int ns = c.rng.i(0, 4);
    auto ls = randomLines(c, f, ns);
    for (auto& l : ls) {s.append(cv::line(l), w);}
    s1 += fc.computeCost(in, s); s2 += fc.computeCost(one, s); s3 += ov.computeCost(in, s); s4 += ov.computeCost(one, s);
    by.emplace_back(s);
  }
  c.sig(n); c.sig(s1); c.sig(w);
  c.near(fc.computeCost(in, by), s1, 1e-12 * (1 + s1), "coverage_groups", "sum over groups");
  c.near(fc.computeCost(one, by), s2, 1e-12 * (1 + s2), "coverage_groups_cell", "sum over groups");
  c.near(ov.computeCost(in, by), s3, 1e-12 * (1 + s3), "overlap_groups", "sum over groups");
  c.near(ov.computeCost(one, by), s4, 1e-12 * (1 + s4), "overlap_groups_cell", "sum over groups");
}
// the generator's own swaths: next to each other, so that the covered areas add up and nothing is covered twice
SCENARIO(neighbours, 1500, 60000) {
  gen::Opt o; o.offsets = c.rng.p(0.2);
  gen::Gen f = gen::field(c.rng, o);
  MPoly m {f.m[0]};
  double w = f.size * c.rng.logu(0.03, 0.4), a = gen::angle(c.rng);
  F2CCell cell = cv::cell(f.m[0]);
  f2c::sg::BruteForce b; b.setAllowOverlap(c.rng.p(0.5));
  c.desc = vf::cat(f.kind, " w=", w, " angle ", a, " ", str(m));
  c.sig(w); c.sig(a);
  c.robust([&] (double e) {
    F2CSwaths s = b.generateSwaths(a, w * (1 + e), cell);
    if (s.size() == 0) {return;}
    double want = 0, A = area(m), across = 0;
    for (auto& q : s) {
      auto l = cv::of(q.getPath());
      MPoly r {Poly {{rectOf(l[0], l[1], w * (1 + e))}}};
      want += areaInter(r, m) / A; across += area(r) / A;
    }
    ob::FieldCoverage fc; ob::Overlaps ov;
    double tol = 1e-5 + 1e-11 * f.maxAbs * s.size() * f.size / A;
    c.near(fc.computeCost(cell, s), want, tol, "neighbours_coverage", "share covered by ", s.size(), " swaths next to each other");
    c.near(ov.computeCost(cell, s), 0, tol, "neighbours_overlap", "share covered twice");
    c.count("neighbouring_swaths", s.size());
  });
}
VF_MAIN
