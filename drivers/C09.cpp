// NOTE: fraction kept recomputed with exact areas; sign rules of every objective class
// QUICK: 40
#include "vfall.hpp"
#include "fields2cover/objectives/hg_obj/rem_area.h"
#include "fields2cover/objectives/decomp_obj/decomp_objective.h"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/headland_generator/constant_headland.h"
using namespace g;
namespace ob = f2c::obj;

SCENARIO(fraction, 900, 20000) {
  gen::Opt o; o.offsets = c.rng.p(0.3); o.maxN = 9;
  gen::Gen f = gen::field(c.rng, o), r = gen::field(c.rng, o);
  // bring the remaining surface over the field
  Box b1 = box(f.m), b2 = box(r.m);
  double k = f.size / r.size * c.rng.u(0.3, 1.5);
  P mv {c.rng.u(b1.x0, b1.x1), c.rng.u(b1.y0, b1.y1)}, ct {(b2.x0 + b2.x1) / 2, (b2.y0 + b2.y1) / 2};
  r.m = mapM(r.m, [&](P p) {return mv + (p - ct) * k;});
  int kind = c.rng.i(0, 3);
  if (c.rng.p(0.3)) {r.m = MPoly {r.m[0]};}
  MPoly tm = kind & 1 ? f.m : MPoly {f.m[0]}, rm = kind & 2 ? r.m : MPoly {r.m[0]};
  c.desc = vf::cat("kind ", kind, " total ", str(tm), " rest ", str(rm));
  ob::RemArea ra; ob::HGObjective hg;
  double A = area(tm), want = areaInter(tm, rm) / A;
  c.sig(A); c.sig(want); c.sig(kind);
  if (want > 0 && want < 1) {c.count("partial");}
  c.robust([&] (double e) {
    MPoly r2 = mapM(rm, [&](P p) {return p + P {e * f.size, -e * f.size};});
    F2CCells T = cv::cells(tm), R = cv::cells(r2);
    F2CCell t = cv::cell(tm[0]), q = cv::cell(r2[0]);
    std::string s1 = cv::snapG(T), s2 = cv::snapG(R);
    auto cost = [&] (ob::HGObjective& x) {
      switch (kind) {
        case 0: return x.computeCost(t, q);
        case 1: return x.computeCost(T, q);
        case 2: return x.computeCost(t, R);
        default: return x.computeCost(T, R);
      }
    };
    auto costS = [&] (ob::HGObjective& x) {
      switch (kind) {
        case 0: return x.computeCostWithMinimizingSign(t, q);
        case 1: return x.computeCostWithMinimizingSign(T, q);
        case 2: return x.computeCostWithMinimizingSign(t, R);
        default: return x.computeCostWithMinimizingSign(T, R);
      }
    };
    double tol = 1e-6 + 1e-11 * f.maxAbs * f.size / A, v = cost(ra);
    c.near(v, want, tol, "fraction", "fraction that remains");
    c.near(cost(hg), want, tol, "fraction_base", "fraction that remains (base class)");
    c.check(v >= -1e-9 && v <= 1 + 1e-9, "range", "fraction ", v);
    c.near(costS(ra), -v, 0, "sign", "the remaining area is to be maximised");
    // everything, nothing
    c.near(kind & 1 ? ra.computeCost(T, T) : ra.computeCost(t, t), 1, 1e-9, "all", "everything remains");
    c.near(kind & 1 ? ra.computeCost(T, F2CCells()) : ra.computeCost(t, F2CCells()), 0, 1e-9, "nothing", "nothing remains");
    c.check(cv::snapG(T) == s1 && cv::snapG(R) == s2, "input_modified", "operands were modified");
  });
}
SCENARIO(grows, 200, 5000) {
  gen::Opt o; o.offsets = false;
  gen::Gen f = gen::field(c.rng, o);
  F2CCells T = cv::cells(f.m);
  ob::RemArea ra;
  f2c::hg::ConstHL hl;
  double prev = 1, d = 0;
  c.desc = vf::cat(f.kind, " ", str(f.m));
  c.sig(area(f.m));
  c.robust([&] (double e) {
    prev = 1; d = 0;
    for (int i = 0; i < 4; ++i) {
      d += f.size * (0.01 + 0.03 * i) * (1 + e);
      F2CCells R = hl.generateHeadlands(T, d);
      double v = ra.computeCost(T, R);
      c.near(v, area(cv::of(R)) / area(f.m), 1e-6, "headland_fraction", "fraction left by a headland of ", d);
      c.check(v <= prev + 1e-9, "not_growing", "a larger headland leaves more");
      prev = v;
    }
  });
}
struct MaxRP : ob::RPObjective {bool isMinimizing() const override {return false;}};
struct MaxDec : ob::DecompObjective {
  bool isMinimizing() const override {return false;}
  double computeCost(const F2CCells& x) override {return double(x.size());}
};
struct MinDec : ob::DecompObjective {double computeCost(const F2CCells& x) override {return double(x.size());}};
SCENARIO(signs, 100, 1000) {
  ob::NSwath a; ob::NSwathModified b; ob::SwathLength d; ob::Overlaps e; ob::FieldCoverage f; ob::SGObjective s;
  auto excl = [&] (const auto& x, bool mini, const char* n) {
    c.check(x.isMinimizing() == mini && x.isMaximizing() == !mini, std::string("sign_") + n, "minimises ", x.isMinimizing(), " maximises ", x.isMaximizing());
  };
  ob::RemArea ra; ob::HGObjective hg; ob::DecompObjective dec; ob::DirectDistPathObj dd; ob::RPObjective rp; MaxRP mrp; MaxDec mdec;
  excl(a, true, "NSwath"); excl(b, true, "NSwathModified"); excl(d, true, "SwathLength"); excl(e, true, "Overlaps"); excl(f, false, "FieldCoverage");
  excl(s, true, "SG"); excl(ra, false, "RemArea"); excl(hg, true, "HG"); excl(dec, true, "Decomp"); excl(dd, true, "DirectDist"); excl(rp, true, "RP");
  excl(mrp, false, "MaxRP");
  P p {c.rng.u(-50, 50), c.rng.u(-50, 50)}, q {c.rng.u(-50, 50), c.rng.u(-50, 50)};
  double D = dist(p, q), x = c.rng.u(0, 6), y = c.rng.u(0, 6);
  F2CPoint P1 = cv::pt(p), P2 = cv::pt(q);
  c.sig(D);
  for (ob::RPObjective* o : {static_cast<ob::RPObjective*>(&dd), static_cast<ob::RPObjective*>(&rp), static_cast<ob::RPObjective*>(&mrp)}) {
    double g = o == &mrp ? -1 : 1;
    c.near(o->computeCostWithMinimizingSign(P1, P2), g * D, 1e-12 * D, "sign2", "two arguments");
    c.near(o->computeCostWithMinimizingSign(P1, x, P2), g * D, 1e-12 * D, "sign3", "three arguments");
    c.near(o->computeCostWithMinimizingSign(P1, x, P2, y), g * D, 1e-12 * D, "sign4", "four arguments");
    F2CSwath sw(cv::line({p, q}), 1.0);
    c.near(o->computeCostWithMinimizingSign(sw), g * D, 1e-12 * D, "sign1", "one argument");
  }
  F2CCells cs = cv::cells(MPoly {Poly {{Ring {{0, 0}, {1, 0}, {1, 1}}}}, Poly {{Ring {{5, 0}, {6, 0}, {6, 1}}}}});
  MinDec md;
  c.near(mdec.computeCostWithMinimizingSign(cs), -2, 0, "sign_dec", "maximised");
  c.near(md.computeCostWithMinimizingSign(cs), 2, 0, "sign_dec_min", "minimised");
  F2CSwaths sws; sws.append(cv::line({p, q}), 0.5);
  F2CCell cell = cv::cell(Poly {{Ring {{-50, -50}, {50, -50}, {50, 50}, {-50, 50}}}});
  c.near(f.computeCostWithMinimizingSign(cell, sws), -f.computeCost(cell, sws), 0, "sign_cov", "coverage");
  c.near(e.computeCostWithMinimizingSign(cell, sws), e.computeCost(cell, sws), 0, "sign_ov", "overlaps");
  c.near(d.computeCostWithMinimizingSign(sws), D, 1e-9, "sign_len", "length");
  c.near(b.computeCostWithMinimizingSign(x, 2.0, cell), b.computeCost(x, 2.0, cell), 0, "sign_est", "estimate");
}
VF_MAIN
