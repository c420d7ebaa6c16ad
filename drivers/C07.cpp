// NOTE: brute enumeration of every angle against the chosen one, with recorded user-defined objectives
// QUICK: 2.5
#include "vfall.hpp"
#include "fields2cover/swath_generator/brute_force.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
using namespace g;
static const double TWO_PI = 6.283185307179586476925286766559;

// objective whose cost of an angle is pseudo-random, with many ties
struct HashObj : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  uint64_t seed; int levels; bool fast, mini;
  HashObj(uint64_t s, int l, bool f, bool m) : seed(s), levels(l), fast(f), mini(m) {}
  double val(double ang) const {return double(vf::mix(seed ^ uint64_t(std::llround(g::mod2pi(ang) * 1e7))) % uint64_t(levels)) - levels / 3;}
  bool isFastCompAvailable() const override {return fast;}
  bool isMinimizing() const override {return mini;}
  double computeCost(double ang, double, const F2CCell&) override {return val(ang);}
  // the direction of the first swath tells the angle
  double computeCost(const F2CCell&, const F2CSwaths& s) override {
    if (s.size() == 0) {return 0;}
    auto l = cv::of(s.at(0).getPath());
    P d = l.back() - l.front();
    return double(vf::mix(seed ^ uint64_t(std::llround(g::mod2pi(std::atan2(d.y, d.x)) * 1e5))) % uint64_t(levels)) - levels / 3;
  }
};
static double someStep(vf::Rng& r) {
  switch (r.i(0, 4)) {
    case 0: return TWO_PI / r.i(1, 40) * (1 - 1e-9);      // a whole number of steps
    case 1: return r.u(0.05, 0.5);
    case 2: return r.u(0.5, 3.5);
    case 3: return r.u(3.2, 6.2);
    default: return r.u(0.1, 1.5);
  }
}
static std::vector<double> angles(double step) {
  std::vector<double> a;
  long n = std::max(1L, long(TWO_PI / step));
  for (long k = 0; k < n; ++k) {a.push_back(k * step);}
  return a;
}
template <class COST> static void judge(vf::Case& c, double got, double step, bool mini, bool exactTies, COST cost) {
  auto as = angles(step);
  double k = got / step;
  c.check(std::isfinite(got) && got >= -1e-12 && got < TWO_PI + 1e-9 && std::fabs(k - std::round(k)) < 1e-6, "not_multiple", "angle ", got, " is no multiple of ", step, " within one turn");
  std::vector<double> v;
  double best = INFINITY;
  for (double a : as) {v.push_back((mini ? 1 : -1) * cost(a)); best = std::min(best, v.back());}
  c.count("angles_examined", as.size());
  double mine = (mini ? 1 : -1) * cost(got);
  double tol = exactTies ? 0 : 1e-9 * (1 + std::fabs(best));
  c.check(mine <= best + tol, "not_best", "chosen ", got, " costs ", mine, " but the best costs ", best);
  if (exactTies) {
    for (size_t i = 0; i < as.size(); ++i) {
      if (v[i] <= mine) {
        c.check(std::fabs(as[i] - got) < 1e-9, "tie", "angle ", as[i], " is as good as ", got, " and smaller");
        break;
      }
    }
  }
}
SCENARIO(any_objective, 600, 12000) {
  gen::Opt o; o.multi = false; o.maxN = 8; o.holes = false;
  gen::Gen f = gen::field(c.rng, o);
  double step = someStep(c.rng), w = f.size * c.rng.logu(0.05, 0.5);
  bool fast = c.rng.p(0.6), mini = c.rng.p(0.5);
  uint64_t sd = c.rng.next(); int lv = c.rng.pick({2, 3, 5, 50, 1000000});
  HashObj obj(sd, lv, fast, mini);
  F2CCell in = cv::cell(f.m[0]);
  c.desc = vf::cat("hash objective fast=", fast, " minimise=", mini, " levels=", lv, " step=", step, " w=", w, " ", str(f.m));
  f2c::sg::BruteForce sg;
  sg.setStepAngle(step);
  c.check(sg.getStepAngle() == step, "step_kept", "step angle not kept");
  std::string before = cv::snapG(in);
  double got = sg.computeBestAngle(obj, w, in);
  c.check(cv::snapG(in) == before, "input_modified", "the cell was modified");
  c.sig(got); c.sig(step); c.sig(w);
  f2c::sg::BruteForce sg2;
  judge(c, got, step, mini, true, [&] (double a) {
    return fast ? obj.val(a) : obj.computeCost(in, sg2.generateSwaths(a, w, in));
  });
  c.check(sg.computeBestAngle(obj, w, in) == got, "not_repeatable", "another angle is chosen the second time");
  F2CSwaths s = sg.generateBestSwaths(obj, w, in), s2 = sg2.generateSwaths(got, w, in);
  bool same = s.size() == s2.size();
  for (size_t i = 0; same && i < s.size(); ++i) {
    same = cv::of(s[i].getPath()).size() == cv::of(s2[i].getPath()).size() && s[i].getId() == s2[i].getId() && s[i].getWidth() == s2[i].getWidth();
    for (size_t j = 0; same && j < s[i].numPoints(); ++j) {same = dist(cv::of(s[i].getPath())[j], cv::of(s2[i].getPath())[j]) < 1e-9 * f.size + 1e-14 * f.maxAbs;}
  }
  c.check(same, "best_swaths", "the best swaths are not the swaths at the best angle");
}
SCENARIO(library_objectives, 80, 2000) {
  gen::Opt o; o.multi = false; o.maxN = 7; o.offsets = false;
  gen::Gen f = gen::field(c.rng, o);
  double step = c.rng.p(0.2) ? TWO_PI / 360 : c.rng.u(0.15, 1), w = f.size * c.rng.logu(0.08, 0.5);
  int kind = c.rng.i(0, 4);
  if (kind > 2 && step < 0.1) {w = f.size * c.rng.u(0.25, 0.5);}   // these objectives are slow
  F2CCell in = cv::cell(f.m[0]);
  c.desc = vf::cat("objective ", kind, " step=", step, " w=", w, " ", str(f.m));
  f2c::obj::NSwath o0; f2c::obj::NSwathModified o1; f2c::obj::SwathLength o2; f2c::obj::FieldCoverage o3; f2c::obj::Overlaps o4;
  f2c::obj::SGObjective* ob[] = {&o0, &o1, &o2, &o3, &o4};
  f2c::obj::SGObjective& obj = *ob[kind];
  c.robust([&] (double e) {
    double ww = w * (1 + e);
    f2c::sg::BruteForce sg;
    if (step != TWO_PI / 360) {sg.setStepAngle(step);}
    double st = sg.getStepAngle();
    double got = sg.computeBestAngle(obj, ww, in);
    c.sig(got); c.sig(ww); c.sig(kind);
    judge(c, got, st, kind != 3, false, [&] (double a) -> double {
      if (kind == 1) {   // estimate recomputed
        double s = 0;
        edges(f.m, [&](P p, P q) {P d = q - p; s += std::fabs(crs(d, dirOf(a)));});
        return s / (2 * ww);
      }
      F2CSwaths sw = sg.generateSwaths(a, ww, in);
      if (kind == 0) {return double(sw.size());}
      if (kind == 2) {double s = 0; for (auto& x : sw) {s += length(cv::of(x.getPath()));} return s;}
      return obj.computeCost(in, sw);
    });
  });
}
SCENARIO(several_cells, 150, 3000) {
  int n = c.rng.i(1, 4);
  MPoly m;
  for (int i = 0; i < n; ++i) {
    gen::Opt o; o.multi = false; o.maxN = 6; o.offsets = false; o.minSize = o.maxSize = 50;
    auto f = gen::field(c.rng, o);
    for (auto& r : f.m[0].rings) {for (auto& v : r) {v = v + P {i * 250.0, 0};}}
    m.push_back(f.m[0]);
  }
  F2CCells in = cv::cells(m);
  double step = c.rng.u(0.2, 1.2), w = c.rng.u(4, 25);
  bool mini = c.rng.p(0.5);
  HashObj obj(c.rng.next(), 1000, false, mini);
  f2c::obj::NSwathModified nm;
  bool useNm = c.rng.p(0.4);
  f2c::obj::SGObjective& ob = useNm ? static_cast<f2c::obj::SGObjective&>(nm) : obj;
  c.desc = vf::cat("several ", n, " step=", step, " w=", w, " ", str(m));
  f2c::sg::BruteForce sg;
  sg.setStepAngle(step);
  F2CSwathsByCells all = sg.generateBestSwaths(ob, w, in);
  c.require(all.size() == size_t(n), "groups", all.size(), " groups for ", n, " cells");
  c.sig(step); c.sig(w); c.sig(n);
  for (int i = 0; i < n; ++i) {
    F2CCell ci = cv::cell(m[i]);
    F2CSwaths s = sg.generateSwaths(sg.computeBestAngle(ob, w, ci), w, ci);
    bool same = s.size() == all[i].size();
    for (size_t j = 0; same && j < s.size(); ++j) {
      same = dist(cv::of(s[j].startPoint()), cv::of(all[i][j].startPoint())) < 1e-7 && dist(cv::of(s[j].endPoint()), cv::of(all[i][j].endPoint())) < 1e-7 && all[i][j].getId() == int(j);
    }
    c.count("cells");
    c.check(same, "per_cell", "swaths of cell ", i, " are not those of its own best angle");
  }
}
SCENARIO(bad_steps, 30, 100) {
  f2c::obj::NSwathModified nm;
  f2c::sg::BruteForce sg;
  F2CCell in = cv::cell({{{{0, 0}, {40, 0}, {40, 20}, {0, 20}}}});
  double st = c.rng.u(TWO_PI * 1.001, 100);
  sg.setStepAngle(st);
  c.sig(st);
  c.near(sg.computeBestAngle(nm, 2.0, in), 0, 0, "big_step", "only angle 0 fits in one turn");
  sg.setStepAngle(c.rng.p(0.5) ? 0.0 : -c.rng.u(0, 3));
  c.throws([&] {sg.computeBestAngle(nm, 2.0, in);}, "bad_step", "step angles that are not positive");
}
VF_MAIN
