// NOTE: multiset of swaths by number and geometry, alternation, start corners, untouched input
// QUICK: 15
#include "swl.hpp"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
#include "fields2cover/route_planning/custom_order.h"
#include "fields2cover/swath_generator/brute_force.h"
using namespace g;
using swl::M;

struct Sorter {std::unique_ptr<f2c::rp::SingleCellSwathsOrderBase> s; std::string name; bool custom {false};};
static Sorter sorter(vf::Rng& r, int n) {
  switch (r.i(0, 3)) {
    case 0: return {std::make_unique<f2c::rp::BoustrophedonOrder>(), "boustrophedon"};
    case 1: return {std::make_unique<f2c::rp::SnakeOrder>(), "snake"};
    case 2: {int k = r.i(0, 12); auto s = std::make_unique<f2c::rp::SpiralOrder>(k);
      if (r.p(0.5)) {k = r.i(0, 12); s->setSpiralSize(k);}
      return {std::move(s), vf::cat("spiral", k)};}
    default: {
      std::vector<size_t> o(n); for (int i = 0; i < n; ++i) {o[i] = i;}
      r.shuffle(o);
      return {std::make_unique<f2c::rp::CustomOrder>(o), "custom", true};
    }
  }
}
static void judge(vf::Case& c, const Sorter& so, const F2CSwaths& in, const std::vector<M>& ms, bool oneSense) {
  std::string before;
  for (auto& s : in) {before += cv::snapG(s.getPath());}
  double tol = swl::cloneTol(ms);
  std::vector<std::pair<P, P>> starts;
  std::vector<double> tols;
  for (uint32_t v = 0; v < 4; ++v) {
    F2CSwaths out = so.s->genSortedSwaths(in, v);
    auto o = swl::of(out);
    if (!c.check(o.size() == ms.size(), "count", so.name, " variant ", v, ": ", o.size(), " of ", ms.size(), " swaths")) {return;}
    std::vector<char> used(ms.size(), 0);
    for (auto& m : o) {
      bool f = false;
      for (size_t i = 0; i < ms.size() && !f; ++i) {
        if (!used[i] && swl::sameUndirected(m, ms[i], tol)) {used[i] = f = true;}
      }
      if (!c.check(f, "changed_swath", so.name, " variant ", v, ": ", swl::str(m), " is no swath of the input, or comes twice")) {return;}
    }
    for (size_t i = 1; i < o.size(); ++i) {
      c.check(o[i].dir != o[i - 1].dir, "marks", so.name, " variant ", v, ": swaths ", i - 1, " and ", i, " have the same direction mark");
      if (oneSense) {
        c.check(dot(o[i].pts.back() - o[i].pts.front(), o[i - 1].pts.back() - o[i - 1].pts.front()) < 0, "alternate",
          so.name, " variant ", v, ": swaths ", i - 1, " and ", i, " driven in the same direction");
      }
    }
    if (!o.empty()) {starts.push_back({o[0].pts.front(), o[0].pts.back()});}
    auto again = swl::of(so.s->genSortedSwaths(in, v));
    c.check(swl::same(again, o), "repeat", so.name, " variant ", v, ": another answer when asked again");
    c.sig(swl::ids(o));
    c.count("swaths_ordered", o.size());
  }
  c.check(swl::same(swl::of(in), ms), "input_modified", so.name, ": the list passed in was modified");
  std::string after;
  for (auto& s : in) {after += cv::snapG(s.getPath());}
  c.check(before == after, "input_geometry_modified", so.name, ": lines of the list passed in were modified");
  if (!so.custom && ms.size() >= 1) {
    for (size_t i = 0; i < 4; ++i) {
      for (size_t j = 0; j < i; ++j) {
        if (ms.size() == 1 && (i & 2) == (j & 2)) {continue;}   // one swath has two ends
        c.check(dist(starts[i].first, starts[j].first) > tol, "corners", so.name, ": variants ", j, " and ", i, " start at the same end");
      }
    }
  }
}
SCENARIO(parallel, 1500, 40000) {
  int n = swl::count(c.rng);
  auto ms = swl::parallel(c.rng, n);
  if (c.rng.p(0.3)) {for (auto& m : ms) {m.type = 1;}}
  if (c.rng.p(0.5)) {c.rng.shuffle(ms);}
  if (c.rng.p(0.3)) {for (auto& m : ms) {if (c.rng.p(0.5)) {m = swl::rev(m);}}}   // turned since, marks included
  Sorter so = sorter(c.rng, n);
  c.desc = vf::cat(so.name, " n=", n, " ids ", swl::ids(ms));
  judge(c, so, swl::list(ms), ms, true);
}
SCENARIO(any_swaths, 1200, 30000) {
  int n = swl::count(c.rng);
  auto ms = swl::any(c.rng, n, c.rng.p(0.8));
  Sorter so = sorter(c.rng, n);
  c.desc = vf::cat(so.name, " n=", n, " ids ", swl::ids(ms));
  judge(c, so, swl::list(ms), ms, false);
}
// swaths made by the generator, so several stretches of a line, vertical ones...
SCENARIO(generated, 300, 6000) {
  gen::Opt o; o.multi = false;
  gen::Gen f = gen::field(c.rng, o);
  double a = c.rng.p(0.5) ? c.rng.i(-4, 8) * PI / 4 : gen::angle(c.rng), w = f.size * c.rng.logu(0.03, 0.5);
  f2c::sg::BruteForce sg;
  F2CSwaths in = sg.generateSwaths(a, w, cv::cell(f.m[0]));
  auto ms = swl::of(in);
  Sorter so = sorter(c.rng, ms.size());
  c.desc = vf::cat(so.name, " angle ", a, " width ", w, " ", f.kind, str(f.m));
  judge(c, so, in, ms, true);
  // ordering an ordered list again keeps the set and alternates too
  F2CSwaths once = so.s->genSortedSwaths(in, c.rng.i(0, 3));
  judge(c, so, once, swl::of(once), true);
}
VF_MAIN
