// NOTE: permutations obeyed, every kind of malformed order refused and nothing touched
// QUICK: 40
#include "swl.hpp"
#include "fields2cover/route_planning/custom_order.h"
using swl::M;

SCENARIO(orders, 3000, 80000) {
  int n = std::max(1, swl::count(c.rng));
  auto ms = c.rng.p(0.5) ? swl::parallel(c.rng, n) : swl::any(c.rng, n);
  if (c.rng.p(0.5)) {c.rng.shuffle(ms);}
  F2CSwaths in = swl::list(ms);
  double tol = swl::cloneTol(ms);
  f2c::rp::CustomOrder co;
  std::string h;
  auto byId = ms;
  std::sort(byId.begin(), byId.end(), [] (const M& a, const M& b) {return a.id < b.id;});
  int steps = c.rng.i(1, 5);
  for (int st = 0; st < steps; ++st) {
    std::vector<size_t> o(n);
    for (int i = 0; i < n; ++i) {o[i] = i;}
    c.rng.shuffle(o);
    bool bad = false;
    switch (c.rng.i(0, 7)) {
      case 0: if (n > 1) {int i = c.rng.i(0, n - 1), j = (i + c.rng.i(1, n - 1)) % n; o[i] = o[j]; bad = true; h += "dup ";} break;
      case 1: o.push_back(c.rng.p(0.5) ? n : c.rng.i(0, n - 1)); bad = true; h += "longer "; break;
      case 2: o.pop_back(); bad = true; h += "shorter "; break;
      case 3: o[c.rng.i(0, n - 1)] = c.rng.p(0.5) ? n : c.rng.p(0.5) ? n + c.rng.i(1, 50) : size_t(-1) - c.rng.i(0, 2); bad = true; h += "outside "; break;
      case 4: if (c.rng.p(0.3)) {o.clear(); bad = true; h += "empty ";} break;
      default: break;
    }
    if (!bad) {h += "perm ";}
    uint32_t v = c.rng.i(0, 3);
    c.desc = vf::cat("n=", n, " history ", h, " variant ", v);
    bool fresh = c.rng.p(0.3);
    f2c::rp::CustomOrder other(o);
    if (!fresh) {co.setCustomOrder(o);}
    const f2c::rp::CustomOrder& use = fresh ? other : co;
    c.sig(h); c.sig(n); c.sig(int(v)); for (size_t x : o) {c.sig(uint64_t(x));}
    if (bad) {
      F2CSwaths res = in;
      c.throws([&] {res = use.genSortedSwaths(in, v);}, "accepted", h);
      c.check(swl::same(swl::of(res), ms) && swl::same(swl::of(in), ms), "touched", "swaths changed by a refused order");
      c.count("refused");
      continue;
    }
    auto r = swl::of(use.genSortedSwaths(in, v));
    c.count("obeyed");
    if (!c.check(r.size() == ms.size(), "size", r.size(), " of ", n)) {continue;}
    auto base = byId;
    if (v & 1) {std::reverse(base.begin(), base.end());}
    for (int i = 0; i < n; ++i) {
      if (!c.check(swl::sameUndirected(r[i], base[o[i]], tol), "position", "swath ", i, " is ", r[i].id, " and not ", base[o[i]].id)) {break;}
      if (i) {c.check(r[i].dir != r[i - 1].dir, "alternate", "swaths ", i - 1, " and ", i);}
    }
    c.check(swl::same(swl::of(in), ms), "input_modified", "input changed");
  }
}
VF_MAIN
