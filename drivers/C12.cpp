// NOTE: patterns rebuilt independently for every count and every spiral size
// QUICK: 30
#include "swl.hpp"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
using swl::M;

static void judge(vf::Case& c, const f2c::rp::SingleCellSwathsOrderBase& s, const std::vector<M>& ms, const std::vector<int>& pos, uint32_t v, const std::string& name) {
  std::vector<int> asc;
  for (auto& m : ms) {asc.push_back(m.id);}
  std::sort(asc.begin(), asc.end());
  if (v & 1) {std::reverse(asc.begin(), asc.end());}
  auto o = swl::of(s.genSortedSwaths(swl::list(ms), v));
  std::vector<int> got, want;
  for (auto& m : o) {got.push_back(m.id);}
  for (int p : pos) {want.push_back(asc[p]);}
  std::string g, w;
  for (int i : got) {g += " " + std::to_string(i);}
  for (int i : want) {w += " " + std::to_string(i);}
  c.sig(name + w);
  c.check(got == want, name, name, " variant ", v, " of ", ms.size(), ": order", g, " expected", w);
  c.count(name); c.count("swaths_ordered", got.size());
}
static std::vector<M> input(vf::Rng& r, int n) {
  auto ms = r.p(0.5) ? swl::parallel(r, n) : swl::any(r, n);
  if (r.p(0.5)) {r.shuffle(ms);}
  return ms;
}
// every count 0..63, every variant; spiral sizes 0.. beyond the count
SCENARIO(every_count, 64 * 8, 64 * 100) {
  int n = c.idx % 64;
  auto ms = input(c.rng, n);
  c.desc = vf::cat("n=", n, " ids ", swl::ids(ms));
  std::vector<int> id(n);
  for (int i = 0; i < n; ++i) {id[i] = i;}
  auto sn = swl::snake(n);
  for (size_t i = 1; i < sn.size(); ++i) {c.require(std::abs(sn[i] - sn[i - 1]) <= 2, "oracle", "snake oracle");}
  for (uint32_t v = 0; v < 4; ++v) {
    judge(c, f2c::rp::BoustrophedonOrder(), ms, id, v, "boustrophedon");
    judge(c, f2c::rp::SnakeOrder(), ms, sn, v, "snake");
    for (int k = 0; k < 3; ++k) {
      int size = c.rng.p(0.1) ? n + c.rng.i(0, 3) : c.rng.i(0, std::max(2, std::min(n + 2, 20)));
      f2c::rp::SpiralOrder s(c.rng.p(0.5) ? size : c.rng.i(0, 9));
      s.setSpiralSize(size);
      judge(c, s, ms, swl::spiral(n, size), v, vf::cat("spiral", size));
      judge(c, f2c::rp::SpiralOrder(size), ms, swl::spiral(n, size), v, vf::cat("spiral_ctor", size));
    }
  }
}
SCENARIO(every_size, 40 * 12, 40 * 60) {
  int size = c.idx % 40, n = c.idx < 480 ? c.rng.i(0, 80) : c.rng.i(0, 200);
  auto ms = input(c.rng, n);
  c.desc = vf::cat("size=", size, " n=", n);
  f2c::rp::SpiralOrder s(size);
  for (uint32_t v = 0; v < 4; ++v) {judge(c, s, ms, swl::spiral(n, size), v, vf::cat("spiral", size));}
}
VF_MAIN
