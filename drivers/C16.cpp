// NOTE: own depth-first enumeration compared as a multiset after every change
// QUICK: 5
#include "graphm.hpp"
using f2c::types::Graph;

static void compare(vf::Case& c, const Graph& g, const gm::Model& m, size_t a, size_t b, const std::string& h) {
  std::vector<std::vector<size_t>> want;
  if (!m.paths(a, b, want, 3000)) {c.count("too_many_paths"); return;}
  auto got = g.allPathsBetween(a, b);
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  c.count("queries"); c.count("paths_listed", got.size());
  if (got == want) {c.check(true, "ok"); return;}
  std::set<std::vector<size_t>> sw(want.begin(), want.end()), sg;
  for (auto& p : got) {
    c.check(sw.count(p), "extra", "path ", gm::str(p), " listed from ", a, " to ", b, " after ", h);
    c.check(sg.insert(p).second, "twice", "path ", gm::str(p), " listed twice from ", a, " to ", b, " after ", h);
  }
  for (auto& p : want) {c.check(sg.count(p), "missing", "path ", gm::str(p), " not listed from ", a, " to ", b, " after ", h);}
}
static void run(vf::Case& c, int maxn, int ops, double dens) {
  Graph g; gm::Model m;
  int n = c.rng.i(2, maxn);
  std::vector<size_t> id;
  int mode = c.rng.i(0, 3);
  for (int i = 0; i < n; ++i) {id.push_back(mode == 0 ? i : mode == 1 ? i + 1 : mode == 2 ? 10 * i + 3 : 150 - 11 * i);}
  auto rn = [&] {return id[c.rng.i(0, n - 1)];};
  std::string h;
  int start = int(dens * n * n);
  for (int k = 0; k < start + ops; ++k) {
    size_t a = rn(), b = rn();
    if (k < start || c.rng.p(0.35)) {
      if (a == b && c.rng.p(0.7)) {continue;}
      if (c.rng.p(0.3)) {g.addEdge(a, b, k); m.add(a, b, k); m.add(b, a, k); h += vf::cat(" +e", a, ",", b);}
      else {g.addDirectedEdge(a, b, k); m.add(a, b, k); h += vf::cat(" +", a, ",", b);}
    } else if (c.rng.p(0.3) && !m.e.empty()) {
      auto it = m.e.begin(); std::advance(it, c.rng.i(0, m.e.size() - 1)); a = it->first.first; b = it->first.second;
      if (c.rng.p(0.3)) {g.removeEdge(a, b); m.del(a, b); m.del(b, a); h += vf::cat(" -e", a, ",", b);}
      else {g.removeDirectedEdge(a, b); m.del(a, b); h += vf::cat(" -", a, ",", b);}
    } else {
      if (c.rng.p(0.2)) {g.getPaths();}
      compare(c, g, m, a, c.rng.p(0.05) ? a : b, h);
    }
  }
  for (int i = 0; i < 4; ++i) {compare(c, g, m, rn(), rn(), h);}
  size_t x = rn();
  c.check(g.allPathsBetween(x, x) == std::vector<std::vector<size_t>> {{x}}, "itself", "paths from a node to itself after ", h);
  c.desc = h; c.sig(h);
}
SCENARIO(sparse, 2000, 60000) {run(c, 12, 30, 0.12);}
SCENARIO(dense, 500, 12000) {run(c, 6, 12, 0.6);}
SCENARIO(chains, 300, 6000) {
  // long chains with rungs: 2^k paths
  Graph g; gm::Model m;
  int k = c.rng.i(1, 8);
  size_t x = c.rng.i(0, 5), first = x;
  for (int i = 0; i < k; ++i) {
    size_t a = x + 1, b = x + 2, e = x + 3;
    for (auto p : std::vector<std::pair<size_t, size_t>> {{x, a}, {x, b}, {a, e}, {b, e}}) {g.addDirectedEdge(p.first, p.second, 1); m.add(p.first, p.second, 1);}
    if (c.rng.p(0.3)) {g.addDirectedEdge(a, b, 1); m.add(a, b, 1);}
    x = e;
  }
  c.desc = vf::cat("ladder of ", k); c.sig(k); c.sig(uint64_t(m.e.size())); c.sig(uint64_t(first));
  compare(c, g, m, first, x, c.desc); compare(c, g, m, x, first, c.desc);
}
VF_MAIN
