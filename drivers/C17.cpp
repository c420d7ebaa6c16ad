// NOTE: model of points and edges, references on the numbered model, every history
// QUICK: 40
#include "graphm.hpp"
using f2c::types::Graph2D;
using g::P;

struct LessP {bool operator()(const P& a, const P& b) const {return a.x < b.x || (a.x == b.x && a.y < b.y);}};
struct M2 {
  gm::Model m; std::vector<P> pts; std::map<P, size_t, LessP> ix;
  size_t of(P p) {auto it = ix.find(p); if (it != ix.end()) {return it->second;} size_t n = pts.size(); ix[p] = n; pts.push_back(p); return n;}
};
static int64_t mm(P a, P b) {return int64_t(1000.0 * g::dist(a, b));}
// the length in thousandths rounded down: only off an integer, or exact
static bool costOk(int64_t got, P a, P b) {
  double d = 1000.0 * g::dist(a, b);
  return got == mm(a, b) || (std::fabs(d - std::round(d)) < 1e-9 * (1 + d) && std::llabs(got - int64_t(std::round(d))) <= 1);
}
SCENARIO(histories, 2500, 80000) {
  Graph2D gr; M2 m;
  int n = c.rng.i(2, 9);
  double unit = c.rng.pick({1.0, 1.0, 0.5, 0.001, 100, 12345.5});
  P o {0, 0};
  if (c.rng.p(0.3)) {o = {std::floor(c.rng.u(-1e6, 1e6)), std::floor(c.rng.u(-6e6, 6e6))};}
  std::vector<P> pool;
  while (int(pool.size()) < n) {
    P p = o + P {c.rng.i(-4, 4) * unit, c.rng.i(-4, 4) * unit};
    bool dup = false;
    for (auto q : pool) {dup |= g::eq(p, q);}
    if (!dup) {pool.push_back(p);}
  }
  auto rp = [&] {return pool[c.rng.i(0, n - 1)];};
  auto s = [] (P p) {return vf::cat("(", p.x, " ", p.y, ")");};
  std::string h;
  auto known = [&] (P p) {return m.ix.count(p) > 0;};
  auto nodes = [&] {
    c.check(gr.numNodes() == m.pts.size(), "num_nodes", gr.numNodes(), " nodes, expected ", m.pts.size(), " after", h);
    auto ns = gr.getNodes();
    std::set<P, LessP> sn;
    for (auto& p : ns) {sn.insert(cv::of(p));}
    bool all = ns.size() == m.pts.size() && sn.size() == ns.size();
    for (auto& p : m.pts) {all = all && sn.count(p);}
    c.check(all, "nodes", "list of nodes after", h);
  };
  std::map<P, size_t, LessP> number;
  int ops = c.rng.i(1, 40);
  for (int k = 0; k < ops; ++k) {
    P a = rp(), b = rp();
    double u = c.rng.u();
    if (u < 0.35) {
      if (g::eq(a, b) && c.rng.p(0.8)) {continue;}
      int how = c.rng.i(0, 3);
      if (how == 0) {int64_t w = c.rng.i(0, 100000); gr.addEdge(cv::pt(a), cv::pt(b), w); size_t i = m.of(a), j = m.of(b); m.m.add(i, j, w); m.m.add(j, i, w); h += " +e" + s(a) + s(b) + ":" + std::to_string(w);}
      else if (how == 1) {int64_t w = c.rng.i(0, 100000); gr.addDirectedEdge(cv::pt(a), cv::pt(b), w); size_t i = m.of(a), j = m.of(b); m.m.add(i, j, w); h += " +" + s(a) + s(b) + ":" + std::to_string(w);}
      else {
        size_t i = m.of(a), j = m.of(b);
        if (how == 2) {gr.addEdge(cv::pt(a), cv::pt(b));} else {gr.addDirectedEdge(cv::pt(a), cv::pt(b));}
        int64_t w = gr.getCostFromEdge(gr.nodeToIndex(cv::pt(a)), gr.nodeToIndex(cv::pt(b)));
        c.check(costOk(w, a, b), "default_cost", "edge ", s(a), s(b), " costs ", w, " expected ", mm(a, b));
        if (how == 2) {
          int64_t w2 = gr.getCostFromEdge(gr.nodeToIndex(cv::pt(b)), gr.nodeToIndex(cv::pt(a)));
          c.check(costOk(w2, a, b), "default_cost_back", "edge ", s(b), s(a), " costs ", w2, " expected ", mm(a, b));
          m.m.add(j, i, w2); if (i == j) {w = w2;}
        }
        m.m.add(i, j, w);
        h += (how == 2 ? " +e" : " +") + s(a) + s(b); c.count("default_costs");
      }
    } else if (u < 0.5 && known(a) && known(b)) {
      if (c.rng.p(0.6) && !m.m.e.empty()) {auto it = m.m.e.begin(); std::advance(it, c.rng.i(0, m.m.e.size() - 1)); a = m.pts[it->first.first]; b = m.pts[it->first.second];}
      size_t i = m.of(a), j = m.of(b);
      if (c.rng.p(0.4)) {gr.removeEdge(cv::pt(a), cv::pt(b)); m.m.del(i, j); m.m.del(j, i); h += " -e" + s(a) + s(b);}
      else {gr.removeDirectedEdge(cv::pt(a), cv::pt(b)); m.m.del(i, j); h += " -" + s(a) + s(b);}
    } else if (u < 0.55 && (!known(a) || !known(b))) {
      c.throws([&] {gr.nodeToIndex(cv::pt(known(a) ? b : a));}, "unknown_point", "index of a point that is not a node");
      c.throws([&] {gr.indexToNode(m.pts.size() + c.rng.i(0, 5));}, "unknown_index", "point of an index that is not a node");
      c.throws([&] {gr.shortestPathCost(cv::pt(a), cv::pt(b));}, "unknown_cost", "cost to a point that is not a node");
      c.count("unknown_points");
    } else if (known(a) && known(b)) {
      size_t i = m.of(a), j = m.of(b);
      auto d = m.m.from(i);
      bool reach = d.count(j);
      bool viaTables = c.rng.p(0.2);
      if (viaTables) {gr.getPaths(); gr.getCosts();}
      int64_t inf = c.rng.p(0.5) ? (1LL << 30) : (1LL << 40);
      int64_t got = inf == (1LL << 30) && c.rng.p(0.5) ? gr.shortestPathCost(cv::pt(a), cv::pt(b)) : gr.shortestPathCost(cv::pt(a), cv::pt(b), inf);
      c.check(got == (reach ? d[j] : inf), "cost", "cost ", s(a), s(b), " is ", got, " expected ", reach ? d[j] : inf, " after", h);
      auto p = gr.shortestPath(cv::pt(a), cv::pt(b));
      std::vector<size_t> ip; bool ok = true;
      for (auto& x : p) {P q = cv::of(x); if (!m.ix.count(q)) {ok = false; break;} ip.push_back(m.ix[q]);}
      if (reach && i != j) {c.check(ok && gm::pathOk(m.m, ip, i, j, d[j]), "path", "path ", s(a), s(b), " ", gm::str(ip), " is not of cost ", d[j], " after", h); c.count("paths");}
      else {c.check(p.empty(), "no_path", "a path ", s(a), s(b), " after", h); c.count("no_paths");}
      if (c.rng.p(0.5)) {
        std::vector<std::vector<size_t>> want, have;
        if (m.m.paths(i, j, want, 500)) {
          for (auto& q : gr.allPathsBetween(cv::pt(a), cv::pt(b))) {
            have.emplace_back();
            for (auto& x : q) {P y = cv::of(x); have.back().push_back(m.ix.count(y) ? m.ix[y] : 999);}
          }
          std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
          c.check(want == have, "all_paths", have.size(), " paths listed ", s(a), s(b), " expected ", want.size(), " after", h);
          c.count("paths_listed", have.size());
        }
      }
    }
    // numbers are stable and map back
    for (auto& kv : m.ix) {
      size_t i = gr.nodeToIndex(cv::pt(kv.first));
      auto it = number.find(kv.first);
      if (it == number.end()) {
        for (auto& x : number) {c.check(x.second != i, "same_number", "points ", s(kv.first), " and ", s(x.first), " share number ", i, " after", h);}
        number[kv.first] = i;
      } else {c.check(it->second == i, "number_changed", "number of ", s(kv.first), " changed from ", it->second, " to ", i, " after", h);}
      c.check(g::eq(cv::of(gr.indexToNode(i)), kv.first), "maps_back", "number ", i, " is not ", s(kv.first), " after", h);
    }
    c.check(gr.numEdges() == m.m.e.size(), "num_edges", gr.numEdges(), " edges expected ", m.m.e.size(), " after", h);
    nodes();
    if (h.size() > 3000) {h = "..." + h.substr(h.size() - 2000);}
  }
  c.desc = h; c.sig(h);
}
// an edge taken from another graph costs that graph's shortest path
SCENARIO(from_other_graph, 800, 20000) {
  Graph2D a, b; M2 m;
  int n = c.rng.i(3, 9);
  std::vector<P> pool;
  for (int i = 0; i < n; ++i) {pool.push_back({double(i), double(c.rng.i(-9, 9))}); m.of(pool.back());}
  for (int k = 0; k < 2 * n; ++k) {
    int i = c.rng.i(0, n - 1), j = c.rng.i(0, n - 1);
    if (i == j) {continue;}
    int64_t w = c.rng.i(0, 5000);
    if (c.rng.p(0.4)) {a.addEdge(cv::pt(pool[i]), cv::pt(pool[j]), w); m.m.add(i, j, w); m.m.add(j, i, w);}
    else {a.addDirectedEdge(cv::pt(pool[i]), cv::pt(pool[j]), w); m.m.add(i, j, w);}
  }
  c.sig(uint64_t(m.m.e.size())); for (auto& e : m.m.e) {c.sig(uint64_t(e.second));}
  c.desc = vf::cat(n, " nodes ", m.m.e.size(), " edges");
  for (int k = 0; k < 6; ++k) {
    size_t i = c.rng.i(0, n - 1), j = c.rng.i(0, n - 1);
    if (!m.m.nodes.count(i) || !m.m.nodes.count(j)) {continue;}
    auto d = m.m.from(i), e = m.m.from(j);
    int64_t wij = d.count(j) ? d[j] : (1LL << 30), wji = e.count(i) ? e[i] : (1LL << 30);
    bool und = c.rng.p(0.5);
    if (und) {b.addEdge(cv::pt(pool[i]), cv::pt(pool[j]), a);} else {b.addDirectedEdge(cv::pt(pool[i]), cv::pt(pool[j]), a);}
    size_t bi = b.nodeToIndex(cv::pt(pool[i])), bj = b.nodeToIndex(cv::pt(pool[j]));
    c.check(b.getCostFromEdge(bi, bj) == wij, "cost_from_graph", "edge costs ", b.getCostFromEdge(bi, bj), " shortest path ", wij);
    if (und) {c.check(b.getCostFromEdge(bj, bi) == wji, "cost_from_graph_back", "edge back costs ", b.getCostFromEdge(bj, bi), " shortest path ", wji);}
    c.count("edges_from_graph");
  }
}
VF_MAIN
