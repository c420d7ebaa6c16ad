// NOTE: edge-map model of every history, Bellman-Ford after every query, tables primed between changes
// QUICK: 25
#include "graphm.hpp"
using f2c::types::Graph;

static const int64_t INF = 1000000000000000;
static void cost(vf::Case& c, Graph& g, const gm::Model& m, size_t a, size_t b, int64_t inf, const std::string& h) {
  auto d = m.from(a);
  bool reach = d.count(b);
  int64_t got = inf < 0 ? g.shortestPathCost(a, b) : g.shortestPathCost(a, b, inf);
  int64_t want = reach ? d[b] : inf < 0 ? INF : inf;
  c.check(got == want, "cost", "cost ", a, "->", b, " is ", got, " expected ", want, " after ", h);
  c.count(reach ? "costs_reachable" : "costs_unreachable");
}
static void path(vf::Case& c, Graph& g, const gm::Model& m, size_t a, size_t b, int64_t inf, const std::string& h) {
  auto d = m.from(a);
  auto p = inf < 0 ? g.shortestPath(a, b) : g.shortestPath(a, b, inf);
  if (a == b || !d.count(b)) {
    c.check(p.empty(), "path_none", "path ", a, "->", b, " is ", gm::str(p), " expected none after ", h);
  } else {
    c.check(gm::pathOk(m, p, a, b, d[b]), "path", "path ", a, "->", b, " is ", gm::str(p), " not a path of cost ", d[b], " after ", h);
    c.count("paths");
  }
}
static void tables(vf::Case& c, Graph& g, const gm::Model& m, const std::string& h, int what) {
  std::vector<std::vector<int64_t>> D;
  std::vector<std::vector<std::vector<size_t>>> T;
  if (what & 1) {D = g.getCosts();}
  if (what & 2) {T = g.getPaths();}
  if (what == 7) {D = g.getCosts();}
  for (size_t a : m.nodes) {
    auto d = m.from(a);
    for (size_t b : m.nodes) {
      bool reach = d.count(b);
      if (what & 1) {
        if (!c.check(a < D.size() && b < D[a].size(), "cost_table_size", "cost table has no entry ", a, " ", b, " after ", h)) {return;}
        if (reach) {c.check(D[a][b] == d[b], "cost_table", "cost table ", a, "->", b, " is ", D[a][b], " expected ", d[b], " after ", h);}
        else {c.check(D[a][b] >= (1LL << 29), "cost_table_none", "cost table ", a, "->", b, " is ", D[a][b], " though there is no path after ", h);}
      }
      if (what & 2) {
        if (!c.check(a < T.size() && b < T[a].size(), "path_table_size", "path table has no entry ", a, " ", b, " after ", h)) {return;}
        if (a == b || !reach) {c.check(T[a][b].empty(), "path_table_none", "path table ", a, "->", b, " is ", gm::str(T[a][b]), " after ", h);}
        else {c.check(gm::pathOk(m, T[a][b], a, b, d[b]), "path_table", "path table ", a, "->", b, " is ", gm::str(T[a][b]), " not of cost ", d[b], " after ", h);}
      }
    }
  }
  c.count("tables_compared");
}
static void history(vf::Case& c, int maxNodes, int maxOps, bool bigIds) {
  Graph g; gm::Model m;
  int n = c.rng.i(2, maxNodes);
  std::vector<size_t> id;
  size_t base = c.rng.p(0.5) ? 0 : c.rng.i(0, 20);
  for (int i = 0; i < n; ++i) {id.push_back(c.rng.p(0.3) && bigIds ? 12 + 3 * i : base + i * (bigIds ? c.rng.i(1, 1) : 1));}
  if (bigIds && c.rng.p(0.5)) {for (auto& x : id) {x *= 2;}}
  std::sort(id.begin(), id.end()); id.erase(std::unique(id.begin(), id.end()), id.end());
  c.rng.shuffle(id);
  n = id.size();
  auto rn = [&] {return id[c.rng.i(0, n - 1)];};
  int64_t maxw = c.rng.p(0.3) ? 3 : c.rng.p(0.5) ? 50 : 10000000;
  int ops = c.rng.i(1, maxOps);
  double pq = c.rng.u(0.1, 0.7), pr = c.rng.u(0.05, 0.45);
  std::string h;
  for (int k = 0; k < ops; ++k) {
    double u = c.rng.u();
    if (u < pq) {
      // unreachable is reported as asked, with any value above the costs
      int64_t inf = c.rng.p(0.5) ? -1 : c.rng.p(0.5) ? (1LL << 30) : 4000000000LL + c.rng.i(0, 9);
      size_t a = rn(), b = rn();
      switch (c.rng.i(0, 6)) {
        case 0: cost(c, g, m, a, b, inf, h); h += vf::cat(" cost(", a, ",", b, ")"); break;
        case 1: path(c, g, m, a, b, inf, h); h += vf::cat(" path(", a, ",", b, ")"); break;
        case 2: tables(c, g, m, h, 1); h += " getCosts"; break;
        case 3: tables(c, g, m, h, 2); h += " getPaths"; break;
        case 4: tables(c, g, m, h, 7); h += " getBoth"; break;
        case 5: g.shortestPathsAndCosts(); h += " compute"; break;
        default: {
          auto f = g.getEdgesFrom(a); std::sort(f.begin(), f.end());
          c.check(f == m.out(a), "edges_from", "edges from ", a, ": ", gm::str(f), " expected ", gm::str(m.out(a)), " after ", h);
          auto it = m.e.find({a, b});
          c.check(g.getCostFromEdge(a, b) == (it == m.e.end() ? INF : it->second), "edge_cost", "edge ", a, "->", b, " after ", h);
          c.check(g.getCostFromEdge(a, b, 77) == (it == m.e.end() ? 77 : it->second), "edge_cost_inf", "edge ", a, "->", b, " after ", h);
          h += " edges"; break;
        }
      }
    } else {
      size_t a = rn(), b = rn();
      bool und = c.rng.p(0.4);
      if (c.rng.p(pr) && !m.e.empty()) {
        if (c.rng.p(0.8)) {auto it = m.e.begin(); std::advance(it, c.rng.i(0, m.e.size() - 1)); a = it->first.first; b = it->first.second;}
        if (und) {g.removeEdge(a, b); m.del(a, b); m.del(b, a);} else {g.removeDirectedEdge(a, b); m.del(a, b);}
        h += vf::cat(und ? " -e" : " -", a, ",", b); c.count("removals");
      } else {
        if (c.rng.p(0.2) && !m.e.empty()) {auto it = m.e.begin(); std::advance(it, c.rng.i(0, m.e.size() - 1)); a = it->first.first; b = it->first.second; c.count("cost_changes");}
        if (a == b && c.rng.p(0.8)) {continue;}
        int64_t w = int64_t(c.rng.next() % uint64_t(maxw + 1));
        if (und) {g.addEdge(a, b, w); m.add(a, b, w); m.add(b, a, w);} else {g.addDirectedEdge(a, b, w); m.add(a, b, w);}
        h += vf::cat(und ? " +e" : " +", a, ",", b, ":", w); c.count("additions");
      }
      c.check(g.numEdges() == m.e.size(), "num_edges", g.numEdges(), " edges, expected ", m.e.size(), " after ", h);
      c.check(g.numNodes() == m.nodes.size(), "num_nodes", g.numNodes(), " nodes, expected ", m.nodes.size(), " after ", h);
    }
    if (h.size() > 4000) {h = "..." + h.substr(h.size() - 3000);}
  }
  auto ed = g.getEdges();
  size_t cnt = 0; bool ok = true;
  for (auto& x : ed) {for (auto& y : x.second) {++cnt; auto it = m.e.find({x.first, y.first}); ok = ok && it != m.e.end() && it->second == y.second;}}
  c.check(ok && cnt == m.e.size(), "edges", "edge map after ", h);
  for (int i = 0; i < 4; ++i) {size_t a = rn(), b = rn(); cost(c, g, m, a, b, -1, h); path(c, g, m, a, b, -1, h);}
  tables(c, g, m, h, 3);
  c.desc = h; c.sig(h);
}
SCENARIO(small_histories, 2500, 80000) {history(c, 7, 40, true);}
SCENARIO(dense_ids, 1200, 40000) {history(c, 12, 80, false);}
SCENARIO(large, 60, 1500) {history(c, 40, 250, false);}
// asking about nodes that are not there
SCENARIO(unknown_nodes, 200, 3000) {
  Graph g;
  int n = c.rng.i(0, 4);
  for (int i = 0; i < n; ++i) {g.addDirectedEdge(c.rng.i(0, 5), c.rng.i(0, 5), c.rng.i(0, 9));}
  size_t a = c.rng.i(6, 300), b = c.rng.i(0, 5);
  if (c.rng.p(0.5)) {std::swap(a, b);}
  c.sig(int(a)); c.sig(int(b)); c.sig(n);
  c.desc = vf::cat("nodes ", a, " ", b, " of a graph of ", n, " edges");
  c.check(g.shortestPathCost(a, b) == INF, "unknown_cost", "cost");
  c.check(g.shortestPath(a, b).empty(), "unknown_path", "path");
  c.check(g.allPathsBetween(a, b).empty(), "unknown_all", "all paths");
  g.removeEdge(a, b);
  c.check(g.getEdgesFrom(std::max(a, b)).empty(), "unknown_edges", "edges");
}
VF_MAIN
