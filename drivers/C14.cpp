// NOTE: random histories mirrored in a list model; own Dijkstra for inserted connections
// QUICK: 40
#include "swl.hpp"
#include <queue>
using namespace g;
using swl::M;

typedef std::vector<P> L;
struct Model {
  std::vector<L> conns; std::vector<std::vector<M>> groups;
  void conn() {if (conns.size() <= groups.size()) {conns.emplace_back();}}
  void pts(const L& l) {conn(); for (auto p : l) {conns.back().push_back(p);}}
  void swaths(const std::vector<M>& v) {
    if (conns.empty()) {conns.emplace_back();}
    if (conns.size() > groups.size()) {groups.emplace_back();}
    for (auto& m : v) {groups.back().push_back(m);}
  }
  L line() const {
    L l;
    for (size_t i = 0; i < std::max(conns.size(), groups.size()); ++i) {
      if (i < conns.size()) {l.insert(l.end(), conns[i].begin(), conns[i].end());}
      if (i < groups.size()) {for (auto& m : groups[i]) {l.insert(l.end(), m.pts.begin(), m.pts.end());}}
    }
    return l;
  }
};
static f2c::types::MultiPoint mp(const L& l) {f2c::types::MultiPoint m; for (auto p : l) {m.addPoint(p.x, p.y);} return m;}
static std::vector<F2CPoint> vp(const L& l) {std::vector<F2CPoint> m; for (auto p : l) {m.push_back(cv::pt(p));} return m;}
static L gridPts(vf::Rng& r, int n) {L l; for (int i = 0; i < n; ++i) {l.push_back({double(r.i(-4, 4)), double(r.i(-4, 4))});} return l;}

static void judge(vf::Case& c, const F2CRoute& r, const Model& m, const std::string& h) {
  if (!c.check(r.sizeVectorSwaths() == m.groups.size() && r.getVectorSwaths().size() == m.groups.size(), "groups", r.sizeVectorSwaths(), " groups, expected ", m.groups.size(), " after ", h)) {return;}
  if (!c.check(r.sizeConnections() == m.conns.size() && r.getConnections().size() == m.conns.size(), "connections", r.sizeConnections(), " connections, expected ", m.conns.size(), " after ", h)) {return;}
  for (size_t i = 0; i < m.groups.size(); ++i) {
    c.check(swl::same(swl::of(r.getSwaths(i)), m.groups[i]) && swl::same(swl::of(r.getVectorSwaths()[i]), m.groups[i]), "swaths", "group ", i, " has swaths ", swl::ids(swl::of(r.getSwaths(i))), " expected ", swl::ids(m.groups[i]), " after ", h);
  }
  for (size_t i = 0; i < m.conns.size(); ++i) {
    c.check(swl::samePts(cv::of(r.getConnection(i)), m.conns[i]) && swl::samePts(cv::of(r.getConnections()[i]), m.conns[i]), "points", "connection ", i, " is ", str(cv::of(r.getConnection(i))), " expected ", str(m.conns[i]), " after ", h);
  }
  if (!m.groups.empty()) {c.check(swl::same(swl::of(r.getLastSwaths()), m.groups.back()), "last_swaths", "last group after ", h);}
  if (!m.conns.empty()) {c.check(swl::samePts(cv::of(r.getLastConnection()), m.conns.back()), "last_connection", "last connection after ", h);}
  L l = m.line();
  L got = cv::of(r.asLineString());
  c.check(swl::samePts(got, l), "line", "line ", str(got), " expected ", str(l), " after ", h);
  c.near(r.length(), length(l), 1e-11 * (1 + length(l)), "length", "length after ", h);
  P s = cv::of(r.startPoint()), e = cv::of(r.endPoint());
  P ws = l.empty() ? P {0, 0} : l.front(), we = l.empty() ? P {0, 0} : l.back();
  c.check(eq(s, ws), "start", "start ", s.x, " ", s.y, " expected ", ws.x, " ", ws.y, " after ", h);
  c.check(eq(e, we), "end", "end ", e.x, " ", e.y, " expected ", we.x, " ", we.y, " after ", h);
  c.check(r.isEmpty() == (m.conns.empty() && m.groups.empty()), "empty", "isEmpty after ", h);
  c.count("states_compared");
}
static M swathOf(vf::Rng& r, int id, const L& l) {return {id, r.i(1, 9) * 0.5, r.p(0.7), r.i(0, 1), l};}

SCENARIO(histories, 2500, 80000) {
  F2CRoute r; Model m;
  std::string h;
  int id = 0, n = c.rng.i(0, 14);
  std::vector<F2CSwath> kept;   // keep what was passed in alive half of the time
  auto some = [&] (int k) {std::vector<M> v; for (int i = 0; i < k; ++i) {v.push_back(swathOf(c.rng, id++, gridPts(c.rng, c.rng.i(2, 4))));} return v;};
  judge(c, r, m, "creation");
  for (int i = 0; i < n; ++i) {
    switch (c.rng.i(0, 10)) {
      case 0: case 1: {auto v = some(1); r.addSwath(swl::make(v[0])); m.swaths(v); h += " addSwath"; break;}
      case 2: {auto v = some(c.rng.i(0, 3)); r.addSwaths(swl::list(v)); m.swaths(v); h += vf::cat(" addSwaths", v.size()); break;}
      case 3: {auto v = some(c.rng.i(0, 3)); L l = gridPts(c.rng, c.rng.i(0, 3)); r.addConnectedSwaths(mp(l), swl::list(v)); m.pts(l); m.swaths(v); h += vf::cat(" addConnectedSwaths", l.size(), ",", v.size()); break;}
      case 4: {L l = gridPts(c.rng, 1); r.addConnection(cv::pt(l[0])); m.pts(l); h += " addConnection1"; break;}
      case 5: {L l = gridPts(c.rng, c.rng.i(0, 4)); r.addConnection(mp(l)); m.pts(l); h += vf::cat(" addConnectionM", l.size()); break;}
      case 6: {L l = gridPts(c.rng, c.rng.i(0, 4)); r.addConnection(vp(l)); m.pts(l); h += vf::cat(" addConnectionV", l.size()); break;}
      case 7: {r.addConnection(); m.conn(); h += " addConnection0"; break;}
      case 8: if (!m.groups.empty()) {
        size_t k = c.rng.i(0, m.groups.size() - 1); auto v = some(c.rng.i(0, 3));
        r.setSwaths(k, swl::list(v)); m.groups[k] = v; h += vf::cat(" setSwaths", k, "=", v.size());
      } break;
      case 9: if (!m.conns.empty()) {
        size_t k = c.rng.i(0, m.conns.size() - 1); L l = gridPts(c.rng, c.rng.i(0, 3));
        r.setConnection(k, mp(l)); m.conns[k] = l; h += vf::cat(" setConnection", k, "=", l.size());
      } break;
      default: if (!m.groups.empty()) {   // through the references
        auto v = some(1); r.getLastSwaths().emplace_back(swl::make(v[0])); m.groups.back().push_back(v[0]); h += " lastSwaths+";
        if (c.rng.p(0.5)) {L l = gridPts(c.rng, 1); r.getLastConnection().addPoint(l[0].x, l[0].y); m.conns.back().push_back(l[0]); h += " lastConnection+";}
      } break;
    }
    judge(c, r, m, h);
  }
  c.desc = h; c.sig(h); c.sig(length(m.line()));
}
// connections found in a graph
SCENARIO(with_graph, 1200, 40000) {
  // nodes on a grid, random directed edges with random integer costs
  std::vector<P> nodes;
  int N = c.rng.i(3, 10);
  while (int(nodes.size()) < N) {
    P p = gridPts(c.rng, 1)[0];
    bool dup = false;
    for (auto q : nodes) {dup |= eq(p, q);}
    if (!dup) {nodes.push_back(p);}
  }
  F2CGraph2D gr;
  std::map<std::pair<int, int>, int64_t> E;
  auto ix = [&] (P p) {for (int i = 0; i < N; ++i) {if (eq(nodes[i], p)) {return i;}} return -1;};
  int ne = c.rng.i(N, 3 * N);
  for (int i = 1; i < N; ++i) {int j = c.rng.i(0, i - 1); int64_t w = c.rng.i(0, 20); gr.addEdge(cv::pt(nodes[i]), cv::pt(nodes[j]), w); E[{i, j}] = E[{j, i}] = w;}
  for (int k = 0; k < ne; ++k) {
    int i = c.rng.i(0, N - 1), j = c.rng.i(0, N - 1);
    if (i == j) {continue;}
    int64_t w = c.rng.i(0, 20);
    gr.addDirectedEdge(cv::pt(nodes[i]), cv::pt(nodes[j]), w); E[{i, j}] = w;
  }
  if (c.rng.p(0.3)) {for (auto it = E.begin(); it != E.end();) {if (c.rng.p(0.2)) {gr.removeDirectedEdge(cv::pt(nodes[it->first.first]), cv::pt(nodes[it->first.second])); it = E.erase(it);} else {++it;}}}
  auto shortest = [&] (int s, int t) {
    std::vector<int64_t> d(N, INT64_MAX); d[s] = 0;
    for (int k = 0; k < N; ++k) {for (auto& e : E) {if (d[e.first.first] != INT64_MAX) {d[e.first.second] = std::min(d[e.first.second], d[e.first.first] + e.second);}}}
    return d[t];
  };
  F2CRoute r; Model m;
  int n = c.rng.i(1, 8);
  std::string h;
  for (int i = 0; i < n; ++i) {
    L l {nodes[c.rng.i(0, N - 1)], nodes[c.rng.i(0, N - 1)]};
    if (c.rng.p(0.2)) {l.insert(l.begin() + 1, P {c.rng.u(-5, 5), 1});}
    M s = swathOf(c.rng, i, l);
    if (m.conns.empty() && m.groups.empty()) {r.addSwath(swl::make(s), gr); m.swaths({s}); h += " first"; judge(c, r, m, h); continue;}
    if (c.rng.p(0.2)) {L q {nodes[c.rng.i(0, N - 1)]}; r.addConnection(cv::pt(q[0])); m.pts(q); h += " conn";}
    if (c.rng.p(0.1)) {r.addSwath(swl::make(s)); m.swaths({s}); h += " plain"; judge(c, r, m, h); continue;}
    P from = m.line().back(), to = l.front();
    int a = ix(from), b = ix(to);
    size_t old = m.conns.size() > m.groups.size() ? m.conns.back().size() : 0;
    r.addSwath(swl::make(s), gr);
    h += vf::cat(" ", a, "->", b);
    m.conn();
    if (!c.check(r.sizeConnections() == m.conns.size(), "graph_connections", r.sizeConnections(), " connections after ", h)) {return;}
    L all = cv::of(r.getConnection(m.conns.size() - 1));
    if (!c.check(all.size() >= old, "graph_lost", "points lost after", h)) {return;}
    L path(all.begin() + old, all.end());
    int64_t want = shortest(a, b);
    if (a == b || want == INT64_MAX) {
      c.check(path.size() <= (a == b ? 1 : 0), "graph_needless", "connection ", str(path), " from ", a, " to ", b);
      c.count(a == b ? "no_connection_needed" : "no_connection_possible");
    } else {
      bool ok = path.size() >= 2 && eq(path.front(), from) && eq(path.back(), to);
      c.check(ok, "graph_ends", "connection ", str(path), " does not go from ", from.x, " ", from.y, " to ", to.x, " ", to.y);
      int64_t cost = 0;
      for (size_t k = 1; k < path.size() && ok; ++k) {
        auto e = E.find({ix(path[k - 1]), ix(path[k])});
        ok = c.check(e != E.end(), "graph_edge", "connection uses an edge that is not in the graph: ", str(path));
        if (ok) {cost += e->second;}
      }
      if (ok) {c.check(cost == want, "graph_cost", "connection costs ", cost, ", the shortest ", want, ": ", str(path));}
      c.count("connections_found");
    }
    m.pts(path); m.swaths({s});
    judge(c, r, m, h);
  }
  c.desc = h; c.sig(h); c.sig(length(m.line()));
}
VF_MAIN
