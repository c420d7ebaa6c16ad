// BUILD: shim
// QUICK: 2.0
// NOTE: or-tools is not installed, so visiting sequences come from a stand-in solver and, as random valid ones, from a planner of our own deriving from RoutePlannerBase
#include "vfall.hpp"
#include "swl.hpp"
#include "fields2cover/route_planning/route_planner_base.h"
#include <queue>
using namespace g;
namespace t = f2c::types;
namespace {
struct Planner : f2c::rp::RoutePlannerBase {
  mutable std::vector<long long int> used;      // sequence followed
  mutable bool given {false};
  std::vector<long long int> seq;
  bool own {false};
  std::vector<long long int> computeBestRoute(const F2CGraph2D& g, bool l, long int s, bool o) const override {
    used = own ? seq : f2c::rp::RoutePlannerBase::computeBestRoute(g, l, s, o);
    given = true;
    return used;
  }
};
struct Sw {swl::M m; P s() const {return m.pts.front();} P e() const {return m.pts.back();}};
struct In {
  MPoly cells; std::vector<std::vector<Sw>> sw; std::optional<P> depot; double tol; double sc;
  std::vector<const Sw*> all() const {std::vector<const Sw*> r; for (auto& v : sw) {for (auto& s : v) {r.push_back(&s);}} return r;}
  F2CCells fcells() const {return cv::cells(cells);}
  F2CSwathsByCells fsw() const {
    F2CSwathsByCells r;
    for (auto& v : sw) {F2CSwaths q; for (auto& s : v) {q.push_back(swl::make(s.m));} r.push_back(q);}
    return r;
  }
};
std::string show(const In& in) {
  std::string s = "cells " + g::str(in.cells);
  for (auto& v : in.sw) {s += " | "; for (auto& x : v) {s += swl::str(x.m);}}
  if (in.depot) {s += vf::cat(" depot (", in.depot->x, ",", in.depot->y, ")");}
  return s + vf::cat(" tol ", in.tol);
}
P nearestSeg(P p, P a, P b) {
  double l = dot(b - a, b - a), f = l > 0 ? std::min(1.0, std::max(0.0, dot(p - a, b - a) / l)) : 0;
  return a + (b - a) * f;
}
constexpr double EQ = 2e-7;   // points closer than 1e-7 may be taken as one
std::vector<std::pair<P, P>> borders(const MPoly& m) {
  std::vector<std::pair<P, P>> r;
  for (auto& p : m) {for (auto& q : p.rings) {Ring o = g::open(q); for (size_t i = 0; i < o.size(); ++i) {r.push_back({o[i], o[(i + 1) % o.size()]});}}}
  return r;
}
double distBorders(P p, const std::vector<std::pair<P, P>>& b) {double d = 1e300; for (auto& s : b) {d = std::min(d, distSeg(p, s.first, s.second));} return d;}
// parallel swaths inside a ring, drawn back from it by a margin
void fill(vf::Rng& r, const Poly& p, std::vector<Sw>& out, int n, int& id) {
  g::Box b = g::box(MPoly {p});
  double a = r.p(0.5) ? r.i(0, 7) * g::PI / 4 : r.u(0, 2 * g::PI);
  P d = g::dirOf(a), nn {-d.y, d.x}, cen {(b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2};
  double R = std::hypot(b.x1 - b.x0, b.y1 - b.y0), lo = 1e300, hi = -1e300;
  for (auto& q : p.rings[0]) {double h = dot(q - cen, nn); lo = std::min(lo, h); hi = std::max(hi, h);}
  double w = (hi - lo) / n, back = r.p(0.5) ? 0 : w * r.u(0.05, 0.5);
  for (int i = 0; i < n; ++i) {
    P o = cen + nn * (lo + (i + 0.5) * w);
    // crossings of the line with all rings
    std::vector<double> xs;
    for (auto& ring : p.rings) {
      Ring q = g::open(ring);
      for (size_t k = 0; k < q.size(); ++k) {
        P u = q[k], v = q[(k + 1) % q.size()];
        double hu = dot(u - o, nn), hv = dot(v - o, nn);
        if ((hu > 0) == (hv > 0)) {continue;}
        double f = hu / (hu - hv);
        xs.push_back(dot(u + (v - u) * f - o, d));
      }
    }
    std::sort(xs.begin(), xs.end());
    for (size_t k = 0; k + 1 < xs.size(); k += 2) {
      double x0 = xs[k] + back, x1 = xs[k + 1] - back;
      if (x1 - x0 < 0.02 * R) {continue;}
      Sw s;
      s.m = {id++, w, true, 0, {o + d * x0, o + d * x1}};
      if (r.p(0.1)) {s.m.pts.insert(s.m.pts.begin() + 1, o + d * (x0 + (x1 - x0) * r.u(0.2, 0.8)) + nn * r.u(-0.1, 0.1) * w);}
      if (r.p(0.3)) {std::reverse(s.m.pts.begin(), s.m.pts.end());}
      out.push_back(s);
    }
  }
}
In make(vf::Rng& r) {
  for (;;) {
    In in;
    gen::Opt o; o.holes = r.p(0.15); o.multi = r.p(0.3); o.maxN = 7; o.minSize = 20; o.maxSize = 300;
    gen::Gen f = gen::field(r, o);
    in.cells = f.m;
    int k = r.i(0, 5), id = r.i(0, 20);
    if (k == 0) {   // rectangles next to each other, joined along an edge or part of one
      P a {r.u(-200, 200), r.u(-200, 200)};
      double w = r.u(20, 60), h = r.u(20, 60), w2 = r.u(20, 60), s = r.p(0.3) ? 0 : r.u(-0.5, 0.5) * h, h2 = r.p(0.3) ? h : r.u(20, 60);
      double th = r.p(0.5) ? 0 : r.u(0, 2 * g::PI);
      Ring A {a, a + P {w, 0}, a + P {w, h}, a + P {0, h}}, B {a + P {w, s}, a + P {w + w2, s}, a + P {w + w2, s + h2}, a + P {w, s + h2}};
      for (auto& q : A) {q = g::rot(q, th);}
      for (auto& q : B) {q = g::rot(q, th);}
      in.cells = {};
      in.cells.resize(2); in.cells[0].rings.push_back(A); in.cells[1].rings.push_back(B);
    }
    in.tol = r.p(0.5) ? 1e-4 : r.logu(1e-5, 1e-3);
    in.sc = 1;
    for (auto& p : in.cells) {for (auto& q : p.rings) {for (auto& v : q) {in.sc = std::max({in.sc, std::fabs(v.x), std::fabs(v.y)});}}}
    int left = r.i(1, 12);
    for (size_t i = 0; i < in.cells.size(); ++i) {
      in.sw.emplace_back();
      if (r.p(0.08)) {continue;}
      fill(r, in.cells[i], in.sw.back(), std::max(1, left / int(in.cells.size())), id);
    }
    if (r.p(0.1)) {in.sw.insert(in.sw.begin() + r.i(0, int(in.sw.size())), std::vector<Sw> {});}
    if (r.p(0.15)) {   // a swath going on where another ends
      for (auto& v : in.sw) {
        if (v.empty()) {continue;}
        Sw s = v[r.next() % v.size()];
        P a = r.p(0.5) ? s.s() : s.e();
        g::Box b = g::box(in.cells);
        s.m.id = id++; s.m.pts = {a, {r.u(b.x0, b.x1), r.u(b.y0, b.y1)}};
        if (r.p(0.5)) {std::reverse(s.m.pts.begin(), s.m.pts.end());}
        v.push_back(s);
        break;
      }
    }
    for (auto& v : in.sw) {if (r.p(0.3)) {r.shuffle(v);}}
    auto all = in.all();
    if (all.size() > 16) {continue;}
    if (r.p(0.5)) {
      int w = r.i(0, 5);
      g::Box b = g::box(in.cells);
      if (w == 0 && !all.empty()) {auto* s = all[r.next() % all.size()]; in.depot = r.p(0.5) ? s->s() : s->e();}
      else if (w == 1) {auto& q = in.cells[0].rings[0]; in.depot = q[r.next() % q.size()];}
      else if (w == 2 && !all.empty()) {   // beside a swath end, as seen from the border
        auto* s = all[r.next() % all.size()];
        P a = r.p(0.5) ? s->s() : s->e(), q = a;
        double best = 1e300;
        for (auto& sg : borders(in.cells)) {P x = nearestSeg(a, sg.first, sg.second); if (dist(x, a) < best) {best = dist(x, a); q = x;}}
        in.depot = q + (a - q) * (r.p(0.5) ? 0 : r.u(-1, 3));
      }
      else if (w == 3) {auto& q = in.cells[0].rings[0]; P n {r.u(-1, 1), r.u(-1, 1)}; in.depot = q[r.next() % q.size()] + n * r.logu(1e-13, 1e-9);}
      else {in.depot = P {r.u(b.x0, b.x1), r.u(b.y0, b.y1)};}
    }
    if (in.depot) {for (auto* s : all) {for (P e : {s->s(), s->e()}) {if (dist(e, *in.depot) < 1e-5) {in.depot = e;}}}}
    // ends and middles must tell the swaths apart
    std::vector<P> mids, ends;
    for (auto* s : all) {mids.push_back((s->s() + s->e()) * 0.5); ends.push_back(s->s()); ends.push_back(s->e());}
    bool bad = false;
    for (size_t i = 0; i < mids.size() && !bad; ++i) {
      for (size_t j = 0; j < i; ++j) {bad |= dist(mids[i], mids[j]) < 1e-5;}
      for (auto& e : ends) {bad |= dist(mids[i], e) < 1e-5;}
      if (in.depot) {bad |= dist(mids[i], *in.depot) < 1e-5;}
    }
    for (size_t i = 0; i < ends.size() && !bad; ++i) {
      int same = 0;
      for (size_t j = 0; j < ends.size(); ++j) {
        double d = dist(ends[i], ends[j]);
        same += d == 0;
        bad |= d > 0 && d < 1e-5;
      }
      bad |= same > 2;
    }
    if (bad) {continue;}
    return in;
  }
}
// own shortest distances over the edges of a graph
struct Net {
  std::map<size_t, std::map<size_t, int64_t>> e;
  explicit Net(const F2CGraph2D& gr) {for (auto& a : gr.getEdges()) {for (auto& b : a.second) {e[a.first][b.first] = b.second;}}}
  std::map<size_t, int64_t> from(size_t s) const {
    std::map<size_t, int64_t> d;
    std::priority_queue<std::pair<int64_t, size_t>> q;
    q.push({0, s});
    while (!q.empty()) {
      auto [c, x] = q.top(); q.pop();
      if (d.count(x)) {continue;}
      d[x] = -c;
      auto it = e.find(x);
      if (it == e.end()) {continue;}
      for (auto& y : it->second) {if (!d.count(y.first)) {q.push({c - y.second, y.first});}}
    }
    return d;
  }
};
bool has(const F2CGraph2D& gr, P p) {for (auto& q : gr.getNodes()) {if (dist(cv::of(q), p) < EQ) {return true;}} return false;}
size_t idx(const F2CGraph2D& gr, P p) {
  try {return gr.nodeToIndex(cv::pt(p));} catch (const std::out_of_range&) {}
  for (auto& q : gr.getNodes()) {if (dist(cv::of(q), p) < EQ) {return gr.nodeToIndex(q);}}
  throw std::out_of_range("no such node");
}

// The network as the property describes it: borders and spurs, split where
// points lie on them. Not clean when some point is about d_tol from a line.
struct Ideal {
  std::vector<P> pts; std::vector<std::map<size_t, double>> adj; bool clean {true};
  size_t of(P p, double tol) {
    size_t best = pts.size();
    for (size_t i = 0; i < pts.size(); ++i) {
      double d = dist(pts[i], p);
      if (d < 0.01 * tol) {best = i;} else if (d < 20 * tol) {clean = false;}
    }
    if (best == pts.size()) {pts.push_back(p);}
    return best;
  }
  Ideal(const In& in, const std::vector<std::pair<P, P>>& spurs) {
    auto segs = borders(in.cells);
    for (auto& s : spurs) {if (dist(s.first, s.second) > 0) {segs.push_back(s);}}
    for (auto& s : segs) {of(s.first, in.tol); of(s.second, in.tol);}
    for (auto& s : spurs) {of(s.first, in.tol); of(s.second, in.tol);}
    adj.resize(pts.size());
    for (auto& s : segs) {
      std::vector<std::pair<double, size_t>> on;
      for (size_t i = 0; i < pts.size(); ++i) {
        double d = distSeg(pts[i], s.first, s.second);
        if (d < 0.01 * in.tol) {on.push_back({dist(pts[i], s.first), i});} else if (d < 20 * in.tol) {clean = false;}
      }
      std::sort(on.begin(), on.end());
      for (size_t k = 0; k + 1 < on.size(); ++k) {
        double l = dist(pts[on[k].second], pts[on[k + 1].second]);
        adj[on[k].second][on[k + 1].second] = l; adj[on[k + 1].second][on[k].second] = l;
      }
    }
  }
  std::vector<double> from(size_t s) const {
    std::vector<double> d(pts.size(), 1e300);
    std::priority_queue<std::pair<double, size_t>> q;
    d[s] = 0; q.push({0, s});
    while (!q.empty()) {
      auto [c, x] = q.top(); q.pop();
      if (-c > d[x]) {continue;}
      for (auto& y : adj[x]) {double n = y.second - c; if (n < d[y.first]) {d[y.first] = n; q.push({-n, y.first});}}
    }
    return d;
  }
};
void checkGraph(vf::Case& c, const In& in, const F2CGraph2D& gr) {
  auto bs = borders(in.cells);
  double eps = 1e-9 + 1e-14 * in.sc;
  std::vector<P> ends;
  for (auto* s : in.all()) {ends.push_back(s->s()); ends.push_back(s->e());}
  if (in.depot) {ends.push_back(*in.depot);}
  for (auto& p : ends) {c.check(has(gr, p), "end_missing", "no node (", p.x, ",", p.y, ")");}
  for (auto& b : bs) {c.check(has(gr, b.first), "border_missing", "no node (", b.first.x, ",", b.first.y, ")");}
  std::vector<P> nodes(gr.numNodes());
  for (size_t i = 0; i < nodes.size(); ++i) {nodes[i] = cv::of(gr.indexToNode(i));}
  c.count("nodes", int64_t(nodes.size()));
  Net net(gr);
  // nodes that are neither ends nor corners are where ends meet the border
  std::vector<std::pair<P, P>> spurs;
  for (auto& p : ends) {
    double d = distBorders(p, bs), best = 1e300;
    P q = p;
    for (auto& n : nodes) {
      if (distBorders(n, bs) > eps) {continue;}
      double x = dist(n, p);
      if (x < best) {best = x; q = n;}
    }
    if (!c.check(best < 1e300 && best <= d + eps, "not_joined", "end (", p.x, ",", p.y, ") at ", d, " from the border has no node there: nearest ", best)) {return;}
    spurs.push_back({p, q});
  }
  for (auto& n : nodes) {
    bool ok = distBorders(n, bs) <= eps;
    for (auto& p : ends) {ok = ok || dist(n, p) < EQ;}
    c.check(ok, "stray_node", "node (", n.x, ",", n.y, ") is neither an end nor on the border");
  }
  size_t ne = 0;
  for (auto& a : net.e) {
    for (auto& b : a.second) {
      ++ne;
      P u = nodes[a.first], v = nodes[b.first];
      auto back = net.e[b.first].find(a.first);
      c.check(back != net.e[b.first].end() && back->second == b.second, "one_way", "edge ", a.first, "-", b.first);
      c.check(std::fabs(b.second - 1e3 * dist(u, v)) <= 1 + 1e-9 * in.sc, "edge_cost", "edge of length ", dist(u, v), " costs ", b.second);
      for (double f : {0.23, 0.5, 0.81}) {
        P m = u + (v - u) * f;
        double d = distBorders(m, bs);
        for (auto& s : spurs) {d = std::min(d, distSeg(m, s.first, s.second));}
        c.check(d <= 4 * in.tol + eps, "shortcut", "edge (", u.x, ",", u.y, ") - (", v.x, ",", v.y, ") is ", d, " from the border and from the ways to it");
      }
    }
  }
  c.count("graph_edges", int64_t(ne));
  Ideal id(in, spurs);
  c.count(id.clean ? "clean_networks" : "blurred_networks");
  if (!id.clean) {return;}
  for (size_t i = 0; i < nodes.size(); ++i) {
    size_t a = id.of(nodes[i], in.tol);
    if (!c.check(a < id.adj.size(), "stray_node", "node (", nodes[i].x, ",", nodes[i].y, ")")) {return;}
    auto d = net.from(i);
    auto w = id.from(a);
    for (size_t j = 0; j < nodes.size(); ++j) {
      size_t b = id.of(nodes[j], in.tol);
      bool ok = d.count(j) == 1;
      if (!c.check(ok == (w[b] < 1e299), "reach", "from (", nodes[i].x, ",", nodes[i].y, ") to (", nodes[j].x, ",", nodes[j].y, "): ", ok ? "way" : "no way", ", along the border ", w[b])) {return;}
      if (!ok) {continue;}
      double slack = 1.5 * double(nodes.size()) + 1e3 * 4 * in.tol + 1e-3;   // costs are whole numbers
      if (!c.check(std::fabs(d[j] - 1e3 * w[b]) <= slack, "distance", "from (", nodes[i].x, ",", nodes[i].y, ") to (", nodes[j].x, ",", nodes[j].y, ") costs ", d[j], ", along the border ", w[b])) {return;}
    }
  }
  c.count("distances", int64_t(nodes.size() * nodes.size()));
}
void checkCoverage(vf::Case& c, const In& in, const F2CGraph2D& sg, const F2CGraph2D& cg, bool redirect) {
  Net sn(sg), cn(cg);
  auto all = in.all();
  std::map<std::pair<size_t, size_t>, std::vector<int64_t>> want;   // allowed values; several when edges coincide
  std::set<std::pair<size_t, size_t>> seen;
  const int64_t INF = 1 << 30;
  auto node = [&] (P p) {return idx(cg, p);};
  auto cost = [&] (const std::map<size_t, int64_t>& d, P b) {auto it = d.find(idx(sg, b)); return it == d.end() ? INF : it->second;};
  auto put = [&] (P a, P b, int64_t w) {want[{node(a), node(b)}].push_back(w);};
  P dep = in.depot ? *in.depot : P {-1e8, -1e8};
  for (auto* s : all) {
    P m = (s->s() + s->e()) * 0.5;
    if (!c.check(has(cg, s->s()) && has(cg, s->e()) && has(cg, m) && has(cg, dep), "coverage_node", "a node of swath ", s->m.id, " or of the depot is missing")) {return;}
    put(s->s(), m, 0); put(m, s->e(), 0);
    if (redirect) {put(s->e(), m, 0); put(m, s->s(), 0);}
  }
  size_t n = all.empty() ? 0 : 1;
  std::set<std::pair<double, double>> ends;
  for (auto* s : all) {ends.insert({s->s().x, s->s().y}); ends.insert({s->e().x, s->e().y});}
  n += ends.size() + all.size();
  if (in.depot && ends.count({dep.x, dep.y})) {--n;}
  c.check(cg.numNodes() == n, "coverage_nodes", cg.numNodes(), " nodes, not ", n);
  for (auto* s : all) {
    for (int k = 0; k < 2; ++k) {
      P a = k ? s->e() : s->s();
      auto d = sn.from(idx(sg, a));
      for (auto* u : all) {
        for (int l = 0; l < 2; ++l) {
          P b = l ? u->e() : u->s();
          if (!redirect && (k == 0 || l == 1)) {continue;}
          put(a, b, cost(d, b));
        }
      }
      int64_t w = in.depot ? cost(d, dep) : 0;
      put(a, dep, w); put(dep, a, w);
    }
  }
  size_t ne = 0;
  for (auto& a : cn.e) {
    for (auto& b : a.second) {
      ++ne;
      auto it = want.find({a.first, b.first});
      if (!c.check(it != want.end(), "coverage_extra", "edge ", a.first, "-", b.first, " costs ", b.second)) {return;}
      c.check(std::count(it->second.begin(), it->second.end(), b.second) > 0, "coverage_cost", "edge ", a.first, "-", b.first, " costs ", b.second, ", not ", it->second[0]);
    }
  }
  for (auto& w : want) {
    auto it = cn.e.find(w.first.first);
    c.check(it != cn.e.end() && it->second.count(w.first.second), "coverage_missing", "no edge ", w.first.first, "-", w.first.second);
  }
  c.count("coverage_edges", int64_t(ne));
}
// a random valid visiting sequence
struct Visit {const Sw* s; bool rev;};
std::vector<Visit> randomVisit(vf::Rng& r, const In& in, bool redirect, const P* dep) {
  auto all = in.all();
  for (int t = 0; t < 400; ++t) {
    r.shuffle(all);
    std::vector<Visit> v;
    for (auto* s : all) {v.push_back({s, redirect && r.p(0.5)});}
    // ends in common must follow each other, one at the depot be first or last
    bool ok = true;
    std::map<std::pair<double, double>, std::vector<int>> at;
    for (size_t i = 0; i < v.size(); ++i) {
      P a = v[i].rev ? v[i].s->e() : v[i].s->s(), b = v[i].rev ? v[i].s->s() : v[i].s->e();
      at[{a.x, a.y}].push_back(int(2 * i)); at[{b.x, b.y}].push_back(int(2 * i + 1));
    }
    for (auto& x : at) {
      auto& k = x.second;
      if (k.size() == 2) {ok = ok && k[1] == k[0] + 1 && k[0] % 2 == 1;}
      if (dep && x.first == std::make_pair(dep->x, dep->y)) {ok = ok && k.size() == 1 && (k[0] == 0 || k[0] + 1 == int(2 * v.size()));}
    }
    if (ok) {return v;}
  }
  return {};
}
std::vector<long long int> sequence(const F2CGraph2D& cg, const std::vector<Visit>& v, const P* dep) {
  std::vector<long long int> ids;
  auto add = [&] (P p) {
    if (dep && dist(p, *dep) < EQ) {return;}
    auto i = (long long int)(idx(cg, p));
    if (ids.empty() || ids.back() != i) {ids.push_back(i);}
  };
  for (auto& x : v) {
    P a = x.rev ? x.s->e() : x.s->s(), b = x.rev ? x.s->s() : x.s->e();
    add(a); add((a + b) * 0.5); add(b);
  }
  return ids;
}
// the visits a sequence of nodes stands for; false if it is not a valid one
bool decode(const In& in, const F2CGraph2D& cg, const std::vector<long long int>& ids, bool redirect, std::vector<Visit>& out) {
  auto all = in.all();
  std::vector<P> p;
  std::set<long long int> seen;
  for (auto i : ids) {
    if (i < 0 || size_t(i) >= cg.numNodes() || !seen.insert(i).second) {return false;}
    p.push_back(cv::of(cg.indexToNode(size_t(i))));
  }
  if (in.depot) {p.insert(p.begin(), *in.depot); p.push_back(*in.depot);}
  std::set<const Sw*> done;
  for (size_t i = 1; i + 1 < p.size(); ++i) {
    for (auto* s : all) {
      if (dist((s->s() + s->e()) * 0.5, p[i]) > EQ) {continue;}
      if (dist(p[i - 1], s->s()) < EQ && dist(p[i + 1], s->e()) < EQ) {out.push_back({s, false});}
      else if (redirect && dist(p[i - 1], s->e()) < EQ && dist(p[i + 1], s->s()) < EQ) {out.push_back({s, true});}
      else {return false;}
      if (!done.insert(s).second) {return false;}
    }
  }
  return done.size() == all.size();
}
void checkConnection(vf::Case& c, const F2CGraph2D& sg, const Net& net, const F2CMultiPoint& mp, P a, P b, const std::string& what) {
  auto pts = cv::of(mp);
  auto d = net.from(idx(sg, a));
  auto it = d.find(idx(sg, b));
  c.count("connections");
  if (idx(sg, a) == idx(sg, b)) {
    for (auto& q : pts) {c.check(dist(q, a) < EQ, "detour", what, " between equal points passes (", q.x, ",", q.y, ")");}
    return;
  }
  if (it == d.end()) {c.count("no_way"); c.check(pts.empty(), "no_way", what, " has ", pts.size(), " points although there is no way"); return;}
  if (!c.check(pts.size() >= 2, "connection_missing", what, " from (", a.x, ",", a.y, ") to (", b.x, ",", b.y, ") has ", pts.size(), " points")) {return;}
  c.check(dist(pts.front(), a) < EQ, "connection_start", what, " starts at (", pts.front().x, ",", pts.front().y, "), not (", a.x, ",", a.y, ")");
  c.check(dist(pts.back(), b) < EQ, "connection_end", what, " ends at (", pts.back().x, ",", pts.back().y, "), not (", b.x, ",", b.y, ")");
  int64_t w = 0;
  for (size_t i = 0; i < pts.size(); ++i) {
    if (!c.check(has(sg, pts[i]), "connection_node", what, " passes (", pts[i].x, ",", pts[i].y, "), not a node")) {return;}
    if (i == 0) {continue;}
    auto& m = net.e.at(idx(sg, pts[i - 1]));
    auto e = m.find(idx(sg, pts[i]));
    if (!c.check(e != m.end(), "connection_edge", what, " point ", i, " does not follow an edge")) {return;}
    w += e->second;
  }
  c.check(w == it->second, "connection_cost", what, " costs ", w, ", the shortest ", it->second);
  c.count("connection_points", int64_t(pts.size()));
}
void checkRoute(vf::Case& c, const In& in, const F2CGraph2D& sg, const F2CRoute& rt, const std::vector<Visit>& v, bool redirect) {
  size_t n = v.size();
  if (n == 0) {c.check(rt.isEmpty() && rt.sizeVectorSwaths() == 0, "not_empty", "route without swaths has ", rt.sizeVectorSwaths(), " groups and ", rt.sizeConnections(), " connections"); return;}
  if (!c.check(rt.sizeVectorSwaths() == n, "groups", rt.sizeVectorSwaths(), " groups for ", n, " swaths")) {return;}
  if (!c.check(rt.sizeConnections() == n + (in.depot ? 1 : 0), "connections", rt.sizeConnections(), " connections for ", n, " swaths")) {return;}
  Net net(sg);
  std::vector<swl::M> got;
  for (size_t i = 0; i < n; ++i) {
    auto& gsw = rt.getSwaths(i);
    if (!c.check(gsw.size() == 1, "group_size", "group ", i, " has ", gsw.size(), " swaths")) {return;}
    got.push_back(swl::of(gsw.at(0)));
    swl::M w = v[i].rev ? swl::rev(v[i].s->m) : v[i].s->m;
    if (!redirect) {c.check(swl::samePts(got[i].pts, v[i].s->m.pts), "redirected", "swath ", v[i].s->m.id, " is driven the other way round");}
    c.check(swl::same(got[i], w), "swath", "swath ", i, " is ", swl::str(got[i]), " not ", swl::str(w));
    if (got[i].pts.empty()) {return;}
  }
  for (size_t i = 0; i <= n; ++i) {
    if (i == n && !in.depot) {break;}
    auto& mp = rt.getConnection(i);
    if (i == 0 && !in.depot) {c.check(mp.size() == 0, "first_connection", "the route starts with ", mp.size(), " points"); continue;}
    P a = i == 0 ? *in.depot : got[i - 1].pts.back(), b = i == n ? *in.depot : got[i].pts.front();
    checkConnection(c, sg, net, mp, a, b, vf::cat("connection ", i));
  }
  if (in.depot) {
    c.check(dist(cv::of(rt.startPoint()), *in.depot) < EQ || rt.getConnection(0).size() == 0, "route_start", "the route does not start at the depot");
  }
  c.count("swaths", int64_t(n));
}
}  // namespace

SCENARIO(headland_graph, 420, 4000) {
  In in = make(c.rng);
  c.desc = show(in);
  Planner p;
  if (in.depot) {p.setStartAndEndPoint(cv::pt(*in.depot));}
  auto cells = in.fcells(); auto sw = in.fsw();
  F2CGraph2D sg = p.createShortestGraph(cells, sw, in.tol);
  checkGraph(c, in, sg);
  bool redirect = c.rng.p(0.5);
  F2CGraph2D used = sg;
  F2CGraph2D cg = p.createCoverageGraph(cells, sw, used, in.tol, redirect);
  if (!in.all().empty()) {checkCoverage(c, in, sg, cg, redirect);}
  c.sig(uint64_t(sg.numNodes()) * 1000 + cg.numNodes());
}
SCENARIO(given_sequence, 420, 4000) {
  In in = make(c.rng);
  bool redirect = c.rng.p(0.6);
  c.desc = show(in); c.desc += redirect ? " redirect" : " as made";
  Planner p;
  if (in.depot) {p.setStartAndEndPoint(cv::pt(*in.depot));}
  auto cells = in.fcells(); auto sw = in.fsw();
  F2CGraph2D sg = p.createShortestGraph(cells, sw, in.tol);
  F2CGraph2D cg = p.createCoverageGraph(cells, sw, sg, in.tol, redirect);
  const P* dep = in.depot ? &*in.depot : nullptr;
  auto v = randomVisit(c.rng, in, redirect, dep);
  if (v.empty() && !in.all().empty()) {c.count("no_valid_sequence"); return;}
  auto ids = sequence(cg, v, dep);
  std::vector<Visit> chk;
  c.require(decode(in, cg, ids, redirect, chk), "harness: invalid sequence");
  F2CRoute rt;
  bool gen = c.rng.p(0.4);
  if (gen) {
    p.own = true; p.seq = ids;
    rt = p.genRoute(cells, sw, false, in.tol, redirect);
    c.check(p.given, "unused", "genRoute did not ask for the best route");
  } else {
    rt = p.transformSolutionToRoute(ids, sw, cg, sg);
  }
  checkRoute(c, in, sg, rt, v, redirect);
  for (size_t i = 0, k = 0; i < in.sw.size(); ++i) {   // the input is left alone
    for (auto& s : in.sw[i]) {c.check(swl::same(swl::of(sw.getSwath(k++)), s.m), "input_changed", "swath ", s.m.id);}
  }
  std::string s; for (auto& x : v) {s += vf::cat(x.s->m.id, x.rev ? "r" : "f");}
  c.sig(s);
}
SCENARIO(whole_route, 320, 3000) {
  In in = make(c.rng);
  c.desc = show(in);
  Planner p;
  if (in.depot) {p.setStartAndEndPoint(cv::pt(*in.depot));}
  auto cells = in.fcells(); auto sw = in.fsw();
  F2CRoute rt = p.genRoute(cells, sw, false, in.tol, true, 1, c.rng.p(0.5));
  F2CGraph2D sg = p.createShortestGraph(cells, sw, in.tol);
  F2CGraph2D cg = p.createCoverageGraph(cells, sw, sg, in.tol, true);
  std::vector<Visit> v;
  if (!decode(in, cg, p.used, true, v)) {c.count("unusable_solutions"); return;}
  c.count("solutions");
  checkRoute(c, in, sg, rt, v, true);
  std::string s; for (auto& x : v) {s += vf::cat(x.s->m.id, x.rev ? "r" : "f");}
  c.sig(s);
}
VF_MAIN
