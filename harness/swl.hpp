// Snapshots and random lists of swaths shared by the drivers on swaths.
#pragma once
#include "vfall.hpp"

namespace swl {
using g::P;
struct M {   // model of a swath
  int id; double w; bool dir; int type; std::vector<P> pts;
};
inline M of(const F2CSwath& s) {return {s.getId(), s.getWidth(), s.getCreationDir(), int(s.getType()), cv::of(s.getPath())};}
inline std::vector<M> of(const F2CSwaths& s) {std::vector<M> r; for (size_t i = 0; i < s.size(); ++i) {r.push_back(of(s.at(i)));} return r;}
inline M rev(M m) {std::reverse(m.pts.begin(), m.pts.end()); m.dir = !m.dir; return m;}
inline bool samePts(const std::vector<P>& a, const std::vector<P>& b, double tol = 0) {
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {if (!(std::fabs(a[i].x - b[i].x) <= tol && std::fabs(a[i].y - b[i].y) <= tol)) {return false;}}
  return true;
}
inline bool same(const M& a, const M& b, double tol = 0) {
  return a.id == b.id && a.w == b.w && a.dir == b.dir && a.type == b.type && samePts(a.pts, b.pts, tol);
}
// same swath up to its driving direction (points and mark turned together)
inline bool sameUndirected(const M& a, const M& b, double tol = 0) {return same(a, b, tol) || same(a, rev(b), tol);}
inline bool same(const std::vector<M>& a, const std::vector<M>& b, double tol = 0) {
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {if (!same(a[i], b[i], tol)) {return false;}}
  return true;
}
inline std::string str(const M& m) {return vf::cat("{id ", m.id, " w ", m.w, " dir ", m.dir, " type ", m.type, " ", g::str(m.pts), "}");}
inline std::string ids(const std::vector<M>& v) {std::string s; for (auto& m : v) {s += (s.empty() ? "" : ",") + std::to_string(m.id);} return s;}
inline F2CSwath make(const M& m) {
  F2CSwath s(cv::line(m.pts), m.w, m.id, m.type ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
  s.setCreationDir(m.dir);
  return s;
}
// numerical tolerance of one clone (text with 15 digits)
inline double cloneTol(const std::vector<M>& v) {
  double a = 1;
  for (auto& m : v) {for (auto p : m.pts) {a = std::max({a, std::fabs(p.x), std::fabs(p.y)});}}
  return 1e-13 * a;
}
// n parallel swaths created in one sense, numbered 0.., as a generator makes them
inline std::vector<M> parallel(vf::Rng& r, int n) {
  double a = r.p(0.5) ? r.u(0, 2 * g::PI) : r.i(0, 7) * g::PI / 4, w = r.logu(0.5, 20);
  P d = g::dirOf(a), nn {-d.y, d.x}, o = r.p(0.3) ? P {r.u(1e5, 8e5), r.u(1e6, 6e6)} : P {0, 0};
  if (r.p(0.2)) {o = o * -1;}
  std::vector<M> v;
  for (int i = 0; i < n; ++i) {
    double x0 = r.u(-50, 0), x1 = x0 + r.u(5, 100);
    v.push_back({i, w, true, 0, {o + nn * (w * i) + d * x0, o + nn * (w * i) + d * x1}});
  }
  return v;
}
// anything: own widths, numbers, kinds, polylines, directions
inline std::vector<M> any(vf::Rng& r, int n, bool uniqueIds = true) {
  std::vector<M> v;
  std::vector<int> ids;
  int base = r.i(-50, 50), step = r.i(1, 5);
  for (int i = 0; i < n; ++i) {ids.push_back(uniqueIds ? base + step * i : r.i(0, 3));}
  r.shuffle(ids);
  for (int i = 0; i < n; ++i) {
    M m {ids[i], r.u(0.5, 9), r.p(0.6), r.i(0, 1), {}};
    int k = r.i(2, 4);
    for (int j = 0; j < k; ++j) {m.pts.push_back({r.u(-90, 90), r.u(-90, 90)});}
    if (r.p(0.2)) {m.pts.back().x = m.pts.front().x;}
    v.push_back(m);
  }
  return v;
}
inline F2CSwaths list(const std::vector<M>& v) {F2CSwaths s; for (auto& m : v) {s.emplace_back(make(m));} return s;}
inline int count(vf::Rng& r) {return r.p(0.3) ? r.i(0, 3) : r.p(0.6) ? r.i(4, 16) : r.i(17, 60);}
// order in which ascending positions 0..n-1 are visited
inline std::vector<int> snake(int n) {
  std::vector<int> o;
  for (int i = 0; i < n; i += 2) {o.push_back(i);}
  for (int i = n % 2 ? n - 2 : n - 1; i > 0; i -= 2) {o.push_back(i);}
  return o;
}
inline std::vector<int> spiral(int n, int size) {
  std::vector<int> o;
  size = std::max(size, 2);
  for (int s = 0; s < n; s += size) {
    int lo = s, hi = std::min(n, s + size) - 1;
    if (lo == hi) {o.push_back(lo); break;}
    bool low = s % 2 == 0;
    while (lo <= hi) {o.push_back(low ? lo++ : hi--); low = !low;}
  }
  return o;
}
}  // namespace swl
