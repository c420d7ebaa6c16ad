// Model of a graph and its references.
#pragma once
#include "vfall.hpp"
#include <cstdint>

namespace gm {
struct Model {
  std::map<std::pair<size_t, size_t>, int64_t> e;
  std::set<size_t> nodes;
  void add(size_t a, size_t b, int64_t w) {e[{a, b}] = w; nodes.insert(a); nodes.insert(b);}
  void del(size_t a, size_t b) {e.erase({a, b});}
  // Bellman-Ford; INT64_MAX when unreachable
  std::map<size_t, int64_t> from(size_t s) const {
    std::map<size_t, int64_t> d;
    d[s] = 0;
    for (bool ch = true; ch;) {
      ch = false;
      for (auto& x : e) {
        auto it = d.find(x.first.first);
        if (it == d.end()) {continue;}
        int64_t n = it->second + x.second;
        auto jt = d.find(x.first.second);
        if (jt == d.end() || n < jt->second) {d[x.first.second] = n; ch = true;}
      }
    }
    return d;
  }
  std::vector<size_t> out(size_t s) const {
    std::vector<size_t> r;
    for (auto it = e.lower_bound({s, 0}); it != e.end() && it->first.first == s; ++it) {r.push_back(it->first.second);}
    return r;
  }
  bool paths(size_t a, size_t b, std::vector<std::vector<size_t>>& res, size_t lim) const {
    std::vector<size_t> cur {a};
    std::set<size_t> seen {a};
    std::function<bool(size_t)> go = [&] (size_t x) {
      if (x == b) {res.push_back(cur); return res.size() <= lim;}
      for (size_t y : out(x)) {
        if (seen.count(y)) {continue;}
        seen.insert(y); cur.push_back(y);
        bool ok = go(y);
        cur.pop_back(); seen.erase(y);
        if (!ok) {return false;}
      }
      return true;
    };
    return go(a);
  }
};
inline std::string str(const std::vector<size_t>& p) {std::string s = "["; for (size_t x : p) {s += " " + std::to_string(x);} return s + " ]";}
// a path of the model from a to b with cost w
template <class V> bool pathOk(const Model& m, const V& p, size_t a, size_t b, int64_t w) {
  if (p.size() < 2 || p.front() != a || p.back() != b) {return false;}
  int64_t s = 0;
  for (size_t i = 1; i < p.size(); ++i) {
    auto it = m.e.find({p[i - 1], p[i]});
    if (it == m.e.end()) {return false;}
    s += it->second;
  }
  return s == w;
}
}  // namespace gm
