// Stand-in for or-tools' routing solver, which is not installed here: the same
// interface as used by Fields2Cover, with a nearest-neighbour tour improved by
// moving and turning pieces of it.
#pragma once
#include <algorithm>
#include <functional>
#include <limits>
#include <memory>
#include <vector>
#include "routing_index_manager.h"
#include "routing_parameters.h"
namespace operations_research {
class Assignment {
 public:
  std::vector<long long> next;
  long long Value(long long var) const {return next.at(var);}
};
class RoutingModel {
 public:
  explicit RoutingModel(const RoutingIndexManager& m) : n(m.n), depot(m.depot) {}
  int RegisterTransitCallback(std::function<long long(long long, long long)> f) {cost = f; return 0;}
  void SetArcCostEvaluatorOfAllVehicles(int) {}
  long long Start(int) const {return depot;}
  bool IsEnd(long long i) const {return i == n;}
  long long NextVar(long long i) const {return i;}
  const Assignment* SolveWithParameters(const RoutingSearchParameters& par) {
    const double BIG = 1e15;
    auto w = [&] (long long a, long long b) {double v = double(cost(a, b)); return (v < 0 || v > BIG) ? BIG : v;};
    std::vector<int> deg(n, 0);
    for (int i = 0; i < n; ++i) {for (int j = 0; j < n; ++j) {if (i != j && (w(i, j) < BIG || w(j, i) < BIG)) {++deg[i];}}}
    std::vector<long long> t;
    std::vector<bool> used(n, false);
    used[depot] = true;
    for (long long at = depot; int(t.size()) + 1 < n;) {
      long long best = -1;
      for (int j = 0; j < n; ++j) {
        if (used[j]) {continue;}
        if (best < 0 || w(at, j) < w(at, best) || (w(at, j) == w(at, best) && deg[j] < deg[best])) {best = j;}
      }
      t.push_back(best); used[best] = true; at = best;
    }
    auto total = [&] (const std::vector<long long>& v) {
      double s = 0; long long at = depot;
      for (auto x : v) {s += w(at, x); at = x;}
      return s + (v.empty() ? 0 : w(at, depot));
    };
    // moves of whole triples (start, middle, end)
    bool better = n <= 100;
    for (int it = 0; better && it < (par.guided ? 20 : 2); ++it) {
      better = false;
      double base = total(t);
      for (size_t i = 0; i + 3 <= t.size(); i += 3) {
        for (size_t j = i + 3; j <= t.size(); j += 3) {
          auto v = t;
          std::reverse(v.begin() + i, v.begin() + j);
          double s = total(v);
          if (s < base - 0.5) {t = v; base = s; better = true;}
        }
      }
    }
    sol.next.assign(n + 1, n);
    long long at = depot;
    for (auto x : t) {sol.next[at] = x; at = x;}
    sol.next[at] = n;
    return &sol;
  }
 private:
  int n; long long depot;
  std::function<long long(long long, long long)> cost;
  Assignment sol;
};
}  // namespace operations_research
