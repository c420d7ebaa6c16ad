#pragma once
#include "routing_enums.pb.h"
namespace operations_research {
struct Duration {long long s {0}; void set_seconds(long long x) {s = x;}};
struct RoutingSearchParameters {
  bool guided {false}; Duration d;
  void set_use_full_propagation(bool) {}
  void set_first_solution_strategy(FirstSolutionStrategy::Value) {}
  void set_local_search_metaheuristic(LocalSearchMetaheuristic::Value v) {guided = v == LocalSearchMetaheuristic::GUIDED_LOCAL_SEARCH;}
  Duration* mutable_time_limit() {return &d;}
  void set_log_search(bool) {}
};
inline RoutingSearchParameters DefaultRoutingSearchParameters() {return {};}
}  // namespace operations_research
