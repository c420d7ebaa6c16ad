#pragma once
namespace operations_research {
struct FirstSolutionStrategy {enum Value {UNSET = 0, AUTOMATIC = 15};};
struct LocalSearchMetaheuristic {enum Value {UNSET = 0, GUIDED_LOCAL_SEARCH = 2, AUTOMATIC = 6};};
}  // namespace operations_research
