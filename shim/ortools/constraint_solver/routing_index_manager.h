#pragma once
namespace operations_research {
class RoutingIndexManager {
 public:
  struct NodeIndex {
    int v;
    explicit NodeIndex(int x) : v(x) {}
    int value() const {return v;}
  };
  RoutingIndexManager(int num, int, NodeIndex d) : n(num), depot(d.v) {}
  NodeIndex IndexToNode(long long i) const {return NodeIndex(i == n ? int(depot) : int(i));}
  int n; long long depot;
};
}  // namespace operations_research
