// The best-first searches over an opaque state and an opaque graph.
#include <functional>
#include <vector>

#include <common_robotics_utilities/simple_astar_search.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>

namespace ast = common_robotics_utilities::simple_astar_search;
namespace gsr = common_robotics_utilities::simple_graph_search;

struct State
{
  State();
  State(const State&);
  State(State&&);
  State& operator=(const State&);
  State& operator=(State&&);
  ~State();
  void* p;
  void* q;
};
struct Hash { size_t operator()(const State&) const; };
struct Equal { bool operator()(const State&, const State&) const; };
using States = std::vector<State>;

// A graph known only by its interface.
struct Edge
{
  int64_t GetFromIndex() const;
  int64_t GetToIndex() const;
  double GetWeight() const;
};
struct Node
{
  const State& GetValueImmutable() const;
  const std::vector<Edge>& GetInEdgesImmutable() const;
  const std::vector<Edge>& GetOutEdgesImmutable() const;
};
struct Graph
{
  using NodeType = Node;
  using EdgeType = Edge;
  int64_t Size() const;
  bool IndexInRange(const int64_t index) const;
  const Node& GetNodeImmutable(const int64_t index) const;
};

using Weighted = ast::StatesWithCosts<State>;
using Check = std::function<bool(const State&)>;
using Children = std::function<Weighted(const State&)>;
using Heuristic = std::function<double(const State&)>;

ast::AstarResult<State, States> search(const Weighted& starts, const Check& goal, const Children& children, const Heuristic& heuristic,
                                       const bool limit, const Hash& hash, const Equal& equal)
{
  return ast::PerformAstarSearch<State, States, Hash, Equal>(starts, goal, children, heuristic, limit, hash, equal);
}
ast::AstarResult<State, States> search_checked(const Weighted& starts, const Check& goal, const std::function<States(const State&)>& children,
                                               const std::function<bool(const State&, const State&)>& valid,
                                               const std::function<double(const State&, const State&)>& distance,
                                               const Heuristic& heuristic, const bool limit, const Hash& hash, const Equal& equal)
{
  return ast::PerformAstarSearch<State, States, Hash, Equal>(starts, goal, children, valid, distance, heuristic, limit, hash, equal);
}
ast::AstarResult<State, States> search_between(const State& start, const State& goal, const std::function<States(const State&)>& children,
                                               const std::function<bool(const State&, const State&)>& valid,
                                               const std::function<double(const State&, const State&)>& distance,
                                               const std::function<double(const State&, const State&)>& heuristic, const bool limit,
                                               const Hash& hash, const Equal& equal)
{
  return ast::PerformAstarSearch<State, States, Hash, Equal>(start, goal, children, valid, distance, heuristic, limit, hash, equal);
}
using Explored = ast::ExploredList<State, Hash, Equal>;
ast::AstarResult<State, States> extract(const Explored& explored, const State& goal)
{
  return ast::ExtractAstarResult<State, States, Hash, Equal>(explored, goal);
}

gsr::DijkstrasResult dijkstra(const Graph& graph, const int64_t start) { return gsr::PerformDijkstrasAlgorithm<Graph>(graph, start); }
gsr::AstarIndexResult lazy(const Graph& graph, const gsr::IndexStatesWithCosts& starts,
                           const std::function<bool(const Graph&, const int64_t)>& goal,
                           const std::function<bool(const Graph&, const Edge&)>& valid,
                           const std::function<double(const Graph&, const Edge&)>& distance,
                           const std::function<double(const Graph&, const int64_t)>& heuristic, const bool limit)
{
  return gsr::PerformLazyAstarSearch<Graph>(graph, starts, goal, valid, distance, heuristic, limit);
}
gsr::AstarIndexResult lazy_indices(const Graph& graph, const std::vector<int64_t>& starts, const std::vector<int64_t>& goals,
                                   const std::function<bool(const Graph&, const Edge&)>& valid,
                                   const std::function<double(const Graph&, const Edge&)>& distance,
                                   const std::function<double(const Graph&, const int64_t, const int64_t)>& heuristic, const bool limit)
{
  return gsr::PerformLazyAstarSearch<Graph>(graph, starts, goals, valid, distance, heuristic, limit);
}
gsr::AstarIndexResult lazy_values(const Graph& graph, const std::vector<int64_t>& starts, const std::vector<int64_t>& goals,
                                  const std::function<bool(const State&, const State&)>& valid,
                                  const std::function<double(const State&, const State&)>& distance,
                                  const std::function<double(const State&, const State&)>& heuristic, const bool limit)
{
  return gsr::PerformLazyAstarSearch<State, Graph>(graph, starts, goals, valid, distance, heuristic, limit);
}
gsr::AstarIndexResult astar_values(const Graph& graph, const std::vector<int64_t>& starts, const std::vector<int64_t>& goals,
                                   const std::function<double(const State&, const State&)>& heuristic, const bool limit)
{
  return gsr::PerformAstarSearch<State, Graph>(graph, starts, goals, heuristic, limit);
}
template class ast::AstarPQueueElement<State>;
template class ast::AstarPQueueElement<int64_t>;
template class ast::CompareAstarPQueueElementFn<State>;
template class ast::BackPointerAndCostToCome<State>;
template class ast::BackPointerAndCostToCome<int64_t>;
template class ast::AstarResult<State, States>;
template class ast::StateWithCost<State>;
bool cheaper(const gsr::IndexAndDistance& a, const gsr::IndexAndDistance& b) { return gsr::CompareIndexDistancePairFn()(a, b); }
bool cheaper_index(const gsr::AstarIndexPQueueElement& a, const gsr::AstarIndexPQueueElement& b) { return gsr::CompareAstarIndexPQueueElementFn()(a, b); }
int64_t previous(const gsr::DijkstrasResult& r, const int64_t i) { return r.GetPreviousIndex(i); }
double distance_of(const gsr::DijkstrasResult& r, const int64_t i) { return r.GetNodeDistance(i); }
