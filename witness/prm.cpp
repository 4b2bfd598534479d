// The roadmap functions over an opaque state.
#include <functional>
#include <map>
#include <string>
#include <vector>

#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>

namespace sg = common_robotics_utilities::simple_graph;
namespace prm = common_robotics_utilities::simple_prm_planner;
namespace par = common_robotics_utilities::parallelism;

struct State
{
  State();
  State(const State&);
  State& operator=(const State&);
  ~State();
  void* p;
};

std::ostream& operator<<(std::ostream&, const State&);

using G = sg::Graph<State>;

// A provider of neighbours known only by its interface.
struct Knn
{
  std::vector<common_robotics_utilities::simple_knearest_neighbors::IndexAndDistance> GetKNearestNeighbors(
      const G& roadmap, const State& state, const int64_t K,
      const prm::NNDistanceDirection direction, const int64_t max_node_index) const;
};

using Sample = std::function<State(const int32_t)>;
using Distance = std::function<double(const State&, const State&)>;
using Valid = std::function<bool(const int32_t, const State&)>;
using Edge = std::function<bool(const int32_t, const State&, const State&)>;

void use(G& g, const State& s, const Knn& knn, const Sample& sample, const Distance& distance, const Valid& valid,
         const Edge& edge, const std::function<bool(const int64_t)>& done, int64_t k, int32_t tries,
         const par::DegreeOfParallelism& parallelism, bool flag)
{
  prm::AddNodeToRoadmap<State, G>(s, prm::NNDistanceDirection(k), g, knn, distance, edge, k, k, parallelism, flag, flag);
  prm::GrowRoadMap<State, G>(g, sample, knn, distance, valid, edge, done, k, parallelism, flag, flag);
  g = prm::BuildRoadMap<State, G>(k, sample, knn, distance, valid, edge, k, tries, parallelism, flag, flag, flag);
  prm::UpdateRoadMapEdges<State, G>(g, edge, distance, parallelism);
}

// Queries: all four ways, over a graph and over an overlay.
struct AnyKnn
{
  template <typename Any>
  std::vector<common_robotics_utilities::simple_knearest_neighbors::IndexAndDistance> GetKNearestNeighbors(
      const Any& roadmap, const State& state, const int64_t K,
      const prm::NNDistanceDirection direction, const int64_t max_node_index) const;
};

using States = std::vector<State>;

void query(const States& a, const States& b, const G& cg, G& g, const AnyKnn& knn, const Distance& distance, const Edge& edge,
           int64_t k, const par::DegreeOfParallelism& parallelism, bool f1, bool f2, bool f3, bool f4)
{
  prm::LazyQueryPathAndAddNodes<State, States, G>(a, b, g, knn, distance, edge, k, parallelism, f1, f2, f3);
  prm::QueryPathAndAddNodes<State, States, G>(a, b, g, knn, distance, edge, k, parallelism, f1, f2, f3);
  prm::LazyQueryPath<State, States, G>(a, b, cg, knn, distance, edge, k, parallelism, f1, f2, f3, f4);
  prm::QueryPath<State, States, G>(a, b, cg, knn, distance, edge, k, parallelism, f1, f2, f3, f4);
}

// Layout of the library types used above.
using NN = common_robotics_utilities::simple_knearest_neighbors::IndexAndDistance;
using Node = sg::GraphNode<State>;
int64_t nn_index(const NN& n) { return n.Index(); }
double nn_distance(const NN& n) { return n.Distance(); }
int64_t edge_from(const sg::GraphEdge& e) { return e.GetFromIndex(); }
int64_t edge_to(const sg::GraphEdge& e) { return e.GetToIndex(); }
double edge_weight(const sg::GraphEdge& e) { return e.GetWeight(); }
uint64_t edge_scratchpad(const sg::GraphEdge& e) { return e.GetScratchpad(); }
const void* node_in(const Node& n) { return &n.GetInEdgesImmutable(); }
const void* node_out(const Node& n) { return &n.GetOutEdgesImmutable(); }
const void* node_value(const Node& n) { return &n.GetValueImmutable(); }
int64_t direction_to_new() { return static_cast<int64_t>(prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE); }

// The neighbour provider itself.
std::vector<NN> provide(const G& g, const sg::NonOwningGraphOverlay<State, G>& o, const State& s,
                        const Distance& distance, int64_t k, const par::DegreeOfParallelism& parallelism)
{
  const prm::LinearGraphKNNProvider<State, G> p(distance, parallelism);
  const prm::GraphKNNProvider<State, G>& q = p;
  auto a = q.GetKNearestNeighbors(g, s, k, prm::NNDistanceDirection(k), k);
  auto b = q.GetKNearestNeighbors(o, s, k, prm::NNDistanceDirection(k), k);
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
