// Every algorithm that runs a parallel loop, over opaque element types.
#include <functional>
#include <unordered_set>
#include <vector>

#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>

namespace cru = common_robotics_utilities;
namespace par = cru::parallelism;
namespace sg = cru::simple_graph;
namespace prm = cru::simple_prm_planner;
namespace knn = cru::simple_knearest_neighbors;

struct State
{
  State();
  State(const State&);
  State& operator=(const State&);
  ~State();
  void* p;
};

struct Other
{
  Other(const Other&);
  ~Other();
  void* p;
};

std::ostream& operator<<(std::ostream&, const State&);

using Items = std::vector<State>;
using Others = std::vector<Other>;
using G = sg::Graph<State>;
using O = sg::NonOwningGraphOverlay<State, G>;
using Distance = std::function<double(const State&, const State&)>;
using Mixed = std::function<double(const State&, const Other&)>;

// A provider of neighbours known only by its interface.
struct Knn
{
  std::vector<knn::IndexAndDistance> GetKNearestNeighbors(
      const G& roadmap, const State& state, const int64_t K,
      const prm::NNDistanceDirection direction, const int64_t max_node_index) const;
  std::vector<knn::IndexAndDistance> GetKNearestNeighbors(
      const O& roadmap, const State& state, const int64_t K,
      const prm::NNDistanceDirection direction, const int64_t max_node_index) const;
};

using Sample = std::function<State(const int32_t)>;
using Valid = std::function<bool(const int32_t, const State&)>;
using Edge = std::function<bool(const int32_t, const State&, const State&)>;
using Average = std::function<State(const Items&, const std::vector<double>&)>;

// Accessors of the range handed to a range body.
int32_t range_thread(const par::ThreadWorkRange& r) { return r.GetThreadNum(); }
int64_t range_start(const par::ThreadWorkRange& r) { return r.GetRangeStart(); }
int64_t range_end(const par::ThreadWorkRange& r) { return r.GetRangeEnd(); }
int32_t degree_threads(const par::DegreeOfParallelism& p) { return p.GetNumThreads(); }

int64_t edge_from(const sg::GraphEdge& e) { return e.GetFromIndex(); }
int64_t edge_to(const sg::GraphEdge& e) { return e.GetToIndex(); }
double edge_weight(const sg::GraphEdge& e) { return e.GetWeight(); }
uint64_t edge_scratchpad(const sg::GraphEdge& e) { return e.GetScratchpad(); }
const std::vector<sg::GraphEdge>& node_in(const sg::GraphNode<State>& n) { return n.GetInEdgesImmutable(); }
const std::vector<sg::GraphEdge>& node_out(const sg::GraphNode<State>& n) { return n.GetOutEdgesImmutable(); }
const State& node_value(const sg::GraphNode<State>& n) { return n.GetValueImmutable(); }

void neighbors(const Items& items, const State& s, const Mixed& mixed, const Others& others, const Other& o,
               const Distance& d, size_t a, size_t b, int64_t k, const par::DegreeOfParallelism& p)
{
  knn::GetKNearestNeighborsInRangeParallel<State, State, Items>(items, a, b, s, d, k, p);
  knn::GetKNearestNeighborsInRangeParallel<State, Other, Items>(items, a, b, o, mixed, k, p);
}

void distances(const Items& items, const Others& others, const Mixed& mixed, const Distance& d,
               const Eigen::MatrixXd& m, const par::DegreeOfParallelism& p)
{
  cru::simple_hausdorff_distance::ComputeDistance<State, Other, Items, Others>(items, others, mixed, p);
  cru::simple_hausdorff_distance::ComputeDistance<State, Other, Items, Others>(items, others, m, p);
  cru::math::BuildPairwiseDistanceMatrix<State, Items>(items, d, p);
  cru::math::BuildPairwiseDistanceMatrix<State, Other, Items, Others>(items, others, mixed, p);
}

void clusters(const Items& items, const std::vector<double>& weights, const std::vector<int32_t>& labels,
              const Distance& d, const Average& average, int32_t n, const Eigen::MatrixXd& m, const par::DegreeOfParallelism& p)
{
  cru::simple_kmeans_clustering::PerformSingleClusteringIteration<State, Items>(items, items, d, p);
  cru::simple_kmeans_clustering::ComputeClusterCentersWeighted<State, Items>(items, weights, labels, average, n, p);
  cru::simple_hierarchical_clustering::IndexClusterWithDistanceMatrix(
      m, 1.0, cru::simple_hierarchical_clustering::ClusterStrategy::SINGLE_LINK, p);
}

void graphs(G& g, O& o, const State& s, const Knn& nn, const Sample& sample, const Distance& distance, const Valid& valid,
            const Edge& edge, const std::function<bool(const int64_t)>& done, int64_t k, int32_t tries,
            const par::DegreeOfParallelism& p, bool flag, const std::unordered_set<int64_t>& prune)
{
  prm::AddNodeToRoadmap<State, G>(s, prm::NNDistanceDirection(k), g, nn, distance, edge, k, k, p, flag, flag);
  prm::AddNodeToRoadmap<State, O>(s, prm::NNDistanceDirection(k), o, nn, distance, edge, k, k, p, flag, flag);
  g = prm::BuildRoadMap<State, G>(k, sample, nn, distance, valid, edge, k, tries, p, flag, flag, flag);
  prm::UpdateRoadMapEdges<State, G>(g, edge, distance, p);
  prm::UpdateRoadMapEdges<State, O>(o, edge, distance, p);
  g = sg::PruneGraph<G, G>(g, prune, p);
  g = sg::PruneGraph<O, G>(o, prune, p);
}
