// Every copy and move operation of every class of the library that has one.
#include <memory>
#include <new>
#include <ostream>
#include <type_traits>
#include <vector>

#include <Eigen/Geometry>
#include <common_robotics_utilities/color_builder.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/maybe.hpp>
#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_astar_search.hpp>
#include <common_robotics_utilities/simple_dtw.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/simple_robot_model_interface.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/simple_task_planner.hpp>
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
#include <common_robotics_utilities/utility.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp>

namespace cru = common_robotics_utilities;

// A value whose copies are visible as calls.
struct State
{
  State();
  State(const State&);
  State(State&&);
  State& operator=(const State&);
  State& operator=(State&&);
  ~State();
  bool operator==(const State&) const;
  void* p;
  void* q;
};
std::ostream& operator<<(std::ostream&, const State&);

template <typename T>
struct Hash
{
  size_t operator()(const T&) const;
};

// Base classes that are abstract are reached through their derived classes.
template <typename T>
void every(void* at, T& a, const T& b, T& c)
{
  if constexpr (std::is_copy_constructible<T>::value) { new (at) T(b); }
  if constexpr (std::is_move_constructible<T>::value) { new (at) T(std::move(c)); }
  if constexpr (std::is_copy_assignable<T>::value) { a = b; }
  if constexpr (std::is_move_assignable<T>::value) { a = std::move(c); }
}

using G = cru::simple_graph::Graph<State>;

#define COPIES(NAME, ...) using NAME = __VA_ARGS__; template void every(void*, NAME&, const NAME&, NAME&)

COPIES(Color, cru::color_builder::RGBAColor);
COPIES(Region, cru::voxel_grid::ChunkRegion);
COPIES(CellQuery, cru::voxel_grid::DynamicSpatialHashedGridQuery<State>);
COPIES(Chunk, cru::voxel_grid::DynamicSpatialHashedVoxelGridChunk<State, std::vector<State>>);
COPIES(Sparse, cru::voxel_grid::DynamicSpatialHashedVoxelGrid<State>);
COPIES(Index, cru::voxel_grid::GridIndex);
COPIES(Sizes, cru::voxel_grid::GridSizes);
COPIES(Query, cru::voxel_grid::GridQuery<State>);
COPIES(Dense, cru::voxel_grid::VoxelGrid<State>);
COPIES(Plane, cru::math::Hyperplane);
COPIES(Own, cru::OwningMaybe<State>);
COPIES(Ref, cru::ReferencingMaybe<State>);
COPIES(Degree, cru::parallelism::DegreeOfParallelism);
COPIES(Range, cru::parallelism::ThreadWorkRange);
COPIES(Rotations, cru::random_rotation_generator::RandomRotationGenerator);
COPIES(Read, cru::serialization::Deserialized<State>);
COPIES(QueueElement, cru::simple_astar_search::AstarPQueueElement<State>);
COPIES(AstarResult, cru::simple_astar_search::AstarResult<State>);
COPIES(StateCost, cru::simple_astar_search::StateWithCost<State>);
COPIES(Dtw, cru::simple_dtw::SimpleDTW<State, State>);
COPIES(Edge, cru::simple_graph::GraphEdge);
COPIES(Node, cru::simple_graph::GraphNode<State>);
COPIES(Graph, G);
COPIES(Overlay, cru::simple_graph::NonOwningGraphOverlay<State, G>);
COPIES(OwningOverlay, cru::simple_graph::OwningGraphOverlay<State, G>);
COPIES(Dijkstra, cru::simple_graph_search::DijkstrasResult);
COPIES(Clusters, cru::simple_hierarchical_clustering::ClusteringResult<std::vector<State>>);
COPIES(Neighbor, cru::simple_knearest_neighbors::IndexAndDistance);
COPIES(Provider, cru::simple_prm_planner::LinearGraphKNNProvider<State, G>);
COPIES(Split, cru::simple_prngs::SplitMix64PRNG);
COPIES(Plus, cru::simple_prngs::XorShift128PlusPRNG);
COPIES(Star, cru::simple_prngs::XorShift1024StarPRNG);
COPIES(TreeState, cru::simple_rrt_planner::SimpleRRTPlannerState<State>);
COPIES(Tree, cru::simple_rrt_planner::SimpleRRTPlannerTree<State>);
COPIES(Propagated, cru::simple_rrt_planner::PropagatedState<State>);
COPIES(Multiple, cru::simple_rrt_planner::MultipleSolutionPlanningResults<State>);
COPIES(Single, cru::simple_rrt_planner::SingleSolutionPlanningResults<State>);
COPIES(Wrapper, cru::simple_task_planner::ActionPrimitiveWrapper<State>);
COPIES(Collection, cru::simple_task_planner::ActionPrimitiveCollection<State>);
COPIES(Outcome, cru::simple_task_planner::OutcomeWithPrimitiveIndex<State>);
COPIES(Next, cru::simple_task_planner::NextPrimitiveToExecute<State>);
COPIES(TimePoint, cru::time_optimal_trajectory_parametrization::PositionVelocityTimePoint);
COPIES(Atomic, cru::utility::CopyableMoveableAtomic<int64_t>);

template class cru::voxel_grid::VoxelGrid<State>;
template class cru::voxel_grid::VoxelGridBase<State>;
template class cru::voxel_grid::DynamicSpatialHashedVoxelGridChunk<State, std::vector<State>>;
template class cru::voxel_grid::DynamicSpatialHashedVoxelGridBase<State>;
template class cru::voxel_grid::DynamicSpatialHashedVoxelGrid<State>;
template class cru::simple_graph::GraphNode<State>;
template class cru::simple_graph::Graph<State>;
template class cru::simple_graph::NonOwningGraphOverlay<State, G>;
template class cru::simple_prm_planner::LinearGraphKNNProvider<State, G>;
template class cru::simple_rrt_planner::SimpleRRTPlannerState<State>;
template class cru::simple_rrt_planner::SimpleRRTPlannerTree<State>;
template class cru::simple_task_planner::ActionPrimitiveWrapper<State>;
template class cru::simple_task_planner::ActionPrimitiveCollection<State>;
template class cru::simple_task_planner::NextPrimitiveToExecute<State>;

using Relaxed = cru::utility::CopyableMoveableAtomic<int64_t, std::memory_order_relaxed>;
void atomics(void* at, Atomic& a, const Relaxed& r, Relaxed& s)
{
  new (at) Atomic(r);
  new (at) Atomic(std::move(s));
  a = r;
  a = std::move(s);
}

void clones(const Dense& d, const Sparse& s)
{
  d.Clone();
  s.Clone();
}
