// The tree-growing planners over an opaque state and an opaque tree, the tree itself over an opaque state.
#include <functional>
#include <vector>

#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>

namespace rrt = common_robotics_utilities::simple_rrt_planner;
namespace par = common_robotics_utilities::parallelism;
namespace utl = common_robotics_utilities::utility;

struct State
{
  State();
  State(const State&);
  State(State&&);
  State& operator=(const State&);
  State& operator=(State&&);
  ~State();
  void* p;
  void* q;
};

// A tree known only by its interface.
struct Node
{
  const State& GetValueImmutable() const;
  State& GetValueMutable();
  int64_t GetParentIndex() const;
  void SetParentIndex(const int64_t parent_index);
  const std::vector<int64_t>& GetChildIndices() const;
  void ClearChildIndicies();
  void AddChildIndex(const int64_t child_index);
  void RemoveChildIndex(const int64_t child_index);
};

struct Tree
{
  using NodeType = Node;
  int64_t Size() const;
  bool Empty() const;
  void Clear();
  const Node& GetNodeImmutable(const int64_t index) const;
  Node& GetNodeMutable(const int64_t index);
  int64_t AddNode(const State& value);
  int64_t AddNodeAndConnect(const State& value, const int64_t parent_index);
  const std::vector<Node>& GetNodesImmutable() const;
  std::vector<Node>& GetNodesMutable();
};

using Sample = std::function<State(void)>;
using Nearest = rrt::RRTNearestNeighborFunction<State, Tree, State>;
using Forward = rrt::RRTForwardPropagationFunction<State, State>;
using Added = rrt::RRTStateAddedCallbackFunction<State, Tree>;
using Reached = rrt::RRTCheckGoalReachedFunction<State>;
using ReachedCallback = rrt::RRTGoalReachedCallbackFunction<State, Tree>;
using Done = rrt::RRTTerminationCheckFunction;

using Distance = std::function<double(const State&, const State&)>;
using Interpolate = std::function<State(const State&, const State&, const double)>;
using Edge = std::function<bool(const State&, const State&)>;

using Path = std::vector<State>;

void single(Tree& tree, const Sample& sample, const Nearest& nearest, const Forward& forward, const Added& added,
            const Reached& reached, const ReachedCallback& callback, const Done& done)
{
  rrt::RRTPlanMultiPath<State, Tree, State, Path>(tree, sample, nearest, forward, added, reached, callback, done);
  rrt::RRTPlanSinglePath<State, Tree, State, Path>(tree, sample, nearest, forward, added, reached, callback, done);
}

void both(Tree& start, Tree& goal, const rrt::BiRRTSelectSampleTypeFunction<State, Tree>& type, const Sample& sample,
          const rrt::BiRRTTreeSamplingFunction<State, Tree>& tree_sample,
          const rrt::BiRRTNearestNeighborFunction<State, Tree>& nearest, const rrt::BiRRTPropagationFunction<State>& forward,
          const rrt::BiRRTStateAddedCallbackFunction<State, Tree>& added,
          const rrt::BiRRTStatesConnectedFunction<State>& connected,
          const rrt::BiRRTGoalBridgeCallbackFunction<State, Tree>& bridge,
          const rrt::BiRRTSelectActiveTreeFunction<State, Tree>& active, const rrt::BiRRTTerminationCheckFunction& done)
{
  rrt::BiRRTPlanMultiPath<State, Tree, Path>(start, goal, type, sample, tree_sample, nearest, forward, added, connected,
                                             bridge, active, done);
  rrt::BiRRTPlanSinglePath<State, Tree, Path>(start, goal, type, sample, tree_sample, nearest, forward, added, connected,
                                              bridge, active, done);
}

Path extract(const Tree& tree, const int64_t index) { return rrt::ExtractSolutionPath<State, Tree, Path>(tree, index); }
rrt::PlannedPaths<State, Path> extract_all(const Tree& tree, const std::vector<int64_t>& indices)
{
  return rrt::ExtractSolutionPaths<State, Tree, Path>(tree, indices);
}

void propagation(const Distance& distance, const Interpolate& interpolate, const Edge& edge, const double step)
{
  rrt::MakeKinematicRRTExtendPropagationFunction<State>(distance, interpolate, edge, step);
  rrt::MakeKinematicBiRRTExtendPropagationFunction<State>(distance, interpolate, edge, step);
  rrt::MakeKinematicRRTConnectPropagationFunction<State>(distance, interpolate, edge, step);
  rrt::MakeKinematicBiRRTConnectPropagationFunction<State>(distance, interpolate, edge, step);
}

// The library's own tree.
using OwnNode = rrt::SimpleRRTPlannerState<State>;
using OwnTree = rrt::SimpleRRTPlannerTree<State>;

const void* node_value(const OwnNode& node) { return &node.GetValueImmutable(); }
int64_t node_parent(const OwnNode& node) { return node.GetParentIndex(); }
const void* node_children(const OwnNode& node) { return &node.GetChildIndices(); }
const void* tree_nodes(const OwnTree& tree) { return &tree.GetNodesImmutable(); }
const void* propagated_state(const rrt::PropagatedState<State>& p) { return &p.State(); }
int64_t propagated_parent(const rrt::PropagatedState<State>& p) { return p.RelativeParentIndex(); }

template class rrt::SimpleRRTPlannerState<State>;
template class rrt::SimpleRRTPlannerTree<State>;
int64_t start_is_active() { return static_cast<int64_t>(rrt::BiRRTActiveTreeType::START_TREE); }
int64_t goal_is_active() { return static_cast<int64_t>(rrt::BiRRTActiveTreeType::GOAL_TREE); }
int64_t from_tree() { return static_cast<int64_t>(rrt::BiRRTSampleType::TREE_SAMPLE); }
