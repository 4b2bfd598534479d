// The graph containers and the roadmap functions over an opaque state.
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/simple_graph.hpp>

namespace sg = common_robotics_utilities::simple_graph;
namespace par = common_robotics_utilities::parallelism;

struct State
{
  State();
  State(const State&);
  State& operator=(const State&);
  ~State();
  void* p;
};

std::ostream& operator<<(std::ostream&, const State&);

using G = sg::Graph<State>;
using O = sg::NonOwningGraphOverlay<State, G>;

// Definitions of the member functions, without those that need to print State.
void use(G& g, const G& cg, O& o, const O& co, const sg::GraphNode<State>& n,
         const State& s, int64_t a, int64_t b, double w, const std::unordered_set<int64_t>& prune,
         const par::DegreeOfParallelism& parallelism, const std::vector<uint8_t>& bytes,
         const common_robotics_utilities::serialization::Deserializer<State>& deserializer)
{
  g.AddEdgeBetweenNodes(a, b, w);
  g.AddEdgesBetweenNodes(a, b, w);
  o.AddEdgeBetweenNodes(a, b, w);
  o.AddEdgesBetweenNodes(a, b, w);
  g.AddNode(n);
  g.AddNode(s);
  o.AddNode(n);
  o.AddNode(s);
  g.GetNodeMutable(a);
  cg.GetNodeImmutable(a);
  o.GetNodeMutable(a);
  co.GetNodeImmutable(a);
  cg.IndexInRange(a);
  co.IndexInRange(a);
  cg.CheckGraphLinkage();
  co.CheckGraphLinkage();
  G pruned = cg.MakePrunedCopy(prune, parallelism);
  G from_overlay = sg::PruneGraph<O, G>(co, prune, parallelism);
  G from_nodes(cg.GetNodesImmutable());
  g.DeserializeSelf(bytes, bytes.size(), deserializer);
}

// The members behind the accessors.
int64_t edge_from(const sg::GraphEdge& e) { return e.GetFromIndex(); }
int64_t edge_to(const sg::GraphEdge& e) { return e.GetToIndex(); }
double edge_weight(const sg::GraphEdge& e) { return e.GetWeight(); }
uint64_t edge_scratchpad(const sg::GraphEdge& e) { return e.GetScratchpad(); }
const void* node_in(const sg::GraphNode<State>& n) { return &n.GetInEdgesImmutable(); }
const void* node_out(const sg::GraphNode<State>& n) { return &n.GetOutEdgesImmutable(); }
const void* node_value(const sg::GraphNode<State>& n) { return &n.GetValueImmutable(); }
