// Instantiates the codecs of every composite type of the library.
#include <map>
#include <ostream>
#include <string>
#include <unordered_map>
#include <vector>

// A payload whose copies are visible as calls.
struct Val
{
  Val();
  Val(const Val&);
  Val(Val&&);
  Val& operator=(const Val&);
  Val& operator=(Val&&);
  ~Val();
  double payload[3];
};
std::ostream& operator<<(std::ostream& strm, const Val&);

#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <src/common_robotics_utilities/serialization.cpp>

namespace cru = common_robotics_utilities;
namespace ser = common_robotics_utilities::serialization;
using Buf = std::vector<uint8_t>;

template class cru::simple_graph::GraphNode<Val>;
template class cru::simple_graph::Graph<Val>;
template class cru::simple_rrt_planner::SimpleRRTPlannerState<Val>;
template class cru::simple_rrt_planner::SimpleRRTPlannerTree<Val>;

uint64_t use(Buf& b, const ser::Serializer<Val>& s, const ser::Deserializer<Val>& d)
{
  using namespace cru;
  using G = voxel_grid::VoxelGrid<Val>;
  using D = voxel_grid::DynamicSpatialHashedVoxelGrid<Val>;
  uint64_t n = 0;
  {
    const auto r = G::Deserialize(b, 0, d);
    n += G::Serialize(r.Value(), b, s);
  }
  {
    const auto r = D::Deserialize(b, 0, d);
    n += D::Serialize(r.Value(), b, s);
  }
  {
    const auto r = simple_graph::GraphEdge::Deserialize(b, 0);
    n += simple_graph::GraphEdge::Serialize(r.Value(), b);
  }
  {
    const auto r = simple_graph_search::DijkstrasResult::Deserialize(b, 0);
    n += simple_graph_search::DijkstrasResult::Serialize(r.Value(), b);
  }
  {
    const auto r = voxel_grid::GridSizes::Deserialize(b, 0);
    n += voxel_grid::GridSizes::Serialize(r.Value(), b);
  }
  {
    const auto r = voxel_grid::ChunkRegion::Deserialize(b, 0);
    n += voxel_grid::ChunkRegion::Serialize(r.Value(), b);
  }
  return n;
}
