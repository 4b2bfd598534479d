// Instantiates every grid operation.
#include <vector>
#include <ostream>

// A payload whose copies are visible as calls.
struct Val
{
  Val();
  Val(const Val&);
  Val(Val&&);
  Val& operator=(const Val&);
  Val& operator=(Val&&);
  ~Val();
  double payload[3];
};

#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>

namespace vg = common_robotics_utilities::voxel_grid;

template class vg::VoxelGridBase<Val>;
template class vg::VoxelGrid<Val>;
template class vg::DynamicSpatialHashedVoxelGridChunk<Val>;
template class vg::DynamicSpatialHashedVoxelGridBase<Val>;
template class vg::DynamicSpatialHashedVoxelGrid<Val>;
template class vg::GridQuery<Val>;
template class vg::GridQuery<const Val>;
template class vg::DynamicSpatialHashedGridQuery<Val>;
template class vg::DynamicSpatialHashedGridQuery<const Val>;

// The non-template classes: one use of each operation.
vg::GridSizes sizes1(double a, double b, double c, int64_t x, int64_t y, int64_t z)
{
  return vg::GridSizes(a, b, c, x, y, z);
}
vg::GridSizes sizes2(double a, double b, double c, double x, double y, double z)
{
  return vg::GridSizes(a, b, c, x, y, z);
}
vg::GridSizes sizes3(double a, int64_t x, int64_t y, int64_t z) { return vg::GridSizes(a, x, y, z); }
vg::GridSizes sizes4(double a, double x, double y, double z) { return vg::GridSizes(a, x, y, z); }
vg::GridSizes sizes5() { return vg::GridSizes(); }

void use(vg::GridSizes& s, vg::GridIndex& g, const std::vector<uint8_t>& buffer, std::vector<double>& out,
         std::vector<int64_t>& iout, int64_t x, int64_t y, int64_t z)
{
  s.DeserializeSelf(buffer, 0);
  const vg::GridIndex& cg = g;
  const vg::GridSizes& c = s;
  iout.push_back(c.IndexInBounds(x, y, z));
  iout.push_back(c.IndexInBounds(cg));
  iout.push_back(c.GetDataIndex(x, y, z));
  iout.push_back(c.GetDataIndex(cg));
  iout.push_back(c.GetGridIndexFromDataIndex(x).X());
  out.push_back(c.IndexToLocationInGridFrame(x, y, z)(0));
  out.push_back(c.IndexToLocationInGridFrame(cg)(0));
  out.push_back(c.CellXSize() + c.CellYSize() + c.CellZSize() + c.CellSizes()(0));
  out.push_back(c.InvCellXSize() + c.InvCellYSize() + c.InvCellZSize());
  out.push_back(c.XSize() + c.YSize() + c.ZSize() + c.Sizes()(0));
  iout.push_back(c.NumXCells() + c.NumYCells() + c.NumZCells() + c.NumCells()(0) + c.TotalCells());
  iout.push_back(c.Stride1() + c.Stride2());
  iout.push_back(c.Valid() && c.UniformCellSize() && c == s && c != s);
  iout.push_back(cg.X() + cg.Y() + cg.Z() + (cg == g) + (cg != g));
  iout.push_back(g.X() + g.Y() + g.Z());
  vg::ChunkRegion r;
  vg::ChunkRegion r3(out[0], out[1], out[2]);
  iout.push_back(r == r3);
  iout.push_back(std::hash<vg::ChunkRegion>()(r));
  iout.push_back(std::hash<vg::GridIndex>()(cg));
}
