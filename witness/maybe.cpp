// Every operation on the optional-like types, over an opaque value type.
#include <cstdint>
#include <new>
#include <utility>
#include <vector>

#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/maybe.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>

namespace cru = common_robotics_utilities;

struct State
{
  State();
  State(const State&);
  State(State&&);
  State& operator=(const State&);
  State& operator=(State&&);
  ~State();
  void* p;
  void* q;
};

template <typename M>
struct Ops
{
  static bool has(const M& m) { return m.HasValue(); }
  static const void* read(const M& m) { return &m.Value(); }
  static void copy_assign(M& a, const M& b) { a = b; }
  static void move_assign(M& a, M& b) { a = std::move(b); }
  static void copy_construct(void* at, const M& b) { new (at) M(b); }
  static void move_construct(void* at, M& b) { new (at) M(std::move(b)); }
  static void empty_construct(void* at) { new (at) M(); }
  static void destroy(M& a) { a.~M(); }
};

template <typename M>
struct Mutable
{
  static void* write(M& m) { return &m.Value(); }
};

template <typename M>
struct Truth
{
  static bool truth(const M& m) { return static_cast<bool>(m); }
};

template <typename M>
struct Resets
{
  static void reset(M& m) { m.Reset(); }
};

using Own = cru::OwningMaybe<State>;
using OwnConst = cru::OwningMaybe<const State>;
using Ref = cru::ReferencingMaybe<State>;
using RefConst = cru::ReferencingMaybe<const State>;
using Grid = cru::voxel_grid::GridQuery<State>;
using Cells = cru::voxel_grid::DynamicSpatialHashedGridQuery<State>;
using Read = cru::serialization::Deserialized<State>;

template struct Ops<Own>;
template struct Ops<OwnConst>;
template struct Ops<Ref>;
template struct Ops<RefConst>;
template struct Ops<Grid>;
template struct Ops<Cells>;
template struct Ops<Read>;
template struct Truth<Own>;
template struct Truth<OwnConst>;
template struct Truth<Ref>;
template struct Truth<RefConst>;
template struct Truth<Grid>;
template struct Truth<Cells>;
template struct Mutable<Own>;
template struct Mutable<Ref>;
template struct Mutable<Grid>;
template struct Mutable<Cells>;
template struct Resets<Own>;
template struct Resets<OwnConst>;
template struct Resets<Ref>;
template struct Resets<RefConst>;
template struct Resets<Grid>;


void* read_write(Read& m) { return &m.MutableValue(); }
uint64_t read_count(const Read& m) { return m.BytesRead(); }
void read_make(void* at, const State& s, uint64_t n) { new (at) Read(s, n); }
void own_copy_value(void* at, const State& s) { new (at) Own(s); }
void own_move_value(void* at, State& s) { new (at) Own(std::move(s)); }
void ownconst_copy_value(void* at, const State& s) { new (at) OwnConst(s); }
void ref_value(void* at, State& s) { new (at) Ref(s); }
void refconst_value(void* at, const State& s) { new (at) RefConst(s); }
void grid_success(void* at, State& s) { new (at) Grid(Grid::Success(s)); }
void grid_outside(void* at) { new (at) Grid(Grid::OutOfBounds()); }
void grid_prohibited(void* at) { new (at) Grid(Grid::MutableAccessProhibited()); }
void grid_unknown(void* at) { new (at) Grid(Grid::Unknown()); }
void cells_chunk(void* at, State& s) { new (at) Cells(Cells::FoundInChunk(s)); }
void cells_cell(void* at, State& s) { new (at) Cells(Cells::FoundInCell(s)); }
void cells_none(void* at) { new (at) Cells(Cells::NotFound()); }
void cells_prohibited(void* at) { new (at) Cells(Cells::MutableAccessProhibited()); }
int64_t grid_status(const Grid& g) { return static_cast<int64_t>(g.Status()); }
int64_t cells_status(const Cells& g) { return static_cast<int64_t>(g.FoundStatus()); }
