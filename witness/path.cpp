// Path post-processing over an opaque state.
#include <functional>
#include <vector>

#include <common_robotics_utilities/path_processing.hpp>
#include <common_robotics_utilities/utility.hpp>

namespace pp = common_robotics_utilities::path_processing;
namespace utl = common_robotics_utilities::utility;

struct State
{
  State();
  State(const State&);
  State(State&&);
  State& operator=(const State&);
  State& operator=(State&&);
  ~State();
  void* p;
  void* q;
};

using Path = std::vector<State>;
using Edge = std::function<bool(const State&, const State&)>;
using Distance = std::function<double(const State&, const State&)>;
using Interpolate = std::function<State(const State&, const State&, const double)>;

double percent(const Path& path, const Edge& edge) { return pp::ComputePercentCollisionFree<State, Path>(path, edge); }

Path attempt(const Path& path, const size_t start, const size_t end, const uint32_t steps, const double interval,
             const bool marginal, const Edge& edge, const Distance& distance, const Interpolate& interpolate)
{
  return pp::AttemptShortcut<State, Path>(path, start, end, steps, interval, marginal, edge, distance, interpolate);
}

Path smooth(const Path& path, const uint32_t iterations, const uint32_t failed, const uint32_t steps, const double fraction,
            const double interval, const bool marginal, const Edge& edge, const Distance& distance,
            const Interpolate& interpolate, const utl::UniformUnitRealFunction& uniform)
{
  return pp::ShortcutSmoothPath<State, Path>(path, iterations, failed, steps, fraction, interval, marginal, edge, distance,
                                             interpolate, uniform);
}

Path resample(const Path& path, const double step, const Distance& distance, const Interpolate& interpolate)
{
  return pp::ResamplePath<State, Path>(path, step, distance, interpolate);
}

int64_t pick(const utl::UniformUnitRealFunction& uniform, const int64_t size) { return utl::GetUniformRandomIndex<int64_t>(uniform, size); }
