// Every entry point that takes an optional callback, outside the tree planners (see rrt.cpp).
#include <functional>
#include <vector>

#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_task_planner.hpp>
#include <common_robotics_utilities/utility.hpp>

namespace tsk = common_robotics_utilities::simple_task_planner;
namespace kms = common_robotics_utilities::simple_kmeans_clustering;
namespace par = common_robotics_utilities::parallelism;
namespace utl = common_robotics_utilities::utility;

struct State
{
  State();
  State(const State&);
  State(State&&);
  State& operator=(const State&);
  State& operator=(State&&);
  ~State();
  bool operator==(const State&) const;
  void* p;
  void* q;
};
struct Hash { size_t operator()(const State&) const; };
struct Equal { bool operator()(const State&, const State&) const; };
using States = std::vector<State>;

using Collection = tsk::ActionPrimitiveCollection<State, States>;
using Complete = tsk::TaskSequenceCompleteFunction<State>;
using Heuristic = tsk::StateHeuristicFunction<State>;
using Pre = tsk::PreExecutionCallbackFunction<State, States>;
using Post = tsk::PostExecutionCallbackFunction<State, States>;
using Outcome = tsk::PostOutcomeCallbackFunction<State, States>;

auto plan(const Collection& p, const Complete& done, const States& s, const Heuristic& h, const Hash& a, const Equal& b)
{
  return tsk::PlanTaskStateSequence<State, States, Hash, Equal>(p, done, s, h, a, b);
}
auto next(const Collection& p, const Complete& done, const States& s, const Heuristic& h, const Hash& a, const Equal& b)
{
  return tsk::GetNextPrimitiveToExecute<State, States, Hash, Equal>(p, done, s, h, a, b);
}
auto single(const Collection& p, const Complete& done, const States& s, const int32_t n, const Heuristic& h, const Hash& a,
            const Equal& b, const Pre& pre, const Post& post, const Outcome& out)
{
  return tsk::PerformSingleTaskExecution<State, States, Hash, Equal>(p, done, s, n, h, a, b, pre, post, out);
}
auto one(const Collection& p, const Complete& done, const State& s, const int32_t n, const Heuristic& h, const Hash& a,
         const Equal& b, const Pre& pre, const Post& post, const Outcome& out)
{
  return tsk::PerformSingleTaskExecution<State, States, Hash, Equal>(p, done, s, n, h, a, b, pre, post, out);
}
void log(const Collection& p, const std::string& what) { p.Log(what); }

auto weighted(const States& data, const std::vector<double>& weights, const std::function<double(const State&, const State&)>& distance,
              const std::function<State(const States&, const std::vector<double>&)>& average, const int32_t n, const int64_t seed,
              const bool first, const par::DegreeOfParallelism& degree, const utl::LoggingFunction& tell)
{
  return kms::ClusterWeighted<State, States>(data, weights, distance, average, n, seed, first, degree, tell);
}
auto cluster(const States& data, const std::function<double(const State&, const State&)>& distance,
             const std::function<State(const States&)>& average, const int32_t n, const int64_t seed, const bool first,
             const par::DegreeOfParallelism& degree, const utl::LoggingFunction& tell)
{
  return kms::Cluster<State, States>(data, distance, average, n, seed, first, degree, tell);
}
double clamp(const double& x, const double& a, const double& b, const utl::LoggingFunction& tell) { return utl::ClampValueAndLog<double>(x, a, b, tell); }
int clamp(const int& x, const int& a, const int& b, const utl::LoggingFunction& tell) { return utl::ClampValueAndLog<int>(x, a, b, tell); }
double spread(const double& x, const double& a, const double& b, const double& d, const utl::LoggingFunction& tell) { return utl::SpreadValueAndLog<double>(x, a, b, d, tell); }
int spread(const int& x, const int& a, const int& b, const int& d, const utl::LoggingFunction& tell) { return utl::SpreadValueAndLog<int>(x, a, b, d, tell); }
bool aligned(const double& x, const uint64_t n, const utl::LoggingFunction& tell) { return utl::CheckAlignment<double>(x, n, tell); }
void scope(const std::function<void(void)>& f) { utl::OnScopeExit x(f); x.Disable(); }
// Every optional callback may be left out.
auto fewest(const Collection& p, const Complete& done, const States& s) { return tsk::PerformSingleTaskExecution<State, States, Hash, Equal>(p, done, s); }
auto fewest(const Collection& p, const Complete& done, const State& s) { return tsk::PerformSingleTaskExecution<State, States, Hash, Equal>(p, done, s); }
auto fewest_plan(const Collection& p, const Complete& done, const States& s) { return tsk::PlanTaskStateSequence<State, States, Hash, Equal>(p, done, s); }
auto fewest_next(const Collection& p, const Complete& done, const States& s) { return tsk::GetNextPrimitiveToExecute<State, States, Hash, Equal>(p, done, s); }
double fewest_clamp(const double& x, const double& a, const double& b) { return utl::ClampValueAndLog<double>(x, a, b); }
double fewest_spread(const double& x, const double& a, const double& b, const double& d) { return utl::SpreadValueAndLog<double>(x, a, b, d); }
bool fewest_aligned(const double& x) { return utl::CheckAlignment<double>(x, 8); }
