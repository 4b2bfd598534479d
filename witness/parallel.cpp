// The parallel loops with an opaque body.
#include <condition_variable>
#include <vector>
#include <memory>
#include <string>

#include <common_robotics_utilities/parallelism.hpp>

namespace par = common_robotics_utilities::parallelism;

struct RangeBody
{
  void operator()(const par::ThreadWorkRange& range) const;
};

struct IndexBody
{
  void operator()(int32_t thread_num, int64_t index) const;
};

template void par::StaticParallelForRangeLoop<RangeBody>(
    const par::DegreeOfParallelism&, int64_t, int64_t, const RangeBody&, par::ParallelForBackend);
template void par::DynamicParallelForRangeLoop<RangeBody>(
    const par::DegreeOfParallelism&, int64_t, int64_t, const RangeBody&, par::ParallelForBackend);
template void par::StaticParallelForIndexLoop<IndexBody>(
    const par::DegreeOfParallelism&, int64_t, int64_t, const IndexBody&, par::ParallelForBackend);
template void par::DynamicParallelForIndexLoop<IndexBody>(
    const par::DegreeOfParallelism&, int64_t, int64_t, const IndexBody&, par::ParallelForBackend);

std::pair<int64_t, int64_t> calc(int64_t s, int64_t e, int64_t n, int64_t t)
{
  return par::CalcStaticThreadRangeStartAndEnd(s, e, n, t);
}

int32_t threads(int32_t n) { return par::DegreeOfParallelism(n).GetNumThreads(); }
par::ThreadWorkRange range(int64_t s, int64_t e, int32_t t) { return par::ThreadWorkRange(s, e, t); }
