// Nearest-neighbour queries, set distances, warping costs, distance matrices and clustering, on opaque items.
#include <functional>
#include <vector>

#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/simple_dtw.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>

namespace cru = common_robotics_utilities;
namespace knn = cru::simple_knearest_neighbors;
namespace hd = cru::simple_hausdorff_distance;
namespace dtw = cru::simple_dtw;
namespace hc = cru::simple_hierarchical_clustering;
namespace km = cru::simple_kmeans_clustering;
using cru::parallelism::DegreeOfParallelism;

struct First
{
  double x[2];
};

struct Second
{
  double x[3];
};

using Firsts = std::vector<First>;
using Seconds = std::vector<Second>;
using ToSecond = std::function<double(const First&, const Second&)>;
using ToFirst = std::function<double(const First&, const First&)>;
using Average = std::function<First(const Firsts&)>;
using WeightedAverage = std::function<First(const Firsts&, const std::vector<double>&)>;

template std::vector<knn::IndexAndDistance> knn::GetKNearestNeighborsInRangeSerial<First, Second, Firsts>(
    const Firsts&, size_t, size_t, const Second&, const ToSecond&, int64_t);
template std::vector<knn::IndexAndDistance> knn::GetKNearestNeighborsInRangeParallel<First, Second, Firsts>(
    const Firsts&, size_t, size_t, const Second&, const ToSecond&, int64_t, const DegreeOfParallelism&);
template std::vector<knn::IndexAndDistance> knn::GetKNearestNeighborsSerial<First, Second, Firsts>(
    const Firsts&, const Second&, const ToSecond&, int64_t);
template std::vector<knn::IndexAndDistance> knn::GetKNearestNeighborsParallel<First, Second, Firsts>(
    const Firsts&, const Second&, const ToSecond&, int64_t, const DegreeOfParallelism&);
template std::vector<knn::IndexAndDistance> knn::GetKNearestNeighborsInRange<First, Second, Firsts>(
    const Firsts&, size_t, size_t, const Second&, const ToSecond&, int64_t, const DegreeOfParallelism&);
template std::vector<knn::IndexAndDistance> knn::GetKNearestNeighbors<First, Second, Firsts>(
    const Firsts&, const Second&, const ToSecond&, int64_t, const DegreeOfParallelism&);

template double hd::ComputeDistance<First, Second, Firsts, Seconds>(
    const Firsts&, const Seconds&, const ToSecond&, const DegreeOfParallelism&);
template double hd::ComputeDistance<First, Second, Firsts, Seconds>(
    const Firsts&, const Seconds&, const Eigen::MatrixXd&, const DegreeOfParallelism&);

template class cru::simple_dtw::SimpleDTW<First, Second, Firsts, Seconds>;
template double dtw::EvaluateWarpingCost<First, Second, Firsts, Seconds>(
    const Firsts&, const Seconds&, const ToSecond&);

template Eigen::MatrixXd cru::math::BuildPairwiseDistanceMatrix<First, Firsts>(
    const Firsts&, const ToFirst&, const DegreeOfParallelism&);
template Eigen::MatrixXd cru::math::BuildPairwiseDistanceMatrix<First, Second, Firsts, Seconds>(
    const Firsts&, const Seconds&, const ToSecond&, const DegreeOfParallelism&);

template hc::ClusteringResult<First, Firsts> hc::ClusterWithDistanceMatrix<First, Firsts>(
    const Firsts&, const Eigen::MatrixXd&, double, hc::ClusterStrategy, const DegreeOfParallelism&);
template hc::ClusteringResult<First, Firsts> hc::Cluster<First, Firsts>(
    const Firsts&, const ToFirst&, double, hc::ClusterStrategy, const DegreeOfParallelism&);
template hc::IndexClusteringResult hc::IndexCluster<First, Firsts>(
    const Firsts&, const ToFirst&, double, hc::ClusterStrategy, const DegreeOfParallelism&);

hc::internal::ClosestPair closest(
    const std::vector<uint8_t>& mask, const Eigen::MatrixXd& distances,
    const std::vector<std::vector<int64_t>>& clusters, hc::ClusterStrategy strategy,
    const DegreeOfParallelism& parallelism)
{
  return hc::internal::GetClosestPair(mask, distances, clusters, strategy, parallelism);
}

template std::vector<int32_t> km::PerformSingleClusteringIteration<First, Firsts>(
    const Firsts&, const Firsts&, const ToFirst&, const DegreeOfParallelism&);
template Firsts km::ComputeClusterCentersWeighted<First, Firsts>(
    const Firsts&, const std::vector<double>&, const std::vector<int32_t>&, const WeightedAverage&, int32_t,
    const DegreeOfParallelism&);
template std::vector<int32_t> km::ClusterWeighted<First, Firsts>(
    const Firsts&, const std::vector<double>&, const ToFirst&, const WeightedAverage&, int32_t, int64_t, bool,
    const DegreeOfParallelism&, const cru::utility::LoggingFunction&);
template std::vector<int32_t> km::Cluster<First, Firsts>(
    const Firsts&, const ToFirst&, const Average&, int32_t, int64_t, bool, const DegreeOfParallelism&,
    const cru::utility::LoggingFunction&);

bool converged(const std::vector<int32_t>& a, const std::vector<int32_t>& b) { return km::CheckForConvergence(a, b); }

int64_t pair_index(const knn::IndexAndDistance& p) { return p.Index(); }
double pair_distance(const knn::IndexAndDistance& p) { return p.Distance(); }
size_t pair_size() { return sizeof(knn::IndexAndDistance); }

int64_t closest_first(const hc::internal::ClosestPair& p) { return p.FirstItem().Index(); }
bool closest_first_cluster(const hc::internal::ClosestPair& p) { return p.FirstItem().IsCluster(); }
int64_t closest_second(const hc::internal::ClosestPair& p) { return p.SecondItem().Index(); }
bool closest_second_cluster(const hc::internal::ClosestPair& p) { return p.SecondItem().IsCluster(); }
double closest_distance(const hc::internal::ClosestPair& p) { return p.Distance(); }
size_t closest_size() { return sizeof(hc::internal::ClosestPair); }
double clustering_distance(const hc::IndexClusteringResult& r) { return r.FinalClosestDistance(); }
const std::vector<std::vector<int64_t>>& clustering_clusters(const hc::IndexClusteringResult& r) { return r.Clusters(); }
const std::vector<Firsts>& element_clusters(const hc::ClusteringResult<First, Firsts>& r) { return r.Clusters(); }
double element_distance(const hc::ClusteringResult<First, Firsts>& r) { return r.FinalClosestDistance(); }
int64_t link_complete() { return static_cast<int64_t>(hc::ClusterStrategy::COMPLETE_LINK); }
int64_t link_single() { return static_cast<int64_t>(hc::ClusterStrategy::SINGLE_LINK); }
