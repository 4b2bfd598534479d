// Clamping and spreading of values, as the library does them.
#include <common_robotics_utilities/utility.hpp>

namespace lib
{
namespace utility
{
namespace cu = common_robotics_utilities::utility;
double ClampD(const double& v, const double& lo, const double& hi) { return cu::ClampValue<double>(v, lo, hi); }
int64_t ClampI(const int64_t& v, const int64_t& lo, const int64_t& hi) { return cu::ClampValue<int64_t>(v, lo, hi); }
double SpreadD(const double& v, const double& lo, const double& mid, const double& hi) { return cu::SpreadValue<double>(v, lo, mid, hi); }
int64_t SpreadI(const int64_t& v, const int64_t& lo, const int64_t& mid, const int64_t& hi) { return cu::SpreadValue<int64_t>(v, lo, mid, hi); }
}  // namespace utility
}  // namespace lib
