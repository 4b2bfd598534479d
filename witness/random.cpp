// Generators, random indices and random rotations.
#include <cstdint>
#include <functional>
#include <new>
#include <random>

#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/utility.hpp>

namespace cru = common_robotics_utilities;
using cru::random_rotation_generator::RandomRotationGenerator;
using cru::simple_prngs::SplitMix64PRNG;
using cru::simple_prngs::XorShift1024StarPRNG;
using cru::simple_prngs::XorShift128PlusPRNG;

struct Bits
{
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~UINT64_C(0); }
  uint64_t operator()();
};

#define GENERATOR(name, Type) \
  void name##_make(void* place, uint64_t seed) { new (place) Type(seed); } \
  void name##_seed(Type& g, uint64_t seed) { g.seed(seed); } \
  uint64_t name##_next(Type& g) { return g(); } \
  void name##_discard(Type& g, uint64_t n) { g.discard(n); } \
  uint64_t name##_min() { return Type::min(); } \
  uint64_t name##_max() { return Type::max(); } \
  uint64_t name##_size() { return sizeof(Type); }

GENERATOR(splitmix, SplitMix64PRNG)
GENERATOR(xorshift, XorShift128PlusPRNG)
GENERATOR(xorstar, XorShift1024StarPRNG)

uint64_t index_unsigned(const std::function<double(void)>& unit, uint64_t n) { return cru::utility::GetUniformRandomIndex<uint64_t>(unit, n); }
int64_t index_signed(const std::function<double(void)>& unit, int64_t n) { return cru::utility::GetUniformRandomIndex<int64_t>(unit, n); }
uint64_t range_unsigned(const std::function<double(void)>& unit, uint64_t a, uint64_t b) { return cru::utility::GetUniformRandomInRange<uint64_t>(unit, a, b); }
int64_t range_signed(const std::function<double(void)>& unit, int64_t a, int64_t b) { return cru::utility::GetUniformRandomInRange<int64_t>(unit, a, b); }

void rotation_quaternion(const std::function<double()>& unit, double* out)
{
  const Eigen::Quaterniond q = RandomRotationGenerator::GenerateUniformRandomQuaternion(unit);
  out[0] = q.x();
  out[1] = q.y();
  out[2] = q.z();
  out[3] = q.w();
}
Eigen::Vector3d rotation_angles(const std::function<double()>& unit) { return RandomRotationGenerator::GenerateUniformRandomEulerAngles(unit); }

template Eigen::Quaterniond RandomRotationGenerator::GetQuaternion<Bits>(Bits&);
template std::vector<double> RandomRotationGenerator::GetRawQuaternion<Bits>(Bits&);
template Eigen::Vector3d RandomRotationGenerator::GetEulerAngles<Bits>(Bits&);
template std::vector<double> RandomRotationGenerator::GetRawEulerAngles<Bits>(Bits&);
