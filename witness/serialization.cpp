// Instantiates every codec of the library for the rule engine; never linked or run.
#include <array>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <common_robotics_utilities/serialization.hpp>
// The non-template codecs live in a source file of the library.
#include <src/common_robotics_utilities/serialization.cpp>

namespace cru = common_robotics_utilities;
namespace ser = common_robotics_utilities::serialization;
using Buf = std::vector<uint8_t>;
struct Pod { double a; int32_t b; };

#define LEAF(T)                                                               \
  template uint64_t ser::SerializeMemcpyable<T>(const T&, Buf&);              \
  template ser::Deserialized<T> ser::DeserializeMemcpyable<T>(                \
      const Buf&, const uint64_t);
#define NETLEAF(T)                                                            \
  LEAF(T)                                                                     \
  template uint64_t ser::SerializeNetworkMemcpyable<T>(const T&, Buf&);       \
  template uint64_t ser::SerializeNetworkMemcpyableInPlace<T>(                \
      const T&, Buf&, const uint64_t);                                        \
  template ser::Deserialized<T> ser::DeserializeNetworkMemcpyable<T>(         \
      const Buf&, const uint64_t);
NETLEAF(uint8_t) NETLEAF(uint16_t) NETLEAF(uint32_t) NETLEAF(uint64_t)
NETLEAF(int8_t) NETLEAF(int16_t) NETLEAF(int32_t) NETLEAF(int64_t)
NETLEAF(float) NETLEAF(double)
LEAF(Pod) LEAF(char)

#define STR(C)                                                                \
  template uint64_t ser::SerializeString<C>(                                  \
      const std::basic_string<C>&, Buf&);                                     \
  template ser::Deserialized<std::basic_string<C>> ser::DeserializeString<C>( \
      const Buf&, const uint64_t);
STR(char) STR(char16_t)
template uint64_t ser::SerializeNetworkString<uint8_t>(
    const std::basic_string<uint8_t>&, Buf&);
template ser::Deserialized<std::basic_string<uint8_t>>
ser::DeserializeNetworkString<uint8_t>(const Buf&, const uint64_t);

#define VEC(P, T, V)                                                          \
  template uint64_t ser::Serialize##P##VectorLike<T, V>(                      \
      const V&, Buf&, const ser::Serializer<T>&);                             \
  template ser::Deserialized<V> ser::Deserialize##P##VectorLike<T, V>(        \
      const Buf&, const uint64_t, const ser::Deserializer<T>&);
using VecString = std::vector<std::string>;
using VecDouble = std::vector<double>;
using VecI64 = std::vector<int64_t>;
using VecPod = std::vector<Pod>;
using VecU8 = std::vector<uint8_t>;
using VecU16 = std::vector<uint16_t>;
VEC(, std::string, VecString) VEC(, double, VecDouble)
VEC(Network, std::string, VecString) VEC(Network, double, VecDouble)

#define MVEC(P, T, V)                                                         \
  template uint64_t ser::Serialize##P##MemcpyableVectorLike<T, V>(            \
      const V&, Buf&);                                                        \
  template ser::Deserialized<V> ser::Deserialize##P##MemcpyableVectorLike<T,  \
      V>(const Buf&, const uint64_t);
MVEC(, double, VecDouble) MVEC(, int64_t, VecI64) MVEC(, Pod, VecPod)
MVEC(, uint8_t, VecU8) MVEC(, uint16_t, VecU16) MVEC(, double, Eigen::VectorXd)
MVEC(Network, double, VecDouble) MVEC(Network, int64_t, VecI64)
MVEC(Network, uint8_t, VecU8) MVEC(Network, uint16_t, VecU16)

#define MAP(P, K, V, M)                                                       \
  template uint64_t ser::Serialize##P##MapLike<K, V, M>(                      \
      const M&, Buf&, const ser::Serializer<K>&, const ser::Serializer<V>&);  \
  template ser::Deserialized<M> ser::Deserialize##P##MapLike<K, V, M>(        \
      const Buf&, const uint64_t, const ser::Deserializer<K>&,                \
      const ser::Deserializer<V>&);
using MapSD = std::map<std::string, double>;
using UMapSD = std::unordered_map<std::string, double>;
MAP(, std::string, double, MapSD) MAP(, std::string, double, UMapSD)
MAP(Network, std::string, double, MapSD)

#define SET(P, K, S)                                                          \
  template uint64_t ser::Serialize##P##SetLike<K, S>(                         \
      const S&, Buf&, const ser::Serializer<K>&);                             \
  template ser::Deserialized<S> ser::Deserialize##P##SetLike<K, S>(           \
      const Buf&, const uint64_t, const ser::Deserializer<K>&);
using SetS = std::set<std::string>;
using USetS = std::unordered_set<std::string>;
SET(, std::string, SetS) SET(, std::string, USetS) SET(Network, std::string, SetS)

template uint64_t ser::SerializePair<std::string, double>(
    const std::pair<std::string, double>&, Buf&,
    const ser::Serializer<std::string>&, const ser::Serializer<double>&);
template ser::Deserialized<std::pair<std::string, double>>
ser::DeserializePair<std::string, double>(
    const Buf&, const uint64_t, const ser::Deserializer<std::string>&,
    const ser::Deserializer<double>&);
