// What the functions of conversions.hpp and math.hpp are defined to compute, written out.
#include <cmath>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <vector>

#include <Eigen/Geometry>

namespace ref
{
namespace conversions
{
Eigen::Quaterniond QuaternionFromRPY(const double R, const double P, const double Y)
{
  const double a = std::cos(R / 2.0), b = std::sin(R / 2.0);
  const double c = std::cos(P / 2.0), d = std::sin(P / 2.0);
  const double e = std::cos(Y / 2.0), f = std::sin(Y / 2.0);
  // (a, b, 0, 0) (c, 0, d, 0) (e, 0, 0, f)
  return Eigen::Quaterniond(a * c * e - b * d * f, b * c * e + a * d * f, a * d * e - b * c * f, a * c * f + b * d * e);
}

Eigen::Quaterniond QuaternionFromUrdfRPY(const double R, const double P, const double Y)
{
  const double a = std::cos(R / 2.0), b = std::sin(R / 2.0);
  const double c = std::cos(P / 2.0), d = std::sin(P / 2.0);
  const double e = std::cos(Y / 2.0), f = std::sin(Y / 2.0);
  // (e, 0, 0, f) (c, 0, d, 0) (a, b, 0, 0)
  return Eigen::Quaterniond(a * c * e + b * d * f, b * c * e - a * d * f, a * d * e + b * c * f, a * c * f - b * d * e);
}

Eigen::Vector3d EulerAnglesFromRotationMatrix(const Eigen::Matrix3d& rot_matrix) { return rot_matrix.eulerAngles(0, 1, 2); }

static Eigen::Matrix3d Rotation(const Eigen::Quaterniond& q)
{
  const double x = q.x(), y = q.y(), z = q.z(), w = q.w();
  Eigen::Matrix3d m;
  m(0, 0) = 1.0 - 2.0 * (y * y + z * z); m(0, 1) = 2.0 * (x * y - w * z); m(0, 2) = 2.0 * (x * z + w * y);
  m(1, 0) = 2.0 * (x * y + w * z); m(1, 1) = 1.0 - 2.0 * (x * x + z * z); m(1, 2) = 2.0 * (y * z - w * x);
  m(2, 0) = 2.0 * (x * z - w * y); m(2, 1) = 2.0 * (y * z + w * x); m(2, 2) = 1.0 - 2.0 * (x * x + y * y);
  return m;
}

static Eigen::Isometry3d Pose(const double x, const double y, const double z, const Eigen::Quaterniond& q)
{
  const Eigen::Matrix3d m = Rotation(q);
  Eigen::Isometry3d t;
  t.matrix()(0, 0) = m(0, 0); t.matrix()(0, 1) = m(0, 1); t.matrix()(0, 2) = m(0, 2);
  t.matrix()(1, 0) = m(1, 0); t.matrix()(1, 1) = m(1, 1); t.matrix()(1, 2) = m(1, 2);
  t.matrix()(2, 0) = m(2, 0); t.matrix()(2, 1) = m(2, 1); t.matrix()(2, 2) = m(2, 2);
  t.matrix()(3, 0) = 0.0; t.matrix()(3, 1) = 0.0; t.matrix()(3, 2) = 0.0;
  t.matrix()(0, 3) = x;
  t.matrix()(1, 3) = y;
  t.matrix()(2, 3) = z;
  t.matrix()(3, 3) = 1.0;
  return t;
}

Eigen::Vector3d EulerAnglesFromQuaternion(const Eigen::Quaterniond& quat) { return Rotation(quat).eulerAngles(0, 1, 2); }

Eigen::Vector3d EulerAnglesFromIsometry3d(const Eigen::Isometry3d& trans)
{
  const Eigen::Matrix3d m = trans.matrix().block<3, 3>(0, 0);
  return m.eulerAngles(0, 1, 2);
}

Eigen::Isometry3d TransformFromXYZRPY(const double x, const double y, const double z, const double roll, const double pitch, const double yaw)
{
  return Pose(x, y, z, QuaternionFromRPY(roll, pitch, yaw));
}

Eigen::Isometry3d TransformFromRPY(const Eigen::Vector3d& translation, const Eigen::Vector3d& rotation)
{
  return Pose(translation(0), translation(1), translation(2), QuaternionFromRPY(rotation(0), rotation(1), rotation(2)));
}

Eigen::Isometry3d TransformFromRPY(const Eigen::VectorXd& c)
{
  if (c.size() != 6) { throw std::invalid_argument(""); }
  return Pose(c(0), c(1), c(2), QuaternionFromRPY(c(3), c(4), c(5)));
}

Eigen::Isometry3d TransformFromUrdfXYZRPY(const double x, const double y, const double z, const double roll, const double pitch, const double yaw)
{
  return Pose(x, y, z, QuaternionFromUrdfRPY(roll, pitch, yaw));
}

Eigen::Isometry3d TransformFromUrdfRPY(const Eigen::Vector3d& translation, const Eigen::Vector3d& rotation)
{
  return Pose(translation(0), translation(1), translation(2), QuaternionFromUrdfRPY(rotation(0), rotation(1), rotation(2)));
}

Eigen::Isometry3d TransformFromUrdfRPY(const Eigen::VectorXd& c)
{
  if (c.size() != 6) { throw std::invalid_argument(""); }
  return Pose(c(0), c(1), c(2), QuaternionFromUrdfRPY(c(3), c(4), c(5)));
}

Eigen::Vector3d StdVectorDoubleToEigenVector3d(const std::vector<double>& v)
{
  if (v.size() != 3) { throw std::invalid_argument(""); }
  return Eigen::Vector3d(v[0], v[1], v[2]);
}


Eigen::VectorXd StdVectorDoubleToEigenVectorXd(const std::vector<double>& v)
{
  Eigen::VectorXd r(v.size());
  for (size_t i = 0; i < v.size(); i++) { r(static_cast<ssize_t>(i)) = v[i]; }
  return r;
}

std::vector<double> EigenVector3dToStdVectorDouble(const Eigen::Vector3d& p) { return std::vector<double>{p(0), p(1), p(2)}; }

std::vector<double> EigenVectorXdToStdVectorDouble(const Eigen::VectorXd& v)
{
  std::vector<double> r(static_cast<size_t>(v.size()));
  for (size_t i = 0; i < r.size(); i++) { r[i] = v(static_cast<ssize_t>(i)); }
  return r;
}

Eigen::Quaterniond StdVectorDoubleToEigenQuaterniond(const std::vector<double>& v)
{
  if (v.size() != 4) { throw std::invalid_argument(""); }
  return Eigen::Quaterniond(v[3], v[0], v[1], v[2]);
}

std::vector<double> EigenQuaterniondToStdVectorDouble(const Eigen::Quaterniond& q) { return std::vector<double>{q.x(), q.y(), q.z(), q.w()}; }
}  // namespace conversions

namespace math
{
Eigen::Matrix3d Skew(const Eigen::Vector3d& v)
{
  Eigen::Matrix3d m;
  m(0, 0) = 0.0; m(0, 1) = -v(2); m(0, 2) = v(1);
  m(1, 0) = v(2); m(1, 1) = 0.0; m(1, 2) = -v(0);
  m(2, 0) = -v(1); m(2, 1) = v(0); m(2, 2) = 0.0;
  return m;
}

Eigen::Vector3d Unskew(const Eigen::Matrix3d& m)
{
  return Eigen::Vector3d((m(2, 1) - m(1, 2)) / 2.0, (m(0, 2) - m(2, 0)) / 2.0, (m(1, 0) - m(0, 1)) / 2.0);
}

Eigen::Matrix4d TwistHat(const Eigen::Matrix<double, 6, 1>& t)
{
  Eigen::Matrix4d m;
  m(0, 0) = 0.0; m(1, 1) = 0.0; m(2, 2) = 0.0;
  m(3, 0) = 0.0; m(3, 1) = 0.0; m(3, 2) = 0.0; m(3, 3) = 0.0;
  m(0, 1) = -t(5); m(0, 2) = t(4);
  m(1, 0) = t(5); m(1, 2) = -t(3);
  m(2, 0) = -t(4); m(2, 1) = t(3);
  m(0, 3) = t(0); m(1, 3) = t(1); m(2, 3) = t(2);
  return m;
}

Eigen::Matrix<double, 6, 1> TwistUnhat(const Eigen::Matrix4d& m)
{
  Eigen::Matrix<double, 6, 1> t;
  t(0) = m(0, 3); t(1) = m(1, 3); t(2) = m(2, 3);
  t(3) = (m(2, 1) - m(1, 2)) / 2.0; t(4) = (m(0, 2) - m(2, 0)) / 2.0; t(5) = (m(1, 0) - m(0, 1)) / 2.0;
  return t;
}

// ---- arithmetic, interpolation, distances, angles, statistics
bool Equal3d(const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
bool Equal4d(const Eigen::Vector4d& a, const Eigen::Vector4d& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2) && a(3) == b(3); }
bool CloseEnough(const double a, const double b, const double t) { return std::abs(b - a) <= std::abs(t); }
bool CloseEnough(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const double t)
{
  const double w = std::abs(t);
  if (std::abs(a(0) - b(0)) > w) { return false; }
  if (std::abs(a(1) - b(1)) > w) { return false; }
  if (std::abs(a(2) - b(2)) > w) { return false; }
  return true;
}

double SquaredNorm(const std::vector<double>& v)
{
  double n = 0.0;
  for (size_t i = 0; i < v.size(); i++) { n += v[i] * v[i]; }
  return n;
}
double Norm(const std::vector<double>& v) { return std::sqrt(SquaredNorm(v)); }
double Sum(const std::vector<double>& v)
{
  double n = 0.0;
  for (size_t i = 0; i < v.size(); i++) { n += v[i]; }
  return n;
}
std::vector<double> Abs(const std::vector<double>& v)
{
  std::vector<double> r(v.size(), 0.0);
  for (size_t i = 0; i < r.size(); i++) { r[i] = std::abs(v[i]); }
  return r;
}
#define BY_SCALAR(name, expr)                                              \
  std::vector<double> name(const std::vector<double>& v, const double k)   \
  {                                                                        \
    std::vector<double> r(v.size(), 0.0);                                  \
    for (size_t i = 0; i < r.size(); i++) { r[i] = expr; }                 \
    return r;                                                              \
  }
#define BY_ELEMENT(name, op)                                                                 \
  std::vector<double> name(const std::vector<double>& a, const std::vector<double>& b)       \
  {                                                                                          \
    if (a.size() != b.size()) { throw std::invalid_argument(""); }                           \
    std::vector<double> r(a.size(), 0.0);                                                    \
    for (size_t i = 0; i < r.size(); i++) { r[i] = a[i] op b[i]; }                           \
    return r;                                                                                \
  }
BY_SCALAR(Multiply, v[i] * k)
BY_SCALAR(Divide, v[i] * (1.0 / k))
BY_SCALAR(Add, v[i] + k)
BY_SCALAR(Sub, v[i] - k)
BY_ELEMENT(Multiply, *)
BY_ELEMENT(Divide, /)
BY_ELEMENT(Add, +)
BY_ELEMENT(Sub, -)

static double Clamped(const double r)
{
  if (r < 0.0) { return 0.0; }
  if (r > 1.0) { return 1.0; }
  return r;
}
double Interpolate(const double a, const double b, const double ratio)
{
  const double r = Clamped(ratio);
  return a * (1.0 - r) + b * r;
}
std::vector<double> Interpolate(const std::vector<double>& a, const std::vector<double>& b, const double ratio)
{
  const double r = Clamped(ratio);
  if (a.size() != b.size()) { throw std::invalid_argument(""); }
  std::vector<double> v(a.size(), 0);
  for (size_t i = 0; i < a.size(); i++) { v[i] = a[i] * (1.0 - r) + b[i] * r; }
  return v;
}
Eigen::Vector3d Interpolate3d(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const double ratio)
{
  const double r = Clamped(ratio), s = 1.0 - r;
  return Eigen::Vector3d(a(0) * s + b(0) * r, a(1) * s + b(1) * r, a(2) * s + b(2) * r);
}
Eigen::Vector4d Interpolate4d(const Eigen::Vector4d& a, const Eigen::Vector4d& b, const double ratio)
{
  const double r = Clamped(ratio), s = 1.0 - r;
  return Eigen::Vector4d(a(0) * s + b(0) * r, a(1) * s + b(1) * r, a(2) * s + b(2) * r, a(3) * s + b(3) * r);
}

double SquaredDistance(const Eigen::Vector2d& a, const Eigen::Vector2d& b)
{
  return (b(0) - a(0)) * (b(0) - a(0)) + (b(1) - a(1)) * (b(1) - a(1));
}
double SquaredDistance(const Eigen::Vector3d& a, const Eigen::Vector3d& b)
{
  return (b(0) - a(0)) * (b(0) - a(0)) + (b(1) - a(1)) * (b(1) - a(1)) + (b(2) - a(2)) * (b(2) - a(2));
}
double SquaredDistance(const std::vector<double>& a, const std::vector<double>& b)
{
  if (a.size() != b.size()) { throw std::invalid_argument(""); }
  double d = 0.0;
  for (size_t i = 0; i < a.size(); i++) { d += (b[i] - a[i]) * (b[i] - a[i]); }
  return d;
}
double Distance(const Eigen::Vector2d& a, const Eigen::Vector2d& b) { return std::sqrt(SquaredDistance(a, b)); }
double Distance(const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return std::sqrt(SquaredDistance(a, b)); }
double Distance(const std::vector<double>& a, const std::vector<double>& b) { return std::sqrt(SquaredDistance(a, b)); }
double Distance(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b)
{
  const double d = std::abs(a.w() * b.w() + a.x() * b.x() + a.y() * b.y() + a.z() * b.z());
  if (d < 1.0 - std::numeric_limits<double>::epsilon()) { return std::acos(2.0 * d * d - 1.0); }
  return 0.0;
}

double EnforceContinuousRevoluteBounds(const double v)
{
  const double r = std::fmod(v + M_PI, 2.0 * M_PI);
  if (r >= 0.0) { return r - M_PI; }
  return r + M_PI;
}
double ContinuousRevoluteSignedDistance(const double a, const double b)
{
  const double p = EnforceContinuousRevoluteBounds(a);
  const double q = EnforceContinuousRevoluteBounds(b);
  return EnforceContinuousRevoluteBounds(q - p);
}
double ContinuousRevoluteDistance(const double a, const double b) { return std::abs(ContinuousRevoluteSignedDistance(a, b)); }
double AddContinuousRevoluteValues(const double a, const double b) { return EnforceContinuousRevoluteBounds(a + b); }
double GetContinuousRevoluteRange(const double a, const double b)
{
  const double d = ContinuousRevoluteSignedDistance(a, b);
  if (d >= 0.0) { return d; }
  return 2.0 * M_PI + d;
}
double InterpolateContinuousRevolute(const double a, const double b, const double ratio)
{
  const double r = Clamped(ratio);
  return AddContinuousRevoluteValues(a, ContinuousRevoluteSignedDistance(a, b) * r);
}

double ComputeStdDevStdVectorDouble(const std::vector<double>& v, const double mean)
{
  if (v.empty()) { throw std::invalid_argument(""); }
  if (v.size() == 1) { return 0.0; }
  double s = 0.0;
  for (size_t i = 0; i < v.size(); i++) { s += (v[i] - mean) * (v[i] - mean); }
  return std::sqrt(s * (1.0 / static_cast<double>(v.size() - 1)));
}

Eigen::Matrix<double, 6, 6> AdjointFromTransform(const Eigen::Isometry3d& t)
{
  const Eigen::Matrix4d& m = t.matrix();
  const double x = m(0, 3), y = m(1, 3), z = m(2, 3);
  Eigen::Matrix<double, 6, 6> a;
#define COLUMN(c)                                                               \
  a(0, c) = m(0, c); a(1, c) = m(1, c); a(2, c) = m(2, c);                      \
  a(3, c) = 0.0; a(4, c) = 0.0; a(5, c) = 0.0;                                  \
  a(0, c + 3) = y * m(2, c) - z * m(1, c);                                      \
  a(1, c + 3) = z * m(0, c) - x * m(2, c);                                      \
  a(2, c + 3) = x * m(1, c) - y * m(0, c);                                      \
  a(3, c + 3) = m(0, c); a(4, c + 3) = m(1, c); a(5, c + 3) = m(2, c);
  COLUMN(0) COLUMN(1) COLUMN(2)
  return a;
}

Eigen::Matrix<double, 6, 1> TransformTwist(const Eigen::Isometry3d& t, const Eigen::Matrix<double, 6, 1>& w)
{
  const Eigen::Matrix4d& m = t.matrix();
  const double x = m(0, 3), y = m(1, 3), z = m(2, 3);
  const double u0 = m(0, 0) * w(0) + m(0, 1) * w(1) + m(0, 2) * w(2);
  const double u1 = m(1, 0) * w(0) + m(1, 1) * w(1) + m(1, 2) * w(2);
  const double u2 = m(2, 0) * w(0) + m(2, 1) * w(1) + m(2, 2) * w(2);
  const double r0 = m(0, 0) * w(3) + m(0, 1) * w(4) + m(0, 2) * w(5);
  const double r1 = m(1, 0) * w(3) + m(1, 1) * w(4) + m(1, 2) * w(5);
  const double r2 = m(2, 0) * w(3) + m(2, 1) * w(4) + m(2, 2) * w(5);
  Eigen::Matrix<double, 6, 1> o;
  o(0) = u0 + y * r2 - z * r1;
  o(1) = u1 + z * r0 - x * r2;
  o(2) = u2 + x * r1 - y * r0;
  o(3) = r0; o(4) = r1; o(5) = r2;
  return o;
}

}  // namespace math

namespace utility
{
#define CLAMP(name, T)                                                 \
  T name(const T& v, const T& lo, const T& hi)                         \
  {                                                                    \
    if (!(hi >= lo)) { throw std::invalid_argument(""); }              \
    if (v < lo) { return lo; }                                         \
    if (v > hi) { return hi; }                                         \
    return v;                                                          \
  }
#define SPREAD(name, T)                                                           \
  T name(const T& v, const T& lo, const T& mid, const T& hi)                      \
  {                                                                               \
    if (!(lo <= mid)) { throw std::invalid_argument(""); }                        \
    if (!(mid <= hi)) { throw std::invalid_argument(""); }                        \
    if (v >= mid && v < hi) { return hi; }                                        \
    if (v < mid && v > lo) { return lo; }                                         \
    return v;                                                                     \
  }
CLAMP(ClampD, double)
CLAMP(ClampI, int64_t)
SPREAD(SpreadD, double)
SPREAD(SpreadI, int64_t)
}  // namespace utility
}  // namespace ref
