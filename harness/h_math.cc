// P22 rotations, P23 vectors and matrices, P24 oriented boxes, P25 numeric helpers.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <limits>

#include "maliput/api/lane_data.h"
#include "maliput/common/range_validator.h"
#include "maliput/drake/arc_length_integrator.h"
#include "maliput/drake/inverse_arc_length_integrator.h"
#include "maliput/math/bounding_box.h"
#include "maliput/math/fresnel.h"
#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/roll_pitch_yaw.h"
#include "maliput/math/saturate.h"
#include "maliput/math/vector.h"
#include "pbt.h"

namespace {

using maliput::math::BoundingBox;
using maliput::math::Matrix;
using maliput::math::Matrix3;
using maliput::math::OverlappingType;
using maliput::math::Quaternion;
using maliput::math::RollPitchYaw;
using maliput::math::Vector;
using maliput::math::Vector2;
using maliput::math::Vector3;
using maliput::math::Vector4;

PBT_RULE(P22,
         "rotations about the axes by whole quarters, half turns, gimbal lock, non-unit quaternions, or vectors which "
         "are almost parallel");
PBT_RULE(
    P23,
    "matrices and vectors which are not symmetric, and either singular or regular with a determinant other than 1");
PBT_RULE(P24, "boxes with different sizes, both turned about at least two axes");
PBT_RULE(P25,
         "arguments at or beyond the ends of their range, negative ones, or functions which depend on the parameter");

// The reference: plain arrays.
using A3 = std::array<double, 3>;
using M3 = std::array<A3, 3>;

M3 Id() { return {A3{1, 0, 0}, A3{0, 1, 0}, A3{0, 0, 1}}; }
M3 Mul(const M3& a, const M3& b) {
  M3 r{};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
A3 Mul(const M3& a, const A3& v) {
  A3 r{};
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 3; ++k) r[i] += a[i][k] * v[k];
  return r;
}
M3 T(const M3& a) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[i][j] = a[j][i];
  return r;
}
A3 Sub(const A3& a, const A3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
double Dot(const A3& a, const A3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
A3 Cross(const A3& a, const A3& b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
double Norm(const A3& a) { return std::sqrt(Dot(a, a)); }
A3 Of(const Vector3& v) { return {v.x(), v.y(), v.z()}; }
Vector3 To(const A3& v) { return {v[0], v[1], v[2]}; }
M3 Of(const Matrix3& m) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[i][j] = m[i][j];
  return r;
}
// The largest difference; NaN counts as infinite.
double Diff(const M3& a, const M3& b) {
  double d = 0.;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      const double e = std::abs(a[i][j] - b[i][j]);
      d = std::isnan(e) ? INFINITY : std::max(d, e);
    }
  return d;
}
double Diff(const A3& a, const A3& b) {
  double d = 0.;
  for (int i = 0; i < 3; ++i) {
    const double e = std::abs(a[i] - b[i]);
    d = std::isnan(e) ? INFINITY : std::max(d, e);
  }
  return d;
}
// Rodrigues' formula.
M3 AxisAngle(const A3& axis, double angle) {
  const double n = Norm(axis);
  if (n == 0.) return Id();
  const A3 u{axis[0] / n, axis[1] / n, axis[2] / n};
  const double c = std::cos(angle), s = std::sin(angle);
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[i][j] = (i == j ? c : 0.) + (1 - c) * u[i] * u[j];
  r[0][1] -= s * u[2];
  r[0][2] += s * u[1];
  r[1][0] += s * u[2];
  r[1][2] -= s * u[0];
  r[2][0] -= s * u[1];
  r[2][1] += s * u[0];
  return r;
}
M3 Euler(double r, double p, double y) {
  return Mul(AxisAngle({0, 0, 1}, y), Mul(AxisAngle({0, 1, 0}, p), AxisAngle({1, 0, 0}, r)));
}
// The rotation of a quaternion, by conjugation.
M3 OfQuat(const Quaternion& q) {
  const double n = q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z();
  const A3 v{q.x(), q.y(), q.z()};
  M3 m;
  for (int j = 0; j < 3; ++j) {
    A3 e{};
    e[j] = 1.;
    const A3 c = Cross(v, e), cc = Cross(v, c);
    for (int i = 0; i < 3; ++i) m[i][j] = e[i] + 2. / n * (q.w() * c[i] + cc[i]);
  }
  return m;
}
// The angle of a rotation, accurate at both ends.
double Angle(const M3& m) {
  const A3 v{m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]};
  return std::atan2(Norm(v), m[0][0] + m[1][1] + m[2][2] - 1.);
}

double RandomAngle(pbt::Src& src) {
  switch (src.weighted({3, 3, 1})) {
    case 0:
      return M_PI_2 * static_cast<double>(src.i(-8, 8)) / 2.;
    case 1:
      return src.sym(2. * M_PI);
    default: {
      const double base = M_PI_2 * static_cast<double>(src.i(-2, 2));
      return base + std::pow(10., static_cast<double>(src.i(-17, -3))) * (src.b() ? 1. : -1.);
    }
  }
}
A3 RandomVector(pbt::Src& src, double scale = 10.) {
  switch (src.weighted({2, 2, 1, 1})) {
    case 0:
      return {static_cast<double>(src.i(-3, 3)), static_cast<double>(src.i(-3, 3)), static_cast<double>(src.i(-3, 3))};
    case 1:
      return {src.sym(scale), src.sym(scale), src.sym(scale)};
    case 3: {  // Of quite different magnitudes.
      A3 v{};
      for (double& x : v) x = std::pow(10., -static_cast<double>(src.i(0, 10))) * (src.b() ? 1. : -1.);
      return v;
    }
    default: {
      A3 v{};
      v[src.idx(3)] = src.b() ? 1. : -1.;
      return v;
    }
  }
}
A3 NonZero(pbt::Src& src) {
  A3 v = RandomVector(src);
  if (Norm(v) < 1e-3) v = {0., 0., 1.};
  return v;
}
// A quaternion, not always of unit length, given its rotation.
Quaternion RandomQuaternion(pbt::Src& src, bool unit, M3* m) {
  A3 axis = NonZero(src);
  const double a = RandomAngle(src);
  const double n = Norm(axis), s = std::sin(a / 2) / n;
  double scale = 1.;
  if (!unit && src.b()) scale = std::pow(10., src.sym(3.)) * (src.b() ? 1. : -1.);
  *m = AxisAngle(axis, a);
  return {std::cos(a / 2) * scale, axis[0] * s * scale, axis[1] * s * scale, axis[2] * s * scale};
}

constexpr double kRot = 1e-9;

PROBE(P22, quaternion, 300000, 8000000) {
  M3 ma, mb;
  const Quaternion a = RandomQuaternion(src, false, &ma), b = RandomQuaternion(src, false, &mb);
  const Quaternion ua = a.normalized(), ub = b.normalized();
  NOTE("a " << a << " b " << b);
  if (std::abs(a.norm() - 1.) > 1e-3 || std::abs(b.norm() - 1.) > 1e-3 || Angle(Mul(ma, T(mb))) > M_PI - 1e-6)
    pbt::nontrivial();
  CHECK(std::abs(ua.norm() - 1.) < 1e-14, "normalized", a);
  CHECK(Diff(Of(a.ToRotationMatrix()), ma) < kRot, "to-matrix", a);
  CHECK(Diff(OfQuat(ua), ma) < kRot, "normalized", a);
  // Composition.
  CHECK(Diff(Of((a * b).ToRotationMatrix()), Mul(ma, mb)) < kRot, "product", a << " * " << b);
  Quaternion c = a;
  c *= b;
  CHECK(c == a * b, "product", "*= differs from *");
  CHECK(std::abs((a * b).norm() - a.norm() * b.norm()) < 1e-9 * a.norm() * b.norm(), "product", "norm of product");
  // Vectors.
  const A3 v = RandomVector(src);
  CHECK(Diff(Of(ua * To(v)), Mul(ma, v)) < kRot * 20 && Diff(Of(ua.TransformVector(To(v))), Mul(ma, v)) < kRot * 20,
        "transform", ua << " of " << To(v));
  // Inverses.
  const Quaternion inv = a.Inverse();
  CHECK(Diff(Of(inv.ToRotationMatrix()), T(ma)) < kRot, "inverse", a);
  const Quaternion one = a * inv;
  CHECK(std::abs(one.w() - 1.) < 1e-9 && one.vec().norm() < 1e-9, "inverse", a << " * inverse = " << one);
  CHECK(Diff(Of(a.conjugate().ToRotationMatrix()), T(ma)) < kRot, "conjugate", a);
  // Distances.
  const double angle = Angle(Mul(ma, T(mb)));
  CHECK(std::abs(a.AngularDistance(b) - angle) < 1e-7, "angular-distance",
        a.AngularDistance(b) << " expected " << angle);
  CHECK(std::abs(a.AngularDistance(b) - b.AngularDistance(a)) < 1e-9, "angular-distance", "not symmetric");
  // From matrices.
  Matrix3 m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) m[i][j] = ma[i][j];
  const Quaternion q(m);
  CHECK(std::abs(q.norm() - 1.) < 1e-7 && Diff(OfQuat(q), ma) < 1e-7, "from-matrix", q << " from the matrix of " << a);
  // Interpolation of unit quaternions: along the shortest way, at constant speed.
  const double t = src.real(0., 1.);
  const Quaternion s = ua.Slerp(t, ub);
  CHECK(std::abs(s.norm() - 1.) < 1e-7, "slerp", "not of unit length: " << s);
  const double total = Angle(Mul(ma, T(mb)));
  CHECK(std::abs(Angle(Mul(OfQuat(s), T(ma))) - t * total) < 1e-6 &&
            std::abs(Angle(Mul(OfQuat(s), T(mb))) - (1. - t) * total) < 1e-6,
        "slerp", ua << " to " << ub << " at " << t << ": " << s);
  // Equality.
  CHECK(a == a && !(a != a), "equality", a);
  Quaternion d = a;
  (src.b() ? (src.b() ? d.w() : d.x()) : (src.b() ? d.y() : d.z())) += 1.;
  CHECK(a != d && !(a == d), "equality", a << " == " << d);
  const double rel = (a.coeffs() - b.coeffs()).norm() / std::min(a.norm(), b.norm());
  const double precision = src.real(1e-6, 3.);
  if (std::abs(rel - precision) > 1e-9 * (1. + rel))
    CHECK(a.IsApprox(b, precision) == (rel < precision), "is-approx", a << " " << b << " " << precision);
}

PROBE(P22, angle_axis, 100000, 3000000) {
  const A3 axis = src.b(1, 20) ? A3{} : RandomVector(src);
  const double a = RandomAngle(src);
  const Quaternion q(a, To(axis));
  NOTE(a << " about " << To(axis));
  if (std::abs(a) > M_PI || Norm(axis) < 0.1) pbt::nontrivial();
  CHECK(std::abs(q.norm() - 1.) < 1e-12, "angle-axis", q);
  CHECK(Diff(OfQuat(q), Norm(axis) < 1e-15 ? Id() : AxisAngle(axis, a)) < kRot, "angle-axis", q);
}

PROBE(P22, two_vectors, 400000, 10000000) {
  const A3 a = NonZero(src);
  A3 b;
  const size_t kind = src.weighted({3, 3, 3, 3});
  const double k = std::pow(10., src.sym(2.));
  if (kind == 0) {
    b = NonZero(src);
  } else {
    b = {a[0] * k, a[1] * k, a[2] * k};
    if (kind >= 2) b = {-b[0], -b[1], -b[2]};
    if (kind == 3 || src.b(1, 3)) {  // Almost.
      const A3 e = NonZero(src);
      const double d = std::pow(10., -src.real(1., 17.)) * Norm(b) / Norm(e);
      for (int i = 0; i < 3; ++i) b[i] += d * e[i];
    }
    pbt::nontrivial();
  }
  NOTE("from " << To(a) << " to " << To(b));
  pbt::label(kind == 0 ? "any" : kind == 1 ? "parallel" : "antiparallel");
  const Quaternion q = Quaternion::FromTwoVectors(To(a), To(b));
  const double na = Norm(a), nb = Norm(b);
  A3 ub{b[0] / nb, b[1] / nb, b[2] / nb}, ua{a[0] / na, a[1] / na, a[2] / na};
  CHECK(std::abs(q.norm() - 1.) < 1e-9, "two-vectors", "not of unit length: " << q);
  CHECK(Diff(Mul(OfQuat(q), ua), ub) < 1e-6, "two-vectors",
        q << " takes " << To(ua) << " to " << To(Mul(OfQuat(q), ua)) << ", not " << To(ub));
  // The shortest rotation: its angle is the one between the vectors.
  const double angle = std::atan2(Norm(Cross(ua, ub)), Dot(ua, ub));
  CHECK(std::abs(Angle(OfQuat(q)) - angle) < 1e-6, "two-vectors",
        "turns by " << Angle(OfQuat(q)) << " instead of " << angle);
}

PROBE(P22, roll_pitch_yaw, 400000, 10000000) {
  const double r = RandomAngle(src), p = RandomAngle(src), y = RandomAngle(src);
  NOTE("rpy " << r << " " << p << " " << y);
  if (std::abs(std::cos(p)) < 1e-3 || std::abs(p) > M_PI_2) pbt::nontrivial();
  if (std::abs(std::cos(p)) < 1e-3) pbt::label("gimbal lock");
  const M3 m = Euler(r, p, y);
  const RollPitchYaw rpy(r, p, y);
  CHECK(rpy.roll_angle() == r && rpy.pitch_angle() == p && rpy.yaw_angle() == y && rpy.vector() == Vector3(r, p, y),
        "accessors", "");
  CHECK(Diff(Of(rpy.ToMatrix()), m) < kRot, "rpy-to-matrix", "");
  const Quaternion q = rpy.ToQuaternion();
  CHECK(std::abs(q.norm() - 1.) < 1e-12 && Diff(OfQuat(q), m) < kRot, "rpy-to-quaternion", q);
  const RollPitchYaw back(q);
  CHECK(std::abs(back.roll_angle()) <= M_PI + 1e-12 && std::abs(back.pitch_angle()) <= M_PI_2 + 1e-12 &&
            std::abs(back.yaw_angle()) <= M_PI + 1e-12,
        "rpy-range", back.vector());
  CHECK(Diff(Euler(back.roll_angle(), back.pitch_angle(), back.yaw_angle()), m) < 1e-7, "rpy-round-trip",
        back.vector() << " from " << q);
  // Angles in their range come back, away from the gimbal lock.
  if (std::abs(r) < M_PI - 1e-6 && std::abs(p) < M_PI_2 - 1e-3 && std::abs(y) < M_PI - 1e-6) {
    CHECK(Diff(Of(back.vector()), {r, p, y}) < 1e-7, "rpy-round-trip", back.vector());
  }
  // The derivative, numerically.
  const A3 dt = RandomVector(src, 3.);
  const double h = 1e-5;
  const M3 plus = Euler(r + h * dt[0], p + h * dt[1], y + h * dt[2]),
           minus = Euler(r - h * dt[0], p - h * dt[1], y - h * dt[2]);
  M3 num;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) num[i][j] = (plus[i][j] - minus[i][j]) / (2 * h);
  CHECK(Diff(Of(rpy.CalcRotationMatrixDt(To(dt))), num) < 1e-6, "rpy-derivative", "rates " << To(dt));
}

// Histories of updates: the representations hold what was last set.
PROBE(P22, updates, 100000, 2000000) {
  std::array<double, 4> m{1., 0., 0., 0.};
  A3 e{};
  Quaternion q;
  RollPitchYaw rpy;
  const size_t n = src.i(1, 8);
  if (n >= 4) pbt::nontrivial();
  for (size_t k = 0; k < n; ++k) {
    const A3 v = RandomVector(src);
    const double w = src.sym(5.);
    const Quaternion before = q;
    const RollPitchYaw rpy_before = rpy;
    const auto held = m;
    const A3 held_e = e;
    switch (src.i(0, 10)) {
      case 0:
        q = Quaternion(Vector4(w, v[0], v[1], v[2]));
        m = {w, v[0], v[1], v[2]};
        break;
      case 1:
        q = Quaternion(w, v[0], v[1], v[2]);
        m = {w, v[0], v[1], v[2]};
        break;
      case 2:
        q.set_identity();
        m = {1., 0., 0., 0.};
        break;
      case 3:
        q.w() = w;
        q.z() = v[2];
        m[0] = w;
        m[3] = v[2];
        break;
      case 4:
        q.x() = v[0];
        q.y() = v[1];
        m[1] = v[0];
        m[2] = v[1];
        break;
      case 5: {  // Too short to have a direction.
        const double s = 1e-17;
        q = Quaternion(s, -s, s, s);
        q.normalize();
        m = {1., 0., 0., 0.};
        break;
      }
      case 6: {
        const A3 a = NonZero(src), b = NonZero(src);
        q.SetFromTwoVectors(To(a), To(b));
        const Quaternion same = Quaternion::FromTwoVectors(To(a), To(b));
        m = {same.w(), same.x(), same.y(), same.z()};
        break;
      }
      case 7:
        rpy.set(To(v));
        e = v;
        break;
      case 8:
        rpy.set(v[0], v[1], v[2]);
        e = v;
        break;
      case 9:
        rpy = RollPitchYaw(To(v));
        rpy.pitch_angle() = w;
        e = {v[0], w, v[2]};
        break;
      default: {
        M3 unused;
        const Quaternion unit = RandomQuaternion(src, true, &unused);
        rpy.SetFromQuaternion(unit);
        e = Of(RollPitchYaw(unit).vector());
        break;
      }
    }
    NOTE(q << " " << rpy.vector());
    CHECK(q.w() == m[0] && q.x() == m[1] && q.y() == m[2] && q.z() == m[3], "quaternion-components", q);
    CHECK(q.vec() == Vector3(m[1], m[2], m[3]) && q.coeffs() == Vector4(m[0], m[1], m[2], m[3]),
          "quaternion-components", q);
    CHECK(before.w() == held[0] && before.x() == held[1] && before.y() == held[2] && before.z() == held[3],
          "copy-changed", before);
    const double sq = m[0] * m[0] + m[1] * m[1] + m[2] * m[2] + m[3] * m[3];
    const double dot = m[0] * held[0] + m[1] * held[1] + m[2] * held[2] + m[3] * held[3];
    CHECK(
        std::abs(q.squared_norm() - sq) <= 1e-12 * (1. + sq) && std::abs(q.norm() - std::sqrt(sq)) <= 1e-12 * (1. + sq),
        "quaternion-norm", q);
    CHECK(std::abs(q.dot(before) - dot) <= 1e-9, "quaternion-dot", q << " . " << before);
    CHECK(Diff(Of(rpy.vector()), e) == 0. && rpy.roll_angle() == e[0] && rpy.pitch_angle() == e[1] &&
              rpy.yaw_angle() == e[2],
          "rpy-components", rpy.vector());
    CHECK(Diff(Of(rpy_before.vector()), held_e) == 0., "copy-changed", rpy_before.vector());
  }
  CHECK(Quaternion::Identity() == Quaternion() && Quaternion() == Quaternion(1., 0., 0., 0.), "identity", Quaternion());
}

PROBE(P22, api_rotation, 300000, 8000000) {
  using maliput::api::InertialPosition;
  using maliput::api::Rotation;
  M3 ma, mb;
  const Quaternion qa = RandomQuaternion(src, false, &ma), qb = RandomQuaternion(src, false, &mb);
  NOTE(qa << " " << qb);
  if (std::abs(qa.norm() - 1.) > 1e-3 || std::abs(qb.norm() - 1.) > 1e-3 || Angle(Mul(ma, T(mb))) > M_PI - 1e-6)
    pbt::nontrivial();
  Rotation a = Rotation::FromQuat(qa);
  if (src.b()) {
    a = Rotation();
    CHECK(Diff(Of(a.matrix()), Id()) == 0., "identity", "");
    a.set_quat(qa);
  }
  const Rotation b = Rotation::FromQuat(qb);
  CHECK(std::abs(a.quat().norm() - 1.) < 1e-12 && Diff(OfQuat(a.quat()), ma) < kRot && Diff(Of(a.matrix()), ma) < kRot,
        "rotation", a.quat());
  const A3 v = RandomVector(src);
  CHECK(Diff(Of(a.Apply(InertialPosition::FromXyz(To(v))).xyz()), Mul(ma, v)) < 20 * kRot, "apply", To(v));
  const RollPitchYaw rpy = a.rpy();
  CHECK(rpy.roll_angle() == a.roll() && rpy.pitch_angle() == a.pitch() && rpy.yaw_angle() == a.yaw(), "rpy", "");
  CHECK(Diff(Euler(a.roll(), a.pitch(), a.yaw()), ma) < 1e-7, "rpy", rpy.vector());
  CHECK(Diff(Of(Rotation::FromRpy(rpy.vector()).matrix()), ma) < 1e-7, "rpy", rpy.vector());
  {
    std::ostringstream os;
    os << a;
    std::vector<double> numbers;
    std::istringstream is(os.str());
    for (std::string word; is >> word;) {
      char* end{};
      const double v = std::strtod(word.c_str(), &end);
      if (end != word.c_str()) numbers.push_back(v);
    }
    CHECK(numbers.size() == 3 && Diff({numbers[0], numbers[1], numbers[2]}, Of(rpy.vector())) < 1e-4, "rotation-text",
          os.str());
  }
  // Seen the other way round: ahead and to the side are turned over, up is kept.
  const M3 back = Of(a.Reverse().matrix());
  for (int i = 0; i < 3; ++i) {
    CHECK(std::abs(back[i][0] + ma[i][0]) < kRot && std::abs(back[i][1] + ma[i][1]) < kRot &&
              std::abs(back[i][2] - ma[i][2]) < kRot,
          "reverse", a.quat());
  }
  CHECK(Diff(Of(a.Reverse().Reverse().matrix()), ma) < kRot, "reverse", "twice");
  double sum = 0.;
  for (int j = 0; j < 3; ++j) {
    const A3 x{ma[0][j], ma[1][j], ma[2][j]}, y{mb[0][j], mb[1][j], mb[2][j]};
    const double w = std::atan2(Norm(Cross(x, y)), Dot(x, y));
    sum += w * w;
  }
  CHECK(std::abs(a.Distance(b) - std::sqrt(sum)) < 1e-6, "distance", a.Distance(b) << " expected " << std::sqrt(sum));
}

// Matrices of small whole numbers are computed exactly.
template <size_t N>
using IM = std::array<std::array<long long, N>, N>;

template <size_t N>
long long Det(const IM<N>& m) {
  // Sum over permutations.
  std::array<int, N> p;
  for (size_t i = 0; i < N; ++i) p[i] = static_cast<int>(i);
  long long det = 0;
  do {
    long long t = 1;
    int inversions = 0;
    for (size_t i = 0; i < N; ++i) {
      t *= m[i][p[i]];
      for (size_t j = i + 1; j < N; ++j) inversions += p[i] > p[j];
    }
    det += inversions % 2 ? -t : t;
  } while (std::next_permutation(p.begin(), p.end()));
  return det;
}
// The minor, by replacing a row and a column with those of the identity.
template <size_t N>
long long Cofactor(IM<N> m, size_t r, size_t c) {
  for (size_t k = 0; k < N; ++k) m[r][k] = m[k][c] = 0;
  m[r][c] = 1;
  return Det(m);
}
template <size_t N>
std::string Show(const IM<N>& m) {
  std::ostringstream os;
  for (const auto& r : m) {
    os << "[";
    for (long long v : r) os << v << " ";
    os << "]";
  }
  return os.str();
}
template <size_t N>
Matrix<N> ToMatrix(const IM<N>& m, double scale) {
  Matrix<N> r;
  for (size_t i = 0; i < N; ++i)
    for (size_t j = 0; j < N; ++j) r[i][j] = static_cast<double>(m[i][j]) * scale;
  return r;
}

template <size_t N, typename V>
void JudgeMatrix(pbt::Src& src) {
  IM<N> a{}, b{};
  const int bound = static_cast<int>(src.i(1, 6));
  for (size_t i = 0; i < N; ++i)
    for (size_t j = 0; j < N; ++j) {
      a[i][j] = src.i(-bound, bound);
      b[i][j] = src.i(-bound, bound);
    }
  if (src.b(1, 4)) {  // Singular: a row is a combination of others.
    const size_t r = src.idx(N), x = (r + 1) % N, y = (r + N - 1) % N;
    const long long p = src.i(-2, 2), q = src.i(-2, 2);
    for (size_t j = 0; j < N; ++j) a[r][j] = p * a[x][j] + (x == y ? 0 : q * a[y][j]);
  }
  // A power of two keeps everything exact.
  const double scale = std::ldexp(1., static_cast<int>(src.i(-3, 3)));
  NOTE(N << "x" << N << " " << Show(a) << " " << Show(b) << " scale " << scale);
  const Matrix<N> A = ToMatrix(a, scale), B = ToMatrix(b, scale);
  const long long det = Det(a);
  bool symmetric = true;
  for (size_t i = 0; i < N; ++i)
    for (size_t j = 0; j < N; ++j) symmetric = symmetric && a[i][j] == a[j][i];
  if (!symmetric && std::llabs(det) != 1) pbt::nontrivial();
  pbt::label(det == 0 ? "singular" : "regular");
  const Matrix<N> sum = A + B, diff = A - B, prod = A * B, tr = A.transpose(), twice = A * 3., twice2 = 3. * A,
                  half = A / 4., cof = A.cofactor(), adj = A.adjoint();
  CHECK(A.determinant() == static_cast<double>(det) * std::pow(scale, N), "determinant",
        A.determinant() << " expected " << det << " scaled");
  CHECK(A.is_singular() == (det == 0), "is-singular", det);
  for (size_t i = 0; i < N; ++i) {
    const auto row = A.row(i), col = A.col(i);
    for (size_t j = 0; j < N; ++j) {
      CHECK(A[i][j] == a[i][j] * scale && row[j] == a[i][j] * scale && col[j] == a[j][i] * scale, "access",
            i << "," << j);
      CHECK(sum[i][j] == (a[i][j] + b[i][j]) * scale, "matrix-sum", i << "," << j);
      CHECK(diff[i][j] == (a[i][j] - b[i][j]) * scale, "matrix-difference", i << "," << j);
      CHECK(twice[i][j] == 3 * a[i][j] * scale && twice2[i][j] == 3 * a[i][j] * scale, "matrix-scaled", i << "," << j);
      CHECK(half[i][j] == a[i][j] * scale / 4., "matrix-divided", i << "," << j);
      CHECK(tr[i][j] == a[j][i] * scale, "transpose", i << "," << j);
      long long p = 0;
      for (size_t k = 0; k < N; ++k) p += a[i][k] * b[k][j];
      CHECK(prod[i][j] == p * scale * scale, "matrix-product", i << "," << j);
      const double cf = static_cast<double>(Cofactor(a, i, j)) * std::pow(scale, N - 1);
      CHECK(A.cofactor(i, j) == cf && cof[i][j] == cf && adj[j][i] == cf, "cofactor",
            i << "," << j << " expected " << cf << " is " << A.cofactor(i, j));
      if constexpr (N > 2) {
        const auto red = A.reduce(i, j);
        for (size_t x = 0; x + 1 < N; ++x)
          for (size_t y = 0; y + 1 < N; ++y)
            CHECK(red[x][y] == a[x + (x >= i)][y + (y >= j)] * scale, "reduce", i << "," << j);
      }
    }
  }
  if (det == 0) {
    MUST_THROW("singular-inverse", (void)A.inverse(), "the inverse of a singular matrix");
  } else {
    const Matrix<N> inv = A.inverse();
    for (size_t i = 0; i < N; ++i)
      for (size_t j = 0; j < N; ++j) {
        const double expected = static_cast<double>(Cofactor(a, j, i)) / static_cast<double>(det) / scale;
        CHECK(std::abs(inv[i][j] - expected) <= 1e-12 * (1. + std::abs(expected)), "inverse",
              i << "," << j << " is " << inv[i][j] << " expected " << expected);
      }
  }
  // Applied to vectors.
  std::array<double, N> v;
  std::array<long long, N> iv;
  for (size_t i = 0; i < N; ++i) v[i] = static_cast<double>(iv[i] = src.i(-5, 5));
  const V w = A * V(v);
  for (size_t i = 0; i < N; ++i) {
    long long p = 0;
    for (size_t k = 0; k < N; ++k) p += a[i][k] * iv[k];
    CHECK(w[i] == p * scale, "matrix-vector", i);
  }
  // Equality and copies.
  bool same = true;
  for (size_t i = 0; i < N; ++i) same = same && a[i] == b[i];
  CHECK((A == B) == same && (A != B) == !same, "matrix-equality", "");
  Matrix<N> C = A;
  CHECK(C == A, "matrix-equality", "copy");
  const size_t r = src.idx(N), c = src.idx(N);
  C[r][c] += 1.;
  CHECK(C != A && A[r][c] == a[r][c] * scale, "matrix-equality", "one element differs at " << r << "," << c);
  C = A;
  CHECK(C == A, "matrix-equality", "assigned");
  CHECK(A * Matrix<N>::Identity() == A && Matrix<N>::Identity() * A == A, "identity", "");
  // The text has the elements, row by row.
  {
    std::ostringstream os;
    os << A;
    CHECK(os.str() == A.to_str(), "matrix-text", os.str() << " and " << A.to_str());
    std::string text = os.str();
    for (char& x : text)
      if (std::strchr("{}[](),;", x) != nullptr) x = ' ';
    std::istringstream is(text);
    for (size_t i = 0; i < N; ++i)
      for (size_t j = 0; j < N; ++j) {
        double e{};
        CHECK(is >> e && std::abs(e - a[i][j] * scale) <= 1e-5 * std::abs(a[i][j] * scale), "matrix-text",
              os.str() << " at " << i << "," << j);
      }
    std::string rest;
    CHECK(!(is >> rest), "matrix-text", os.str());
  }
  // Out of range.
  const size_t off = N + src.idx(3);
  MUST_THROW("index", (void)A[off], off);
  MUST_THROW("index", (void)A[0][off], off);
  MUST_THROW("index", (void)A.row(off), off);
  MUST_THROW("index", (void)A.col(off), off);
  MUST_THROW("index", (void)A.reduce(off, 0), off);
  MUST_THROW("index", (void)A.reduce(0, off), off);
  MUST_THROW("index", (void)A.cofactor(off, 0), off);
  MUST_THROW("index", (void)A.cofactor(0, off), off);
  MUST_THROW("size", (Matrix<N>(std::initializer_list<double>{1., 2., 3.})), "three values");
}

PROBE(P23, matrices, 100000, 3000000) {
  switch (src.i(0, 2)) {
    case 0:
      return JudgeMatrix<2, Vector2>(src);
    case 1:
      return JudgeMatrix<3, Vector3>(src);
    default:
      return JudgeMatrix<4, Vector4>(src);
  }
}

double RandomComponent(pbt::Src& src) {
  switch (src.weighted({3, 3, 2, 1})) {
    case 0:
      return static_cast<double>(src.i(-9, 9));
    case 1:
      return src.sym(1000.);
    case 2:
      return (src.b() ? 1. : -1.) * src.fine(1., 10.) * std::pow(10., static_cast<double>(src.i(-300, 300)));
    default:
      return src.pick(std::vector<double>{0., -0., 1e-7, 1e21, -1e-300});
  }
}

template <size_t N, typename V>
void JudgeVector(pbt::Src& src, bool is_plain) {
  std::array<double, N> a, b;
  std::array<long long, N> ia, ib;
  for (size_t i = 0; i < N; ++i) {
    ia[i] = src.i(-50, 50);
    ib[i] = src.i(-50, 50);
    a[i] = static_cast<double>(ia[i]) / 8.;
    b[i] = static_cast<double>(ib[i]) / 8.;
  }
  const V A(a), B(b);
  NOTE(A << " " << B);
  pbt::nontrivial();
  const V sum = A + B, diff = A - B, scaled = A * 3., scaled2 = 3. * A, div = A / 4.;
  V plus = A;
  plus += B;
  long long dot = 0, sq = 0;
  for (size_t i = 0; i < N; ++i) {
    CHECK(A[i] == a[i], "access", i);
    CHECK(sum[i] == a[i] + b[i] && plus[i] == a[i] + b[i], "vector-sum", i);
    CHECK(diff[i] == a[i] - b[i], "vector-difference", i);
    CHECK(scaled[i] == 3 * a[i] && scaled2[i] == 3 * a[i], "vector-scaled", i);
    CHECK(div[i] == a[i] / 4., "vector-divided", i);
    dot += ia[i] * ib[i];
    sq += ia[i] * ia[i];
  }
  CHECK(A.dot(B) == static_cast<double>(dot) / 64. && B.dot(A) == A.dot(B), "dot", A.dot(B));
  CHECK(std::abs(A.norm() - std::sqrt(static_cast<double>(sq)) / 8.) < 1e-12, "norm", A.norm());
  if (sq > 0) {
    const V u = A.normalized();
    V w = A;
    w.normalize();
    CHECK(u == w, "normalized", u << " " << w);
    for (size_t i = 0; i < N; ++i)
      CHECK(std::abs(u[i] - ia[i] / std::sqrt(static_cast<double>(sq))) < 1e-14, "normalized", u);
  }
  CHECK(A.size() == N && A.to_array() == a, "size", "");
  CHECK((A == B) == (ia == ib) && (A != B) == (ia != ib), "vector-equality", A << " " << B);
  const size_t at = src.idx(N);
  V C = A;
  CHECK(C == A, "vector-equality", "copy");
  C[at] += 1.;
  CHECK(C != A && A[at] == a[at], "vector-equality", "differs at " << at);
  C = A;
  CHECK(C == A, "vector-equality", "assigned");
  CHECK(V::Zero() + A == A && V::Ones().dot(A) == A.dot(V::Ones()) && V() == V::Zero(), "zero", "");
  const size_t off = N + src.idx(3);
  MUST_THROW("index", (void)A[off], off);
  MUST_THROW("index", C[off] = 1., off);
  MUST_THROW("size", (V(std::initializer_list<double>{1., 2., 3., 4., 5.})), "five values");
  (void)is_plain;
  // Text.
  std::array<double, N> t;
  for (size_t i = 0; i < N; ++i) t[i] = RandomComponent(src);
  const std::string text = V(t).to_str();
  NOTE("text " << text);
  V back;
  MUST_NOT_THROW("text", back = V::FromStr(text), text);
  for (size_t i = 0; i < N; ++i)
    CHECK(std::abs(back[i] - t[i]) <= 1e-14 * std::abs(t[i]), "text",
          text << " read as " << back << " component " << i << " is " << t[i]);
  std::ostringstream os;
  os << V(t);
  CHECK(os.str() == text, "text", os.str());
  // Spelled otherwise.
  std::string other = "{";
  for (size_t i = 0; i < N; ++i) {
    std::ostringstream n;
    n.precision(17);
    n << t[i];
    other += std::string(src.i(0, 2), ' ') + n.str() + (i + 1 < N ? "," : "");
  }
  other += "}";
  MUST_NOT_THROW("text", back = V::FromStr(other), other);
  for (size_t i = 0; i < N; ++i) CHECK(back[i] == t[i], "text", other << " read as " << back);
  // Damaged.
  std::string bad = text;
  switch (src.i(0, 5)) {
    case 0:
      bad = bad.substr(1);
      break;
    case 1:
      bad.pop_back();
      break;
    case 2:
      bad.insert(bad.size() - 1, ", 1");
      break;
    case 3:
      if (N == 1) {
        bad = "{}";
      } else {
        bad = bad.substr(0, bad.rfind(',')) + "}";
      }
      break;
    case 4:
      bad = "{x" + bad.substr(1);
      break;
    default:
      bad = "";
      break;
  }
  try {
    back = V::FromStr(bad);
    pbt::fail("text-accepted", bad + " read as " + back.to_str());
  } catch (const std::exception&) {
  }
}

PROBE(P23, vectors, 100000, 3000000) {
  switch (src.i(0, 5)) {
    case 0:
      return JudgeVector<1, Vector<1>>(src, true);
    case 1:
      return JudgeVector<2, Vector2>(src, false);
    case 2:
      return JudgeVector<3, Vector3>(src, false);
    case 3:
      return JudgeVector<4, Vector4>(src, false);
    case 4: {
      // Named components, products and units of the derived vectors.
      std::array<long long, 8> v;
      for (auto& x : v) x = src.i(-9, 9);
      std::array<double, 8> d;
      for (int i = 0; i < 8; ++i) d[i] = static_cast<double>(v[i]);
      pbt::nontrivial();
      const Vector3 a(d[0], d[1], d[2]), b(d[3], d[4], d[5]);
      NOTE(a << " x " << b);
      CHECK(a.cross(b) == Vector3(static_cast<double>(v[1] * v[5] - v[2] * v[4]),
                                  static_cast<double>(v[2] * v[3] - v[0] * v[5]),
                                  static_cast<double>(v[0] * v[4] - v[1] * v[3])),
            "cross", a << " x " << b << " = " << a.cross(b));
      CHECK(a.x() == d[0] && a.y() == d[1] && a.z() == d[2], "components", a);
      Vector4 w(d[0], d[1], d[2], d[3]);
      CHECK(w.x() == d[0] && w.y() == d[1] && w.z() == d[2] && w.w() == d[3], "components", w);
      w.x() = d[4];
      w.y() = d[5];
      w.z() = d[6];
      w.w() = d[7];
      CHECK(w == Vector4(d[4], d[5], d[6], d[7]), "components", w);
      Vector2 u(d[0], d[1]);
      CHECK(u.x() == d[0] && u.y() == d[1], "components", u);
      u.x() = d[2];
      u.y() = d[3];
      CHECK(u == Vector2(d[2], d[3]), "components", u);
      Vector3 c = a;
      c.x() = d[5];
      c.y() = d[6];
      c.z() = d[7];
      CHECK(c == Vector3(d[5], d[6], d[7]), "components", c);
      CHECK(Vector3::UnitX() * d[0] + Vector3::UnitY() * d[1] + Vector3::UnitZ() * d[2] == a, "units", a);
      CHECK(Vector2::UnitX() * d[2] + Vector2::UnitY() * d[3] == u, "units", u);
      CHECK(Vector4::UnitX() * d[4] + Vector4::UnitY() * d[5] + Vector4::UnitZ() * d[6] + Vector4::UnitW() * d[7] == w,
            "units", w);
      return;
    }
    default: {
      // Removal of one component.
      std::array<double, 4> d;
      for (auto& x : d) x = static_cast<double>(src.i(-9, 9));
      const Vector<4> v(d);
      const size_t at = src.idx(6);
      pbt::nontrivial();
      NOTE("remove " << at);
      if (at >= 4) {
        MUST_THROW("index", (void)v.reduce(at), at);
        return;
      }
      const Vector<3> r = v.reduce(at);
      for (size_t i = 0; i < 3; ++i) CHECK(r[i] == d[i + (i >= at)], "reduce", at);
      return JudgeVector<3, Vector<3>>(src, true);
    }
  }
}

// P24.
struct Box {
  A3 pos, half, rpy;
  double tolerance;
  M3 r;
  BoundingBox make() const {
    return BoundingBox(To(pos), Vector3(2 * half[0], 2 * half[1], 2 * half[2]), RollPitchYaw(rpy[0], rpy[1], rpy[2]),
                       tolerance);
  }
  A3 local(const A3& p) const { return Mul(T(r), Sub(p, pos)); }
  A3 global(const A3& p) const {
    const A3 q = Mul(r, p);
    return {q[0] + pos[0], q[1] + pos[1], q[2] + pos[2]};
  }
  A3 axis(int k) const { return {r[0][k], r[1][k], r[2][k]}; }
};
std::ostream& operator<<(std::ostream& os, const Box& b) {
  return os << "box at " << To(b.pos) << " half " << To(b.half) << " rpy " << To(b.rpy) << " tolerance " << b.tolerance;
}
Box RandomBox(pbt::Src& src) {
  Box b;
  for (int k = 0; k < 3; ++k) {
    b.pos[k] = src.sym(5.);
    b.half[k] = src.b(1, 10) ? 0. : src.b(1, 4) ? src.real(0., 10.) : src.real(0., 2.);
    b.rpy[k] = src.b(1, 5) ? 0. : src.b(1, 4) ? M_PI_2 * static_cast<double>(src.i(-2, 2)) : src.sym(M_PI);
  }
  b.tolerance = src.pick(std::vector<double>{1e-12, 0., 1e-6, 1e-3, 0.5});
  b.r = Euler(b.rpy[0], b.rpy[1], b.rpy[2]);
  return b;
}
bool Turned(const Box& b) {
  return (std::abs(std::sin(2 * b.rpy[0])) > 0.05) + (std::abs(std::sin(2 * b.rpy[1])) > 0.05) +
             (std::abs(std::sin(2 * b.rpy[2])) > 0.05) >=
         2;
}
A3 PointIn(pbt::Src& src, const Box& b, double factor) {
  return b.global({src.sym(b.half[0]) * factor, src.sym(b.half[1]) * factor, src.sym(b.half[2]) * factor});
}
// How far the box extends beyond the point's local coordinates: negative when the point is out by that much on some
// axis.
double Margin(const Box& b, const A3& p, double tolerance) {
  const A3 q = b.local(p);
  double m = INFINITY;
  for (int k = 0; k < 3; ++k) m = std::min(m, b.half[k] + tolerance - std::abs(q[k]));
  return m;
}

PROBE(P24, points, 300000, 8000000) {
  const Box b = RandomBox(src);
  const BoundingBox box = b.make();
  NOTE(b);
  if (Turned(b)) pbt::nontrivial();
  CHECK(box.position() == To(b.pos) && box.box_size() == Vector3(2 * b.half[0], 2 * b.half[1], 2 * b.half[2]) &&
            box.get_orientation().vector() == To(b.rpy),
        "accessors", "");
  // The vertices, in any order.
  const std::vector<Vector3> vertices = box.get_vertices();
  CHECK(vertices.size() == 8, "vertices", vertices.size());
  std::vector<bool> used(8, false);
  for (int k = 0; k < 8; ++k) {
    const A3 v =
        b.global({k & 1 ? b.half[0] : -b.half[0], k & 2 ? b.half[1] : -b.half[1], k & 4 ? b.half[2] : -b.half[2]});
    bool found = false;
    for (size_t i = 0; i < 8 && !found; ++i)
      if (!used[i] && Diff(Of(vertices[i]), v) < 1e-9) found = used[i] = true;
    CHECK(found, "vertices", "no vertex at " << To(v));
  }
  for (int k = 0; k < 4; ++k) {
    A3 q;
    for (int i = 0; i < 3; ++i)
      q[i] = b.half[i] * src.pick(std::vector<double>{0., 0.5, 0.99, 1., -1., -0.3}) + (src.b(1, 3) ? src.sym(1.)
                                                                                        : src.b(1, 3)
                                                                                            ? b.tolerance * src.sym(2.)
                                                                                            : 0.);
    const A3 p = b.global(q);
    const double m = Margin(b, p, b.tolerance);
    if (std::abs(m) < 1e-10) continue;
    CHECK(box.Contains(To(p)) == (m > 0), m > 0 ? "point-missed" : "point-accepted",
          To(p) << ", local " << To(q) << ", margin " << m);
  }
}

PROBE(P24, pairs, 400000, 12000000) {
  Box a = RandomBox(src), b = RandomBox(src);
  const size_t kind = src.weighted({3, 2, 3, 3});
  A3 common{};
  if (kind == 1) {  // Small and within.
    const double f = src.real(0.05, 0.6);
    for (int k = 0; k < 3; ++k)
      b.half[k] = std::min(b.half[k], f * std::min(a.half[0], std::min(a.half[1], a.half[2])));
    b.pos = PointIn(src, a, src.real(0., 1.));
  } else if (kind == 2) {  // With a point in common.
    common = PointIn(src, a, 0.999);
    const A3 l = PointIn(src, b, 0.999);
    for (int k = 0; k < 3; ++k) b.pos[k] += common[k] - l[k];
  } else if (kind == 3) {  // Next to a face or a corner.
    A3 corner{a.half[0] * static_cast<double>(src.i(-1, 1)), a.half[1] * static_cast<double>(src.i(-1, 1)),
              a.half[2] * static_cast<double>(src.i(-1, 1))};
    const A3 g = a.global(corner);
    A3 lc{b.half[0] * static_cast<double>(src.i(-1, 1)), b.half[1] * static_cast<double>(src.i(-1, 1)),
          b.half[2] * static_cast<double>(src.i(-1, 1))};
    const A3 h = b.global(lc);
    for (int k = 0; k < 3; ++k) b.pos[k] += g[k] - h[k] + src.sym(0.3);
  }
  NOTE(a << "; " << b);
  if (Turned(a) && Turned(b)) pbt::nontrivial();
  const BoundingBox A = a.make(), B = b.make();
  // Containment.
  double inside = INFINITY;
  for (int k = 0; k < 8; ++k) {
    inside = std::min(inside, Margin(a,
                                     b.global({k & 1 ? b.half[0] : -b.half[0], k & 2 ? b.half[1] : -b.half[1],
                                               k & 4 ? b.half[2] : -b.half[2]}),
                                     a.tolerance));
  }
  const bool contained = A.IsBoxContained(B);
  if (std::abs(inside) > 1e-10)
    CHECK(contained == (inside > 0), inside > 0 ? "containment-missed" : "containment-accepted", "margin " << inside);
  // Intersection: separating axes.
  const A3 t = Sub(b.pos, a.pos);
  double size = 0.;
  for (int k = 0; k < 3; ++k) size += a.half[k] + b.half[k];
  size += Norm(t);
  const double slack = std::max(a.tolerance, b.tolerance);
  bool clearly_apart = false, touching = true;
  auto judge = [&](const A3& axis) {
    const double n = Norm(axis);
    double reach = 0.;
    for (int k = 0; k < 3; ++k)
      reach += a.half[k] * std::abs(Dot(a.axis(k), axis)) + b.half[k] * std::abs(Dot(b.axis(k), axis));
    const double gap = std::abs(Dot(t, axis)) - reach;  // Scaled by n.
    if (gap > slack * n + 1e-5 * (size + 1e-3)) clearly_apart = true;
    if (n > 1e-9 && gap > -1e-9 * n * (1. + size)) touching = false;
  };
  for (int k = 0; k < 3; ++k) judge(a.axis(k));
  for (int k = 0; k < 3; ++k) judge(b.axis(k));
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) judge(Cross(a.axis(i), b.axis(j)));
  pbt::label(clearly_apart ? "apart" : touching ? "overlapping" : "close");
  const bool ab = A.IsBoxIntersected(B), ba = B.IsBoxIntersected(A);
  if (touching) CHECK(ab && ba, "intersection-missed", ab << ba);
  if (clearly_apart) CHECK(!ab && !ba, "intersection-reported", ab << ba);
  if (kind == 2 && Margin(a, common, 0.) > 1e-6 && Margin(b, common, 0.) > 1e-6)
    CHECK(ab && ba, "intersection-missed", "both hold " << To(common));
  const OverlappingType o = A.Overlaps(B);
  CHECK(o == (contained ? OverlappingType::kContained
              : ab      ? OverlappingType::kIntersected
                        : OverlappingType::kDisjointed),
        "overlaps", "");
  // Refused.
  const double neg = -src.fine(1e-9, 1.);
  const int which = static_cast<int>(src.i(0, 3));
  A3 s{1., 1., 1.};
  if (which < 3) s[which] = neg;
  MUST_THROW("refusal", BoundingBox(To(a.pos), To(s), RollPitchYaw(), which == 3 ? neg : 1e-3), which << " " << neg);
}

// P25.
// Gauss-Legendre with 10 nodes on each panel.
template <typename F>
double Integrate(const F& f, double lo, double hi, int panels) {
  static const double x[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845,
                              0.9739065285171717};
  static const double w[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806,
                              0.0666713443086881};
  double sum = 0.;
  const double h = (hi - lo) / panels / 2.;
  for (int p = 0; p < panels; ++p) {
    const double c = lo + (2 * p + 1) * h;
    for (int k = 0; k < 5; ++k) sum += w[k] * (f(c - h * x[k]) + f(c + h * x[k]));
  }
  return sum * h;
}

PROBE(P25, fresnel, 6000, 250000) {
  double t;
  const size_t kind = src.weighted({4, 2, 1, 1});
  if (kind == 0) {
    t = src.real(0., 8.);
  } else if (kind == 1) {
    t = 1.6007810593582121 + src.sym(1e-6);  // Where the formulas meet.
  } else if (kind == 2) {
    t = std::pow(10., src.real(1., 9.));
  } else {
    t = std::pow(10., -src.real(1., 20.));
  }
  const bool neg = src.b();
  if (neg) t = -t;
  NOTE(t);
  if (neg || kind) pbt::nontrivial();
  const Vector2 cs = maliput::math::ComputeFresnelCosineAndSine(t);
  const double x = std::abs(t);
  double c, s, eps;
  if (x <= 10.) {
    const int panels = 1 + static_cast<int>(x * x * 1.5);
    c = Integrate([](double u) { return std::cos(M_PI_2 * u * u); }, 0., x, panels);
    s = Integrate([](double u) { return std::sin(M_PI_2 * u * u); }, 0., x, panels);
    eps = 1e-11;
  } else {
    // Within the envelope of the tail around one half; exact phases are lost as the argument grows.
    const double g = M_PI * x, f = 1. / g, h = 1. / (g * g * x);
    c = 0.5 + f * std::sin(M_PI_2 * x * x) - h * std::cos(M_PI_2 * x * x);
    s = 0.5 - f * std::cos(M_PI_2 * x * x) - h * std::sin(M_PI_2 * x * x);
    eps = 3. / (g * std::pow(M_PI * x * x, 2)) + 1e-13 * (1. + x) / 10. + (x > 36974. ? 1.01 * f : 0.);
  }
  const double sign = t < 0 ? -1. : 1.;
  CHECK(std::abs(cs.x() - sign * c) <= eps, "fresnel-cosine", cs.x() << " expected " << sign * c);
  CHECK(std::abs(cs.y() - sign * s) <= eps, "fresnel-sine", cs.y() << " expected " << sign * s);
  if (x < 0.1) {  // Relative accuracy for small arguments.
    CHECK(std::abs(cs.x() - t) <= 1e-3 * x && std::abs(cs.y() - M_PI / 6. * t * t * t) <= 1e-3 * x * x * x + 1e-300,
          "fresnel-small", cs);
  }
  const double k = src.sym(10.);
  CHECK(std::abs(maliput::math::FresnelSpiralHeading(t, k) - Integrate([&](double u) { return u * k; }, 0., t, 1)) <=
            1e-9 * (1. + t * t * std::abs(k)),
        "spiral-heading", t << " " << k);
  CHECK(maliput::math::FresnelSpiralHeadingDot(t, k) == t * k, "spiral-heading-rate", t << " " << k);
}

PROBE(P25, saturate, 30000, 1000000) {
  const double a = src.sym(10.), b = src.b(1, 4) ? a : src.sym(10.),
               x = src.b(1, 4) ? src.pick(std::vector<double>{a, b}) : src.sym(20.);
  NOTE(x << " in [" << a << ", " << b << "]");
  if (x <= a || x >= b) pbt::nontrivial();
  if (a > b) {
    MUST_THROW("saturate-refusal", (void)maliput::math::saturate(x, a, b), "");
  } else {
    CHECK(maliput::math::saturate(x, a, b) == std::min(std::max(x, a), b), "saturate",
          maliput::math::saturate(x, a, b));
  }
}

PROBE(P25, range_validator, 60000, 2000000) {
  using maliput::common::RangeValidator;
  const double min = src.sym(10.);
  const double length = src.weighted({5, 1, 1}) == 0 ? src.real(0.01, 50.) : src.b() ? 0. : -src.real(0.01, 1.);
  const double max = min + length;
  const double tol = src.weighted({5, 1}) == 0 ? src.pick(std::vector<double>{1e-3, 1e-6, 0.1, 1.})
                     : src.b()                 ? 0.
                                               : -1e-3;
  const bool relative = src.b();
  double eps = src.b(1, 5) ? -1e-3 : src.b(1, 4) ? 0. : src.real(0., 2.) * (src.b() ? tol : 1.) * (src.b() ? 1e-3 : 1.);
  const double effective = relative ? (max - min) * eps : eps;
  NOTE("[" << min << ", " << max << "] tolerance " << tol << " epsilon " << eps
           << (relative ? " relative" : " absolute"));
  const bool valid = tol > 0. && effective >= 0. && effective <= tol && min + effective <= max;
  // Within rounding of a boundary: any.
  const bool unclear = (tol > 0. && std::abs(effective - tol) < 1e-12 * (1. + tol)) ||
                       std::abs(max - min - effective) < 1e-9 || (effective < 0 && effective > -1e-14);
  auto make = [&]() {
    return relative ? RangeValidator::GetRelativeEpsilonValidator(min, max, tol, eps)
                    : RangeValidator::GetAbsoluteEpsilonValidator(min, max, tol, eps);
  };
  if (unclear) return;
  if (!valid) {
    pbt::label("refused");
    pbt::nontrivial();
    MUST_THROW("range-refusal", (void)make(), "");
    return;
  }
  if (2 * effective > max - min) return;  // The open range is empty.
  const RangeValidator v = make();
  double x;
  switch (src.i(0, 4)) {
    case 0:
      x = src.real(min, max);
      break;
    case 1:
      x = min + effective * src.real(-1., 2.);
      break;
    case 2:
      x = max - effective * src.real(-1., 2.);
      break;
    case 3:
      x = min - tol * src.real(0., 2.);
      break;
    default:
      x = max + tol * src.real(0., 2.);
      break;
  }
  NOTE("value " << x);
  if (x < min + effective || x > max - effective) pbt::nontrivial();
  const double out = std::max(min - x, x - max);
  if (std::abs(out - tol) < 1e-12 * (1. + std::abs(x))) return;
  if (out > tol) {
    MUST_THROW("range-out", (void)v(x), x);
  } else {
    const double r = v(x), expected = std::min(std::max(x, min + effective), max - effective);
    CHECK(std::abs(r - expected) <= 1e-12 * (1. + std::abs(x)), "range-value", r << " expected " << expected);
    if (x > min + effective && x < max - effective) CHECK(r == x, "range-value", r << " changed from " << x);
    CHECK(r >= min && r <= max, "range-value", r << " out of range");
  }
}

// Speeds with closed-form lengths, which depend on the context.
struct Speed {
  int kind;
  double a, b;
  double f(double p, double k0, double k1) const {
    switch (kind) {
      case 0:
        return a + k0;  // Constant.
      case 1:
        return a + k0 + (b + k1) * p;  // Linear.
      case 2:
        return a + k0 + b * p * p;  // Quadratic.
      case 3:
        return std::sqrt(1. + (b + k1) * (b + k1) * p * p);  // Along a parabola.
      default:
        return (a + 1. + k0) + a * std::sin(b * p + k1);  // Wavy.
    }
  }
  double F(double p, double k0, double k1) const {
    switch (kind) {
      case 0:
        return (a + k0) * p;
      case 1:
        return (a + k0) * p + (b + k1) * p * p / 2.;
      case 2:
        return (a + k0) * p + b * p * p * p / 3.;
      case 3: {
        const double m = b + k1;
        if (m < 1e-9) return p;
        return (p * std::sqrt(1. + m * m * p * p) + std::asinh(m * p) / m) / 2.;
      }
      default:
        return (a + 1. + k0) * p - (b < 1e-9 ? -a * std::sin(k1) * p : a * (std::cos(b * p + k1) - std::cos(k1)) / b);
    }
  }
};

PROBE(P25, arc_length, 1500, 50000) {
  using maliput::drake::ArcLengthIntegrator;
  using maliput::drake::IntegratorConfiguration;
  using maliput::drake::InverseArcLengthIntegrator;
  Speed speed{static_cast<int>(src.i(0, 4)), src.real(0.5, 3.), src.real(0., 2.)};
  IntegratorConfiguration config;
  config.parameter_lower_bound = src.b() ? 0. : src.real(0., 3.);
  config.image_lower_bound = src.b() ? 0. : src.real(-3., 3.);
  config.k = {src.real(0., 1.), src.real(0., 1.)};
  config.initial_step_size_target = 0.1;
  config.maximum_step_size = 1.;
  config.target_accuracy = src.pick(std::vector<double>{1e-6, 1e-9});
  const double k0 = src.real(0., 2.), k1 = src.real(0., 1.);
  const Vector2 k(k0, k1);
  const double lb = config.parameter_lower_bound;
  auto f = [&speed](const double& p, const Vector2& q) { return speed.f(p, q[0], q[1]); };
  auto df = [&speed](const double&, const double& p, const Vector2& q) { return 1. / speed.f(p, q[0], q[1]); };
  const ArcLengthIntegrator direct(f, config);
  const InverseArcLengthIntegrator inverse(df, config);
  const double p0 = lb + src.real(0., 1.), p1 = p0 + src.real(0.1, 5.),
               tol = src.pick(std::vector<double>{1e-3, 1e-6, 0.1});
  NOTE("speed " << speed.kind << " " << speed.a << " " << speed.b << " from " << lb << " domain [" << p0 << ", " << p1
                << "] k " << k << " accuracy " << config.target_accuracy);
  if (speed.kind) pbt::nontrivial();
  auto length = [&](double p) { return speed.F(p, k0, k1) - speed.F(lb, k0, k1); };
  const double eps = 1e-4 * (1. + length(p1));
  const auto integral = direct.IntegralFunction(p0, p1, k, tol);
  const double s0 = config.image_lower_bound + length(p0), s1 = config.image_lower_bound + length(p1);
  const auto back = inverse.InverseFunction(s0, s1, k, tol, 1e-9);
  for (int n = 0; n < 3; ++n) {
    const double p = src.real(p0, p1);
    CHECK(std::abs(direct.Evaluate(p, k) - length(p)) < eps, "length",
          "at " << p << ": " << direct.Evaluate(p, k) << " expected " << length(p));
    CHECK(std::abs(integral(p) - length(p)) < eps, "length-function",
          "at " << p << ": " << integral(p) << " expected " << length(p));
    const double s = config.image_lower_bound + length(p);
    CHECK(std::abs(inverse.Evaluate(s, k) - p) < eps, "inverse",
          "at " << s << ": " << inverse.Evaluate(s, k) << " expected " << p);
    if (s >= s0 && s <= s1)
      CHECK(std::abs(back(s) - p) < eps, "inverse-function", "at " << s << ": " << back(s) << " expected " << p);
  }
  // At the ends: within the tolerance they are saturated, beyond it they are refused.
  const bool low = src.b();
  const double out = tol * src.real(0., 2.);
  if (std::abs(out - tol) < 1e-9) return;
  const double p = low ? p0 - out : p1 + out, s = low ? s0 - out : s1 + out;
  if (out < tol) {
    CHECK(integral(p) == integral(low ? p0 : p1), "saturation", p);
    CHECK(back(s) == back(low ? s0 : s1), "saturation", s);
  } else {
    MUST_THROW("out-of-range", (void)integral(p), p);
    MUST_THROW("out-of-range", (void)back(s), s);
  }
}

}  // namespace
