// P36 positions, bounds and lane ends as values.
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <set>
#include <sstream>

#include "maliput/api/lane_data.h"
#include "maliput/math/vector.h"
#include "testroad.h"

using namespace tr;
using maliput::api::HBounds;
using maliput::api::InertialPosition;
using maliput::api::IsoLaneVelocity;
using maliput::api::LaneEnd;
using maliput::api::LanePosition;
using maliput::api::RBounds;
using maliput::math::Vector3;

PBT_RULE(
    P36,
    "Histories of constructions, copies, assignments, component and whole updates over a pool of positions (or of "
    "bounds, some of the updates invalid), and sets of lane ends. Non-trivial: at least one update of a value which "
    "has been copied (positions), at least one refused update after an accepted one (bounds), three or more lane "
    "ends.");

namespace {

using A3 = std::array<double, 3>;

double Number(pbt::Src& src) {
  switch (src.weighted({4, 2, 1, 1})) {
    case 0:
      return src.sym(1000.);
    case 1:
      return static_cast<double>(src.i(-3, 3));
    case 2:
      return src.sym(1.) * 1e-9;
    default:
      return src.sym(1.) * 1e9;
  }
}
A3 Triple(pbt::Src& src) { return {Number(src), Number(src), Number(src)}; }
Vector3 Vec(const A3& a) { return {a[0], a[1], a[2]}; }
std::string Text(const A3& a) {
  std::ostringstream os;
  os << "(" << a[0] << ", " << a[1] << ", " << a[2] << ")";
  return os.str();
}

// What the two kinds of positions have in common.
struct Inertial {
  using Type = InertialPosition;
  static Type Make(const A3& a) { return {a[0], a[1], a[2]}; }
  static Type FromVector(const Vector3& v) { return Type::FromXyz(v); }
  static void SetAll(Type* p, const Vector3& v) { p->set_xyz(v); }
  static Vector3 GetAll(const Type& p) { return p.xyz(); }
  static A3 Get(const Type& p) { return {p.x(), p.y(), p.z()}; }
  static void Set(Type* p, int k, double v) { k == 0 ? p->set_x(v) : k == 1 ? p->set_y(v) : p->set_z(v); }
  static const char* Names(int k) { return k == 0 ? "x" : k == 1 ? "y" : "z"; }
};
struct InLane {
  using Type = LanePosition;
  static Type Make(const A3& a) { return {a[0], a[1], a[2]}; }
  static Type FromVector(const Vector3& v) { return Type::FromSrh(v); }
  static void SetAll(Type* p, const Vector3& v) { p->set_srh(v); }
  static Vector3 GetAll(const Type& p) { return p.srh(); }
  static A3 Get(const Type& p) { return {p.s(), p.r(), p.h()}; }
  static void Set(Type* p, int k, double v) { k == 0 ? p->set_s(v) : k == 1 ? p->set_r(v) : p->set_h(v); }
  static const char* Names(int k) { return k == 0 ? "s" : k == 1 ? "r" : "h"; }
};

template <typename K>
void CheckPositions(pbt::Src& src) {
  using T = typename K::Type;
  std::vector<T> pool;
  std::vector<A3> model;
  std::vector<bool> copied;
  for (int k = static_cast<int>(src.i(1, 3)); k > 0; --k) {
    pool.emplace_back();
    model.push_back({0., 0., 0.});
    copied.push_back(false);
  }
  for (int n = static_cast<int>(src.i(1, 15)); n > 0; --n) {
    const size_t i = src.idx(pool.size());
    switch (src.i(0, 5)) {
      case 0:
        model[i] = Triple(src);
        pool[i] = K::Make(model[i]);
        copied[i] = false;
        NOTE(i << " = " << Text(model[i]));
        break;
      case 1:
        model[i] = Triple(src);
        pool[i] = K::FromVector(Vec(model[i]));
        copied[i] = false;
        NOTE(i << " = from vector " << Text(model[i]));
        break;
      case 2: {
        const size_t j = src.idx(pool.size());
        if (src.b()) {
          pool[i] = pool[j];
        } else {
          const T copy(pool[j]);
          pool[i] = std::move(copy);
        }
        model[i] = model[j];
        if (i != j) copied[i] = copied[j] = true;
        NOTE(i << " = copy of " << j);
        break;
      }
      case 3:
        model[i] = Triple(src);
        K::SetAll(&pool[i], Vec(model[i]));
        if (copied[i]) pbt::nontrivial();
        NOTE(i << " set to " << Text(model[i]));
        break;
      default: {
        const int k = static_cast<int>(src.i(0, 2));
        const double v = Number(src);
        K::Set(&pool[i], k, v);
        model[i][k] = v;
        if (copied[i]) pbt::nontrivial();
        NOTE(i << "." << K::Names(k) << " = " << v);
      }
    }
    for (size_t m = 0; m < pool.size(); ++m) {
      CHECK(K::Get(pool[m]) == model[m], "component",
            m << " reads " << Text(K::Get(pool[m])) << ", expected " << Text(model[m]));
      const Vector3 v = K::GetAll(pool[m]);
      CHECK(v.x() == model[m][0] && v.y() == model[m][1] && v.z() == model[m][2], "vector",
            m << " reads " << v << ", expected " << Text(model[m]));
    }
  }
  // As text: the named components, in order.
  const size_t i = src.idx(pool.size());
  std::ostringstream os;
  os.precision(17);
  os << pool[i];
  std::string text = os.str();
  size_t at = 0;
  for (int k = 0; k < 3; ++k) {
    at = text.find(std::string(K::Names(k)) + " = ", at);
    CHECK(at != std::string::npos, "text", text << " lacks " << K::Names(k));
    at += 4;
    const double v = std::strtod(text.c_str() + at, nullptr);
    CHECK(std::abs(v - model[i][k]) <= 1e-5 * std::abs(model[i][k]), "text",
          text << " says " << v << " for " << K::Names(k) << ", expected " << model[i][k]);
  }
}

template <typename B>
void CheckBounds(pbt::Src& src) {
  B bounds;
  double lo = 0., hi = 0.;
  bool accepted = false;
  // Negative, positive, both zeros, and not a number, which is neither.
  auto number = [&]() {
    switch (src.weighted({6, 2, 1, 1})) {
      case 0:
        return src.sym(100.);
      case 1:
        return src.pick(std::vector<double>{0., -0., 5e-324, -5e-324, 1e-12, -1e-12, 1e300, -1e300});
      case 2:
        return src.b() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
      default:
        return std::numeric_limits<double>::quiet_NaN();
    }
  };
  for (int n = static_cast<int>(src.i(1, 12)); n > 0; --n) {
    const double a = number(), b = number();
    const bool a_ok = a <= 0., b_ok = b >= 0.;
    switch (src.i(0, 2)) {
      case 0:
        NOTE("bounds(" << a << ", " << b << ")");
        if (a_ok && b_ok) {
          bounds = B(a, b);
          lo = a;
          hi = b;
          accepted = true;
        } else {
          MUST_THROW("invalid-accepted", B(a, b), a << ", " << b);
          if (accepted) pbt::nontrivial();
        }
        break;
      case 1:
        NOTE("set_min(" << a << ")");
        if (a_ok) {
          bounds.set_min(a);
          lo = a;
          accepted = true;
        } else {
          MUST_THROW("invalid-accepted", bounds.set_min(a), "minimum " << a);
          if (accepted) pbt::nontrivial();
        }
        break;
      default:
        NOTE("set_max(" << b << ")");
        if (b_ok) {
          bounds.set_max(b);
          hi = b;
          accepted = true;
        } else {
          MUST_THROW("invalid-accepted", bounds.set_max(b), "maximum " << b);
          if (accepted) pbt::nontrivial();
        }
    }
    const B copy(bounds);
    CHECK(bounds.min() == lo && bounds.max() == hi, "bounds",
          bounds.min() << ".." << bounds.max() << ", expected " << lo << ".." << hi);
    CHECK(copy.min() == lo && copy.max() == hi, "bounds-copy", copy.min() << ".." << copy.max());
  }
}

}  // namespace

PROBE(P36, inertial_positions, 40000, 2000000) { CheckPositions<Inertial>(src); }
PROBE(P36, lane_positions, 40000, 2000000) { CheckPositions<InLane>(src); }
PROBE(P36, lateral_bounds, 30000, 1500000) { CheckBounds<RBounds>(src); }
PROBE(P36, elevation_bounds, 30000, 1500000) { CheckBounds<HBounds>(src); }

PROBE(P36, arithmetic, 60000, 3000000) {
  const A3 a = Triple(src), b = src.b(1, 4) ? a : Triple(src);
  const double k = Number(src);
  const InertialPosition p = Inertial::Make(a), q = Inertial::Make(b);
  NOTE("p=" << Text(a) << " q=" << Text(b) << " k=" << k);
  A3 sum, difference, scaled;
  long double p2 = 0., d2 = 0.;
  for (int c = 0; c < 3; ++c) {
    sum[c] = a[c] + b[c];
    difference[c] = a[c] - b[c];
    scaled[c] = k * a[c];
    p2 += static_cast<long double>(a[c]) * a[c];
    d2 += static_cast<long double>(difference[c]) * difference[c];
  }
  auto same = [](const A3& x, const A3& y) {
    for (int c = 0; c < 3; ++c)
      if (std::abs(x[c] - y[c]) > 1e-14 * std::abs(y[c])) return false;
    return true;
  };
  CHECK(same(Inertial::Get(p + q), sum), "sum", Text(Inertial::Get(p + q)));
  CHECK(same(Inertial::Get(p - q), difference), "difference", Text(Inertial::Get(p - q)));
  CHECK(same(Inertial::Get(p * k), scaled) && same(Inertial::Get(k * p), scaled), "scaled",
        Text(Inertial::Get(p * k)) << " " << Text(Inertial::Get(k * p)));
  CHECK(Inertial::Get(p) == a && Inertial::Get(q) == b, "operands", "an operand changed");
  const double length = static_cast<double>(std::sqrt(p2)), distance = static_cast<double>(std::sqrt(d2));
  CHECK(std::abs(p.length() - length) <= 1e-12 * length, "length", p.length() << ", expected " << length);
  CHECK(std::abs(p.Distance(q) - distance) <= 1e-12 * distance, "distance", p.Distance(q) << ", expected " << distance);
  CHECK(p.Distance(q) == q.Distance(p), "distance", "not symmetric");
  // Positions are equal when they have the same components; those which hardly differ may be taken for equal.
  double apart = 0.;
  for (int c = 0; c < 3; ++c) apart = std::max(apart, std::abs(difference[c]));
  CHECK((p == q) != (p != q), "equality", "== and != agree");
  if (apart == 0.) CHECK(p == q, "equality", "same components");
  if (apart > 1e-6) CHECK(p != q, "equality", "components differ by " << apart);
  if (apart > 1e-6 && k != 0.) pbt::nontrivial();
  const IsoLaneVelocity v(a[0], a[1], a[2]);
  CHECK(v.sigma_v == a[0] && v.rho_v == a[1] && v.eta_v == a[2], "velocity",
        v.sigma_v << " " << v.rho_v << " " << v.eta_v);
  const IsoLaneVelocity zero;
  CHECK(zero.sigma_v == 0. && zero.rho_v == 0. && zero.eta_v == 0., "velocity", "default");
}

PROBE(P36, lane_ends, 20000, 800000) {
  RoadSpec spec = ScatteredRoad(src, 20., 3, 3);
  const Road road = Build(spec, false);
  std::vector<const maliput::api::Lane*> lanes{nullptr};
  for (const auto& kv : road.lanes) lanes.push_back(kv.second);
  std::vector<LaneEnd> ends;
  std::set<std::pair<const maliput::api::Lane*, int>> distinct;
  std::set<LaneEnd, LaneEnd::StrictOrder> set;
  for (int n = static_cast<int>(src.i(1, 10)); n > 0; --n) {
    const auto* lane = lanes[src.idx(lanes.size())];
    const bool start = src.b();
    ends.emplace_back(lane, start ? LaneEnd::kStart : LaneEnd::kFinish);
    distinct.insert({lane, start});
    set.insert(ends.back());
    CHECK(ends.back().lane == lane && ends.back().end == (start ? LaneEnd::kStart : LaneEnd::kFinish), "lane-end",
          "fields");
    std::ostringstream os;
    os << ends.back().end;
    CHECK(os.str() == (start ? "start" : "finish"), "lane-end-text", os.str());
  }
  if (ends.size() >= 3) pbt::nontrivial();
  CHECK(set.size() == distinct.size(), "lane-end-order", set.size() << " distinct ends, expected " << distinct.size());
  for (const auto& e : set) CHECK(distinct.count({e.lane, e.end == LaneEnd::kStart}), "lane-end-order", "stray");
  // A strict complete order.
  const LaneEnd::StrictOrder less;
  for (const LaneEnd& x : ends)
    for (const LaneEnd& y : ends) {
      const bool same = x.lane == y.lane && x.end == y.end;
      CHECK(less(x, y) + less(y, x) == (same ? 0 : 1), "lane-end-order", "neither or both of two ends come first");
      for (const LaneEnd& z : ends)
        if (less(x, y) && less(y, z)) CHECK(less(x, z), "lane-end-order", "not transitive");
    }
  // A road position maps to where its lane says; without a lane it refuses.
  const auto* lane = lanes.back();
  const LaneGeom& g = road.geom(lane);
  const V3 srh{src.real(0., g.length), src.real(g.r_min, g.r_max), src.real(g.h_min, g.h_max)};
  const maliput::api::RoadPosition rp(lane, LanePosition(srh.x, srh.y, srh.z));
  CHECK(rp.lane == lane && InLane::Get(rp.pos) == (A3{srh.x, srh.y, srh.z}), "road-position", "fields");
  CHECK(norm(of(rp.ToInertialPosition()) - (g.to_xyz(srh) + road.spec.translation)) < 1e-9, "road-position",
        of(rp.ToInertialPosition()));
  const maliput::api::RoadPosition nowhere(nullptr, rp.pos);
  MUST_THROW("road-position-null", nowhere.ToInertialPosition(), "no lane");
}
