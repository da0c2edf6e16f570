// Straight lanes for the demonstrations.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "maliput/api/lane.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/regions.h"
#include "maliput/api/road_geometry.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"

#define REQUIRE(c)                                                  \
  do {                                                              \
    if (!(c)) {                                                     \
      std::fprintf(stderr, "%s:%d: %s\n", __FILE__, __LINE__, #c);  \
      std::exit(1);                                                 \
    }                                                               \
  } while (0)

namespace lr {
using namespace maliput;
using math::Vector3;

// A straight lane over the plane z = const, `half` wide at each side of its centerline. The segment reaches `seg` each side.
struct Line : geometry_base::Lane {
  Vector3 a, b;
  double half, seg;
  std::function<api::HBounds(double, double)> elevation = [](double, double) { return api::HBounds(0., 5.); };
  Line(const std::string& id, Vector3 a_, Vector3 b_, double half_ = 2., double seg_ = 2.)
      : geometry_base::Lane(api::LaneId(id)), a(a_), b(b_), half(half_), seg(seg_) {}
  double len() const { return (b - a).norm(); }
  Vector3 t() const { return (b - a) * (1. / len()); }
  Vector3 n() const { return {-t().y(), t().x(), 0.}; }
  double do_length() const override { return len(); }
  api::RBounds do_lane_bounds(double) const override { return {-half, half}; }
  api::RBounds do_segment_bounds(double) const override { return {-seg, seg}; }
  api::HBounds do_elevation_bounds(double s, double r) const override { return elevation(s, r); }
  Vector3 DoToBackendPosition(const api::LanePosition& p) const override {
    return a + t() * p.s() + n() * p.r() + Vector3(0., 0., p.h());
  }
  api::Rotation DoGetOrientation(const api::LanePosition&) const override {
    return api::Rotation::FromRpy(0., 0., std::atan2(t().y(), t().x()));
  }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition&, const api::IsoLaneVelocity& v) const override {
    return {v.sigma_v, v.rho_v, v.eta_v};
  }
  void Project(const Vector3& x, double w, api::LanePosition* p, Vector3* near, double* d) const {
    const Vector3 v = x - a;
    const double s = std::clamp(v.dot(t()), 0., len()), r = std::clamp(v.dot(n()), -w, w);
    const api::HBounds e = elevation(s, r);
    const double h = std::clamp(v.z(), e.min(), e.max());
    *p = api::LanePosition(s, r, h);
    *near = DoToBackendPosition(*p);
    *d = (*near - x).norm();
  }
  void DoToLanePositionBackend(const Vector3& x, api::LanePosition* p, Vector3* near, double* d) const override {
    Project(x, half, p, near, d);
  }
  void DoToSegmentPositionBackend(const Vector3& x, api::LanePosition* p, Vector3* near, double* d) const override {
    Project(x, seg, p, near, d);
  }
};
struct Segment : geometry_base::Segment { using geometry_base::Segment::Segment; };
struct Junction : geometry_base::Junction { using geometry_base::Junction::Junction; };
struct BranchPoint : geometry_base::BranchPoint { using geometry_base::BranchPoint::BranchPoint; };
struct Road : geometry_base::RoadGeometry {
  Road(double linear = 0.01, double angular = 0.01)
      : geometry_base::RoadGeometry(api::RoadGeometryId("road"), linear, angular, 1., Vector3(0., 0., 0.)) {}
  using geometry_base::RoadGeometry::AddBranchPoint;
  int n = 0;
  // Adds a segment with `lanes`, right to left.
  Segment* Add(std::vector<Line*> lanes) {
    Junction* j = AddJunction(std::make_unique<Junction>(api::JunctionId("j" + std::to_string(n))));
    Segment* s = j->AddSegment(std::make_unique<Segment>(api::SegmentId("s" + std::to_string(n++))));
    for (Line* l : lanes) s->AddLane(std::unique_ptr<Line>(l));
    return s;
  }
  // A branch point with lane ends at its A and B sides.
  BranchPoint* Join(const std::string& id, std::vector<std::pair<Line*, api::LaneEnd::Which>> a,
                    std::vector<std::pair<Line*, api::LaneEnd::Which>> b) {
    BranchPoint* p = AddBranchPoint(std::make_unique<BranchPoint>(api::BranchPointId(id)));
    for (auto& e : a) p->AddABranch(e.first, e.second);
    for (auto& e : b) p->AddBBranch(e.first, e.second);
    return p;
  }
};
constexpr auto kStart = api::LaneEnd::kStart;
constexpr auto kFinish = api::LaneEnd::kFinish;
}  // namespace lr
