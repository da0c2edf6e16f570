// Analytic roads derived from maliput::geometry_base, with closed-form maps which the oracles compute on their own.
//
// Every lane is either straight in 3D (any orthonormal frame: heading, slope, roll) or a circular arc in a horizontal
// plane. Lane-frame coordinates are (s, r, h): s along the lane's centre line, r to the left, h up.
#pragma once

#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "maliput/api/basic_id_index.h"
#include "maliput/api/lane_data.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"
#include "pbt.h"

namespace tr {

namespace api = maliput::api;

struct V3 {
  double x{0.}, y{0.}, z{0.};
};
inline V3 operator+(const V3& a, const V3& b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(const V3& a, const V3& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(double k, const V3& a) { return {k * a.x, k * a.y, k * a.z}; }
inline double dot(const V3& a, const V3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(const V3& a, const V3& b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline double norm(const V3& a) { return std::sqrt(dot(a, a)); }
inline V3 of(const maliput::math::Vector3& v) { return {v.x(), v.y(), v.z()}; }
inline V3 of(const api::InertialPosition& p) { return {p.x(), p.y(), p.z()}; }
inline V3 of(const api::LanePosition& p) { return {p.s(), p.r(), p.h()}; }
inline api::InertialPosition ip(const V3& v) { return {v.x, v.y, v.z}; }
std::ostream& operator<<(std::ostream& os, const V3& v);

// Rotation whose columns are the lane's unit vectors.
api::Rotation rotation_from_axes(const V3& xs, const V3& xr, const V3& xh);

// Geometry of one lane.
struct LaneGeom {
  V3 origin;           // Of the lane's centre line at s = 0.
  double heading{0.};  // Of the centre line at s = 0.
  double slope{0.};    // Pitch up; straight lanes only.
  double roll{0.};     // About the centre line; straight lanes only.
  double kappa{0.};    // Signed curvature of this lane's centre line; 0: straight.
  double length{10.};
  double r_min{-1.}, r_max{1.};      // Lane bounds.
  double seg_min{-1.}, seg_max{1.};  // Segment bounds, in this lane's r.
  double h_min{0.}, h_max{5.};
  double taper_min{0.}, taper_max{0.};  // d(bound)/ds of the lane (and segment) bounds; straight lanes only.
  bool own_seg_taper{false};            // The segment bounds have slopes of their own.
  double seg_taper_min{0.}, seg_taper_max{0.};
  double h_rise_s{0.}, h_rise_r{0.};  // Slopes of h_max, with s and |r|. nearest() needs them to be zero.

  void axes(double s, V3* xs, V3* xr, V3* xh) const;
  V3 to_xyz(const V3& srh) const;  // Backend frame.
  // Nearest point of the lane's (or its segment's) volume. Straight lanes may taper.
  void nearest(const V3& p, bool segment, V3* srh, V3* xyz, double* distance) const;
  double hmax(double s, double r) const { return h_max + h_rise_s * std::clamp(s, 0., length) + h_rise_r * std::abs(r); }
  double rmin(double s) const { return r_min + taper_min * std::clamp(s, 0., length); }
  double rmax(double s) const { return r_max + taper_max * std::clamp(s, 0., length); }
  double smin(double s) const { return seg_min + (own_seg_taper ? seg_taper_min : taper_min) * std::clamp(s, 0., length); }
  double smax(double s) const { return seg_max + (own_seg_taper ? seg_taper_max : taper_max) * std::clamp(s, 0., length); }
};

class TLane : public maliput::geometry_base::Lane {
 public:
  TLane(const api::LaneId& id, const LaneGeom& g) : maliput::geometry_base::Lane(id), g_(g) {}
  const LaneGeom& geom() const { return g_; }
  mutable int orientation_calls{0};

 private:
  double do_length() const override { return g_.length; }
  api::RBounds do_lane_bounds(double s) const override { return {g_.rmin(s), g_.rmax(s)}; }
  api::RBounds do_segment_bounds(double s) const override { return {g_.smin(s), g_.smax(s)}; }
  api::HBounds do_elevation_bounds(double s, double r) const override { return {g_.h_min, g_.hmax(s, r)}; }
  maliput::math::Vector3 DoToBackendPosition(const api::LanePosition& p) const override;
  void DoToLanePositionBackend(const maliput::math::Vector3& backend_pos, api::LanePosition* lane_pos,
                               maliput::math::Vector3* nearest_backend_pos, double* distance) const override;
  void DoToSegmentPositionBackend(const maliput::math::Vector3& backend_pos, api::LanePosition* lane_pos,
                                  maliput::math::Vector3* nearest_backend_pos, double* distance) const override;
  api::Rotation DoGetOrientation(const api::LanePosition& p) const override;
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition& p, const api::IsoLaneVelocity& v) const override {
    const double stretch = 1. - g_.kappa * p.r();
    return {v.sigma_v / stretch, v.rho_v, v.eta_v};
  }
  LaneGeom g_;
};

class TSegment : public maliput::geometry_base::Segment {
 public:
  using maliput::geometry_base::Segment::Segment;
};
class TJunction : public maliput::geometry_base::Junction {
 public:
  using maliput::geometry_base::Junction::Junction;
};
class TBranchPoint : public maliput::geometry_base::BranchPoint {
 public:
  using maliput::geometry_base::BranchPoint::BranchPoint;
};
class TRoadGeometry : public maliput::geometry_base::RoadGeometry {
 public:
  using maliput::geometry_base::RoadGeometry::RoadGeometry;
};
// A road whose index is what it is told to be.
class FRoadGeometry : public TRoadGeometry {
 public:
  using TRoadGeometry::TRoadGeometry;
  api::BasicIdIndex claimed_index;

 private:
  const IdIndex& DoById() const override { return claimed_index; }
};

// Elements whose back-pointers can be made to lie.
class FLane : public TLane {
 public:
  using TLane::TLane;
  int claimed_index{};
  const api::Segment* claimed_segment{};

 private:
  int do_index() const override { return claimed_index; }
  const api::Segment* do_segment() const override { return claimed_segment; }
};
class FSegment : public TSegment {
 public:
  using TSegment::TSegment;
  const api::Junction* claimed_junction{};

 private:
  const api::Junction* do_junction() const override { return claimed_junction; }
};
class FJunction : public TJunction {
 public:
  using TJunction::TJunction;
  const api::RoadGeometry* claimed_rg{};

 private:
  const api::RoadGeometry* do_road_geometry() const override { return claimed_rg; }
};
class FBranchPoint : public TBranchPoint {
 public:
  using TBranchPoint::TBranchPoint;
  const api::RoadGeometry* claimed_rg{};

 private:
  const api::RoadGeometry* do_road_geometry() const override { return claimed_rg; }
};

// Specification of a road, from which the object graph is built and which oracles read.
struct LaneSpec {
  std::string id;
  LaneGeom geom;
  // Branch points the ends are attached to (index, a side?); -1: none.
  int start_bp{-1}, finish_bp{-1};
  bool start_a{true}, finish_a{true};
};
struct SegmentSpec {
  std::string id;
  std::vector<LaneSpec> lanes;
};
struct JunctionSpec {
  std::string id;
  std::vector<SegmentSpec> segments;
};
struct RoadSpec {
  std::string id{"rg"};
  double linear_tolerance{1e-3};
  double angular_tolerance{1e-3};
  double scale_length{1.};
  V3 translation;  // Inertial to Backend frame translation.
  std::vector<JunctionSpec> junctions;
  std::vector<std::string> branch_points;
  // Defaults: (lane id, is start) -> (lane id, is start).
  std::vector<std::pair<std::pair<std::string, bool>, std::pair<std::string, bool>>> defaults;

  LaneSpec* lane(const std::string& id);
  const LaneSpec* lane(const std::string& id) const;
  std::vector<const LaneSpec*> lanes() const;
};

struct Road {
  RoadSpec spec;
  std::unique_ptr<TRoadGeometry> rg;
  std::map<std::string, TLane*> lanes;
  std::vector<TBranchPoint*> branch_points;
  const LaneGeom& geom(const api::Lane* lane) const;
};

// Builds the object graph. Lanes without a branch point at some end get an own dead-end branch point when
// `dead_ends` is true. With `faultable`, elements are of the F* types, with truthful claims. With `own_index` the road
// is a FRoadGeometry with an empty index.
Road Build(RoadSpec spec, bool dead_ends = true, bool faultable = false, bool own_index = false);

// Splits `width`-wide strip of `n` lanes about a reference curve. Lane 0 is the rightmost one.
// `ref` describes the reference curve: origin, heading, slope, roll, kappa, length. Fills r and segment bounds.
std::vector<LaneGeom> MakeStrip(const LaneGeom& ref, const std::vector<double>& widths, double right_edge);

// Random road with a set of unconnected segments scattered in a box of the given half size.
RoadSpec ScatteredRoad(pbt::Src& src, double half_size, int max_segments, int max_lanes, bool allow_arcs = true,
                       bool allow_tilt = true, bool allow_taper = false);

// Random road made of end-to-end connected strips of lanes, G1-continuous at every branch point: chains, merges, splits
// over subsets of lanes, parallel ways between the same cross sections and closed loops, with lanes in both directions.
struct ConnectedOptions {
  int max_strips{6};
  int max_lanes{3};
  bool arcs{true};
  bool tilt{true};
  bool loops{true};
  bool defaults{true};
};
RoadSpec ConnectedRoad(pbt::Src& src, const ConnectedOptions& options);

std::string Describe(const RoadSpec& spec);

}  // namespace tr
