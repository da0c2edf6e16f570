#include "testroad.h"

#include <algorithm>
#include <ostream>
#include <sstream>

#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"

namespace tr {

using maliput::math::Vector3;

std::ostream& operator<<(std::ostream& os, const V3& v) {
  return os << "(" << v.x << ", " << v.y << ", " << v.z << ")";
}

api::Rotation rotation_from_axes(const V3& xs, const V3& xr, const V3& xh) {
  // Rotation matrix (columns xs, xr, xh) to quaternion; Shepperd's method.
  const double m[3][3] = {{xs.x, xr.x, xh.x}, {xs.y, xr.y, xh.y}, {xs.z, xr.z, xh.z}};
  const double t = m[0][0] + m[1][1] + m[2][2];
  double w, x, y, z;
  if (t > 0) {
    const double q = std::sqrt(t + 1.) * 2.;
    w = q / 4.;
    x = (m[2][1] - m[1][2]) / q;
    y = (m[0][2] - m[2][0]) / q;
    z = (m[1][0] - m[0][1]) / q;
  } else if (m[0][0] > m[1][1] && m[0][0] > m[2][2]) {
    const double q = std::sqrt(1. + m[0][0] - m[1][1] - m[2][2]) * 2.;
    w = (m[2][1] - m[1][2]) / q;
    x = q / 4.;
    y = (m[0][1] + m[1][0]) / q;
    z = (m[0][2] + m[2][0]) / q;
  } else if (m[1][1] > m[2][2]) {
    const double q = std::sqrt(1. + m[1][1] - m[0][0] - m[2][2]) * 2.;
    w = (m[0][2] - m[2][0]) / q;
    x = (m[0][1] + m[1][0]) / q;
    y = q / 4.;
    z = (m[1][2] + m[2][1]) / q;
  } else {
    const double q = std::sqrt(1. + m[2][2] - m[0][0] - m[1][1]) * 2.;
    w = (m[1][0] - m[0][1]) / q;
    x = (m[0][2] + m[2][0]) / q;
    y = (m[1][2] + m[2][1]) / q;
    z = q / 4.;
  }
  const double n = std::sqrt(w * w + x * x + y * y + z * z);
  return api::Rotation::FromQuat(maliput::math::Quaternion(w / n, x / n, y / n, z / n));
}

void LaneGeom::axes(double s, V3* xs, V3* xr, V3* xh) const {
  if (kappa == 0.) {
    const double ch = std::cos(heading), sh = std::sin(heading);
    const double cp = std::cos(slope), sp = std::sin(slope);
    *xs = {ch * cp, sh * cp, sp};
    const V3 flat_r{-sh, ch, 0.};
    const V3 flat_h = cross(*xs, flat_r);
    const double cr = std::cos(roll), sr = std::sin(roll);
    *xr = cr * flat_r + sr * flat_h;
    *xh = cr * flat_h - sr * flat_r;
  } else {
    const double th = heading + kappa * s;
    *xs = {std::cos(th), std::sin(th), 0.};
    *xr = {-std::sin(th), std::cos(th), 0.};
    *xh = {0., 0., 1.};
  }
}

V3 LaneGeom::to_xyz(const V3& p) const {
  V3 xs, xr, xh;
  axes(p.x, &xs, &xr, &xh);
  if (kappa == 0.) return origin + p.x * xs + p.y * xr + p.z * xh;
  const double radius = 1. / kappa;
  const V3 center = origin + radius * V3{-std::sin(heading), std::cos(heading), 0.};
  return center + (p.y - radius) * xr + p.z * xh;
}

void LaneGeom::nearest(const V3& p, bool segment, V3* srh, V3* xyz, double* distance) const {
  const double lo = segment ? seg_min : r_min, hi = segment ? seg_max : r_max;
  if (kappa == 0.) {
    V3 xs, xr, xh;
    axes(0., &xs, &xr, &xh);
    const V3 d = p - origin;
    *srh = {std::clamp(dot(d, xs), 0., length), std::clamp(dot(d, xr), lo, hi), std::clamp(dot(d, xh), h_min, h_max)};
    auto low = [&](double s) { return segment ? smin(s) : rmin(s); };
    auto high = [&](double s) { return segment ? smax(s) : rmax(s); };
    if (low(length) != lo || high(length) != hi) {
      // A trapezoid: inside of it, or on the nearest of its four sides.
      const double s0 = dot(d, xs), r0 = dot(d, xr);
      if (!(s0 >= 0. && s0 <= length && r0 >= low(s0) && r0 <= high(s0))) {
        const double corners[4][2] = {{0., lo}, {length, low(length)}, {length, high(length)}, {0., hi}};
        double best = -1.;
        for (int k = 0; k < 4; ++k) {
          const double* a = corners[k];
          const double* b = corners[(k + 1) % 4];
          const double ds = b[0] - a[0], dr = b[1] - a[1], l2 = ds * ds + dr * dr;
          const double t = l2 > 0. ? std::clamp(((s0 - a[0]) * ds + (r0 - a[1]) * dr) / l2, 0., 1.) : 0.;
          const double s = a[0] + t * ds, r = a[1] + t * dr;
          const double distance2 = (s - s0) * (s - s0) + (r - r0) * (r - r0);
          if (best < 0. || distance2 < best) {
            best = distance2;
            srh->x = s;
            srh->y = std::clamp(r, low(s), high(s));
          }
        }
      } else {
        srh->x = s0, srh->y = r0;
      }
    }
  } else {
    const double radius = 1. / kappa;
    const V3 center = origin + radius * V3{-std::sin(heading), std::cos(heading), 0.};
    const V3 d = p - center;
    const double h = std::clamp(d.z, h_min, h_max);
    // Angle travelled along the arc from s = 0. At r, the point is at center + (r - radius) * xr.
    // xr(s) = (-sin th, cos th) and th = heading + kappa s.
    const double sign = kappa > 0 ? 1. : -1.;
    const double rho = std::hypot(d.x, d.y);
    double best = -1.;
    auto consider = [&](double s, double r) {
      const V3 cand{s, std::clamp(r, lo, hi), h};
      const V3 q = to_xyz(cand);
      const double dist = norm(q - p);
      if (best < 0. || dist < best) {
        best = dist;
        *srh = cand;
      }
    };
    // Inside the swept angle: (r - radius) * xr has the direction of d; r < radius for kappa > 0, so d = -rho *
    // sign*xr. xr = -sign * d / rho => th.
    if (rho > 1e-12) {
      const double ux = -sign * d.x / rho, uy = -sign * d.y / rho;  // = xr = (-sin th, cos th).
      const double th = std::atan2(-ux, uy);
      double dth = std::remainder(th - heading, 2. * M_PI);
      for (int k = -1; k <= 1; ++k) {
        const double s = (dth + 2. * M_PI * k) / kappa;
        if (s >= 0. && s <= length) consider(s, radius - sign * rho);
      }
    }
    for (double s : {0., length}) {
      V3 xs, xr, xh;
      axes(s, &xs, &xr, &xh);
      consider(s, radius + dot(d, xr));
    }
  }
  *xyz = to_xyz(*srh);
  *distance = norm(*xyz - p);
}

Vector3 TLane::DoToBackendPosition(const api::LanePosition& p) const {
  const V3 v = g_.to_xyz(of(p));
  return {v.x, v.y, v.z};
}

namespace {
void ToPosition(const LaneGeom& g, bool segment, const Vector3& backend_pos, api::LanePosition* lane_pos,
                Vector3* nearest, double* distance) {
  V3 srh, xyz;
  double d;
  g.nearest(of(backend_pos), segment, &srh, &xyz, &d);
  *lane_pos = api::LanePosition(srh.x, srh.y, srh.z);
  *nearest = Vector3(xyz.x, xyz.y, xyz.z);
  *distance = d;
}
}  // namespace

void TLane::DoToLanePositionBackend(const Vector3& backend_pos, api::LanePosition* lane_pos, Vector3* nearest,
                                    double* distance) const {
  ToPosition(g_, false, backend_pos, lane_pos, nearest, distance);
}
void TLane::DoToSegmentPositionBackend(const Vector3& backend_pos, api::LanePosition* lane_pos, Vector3* nearest,
                                       double* distance) const {
  ToPosition(g_, true, backend_pos, lane_pos, nearest, distance);
}

api::Rotation TLane::DoGetOrientation(const api::LanePosition& p) const {
  ++orientation_calls;
  V3 xs, xr, xh;
  g_.axes(p.s(), &xs, &xr, &xh);
  return rotation_from_axes(xs, xr, xh);
}

LaneSpec* RoadSpec::lane(const std::string& id) {
  for (auto& j : junctions)
    for (auto& s : j.segments)
      for (auto& l : s.lanes)
        if (l.id == id) return &l;
  return nullptr;
}
const LaneSpec* RoadSpec::lane(const std::string& id) const { return const_cast<RoadSpec*>(this)->lane(id); }
std::vector<const LaneSpec*> RoadSpec::lanes() const {
  std::vector<const LaneSpec*> r;
  for (auto& j : junctions)
    for (auto& s : j.segments)
      for (auto& l : s.lanes) r.push_back(&l);
  return r;
}

const LaneGeom& Road::geom(const api::Lane* lane) const { return static_cast<const TLane*>(lane)->geom(); }

Road Build(RoadSpec spec, bool dead_ends, bool faultable, bool own_index) {
  Road road;
  road.spec = std::move(spec);
  const RoadSpec& sp = road.spec;
  const Vector3 translation(sp.translation.x, sp.translation.y, sp.translation.z);
  if (own_index) {
    road.rg = std::make_unique<FRoadGeometry>(api::RoadGeometryId(sp.id), sp.linear_tolerance, sp.angular_tolerance,
                                              sp.scale_length, translation);
  } else {
    road.rg = std::make_unique<TRoadGeometry>(api::RoadGeometryId(sp.id), sp.linear_tolerance, sp.angular_tolerance,
                                              sp.scale_length, translation);
  }
  for (const JunctionSpec& js : sp.junctions) {
    auto fj = std::make_unique<FJunction>(api::JunctionId(js.id));
    fj->claimed_rg = road.rg.get();
    TJunction* j = faultable ? road.rg->AddJunction<TJunction>(std::move(fj))
                             : road.rg->AddJunction(std::make_unique<TJunction>(api::JunctionId(js.id)));
    for (const SegmentSpec& ss : js.segments) {
      auto fs = std::make_unique<FSegment>(api::SegmentId(ss.id));
      fs->claimed_junction = j;
      TSegment* s = faultable ? j->AddSegment<TSegment>(std::move(fs))
                              : j->AddSegment(std::make_unique<TSegment>(api::SegmentId(ss.id)));
      int index = 0;
      for (const LaneSpec& ls : ss.lanes) {
        auto fl = std::make_unique<FLane>(api::LaneId(ls.id), ls.geom);
        fl->claimed_index = index++;
        fl->claimed_segment = s;
        road.lanes[ls.id] = faultable ? s->AddLane<TLane>(std::move(fl))
                                      : s->AddLane(std::make_unique<TLane>(api::LaneId(ls.id), ls.geom));
      }
    }
  }
  auto add_bp = [&](const std::string& id) {
    auto fb = std::make_unique<FBranchPoint>(api::BranchPointId(id));
    fb->claimed_rg = road.rg.get();
    road.branch_points.push_back(faultable
                                     ? road.rg->AddBranchPoint<TBranchPoint>(std::move(fb))
                                     : road.rg->AddBranchPoint(std::make_unique<TBranchPoint>(api::BranchPointId(id))));
  };
  for (const std::string& id : sp.branch_points) add_bp(id);
  int n = 0;
  for (const LaneSpec* ls : sp.lanes()) {
    for (bool start : {true, false}) {
      int bp = start ? ls->start_bp : ls->finish_bp;
      bool a = start ? ls->start_a : ls->finish_a;
      if (bp < 0) {
        if (!dead_ends) continue;
        add_bp("dead_end_" + std::to_string(n++));
        bp = static_cast<int>(road.branch_points.size()) - 1;
        a = true;
      }
      const auto end = start ? api::LaneEnd::kStart : api::LaneEnd::kFinish;
      if (a) {
        road.branch_points[bp]->AddABranch(road.lanes[ls->id], end);
      } else {
        road.branch_points[bp]->AddBBranch(road.lanes[ls->id], end);
      }
    }
  }
  for (const auto& d : sp.defaults) {
    const api::LaneEnd from(road.lanes[d.first.first], d.first.second ? api::LaneEnd::kStart : api::LaneEnd::kFinish);
    const api::LaneEnd to(road.lanes[d.second.first], d.second.second ? api::LaneEnd::kStart : api::LaneEnd::kFinish);
    auto* lane = road.lanes[d.first.first];
    auto* bp = static_cast<TBranchPoint*>(d.first.second ? lane->mutable_start_branch_point()
                                                         : lane->mutable_finish_branch_point());
    bp->SetDefault(from, to);
  }
  return road;
}

std::vector<LaneGeom> MakeStrip(const LaneGeom& ref, const std::vector<double>& widths, double right_edge) {
  std::vector<LaneGeom> out;
  double total = 0.;
  for (double w : widths) total += w;
  double at = right_edge;
  V3 xs, xr, xh;
  ref.axes(0., &xs, &xr, &xh);
  for (double w : widths) {
    const double offset = at + w / 2.;
    LaneGeom g = ref;
    g.origin = ref.origin + offset * xr;
    if (ref.kappa != 0.) {
      const double radius = 1. / ref.kappa - offset;
      g.kappa = 1. / radius;
      g.length = ref.length * radius * ref.kappa;
    }
    g.r_min = -w / 2.;
    g.r_max = w / 2.;
    g.seg_min = right_edge - offset;
    g.seg_max = right_edge + total - offset;
    out.push_back(g);
    at += w;
  }
  return out;
}

RoadSpec ScatteredRoad(pbt::Src& src, double half_size, int max_segments, int max_lanes, bool allow_arcs,
                       bool allow_tilt, bool allow_taper) {
  RoadSpec spec;
  const int n = static_cast<int>(src.i(1, max_segments));
  int lane_no = 0;
  for (int k = 0; k < n; ++k) {
    LaneGeom ref;
    ref.origin = {src.sym(half_size), src.sym(half_size), src.b(1, 3) ? src.sym(half_size / 4.) : 0.};
    ref.heading = src.b(1, 2) ? src.sym(M_PI) : static_cast<double>(src.i(0, 7)) * M_PI / 4.;
    ref.length = src.real(1., half_size);
    ref.h_min = src.b(1, 3) ? -src.real(0., src.b() ? 1. : 6.) : 0.;
    ref.h_max = src.real(0., src.b(3, 4) ? 5. : 0.5);
    const int lanes = static_cast<int>(src.i(1, max_lanes));
    std::vector<double> widths;
    double total = 0.;
    for (int l = 0; l < lanes; ++l) {
      widths.push_back(src.real(0.5, 4.));
      total += widths.back();
    }
    const double right = -total * src.real(0., 1.);
    if (allow_arcs && src.b(1, 3)) {
      const double radius = total + src.real(2., half_size);
      ref.kappa = (src.b() ? 1. : -1.) / radius;
      ref.length = std::min(ref.length, radius * 5.);
    } else if (allow_tilt && src.b(1, 4)) {
      ref.slope = src.sym(0.4);
      ref.roll = src.sym(0.4);
    }
    // Segments join an existing junction or make a new one.
    if (spec.junctions.empty() || src.b(2, 3))
      spec.junctions.push_back({"j" + std::to_string(spec.junctions.size()), {}});
    SegmentSpec ss;
    ss.id = "s" + std::to_string(k);
    std::vector<LaneGeom> strip = MakeStrip(ref, widths, right);
    if (allow_taper && ref.kappa == 0. && src.b(1, 3)) {
      // Boundary l lies to the right of lane l. No boundary crosses a centre line.
      std::vector<double> slope;
      for (int l = 0; l <= lanes; ++l) {
        // The outermost boundaries may lead far outwards.
        const bool far = (l == 0 || l == lanes) && src.b(1, 2);
        const double to_right = far && l == 0 ? -0.5 * half_size : -0.45 * widths[std::max(l - 1, 0)];
        const double to_left = far && l == lanes ? 0.5 * half_size : 0.45 * widths[std::min(l, lanes - 1)];
        slope.push_back(src.b(1, 4) ? 0. : std::clamp(src.real(to_right, to_left) / ref.length, -0.3, 0.3));
      }
      for (int l = 0; l < lanes; ++l) {
        strip[l].taper_min = slope[l];
        strip[l].taper_max = slope[l + 1];
        strip[l].own_seg_taper = true;
        strip[l].seg_taper_min = slope.front();
        strip[l].seg_taper_max = slope.back();
      }
    }
    for (const LaneGeom& g : strip) ss.lanes.push_back({"l" + std::to_string(lane_no++), g});
    spec.junctions.back().segments.push_back(ss);
  }
  return spec;
}

namespace {

LaneGeom Reversed(const LaneGeom& g) {
  LaneGeom r = g;
  r.origin = g.to_xyz({g.length, 0., 0.});
  r.heading = std::remainder(g.heading + g.kappa * g.length + M_PI, 2. * M_PI);
  r.kappa = -g.kappa;
  r.slope = -g.slope;
  r.roll = -g.roll;
  r.r_min = -g.r_max;
  r.r_max = -g.r_min;
  r.seg_min = -g.seg_max;
  r.seg_max = -g.seg_min;
  return r;
}

// A line across the road where strips meet. Branch points have the strips behind on the A side, ahead on the B side.
struct CrossSection {
  V3 origin;
  double heading{0.}, slope{0.}, roll{0.};
  double right{0.};
  std::vector<double> widths;
  std::vector<int> bp;
  double total() const {
    double t = 0.;
    for (double w : widths) t += w;
    return t;
  }
};

class Builder {
 public:
  Builder(pbt::Src& src, const ConnectedOptions& options, RoadSpec* spec) : src_(src), opt_(options), spec_(spec) {}

  int NewSection(CrossSection c) {
    for (size_t k = 0; k < c.widths.size(); ++k) {
      spec_->branch_points.push_back("bp" + std::to_string(spec_->branch_points.size()));
      c.bp.push_back(static_cast<int>(spec_->branch_points.size()) - 1);
    }
    sections.push_back(c);
    return static_cast<int>(sections.size()) - 1;
  }

  // Strip along `ref`, whose lanes are [first, first + n) of section `from` and [to_first, ...) of section `to`.
  void AddStrip(const LaneGeom& ref, int from, int first, int to, int to_first, int n) {
    const CrossSection& a = sections[from];
    const CrossSection& b = sections[to];
    std::vector<double> widths(a.widths.begin() + first, a.widths.begin() + first + n);
    double right = a.right;
    for (int k = 0; k < first; ++k) right += a.widths[k];
    const bool reversed = src_.b(1, 3);
    const auto geoms = MakeStrip(ref, widths, right);
    SegmentSpec ss;
    ss.id = "s" + std::to_string(segments_++);
    const int base = lanes_;
    lanes_ += n;
    for (int k = 0; k < n; ++k) {
      LaneSpec ls;
      ls.id = "l" + std::to_string(base + k);
      ls.geom = reversed ? Reversed(geoms[k]) : geoms[k];
      const int bp0 = a.bp[first + k], bp1 = b.bp[to_first + k];
      ls.start_bp = reversed ? bp1 : bp0;
      ls.start_a = reversed;
      ls.finish_bp = reversed ? bp0 : bp1;
      ls.finish_a = !reversed;
      ss.lanes.push_back(ls);
    }
    if (reversed) std::reverse(ss.lanes.begin(), ss.lanes.end());
    auto& js = spec_->junctions;
    if (js.empty() || src_.b(2, 3)) js.push_back({"j" + std::to_string(js.size()), {}});
    js[src_.b(3, 4) ? js.size() - 1 : src_.idx(js.size())].segments.push_back(ss);
  }

  LaneGeom RefAt(const CrossSection& c) {
    LaneGeom ref;
    ref.origin = c.origin;
    ref.heading = c.heading;
    ref.slope = c.slope;
    ref.roll = c.roll;
    ref.h_min = src_.b(1, 4) ? -0.5 : 0.;
    ref.h_max = 5.;
    return ref;
  }

  void Shape(const CrossSection& c, LaneGeom* ref) {
    ref->length = src_.b(1, 3) ? static_cast<double>(src_.i(1, 10)) : src_.real(0.5, 30.);
    if (opt_.arcs && c.slope == 0. && c.roll == 0. && src_.b(1, 2)) {
      const double radius = std::fabs(c.right) + c.total() + src_.real(1., 30.);
      ref->kappa = (src_.b() ? 1. : -1.) / radius;
      ref->length = std::min(ref->length, radius * 3.);
    }
  }

  static CrossSection EndOf(const LaneGeom& ref, const CrossSection& c, int first, int n) {
    CrossSection e;
    e.origin = ref.to_xyz({ref.length, 0., 0.});
    e.heading = std::remainder(ref.heading + ref.kappa * ref.length, 2. * M_PI);
    e.slope = c.slope;
    e.roll = c.roll;
    e.right = c.right;
    for (int k = 0; k < first; ++k) e.right += c.widths[k];
    e.widths.assign(c.widths.begin() + first, c.widths.begin() + first + n);
    return e;
  }

  // Some lanes of a section continue ahead or come from behind, to or from a new section.
  void Extend() {
    const int at = static_cast<int>(src_.idx(sections.size()));
    const CrossSection c = sections[at];
    const int lanes = static_cast<int>(c.widths.size());
    const int n = src_.b(1, 3) ? static_cast<int>(src_.i(1, lanes)) : lanes;
    const int first = static_cast<int>(src_.i(0, lanes - n));
    LaneGeom ref = RefAt(c);
    Shape(c, &ref);
    if (src_.b(2, 3)) {
      const int to = NewSection(EndOf(ref, c, first, n));
      AddStrip(ref, at, first, to, 0, n);
    } else {
      // Behind: walk the reference backwards.
      LaneGeom back = ref;
      back.length = ref.length;
      V3 xs, xr, xh;
      if (ref.kappa == 0.) {
        ref.axes(0., &xs, &xr, &xh);
        back.origin = ref.origin - ref.length * xs;
      } else {
        back.heading = ref.heading - ref.kappa * ref.length;
        LaneGeom tmp = back;
        tmp.origin = {};
        back.origin = ref.origin - tmp.to_xyz({ref.length, 0., 0.});
      }
      CrossSection s = EndOf(back, c, first, n);
      s.origin = back.origin;
      s.heading = back.heading;
      const int from = NewSection(s);
      AddStrip(back, from, 0, at, first, n);
    }
  }

  // Closed ring through a section: a full circle in one or more strips.
  void Loop() {
    const int at = static_cast<int>(src_.idx(sections.size()));
    const CrossSection c = sections[at];
    if (c.slope != 0. || c.roll != 0.) return Extend();
    const int n = static_cast<int>(c.widths.size());
    const int parts = static_cast<int>(src_.i(1, 3));
    const double radius = std::fabs(c.right) + c.total() + src_.real(1., 10.);
    LaneGeom ref = RefAt(c);
    ref.kappa = (src_.b() ? 1. : -1.) / radius;
    ref.length = 2. * M_PI * radius / parts;
    int from = at;
    for (int k = 0; k < parts; ++k) {
      const CrossSection e = EndOf(ref, c, 0, n);
      const int to = k == parts - 1 ? at : NewSection(e);
      AddStrip(ref, from, 0, to, 0, n);
      ref.origin = e.origin;
      ref.heading = e.heading;
      from = to;
    }
  }

  // Straight and detour(s) from one section to a new one.
  void Lens() {
    const int at = static_cast<int>(src_.idx(sections.size()));
    const CrossSection c = sections[at];
    if (c.slope != 0. || c.roll != 0. || !opt_.arcs) return Extend();
    const int n = static_cast<int>(c.widths.size());
    const double radius = std::fabs(c.right) + c.total() + src_.real(1., 10.);
    const double alpha = 0.3 + src_.real(0., 0.7);
    LaneGeom ref = RefAt(c);
    ref.length = 4. * radius * std::sin(alpha);
    const int to = NewSection(EndOf(ref, c, 0, n));
    const int ways = static_cast<int>(src_.i(0, 2));
    if (ways != 1) AddStrip(ref, at, 0, to, 0, n);
    for (int w = 0; w < 2; ++w) {
      if (ways == 0 && w == 1) break;
      const double sign = w == 0 ? 1. : -1.;
      LaneGeom part = RefAt(c);
      int from = at;
      CrossSection e = c;
      for (int k = 0; k < 3; ++k) {
        part.kappa = (k == 1 ? -sign : sign) / radius;
        part.length = (k == 1 ? 2. : 1.) * alpha * radius;
        e = EndOf(part, c, 0, n);
        const int next = k == 2 ? to : NewSection(e);
        AddStrip(part, from, 0, next, 0, n);
        part.origin = e.origin;
        part.heading = e.heading;
        from = next;
      }
    }
  }

  std::vector<CrossSection> sections;

 private:
  pbt::Src& src_;
  const ConnectedOptions& opt_;
  RoadSpec* spec_;
  int segments_{0};
  int lanes_{0};
};

}  // namespace

RoadSpec ConnectedRoad(pbt::Src& src, const ConnectedOptions& options) {
  RoadSpec spec;
  Builder b(src, options, &spec);
  CrossSection c;
  c.origin = src.b(1, 3) ? V3{src.sym(50.), src.sym(50.), src.sym(5.)} : V3{};
  c.heading = src.b(1, 2) ? src.sym(M_PI) : static_cast<double>(src.i(0, 3)) * M_PI / 2.;
  if (options.tilt && src.b(1, 4)) {
    c.slope = src.sym(0.3);
    c.roll = src.sym(0.3);
  }
  const int lanes = static_cast<int>(src.i(1, options.max_lanes));
  for (int k = 0; k < lanes; ++k) c.widths.push_back(src.b(1, 2) ? 3. : src.real(0.5, 4.));
  c.right = -c.total() * src.real(0., 1.);
  b.NewSection(c);
  const int strips = static_cast<int>(src.i(1, options.max_strips));
  for (int k = 0; k < strips; ++k) {
    switch (options.loops ? src.weighted({8, 1, 1}) : 0) {
      case 0:
        b.Extend();
        break;
      case 1:
        b.Loop();
        break;
      default:
        b.Lens();
    }
  }
  {
    // Branch points nothing got attached to disappear.
    std::vector<int> uses(spec.branch_points.size(), 0), renumber(spec.branch_points.size(), -1);
    for (const LaneSpec* l : std::as_const(spec).lanes()) {
      ++uses[l->start_bp];
      ++uses[l->finish_bp];
    }
    std::vector<std::string> kept;
    for (size_t k = 0; k < uses.size(); ++k)
      if (uses[k] > 0) {
        renumber[k] = static_cast<int>(kept.size());
        kept.push_back(spec.branch_points[k]);
      }
    spec.branch_points = kept;
    for (auto& j : spec.junctions)
      for (auto& sg : j.segments)
        for (auto& l : sg.lanes) {
          l.start_bp = renumber[l.start_bp];
          l.finish_bp = renumber[l.finish_bp];
        }
  }
  if (options.defaults) {
    // Ends by branch point.
    struct End {
      std::string lane;
      bool start, a;
    };
    std::vector<std::vector<End>> ends(spec.branch_points.size());
    for (const LaneSpec* l : std::as_const(spec).lanes()) {
      ends[l->start_bp].push_back({l->id, true, l->start_a});
      ends[l->finish_bp].push_back({l->id, false, l->finish_a});
    }
    for (const auto& at : ends)
      for (const End& e : at) {
        if (!src.b(1, 2)) continue;
        for (const End& f : at)
          if (f.a != e.a) {
            spec.defaults.push_back({{e.lane, e.start}, {f.lane, f.start}});
            if (src.b()) break;  // A later default replaces the earlier one.
          }
      }
  }
  return spec;
}

std::string Describe(const RoadSpec& spec) {
  std::ostringstream os;
  os.precision(6);
  for (const auto& j : spec.junctions) {
    os << j.id << "{";
    for (const auto& s : j.segments) {
      os << s.id << "[";
      for (const auto& l : s.lanes) {
        const LaneGeom& g = l.geom;
        os << l.id << ":o=" << g.origin << " hd=" << g.heading << " k=" << g.kappa << " L=" << g.length << " r=["
           << g.r_min << "," << g.r_max << "]" << (g.taper_min != 0. || g.taper_max != 0. ? "(tapering)" : "") << " h=["
           << g.h_min << "," << g.h_max << "]";
        if (g.slope != 0. || g.roll != 0.) os << " tilt=" << g.slope << "," << g.roll;
        if (l.start_bp >= 0) os << " S@" << l.start_bp << (l.start_a ? "a" : "b");
        if (l.finish_bp >= 0) os << " F@" << l.finish_bp << (l.finish_a ? "a" : "b");
        os << " ";
      }
      os << "]";
    }
    os << "}";
  }
  return os.str();
}

}  // namespace tr
