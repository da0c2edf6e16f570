// P26: meshes of road geometries, and the OBJ, MTL and URDF files made of them.
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <filesystem>

#include "maliput/utility/generate_obj.h"
#include "maliput/utility/generate_urdf.h"
#include "maliput/utility/mesh.h"
#include "network.h"
#include "testroad.h"

using namespace tr;
using maliput::utility::BuildMesh;
using maliput::utility::BuildMeshes;
using maliput::utility::BuildRoadGeometryMesh;
using maliput::utility::GetMaterialByName;
using maliput::utility::Material;
using maliput::utility::MaterialType;
using maliput::utility::ObjFeatures;
using maliput::utility::RoadGeometryMesh;
using maliput::utility::mesh::GeoMesh;

PBT_RULE(P26,
         "Random straight, tilted, tapering and curved segments with "
         "random features (grid, tolerances, heights, "
         "simplification), connected roads, highlighted segments. "
         "Non-trivial: points inside and outside the surface were "
         "compared with the closed-form lane, or several segments or "
         "branch points took part.");

namespace {

using Meshes = std::map<std::string, std::pair<GeoMesh, Material>>;

struct P2 {
  double x, y;
};

// A mesh's face in the plane of its lane.
struct Flat {
  std::vector<P2> p;
  std::vector<double> h;
  std::vector<std::pair<double, double>> sr;
  std::vector<V3> normal_error;  // Declared normal minus the lane's up vector.
};

P2 plane_of(const LaneGeom& g, const V3& p) {
  if (g.kappa != 0.) return {p.x, p.y};
  V3 xs, xr, xh;
  g.axes(0., &xs, &xr, &xh);
  return {dot(p - g.origin, xs), dot(p - g.origin, xr)};
}

// (s, r, h) by inversion, not limited to the lane (arcs: to less than a turn).
V3 srh_of(const LaneGeom& g, const V3& p) {
  if (g.kappa == 0.) {
    V3 xs, xr, xh;
    g.axes(0., &xs, &xr, &xh);
    const V3 d = p - g.origin;
    return {dot(d, xs), dot(d, xr), dot(d, xh)};
  }
  const double radius = 1. / g.kappa;
  const V3 c = g.origin + radius * V3{-std::sin(g.heading), std::cos(g.heading), 0.};
  const V3 d = p - c;
  const double sign = g.kappa > 0. ? 1. : -1.;
  const double rho = std::hypot(d.x, d.y);
  const double th = std::atan2(sign * d.x, -sign * d.y);
  double s = std::remainder(th - g.heading, 2. * M_PI) / g.kappa;
  const double turn = 2. * M_PI / std::abs(g.kappa);
  while (s < -0.25 * (turn - g.length) - 1e-9) s += turn;
  return {s, radius - sign * rho, d.z};
}

bool inside(const std::vector<P2>& polygon, const P2& q) {
  bool in = false;
  for (size_t k = 0, l = polygon.size() - 1; k < polygon.size(); l = k++) {
    const P2 &a = polygon[k], &b = polygon[l];
    if ((a.y > q.y) != (b.y > q.y) && q.x < (b.x - a.x) * (q.y - a.y) / (b.y - a.y) + a.x) in = !in;
  }
  return in;
}

double area(const std::vector<P2>& p) {
  double r = 0.;
  for (size_t k = 0; k < p.size(); ++k) {
    const P2 &a = p[k], &b = p[(k + 1) % p.size()];
    r += 0.5 * (a.x * b.y - a.y * b.x);
  }
  return r;
}

std::vector<Flat> flatten(const GeoMesh& mesh, const LaneGeom& g, const V3& translation) {
  std::vector<Flat> out;
  for (const auto& face : mesh.faces()) {
    Flat f;
    for (const auto& v : face.vertices()) {
      const V3 p = of(mesh.get_vertex(v.vertex_index).v()) - translation;
      const V3 srh = srh_of(g, p);
      f.p.push_back(plane_of(g, p));
      f.h.push_back(srh.z);
      f.sr.push_back({srh.x, srh.y});
      V3 xs, xr, xh;
      g.axes(srh.x, &xs, &xr, &xh);
      f.normal_error.push_back(of(mesh.get_normal(v.normal_index).n()) - xh);
    }
    out.push_back(f);
  }
  return out;
}

int covers(const std::vector<Flat>& faces, const P2& at, double h) {
  int n = 0;
  for (const auto& f : faces) n += std::abs(f.h[0] - h) < 1e-7 && inside(f.p, at) ? 1 : 0;
  return n;
}

// Every face: at one of the heights, right way up.
void check_sheets(const std::vector<Flat>& faces, const std::vector<double>& heights, const std::string& what) {
  for (size_t k = 0; k < faces.size(); ++k) {
    const Flat& f = faces[k];
    CHECK(f.p.size() >= 3, "face-size", what << " face " << k);
    double want = heights[0];
    for (double h : heights) {
      if (std::abs(f.h[0] - h) < std::abs(f.h[0] - want)) want = h;
    }
    for (double h : f.h) CHECK(std::abs(h - want) < 1e-7, "face-height", what << " face " << k << " at " << h);
    for (const V3& e : f.normal_error) {
      CHECK(norm(e) < 1e-7, "face-normal", what << " face " << k << " off the lane's up by " << e);
    }
    CHECK(area(f.p) > -1e-9, "face-orientation", what << " face " << k << " area " << area(f.p));
  }
}

// How far the chords of a mesh of `g` are from the arcs, at the lateral
// position r. Stripes and arrows always follow the grid.
double sagitta(const LaneGeom& g, const ObjFeatures& f, double tolerance, double r, bool marks = false) {
  if (g.kappa == 0.) return 0.;
  double step = std::max(f.max_grid_unit, tolerance) + tolerance;
  if (f.off_grid_mesh_generation && !marks) step = 1.1 * std::cbrt(24. * tolerance / (g.kappa * g.kappa)) + tolerance;
  step = std::min(step, g.length);
  // Lines across the lane (at the bounds of one whose width changes) bend more.
  const double slope = 1. + std::max(std::abs(g.taper_min), std::abs(g.taper_max));
  return step * step * std::abs(g.kappa) * (1. + std::abs(g.kappa * r)) * slope * slope / 8.;
}

struct World {
  Road road;
  double tolerance;
  ObjFeatures features;
};

// Features which keep meshes small. `narrow`: the narrowest lane end.
ObjFeatures random_features(pbt::Src& src, double tolerance) {
  ObjFeatures f;
  f.max_grid_unit = src.pick(std::vector<double>{1., 0.7, 2., 5., 0.4});
  f.min_grid_resolution = src.pick(std::vector<double>{5., 1., 2., 3., 6., 4.5});
  f.draw_stripes = src.b(3, 4);
  f.draw_arrows = src.b(3, 4);
  f.draw_lane_haze = src.b(3, 4);
  f.draw_branch_points = src.b(3, 4);
  f.draw_elevation_bounds = src.b(3, 4);
  f.off_grid_mesh_generation = src.b(1, 3);
  f.simplify_mesh_threshold = src.pick(std::vector<double>{0., tolerance, 2. * tolerance, 1e-3});
  f.stripe_width = src.pick(std::vector<double>{0.25, 0.1, 0.5});
  f.stripe_elevation = src.pick(std::vector<double>{0.05, 0.125, 0.});
  f.arrow_elevation = src.pick(std::vector<double>{0.05, 0.25, 0.});
  f.lane_haze_elevation = src.pick(std::vector<double>{0.02, 0.3, 0.});
  f.branch_point_elevation = src.pick(std::vector<double>{0.5, 0., 2.});
  f.branch_point_height = src.pick(std::vector<double>{0.5, 1., 0.25});
  return f;
}

std::string describe(const ObjFeatures& f) {
  std::ostringstream os;
  os << "features: grid " << f.max_grid_unit << " resolution " << f.min_grid_resolution << " stripes " << f.draw_stripes
     << " arrows " << f.draw_arrows << " haze " << f.draw_lane_haze << " branch points " << f.draw_branch_points
     << " h bounds " << f.draw_elevation_bounds << " off-grid " << f.off_grid_mesh_generation << " simplify "
     << f.simplify_mesh_threshold << " stripe " << f.stripe_width << "@" << f.stripe_elevation << " arrow@"
     << f.arrow_elevation << " haze@" << f.lane_haze_elevation;
  return os.str();
}

V3 random_translation(pbt::Src& src) { return src.b(1, 2) ? V3{} : V3{src.sym(100.), src.sym(100.), src.sym(10.)}; }

// A road of one segment.
RoadSpec one_segment(pbt::Src& src) {
  RoadSpec spec;
  spec.linear_tolerance = src.pick(std::vector<double>{1e-2, 5e-2, 0.1, 1e-3});
  spec.translation = random_translation(src);
  SegmentSpec ss;
  ss.id = "s";
  LaneGeom ref;
  ref.origin = {src.sym(50.), src.sym(50.), src.sym(5.)};
  ref.heading = src.b() ? 0. : src.sym(M_PI);
  ref.h_min = src.b(1, 3) ? -src.real(0., 1.) : 0.;
  ref.h_max = src.real(0., 5.);
  // The upper elevation bound may rise along and across lanes.
  if (src.b(1, 4)) {
    ref.h_max += 0.5;
    ref.h_rise_s = src.real(0., 0.2);
    ref.h_rise_r = src.b(1, 3) ? 0. : src.real(0.05, 0.5);
  }
  const int kind = static_cast<int>(src.weighted({3, 2, 3}));
  if (kind == 2) {  // One lane of changing width.
    ref.length = src.pick(std::vector<double>{8., 4., 2.});
    const auto width = [&]() { return src.pick(std::vector<double>{1.5, 0., 2., 0.75, 3.}); };
    const double a0 = width(), a1 = width(), b0 = width(), b1 = width();
    ref.r_max = a0;
    ref.taper_max = (a1 - a0) / ref.length;
    ref.r_min = -b0;
    ref.taper_min = -(b1 - b0) / ref.length;
    if (std::max(a0 + b0, a1 + b1) == 0.) ref.r_max = 1., ref.taper_max = 0.;
    ref.seg_min = ref.r_min;
    ref.seg_max = ref.r_max;
    if (std::min(a0 + b0, a1 + b1) < 0.5) spec.linear_tolerance = 0.1;  // Else the grid gets too fine.
    if (src.b(1, 3)) {
      ref.slope = src.sym(0.4);
      ref.roll = src.sym(0.4);
    } else if (src.b(1, 3)) {
      ref.kappa = (src.b() ? 1. : -1.) / src.real(8., 30.);
    }
    ss.lanes.push_back({"l0", ref});
  } else {
    ref.length = src.b() ? src.real(1., 10.) : static_cast<double>(src.i(1, 10));
    const int lanes = static_cast<int>(src.i(1, 3));
    std::vector<double> widths;
    double total = 0.;
    for (int l = 0; l < lanes; ++l) {
      widths.push_back(src.real(0.8, 4.));
      total += widths.back();
    }
    const double right = -total * src.real(0., 1.);
    if (kind == 1) {
      const double radius = total + src.real(3., 30.);
      ref.kappa = (src.b() ? 1. : -1.) / radius;
      ref.length = std::min(ref.length, radius * 4.);
    } else if (src.b()) {
      ref.slope = src.sym(0.4);
      ref.roll = src.sym(0.4);
    }
    int l = 0;
    for (const LaneGeom& g : MakeStrip(ref, widths, right)) ss.lanes.push_back({"l" + std::to_string(l++), g});
  }
  // The centre line need not be in the middle: move it sideways in straight
  // lanes.
  if (ref.kappa == 0. && src.b(1, 3)) {
    for (auto& l : ss.lanes) {
      LaneGeom& g = l.geom;
      if (g.taper_min != 0. || g.taper_max != 0.) continue;
      const double shift = src.b() ? g.r_max : src.real(g.r_min, g.r_max);
      V3 xs, xr, xh;
      g.axes(0., &xs, &xr, &xh);
      g.origin = g.origin + shift * xr;
      g.r_min -= shift;
      g.r_max -= shift;
      g.seg_min -= shift;
      g.seg_max -= shift;
      // Sides narrower than rounding errors of positions are not judged.
      for (double* bound : {&g.r_max, &g.seg_max}) *bound = *bound < 1e-6 ? 0. : *bound;
      for (double* bound : {&g.r_min, &g.seg_min}) *bound = *bound > -1e-6 ? 0. : *bound;
    }
  }
  spec.junctions.push_back({"j", {ss}});
  return spec;
}

// A place to look at, in lane coordinates, and whether it lies inside, clearly.
struct Place {
  double s, r;
  bool in;
};

// Inside and outside of the area s in [s0, s1], r in [lo(s), hi(s)], at least
// `margin` from its border.
template <typename Lo, typename Hi>
std::vector<Place> places(pbt::Src& src, double s0, double s1, Lo lo, Hi hi, double margin_s, double margin_r,
                          double out_r, int n) {
  std::vector<Place> v;
  for (int k = 0; k < n; ++k) {
    const int kind = static_cast<int>(src.weighted({4, 2, 1, 1}));
    const double s = src.fine(s0 + margin_s, s1 - margin_s);
    if (kind == 0 || kind == 1) {
      if (s1 - s0 < 2. * margin_s) continue;
      const double a = lo(s) + margin_r, b = hi(s) - margin_r;
      if (b <= a) continue;
      const double t = kind == 0 ? src.fine(0., 1.) : src.b() ? 0.001 : 0.999;
      v.push_back({s, a + t * (b - a), true});
    } else if (kind == 2) {
      if (s1 - s0 < 2. * margin_s) continue;
      const double off = out_r + src.pick(std::vector<double>{1e-4, 0.05, 0.5});
      v.push_back({s, src.b() ? hi(s) + off : lo(s) - off, false});
    } else {
      const double off = margin_s + src.pick(std::vector<double>{1e-4, 0.05});
      const bool start = src.b();
      const double at = start ? s0 - off : s1 + off;
      const double a = lo(start ? s0 : s1), b = hi(start ? s0 : s1);
      v.push_back({at, src.fine(a, b), false});
    }
  }
  return v;
}

// Elevation bounds which rise: every face lies on one of the two surfaces.
void check_risen(const std::vector<Flat>& faces, const LaneGeom& g, const std::string& what) {
  bool low = false, high = false;
  for (size_t k = 0; k < faces.size(); ++k) {
    const Flat& f = faces[k];
    bool on_low = true, on_high = true;
    for (size_t v = 0; v < f.h.size(); ++v) {
      on_low = on_low && std::abs(f.h[v] - g.h_min) < 1e-6;
      on_high = on_high && std::abs(f.h[v] - g.hmax(f.sr[v].first, f.sr[v].second)) < 1e-6;
    }
    low = low || on_low;
    high = high || on_high;
    CHECK(on_low || on_high, "face-height",
          what << " face " << k << " at s " << f.sr[0].first << " r " << f.sr[0].second << " h " << f.h[0]);
    CHECK(area(f.p) > -1e-9, "face-orientation", what << " face " << k << " area " << area(f.p));
  }
  CHECK(low && high, "face-height", what << " are drawn below: " << low << ", above: " << high);
  pbt::label("risen bounds");
}

void check_cover(const std::vector<Flat>& faces, const LaneGeom& g, const std::vector<Place>& at, double h, int times,
                 const std::string& what) {
  for (const auto& p : at) {
    const int n = covers(faces, plane_of(g, g.to_xyz({p.s, p.r, h})), h);
    CHECK(n == (p.in ? times : 0), p.in ? "covered" : "not-outside",
          what << ": at s " << p.s << " r " << p.r << " h " << h << " covered by " << n << " faces, want "
               << (p.in ? times : 0));
  }
}

// The extent of the faces in s and r.
void check_grid(const std::vector<Flat>& faces, double max_s, double max_r, const std::string& what) {
  for (const auto& f : faces) {
    double s0 = f.sr[0].first, s1 = s0, r0 = f.sr[0].second, r1 = r0;
    for (const auto& x : f.sr) {
      s0 = std::min(s0, x.first), s1 = std::max(s1, x.first);
      r0 = std::min(r0, x.second), r1 = std::max(r1, x.second);
    }
    CHECK(s1 - s0 <= max_s + 1e-7, "grid-s", what << " face of " << s1 - s0 << " along s, at most " << max_s);
    CHECK(r1 - r0 <= max_r + 1e-7, "grid-r", what << " face of " << r1 - r0 << " along r, at most " << max_r);
  }
}

const std::set<std::string> kKeys{"asphalt",        "lane",        "marker",        "h_bounds", "branch_point",
                                  "grayed_asphalt", "grayed_lane", "grayed_marker", "sidewalk"};
const std::map<std::string, std::string> kMaterialOf{{"asphalt", "bland_asphalt"},
                                                     {"lane", "lane_haze"},
                                                     {"marker", "marker_paint"},
                                                     {"h_bounds", "h_bounds_haze"},
                                                     {"branch_point", "branch_point_glow"},
                                                     {"grayed_asphalt", "grayed_bland_asphalt"},
                                                     {"grayed_lane", "grayed_lane_haze"},
                                                     {"grayed_marker", "grayed_marker_paint"},
                                                     {"sidewalk", "sidewalk"}};

void check_keys(const Meshes& meshes) {
  std::set<std::string> keys;
  for (const auto& m : meshes) {
    keys.insert(m.first);
    CHECK(m.second.second.name == kMaterialOf.at(m.first), "material", m.first << " is of " << m.second.second.name);
    CHECK(GetMaterialByName(m.second.second.name).name == m.second.second.name, "material-by-name", m.first);
  }
  CHECK(keys == kKeys, "mesh-keys", keys.size());
}

// The lane's marks: stripes along its bounds, arrows at its ends.
void check_marks(pbt::Src& src, const GeoMesh& mesh, const LaneGeom& g, const V3& translation, const ObjFeatures& f,
                 double tolerance, const std::string& what) {
  const auto faces = flatten(mesh, g, translation);
  if (!f.draw_stripes && !f.draw_arrows) {
    CHECK(faces.empty(), "marks-disabled", what);
    return;
  }
  std::vector<double> heights;
  if (f.draw_stripes) heights.push_back(f.stripe_elevation);
  if (f.draw_arrows) heights.push_back(f.arrow_elevation);
  check_sheets(faces, heights, what);
  const double half = 0.5 * f.stripe_width;
  const double w0 = g.rmax(0.) - g.rmin(0.), w1 = g.rmax(g.length) - g.rmin(g.length);
  // Arrows: their bases (s, half widths) and their tips.
  struct Arrow {
    double s, size, left, right;
  };
  std::vector<Arrow> arrows;
  if (f.draw_arrows) {
    const double sizes[2] = {std::min(0.3 * g.length, w0), std::min(0.3 * g.length, w1)};
    for (int e = 0; e < 2; ++e) {
      if (sizes[e] + tolerance >= g.length || sizes[e] <= tolerance) continue;
      const double s = e == 0 ? tolerance : g.length - sizes[e] - tolerance;
      arrows.push_back({s, sizes[e], 0.8 * g.rmax(s), 0.8 * g.rmin(s)});
    }
  }
  const double slope = std::max(std::abs(g.taper_min), std::abs(g.taper_max));
  int looked = 0;
  for (int k = 0; k < 24; ++k) {
    const double s = src.fine(0., g.length);
    double r;
    switch (src.weighted({2, 2, 2})) {
      case 0:
        r = g.rmax(s) + src.sym(1.4 * half);
        break;
      case 1:
        r = g.rmin(s) + src.sym(1.4 * half);
        break;
      default:
        r = src.fine(g.rmin(s), g.rmax(s));
    }
    const double margin =
        1e-6 + 3. * f.simplify_mesh_threshold * (1. + slope) + 1.2 * sagitta(g, f, tolerance, std::abs(r) + half, true);
    if (s < margin || s > g.length - margin) continue;
    std::map<double, int> want;
    bool unclear = false;
    want[f.stripe_elevation] = 0;
    want[f.arrow_elevation] = 0;
    if (f.draw_stripes) {
      for (double bound : {g.rmin(s), g.rmax(s)}) {
        const double d = std::abs(r - bound);
        if (std::abs(d - half) < margin) unclear = true;
        if (d < half) ++want[f.stripe_elevation];
      }
    }
    for (const auto& a : arrows) {
      const double t = (s - a.s) / a.size;
      // Distances to the sides are compared with the margin stretched by how
      // acute the sides are.
      const double m = margin * (1. + (std::max(a.left, -a.right) / a.size));
      if (std::abs(s - a.s) < margin || std::abs(s - a.s - a.size) < margin) unclear = true;
      if (t < 0. || t > 1.) continue;
      if (std::abs(r - a.left * (1. - t)) < m || std::abs(r - a.right * (1. - t)) < m) unclear = true;
      if (r < a.left * (1. - t) && r > a.right * (1. - t)) ++want[f.arrow_elevation];
    }
    if (unclear) continue;
    ++looked;
    for (const auto& w : want) {
      const int n = covers(faces, plane_of(g, g.to_xyz({s, r, w.first})), w.first);
      CHECK(n == w.second, "marks",
            what << ": at s " << s << " r " << r << " h " << w.first << " covered by " << n << " want " << w.second);
    }
  }
  pbt::label("mark places", looked);
}

using Faces = std::vector<std::vector<std::pair<V3, V3>>>;

Faces faces_of(const GeoMesh& mesh) {
  Faces r;
  for (const auto& f : mesh.faces()) {
    r.emplace_back();
    for (const auto& v : f.vertices()) {
      r.back().push_back({of(mesh.get_vertex(v.vertex_index).v()), of(mesh.get_normal(v.normal_index).n())});
    }
  }
  return r;
}

bool operator==(const V3& a, const V3& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }

bool same(const Faces& a, const Faces& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k) {
    if (a[k].size() != b[k].size()) return false;
    for (size_t v = 0; v < a[k].size(); ++v) {
      if (!(a[k][v].first == b[k][v].first) || !(a[k][v].second == b[k][v].second)) return false;
    }
  }
  return true;
}

PROBE(P26, one_segment, 800, 9000) {
  RoadSpec spec = one_segment(src);
  ObjFeatures f = random_features(src, spec.linear_tolerance);
  const double tolerance = spec.linear_tolerance;
  // Keep meshes small.
  NOTE(Describe(spec) << "; tolerance " << tolerance << "; " << describe(f));
  const Road road = Build(spec);
  const auto& lanes = spec.junctions[0].segments[0].lanes;
  const LaneGeom& g0 = lanes[0].geom;
  const V3& tl = spec.translation;
  double coarse = g0.length;
  for (const auto& l : lanes) {
    const LaneGeom& g = l.geom;
    double unit = f.max_grid_unit;
    for (double w : {g.rmax(0.) - g.rmin(0.), g.rmax(g.length) - g.rmin(g.length), g.length}) {
      unit = std::min(unit, std::max(w, tolerance) / f.min_grid_resolution);
    }
    coarse = std::min(coarse, std::max(unit, tolerance));
  }
  const double extent = g0.length * std::max(g0.seg_max - g0.seg_min, g0.smax(g0.length) - g0.smin(g0.length));
  if (extent / coarse / coarse > 3000.) return;

  const Meshes meshes = BuildMeshes(road.rg.get(), f);
  check_keys(meshes);
  for (const char* empty : {"grayed_asphalt", "grayed_lane", "grayed_marker", "sidewalk"}) {
    CHECK(meshes.at(empty).first.faces().empty(), "highlight", empty << " without highlighted segments");
  }

  const auto margin = [&](const LaneGeom& g, double r) {
    return 1e-6 + 3. * f.simplify_mesh_threshold * (1. + std::max(std::abs(g.taper_min), std::abs(g.taper_max))) +
           1.2 * sagitta(g, f, tolerance, r);
  };
  const double ms = 1e-6 + 3. * f.simplify_mesh_threshold;
  const auto whole = [&](const LaneGeom& g, bool segment, int n) {
    const double reach =
        std::max({std::abs(g.seg_min), std::abs(g.seg_max), std::abs(g.smin(g.length)), std::abs(g.smax(g.length))});
    const double m = margin(g, reach);
    return places(
        src, 0., g.length, [&](double s) { return segment ? g.smin(s) : g.rmin(s); },
        [&](double s) { return segment ? g.smax(s) : g.rmax(s); }, ms, m, m, n);
  };
  std::vector<double> want_grid{g0.length};
  double max_s = std::min(f.max_grid_unit, std::max(g0.length, tolerance) / f.min_grid_resolution);
  for (double w : {g0.rmax(0.) - g0.rmin(0.), g0.rmax(g0.length) - g0.rmin(g0.length)}) {
    max_s = std::min(max_s, std::max(w, tolerance) / f.min_grid_resolution);
  }
  const double unit = std::max(max_s, tolerance);

  // Asphalt: the segment's surface.
  const auto asphalt = flatten(meshes.at("asphalt").first, g0, tl);
  check_sheets(asphalt, {0.}, "asphalt");
  const auto looked = whole(g0, true, 16);
  check_cover(asphalt, g0, looked, 0., 1, "asphalt");
  if (looked.size() >= 4) pbt::nontrivial();
  if (f.simplify_mesh_threshold == 0. && !f.off_grid_mesh_generation) {
    // A face of a lane whose width changes reaches as much further sideways.
    const double slope = std::max(std::abs(g0.taper_min), std::abs(g0.taper_max));
    check_grid(asphalt, unit + tolerance, (1. + slope) * (unit + tolerance), "asphalt");
  }
  pbt::label("asphalt faces", asphalt.size());
  const auto segment = BuildMesh(road.rg.get(), f, api::SegmentId("s"), MaterialType::Asphalt);
  check_cover(flatten(segment.first, g0, tl), g0, whole(g0, true, 6), 0., 1, "segment mesh");
  CHECK(segment.second.name == "bland_asphalt", "material", "segment mesh");
  const auto gray_segment = BuildMesh(road.rg.get(), f, api::SegmentId("s"), MaterialType::GrayedAsphalt);
  CHECK(same(faces_of(gray_segment.first), faces_of(segment.first)), "grayed-mesh", "segment");
  CHECK(gray_segment.second.name == "grayed_bland_asphalt", "material", "grayed segment mesh");

  // Elevation bounds.
  const auto bounds = flatten(meshes.at("h_bounds").first, g0, tl);
  if (!f.draw_elevation_bounds) {
    CHECK(bounds.empty(), "h-bounds-disabled", "");
  } else if (g0.h_rise_s != 0. || g0.h_rise_r != 0.) {
    check_risen(bounds, g0, "h_bounds");
  } else {
    check_sheets(bounds, {g0.h_min, g0.h_max}, "h_bounds");
    const bool equal = std::abs(g0.h_min - g0.h_max) < 1e-6;
    if (equal || std::abs(g0.h_min - g0.h_max) > 1e-3) {
      for (double h : {g0.h_min, g0.h_max}) check_cover(bounds, g0, whole(g0, true, 6), h, equal ? 2 : 1, "h_bounds");
    }
  }

  // Haze: each lane's surface.
  const GeoMesh& haze_mesh = meshes.at("lane").first;
  if (!f.draw_lane_haze) CHECK(haze_mesh.faces().empty(), "haze-disabled", "");
  const RoadGeometryMesh all = BuildRoadGeometryMesh(road.rg.get(), f);
  CHECK(all.lane_lane_mesh.size() == lanes.size() && all.lane_marker_mesh.size() == lanes.size(), "lane-mesh-count",
        all.lane_lane_mesh.size());
  CHECK(all.lane_grayed_lane_mesh.empty() && all.lane_grayed_marker_mesh.empty(), "highlight", "grayed lanes");
  CHECK(all.asphalt_mesh.size() == 1 && all.asphalt_mesh.count("asphalt") == 1, "mesh-keys", "asphalt");
  check_cover(flatten(all.asphalt_mesh.at("asphalt").first, g0, tl), g0, whole(g0, true, 4), 0., 1, "asphalt mesh");
  for (const auto& l : lanes) {
    const LaneGeom& g = l.geom;
    const auto own = BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::Lane);
    const auto& in_all = all.lane_lane_mesh.at("lane_" + l.id);
    CHECK(own.second.name == "lane_haze" && in_all.second.name == "lane_haze", "material", l.id);
    const auto haze = flatten(haze_mesh, g, tl);
    if (f.draw_lane_haze) {
      check_sheets(haze, {f.lane_haze_elevation}, "haze");
      std::vector<Place> in;
      for (const auto& p : whole(g, false, 10)) {
        // The neighbours' surfaces are in the same mesh.
        if (p.in) in.push_back(p);
      }
      check_cover(haze, g, in, f.lane_haze_elevation, 1, "haze of " + l.id);
      for (const auto* m : {&own.first, &in_all.first}) {
        const auto faces = flatten(*m, g, tl);
        check_sheets(faces, {f.lane_haze_elevation}, "haze of " + l.id);
        check_cover(faces, g, whole(g, false, 6), f.lane_haze_elevation, 1, "own haze of " + l.id);
      }
    } else {
      CHECK(own.first.faces().empty() && in_all.first.faces().empty(), "haze-disabled", l.id);
    }
    const auto lane_asphalt = BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::Asphalt);
    check_cover(flatten(lane_asphalt.first, g, tl), g, whole(g, false, 6), 0., 1, "asphalt of " + l.id);
    const auto lane_bounds = BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::HBounds);
    if (f.draw_elevation_bounds && (g.h_rise_s != 0. || g.h_rise_r != 0.)) {
      check_risen(flatten(lane_bounds.first, g, tl), g, "bounds of " + l.id);
    } else if (f.draw_elevation_bounds) {
      const bool equal = std::abs(g.h_min - g.h_max) < 1e-6;
      if (equal || std::abs(g.h_min - g.h_max) > 1e-3) {
        for (double h : {g.h_min, g.h_max}) {
          check_cover(flatten(lane_bounds.first, g, tl), g, whole(g, false, 4), h, equal ? 2 : 1, "bounds of " + l.id);
        }
      }
    } else {
      CHECK(lane_bounds.first.faces().empty(), "h-bounds-disabled", l.id);
    }
    const auto marks = BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::Marker);
    check_marks(src, marks.first, g, tl, f, tolerance, "marks of " + l.id);
    check_marks(src, all.lane_marker_mesh.at("marker_" + l.id).first, g, tl, f, tolerance, "marker_" + l.id);
    if (lanes.size() == 1) check_marks(src, meshes.at("marker").first, g, tl, f, tolerance, "marker");
    MUST_THROW("lane-material", BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::BranchPointGlow), l.id);
    // Grayed meshes are of another material only.
    const auto gray_asphalt = BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::GrayedAsphalt);
    const auto gray_haze = BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::GrayedLane);
    const auto gray_marks = BuildMesh(road.rg.get(), f, api::LaneId(l.id), MaterialType::GrayedMarker);
    CHECK(same(faces_of(gray_asphalt.first), faces_of(lane_asphalt.first)) &&
              same(faces_of(gray_haze.first), faces_of(own.first)) &&
              same(faces_of(gray_marks.first), faces_of(marks.first)),
          "grayed-mesh", l.id);
    CHECK(gray_asphalt.second.name == "grayed_bland_asphalt" && gray_haze.second.name == "grayed_lane_haze" &&
              gray_marks.second.name == "grayed_marker_paint",
          "material",
          l.id << " " << gray_asphalt.second.name << " " << gray_haze.second.name << " " << gray_marks.second.name);
  }
  MUST_THROW(
      "segment-material",
      BuildMesh(road.rg.get(), f, api::SegmentId("s"),
                src.pick(std::vector<MaterialType>{MaterialType::Lane, MaterialType::Marker, MaterialType::HBounds,
                                                   MaterialType::BranchPointGlow, MaterialType::GrayedLane,
                                                   MaterialType::GrayedMarker, MaterialType::Sidewalk})),
      "");
}

// ---------------------------------------------------------------------------------------------------------------------
// Several segments
// ---------------------------------------------------------------------------------------------------------------------

void append(Faces* to, const Faces& from) { to->insert(to->end(), from.begin(), from.end()); }

ObjFeatures coarse_features(pbt::Src& src, double tolerance) {
  ObjFeatures f = random_features(src, tolerance);
  f.max_grid_unit = src.pick(std::vector<double>{2., 5., 10.});
  f.min_grid_resolution = src.pick(std::vector<double>{1., 2., 3.});
  return f;
}

// The meshes of a road are those of its segments, each grouped as highlighted
// or grayed.
PROBE(P26, segments_and_highlights, 250, 3000) {
  RoadSpec spec = src.b() ? ScatteredRoad(src, 30., 4, 2) : ConnectedRoad(src, {3, 2, true, true, true, false});
  spec.linear_tolerance = 0.05;
  spec.translation = random_translation(src);
  ObjFeatures f = coarse_features(src, spec.linear_tolerance);
  std::set<std::string> highlighted;
  int segments = 0;
  for (const auto& j : spec.junctions) {
    for (const auto& s : j.segments) {
      ++segments;
      if (src.b(1, 3)) highlighted.insert(s.id);
    }
  }
  if (src.b(1, 3)) highlighted.clear();
  for (const auto& h : highlighted) f.highlighted_segments.push_back(api::SegmentId(h));
  src.shuffle(&f.highlighted_segments);
  if (src.b(1, 8)) f.highlighted_segments.push_back(api::SegmentId("no such segment"));
  NOTE(Describe(spec) << "; " << describe(f) << "; highlighted " << f.highlighted_segments.size());
  const Road road = Build(spec);
  const Meshes meshes = BuildMeshes(road.rg.get(), f);
  check_keys(meshes);
  const RoadGeometryMesh all = BuildRoadGeometryMesh(road.rg.get(), f);
  if (segments >= 2) pbt::nontrivial();
  if (!f.highlighted_segments.empty()) pbt::label("with highlights");

  std::map<std::string, Faces> want;
  size_t normal_lanes = 0, grayed_lanes = 0;
  ObjFeatures plain = f;
  plain.highlighted_segments.clear();
  plain.draw_branch_points = false;
  for (const auto& j : spec.junctions) {
    for (const auto& s : j.segments) {
      RoadSpec alone = spec;
      alone.junctions = {{"j", {s}}};
      alone.branch_points.clear();
      alone.defaults.clear();
      for (auto& l : alone.junctions[0].segments[0].lanes) l.start_bp = l.finish_bp = -1;
      const Road one = Build(alone);
      const Meshes m = BuildMeshes(one.rg.get(), plain);
      const bool normal = f.highlighted_segments.empty() || highlighted.count(s.id) > 0;
      const std::string gray = normal ? "" : "grayed_";
      append(&want[gray + "asphalt"], faces_of(m.at("asphalt").first));
      append(&want[gray + "lane"], faces_of(m.at("lane").first));
      append(&want[gray + "marker"], faces_of(m.at("marker").first));
      append(&want["h_bounds"], faces_of(m.at("h_bounds").first));
      const auto& lane_meshes = normal ? all.lane_lane_mesh : all.lane_grayed_lane_mesh;
      const auto& mark_meshes = normal ? all.lane_marker_mesh : all.lane_grayed_marker_mesh;
      (normal ? normal_lanes : grayed_lanes) += s.lanes.size();
      for (const auto& l : s.lanes) {
        const auto lane = lane_meshes.find(gray + "lane_" + l.id);
        const auto mark = mark_meshes.find(gray + "marker_" + l.id);
        CHECK(lane != lane_meshes.end() && mark != mark_meshes.end(), "lane-mesh-missing", l.id);
        CHECK(lane->second.second.name == gray + "lane_haze", "material", l.id << " " << lane->second.second.name);
        CHECK(mark->second.second.name == gray + "marker_paint", "material", l.id << " " << mark->second.second.name);
        CHECK(same(faces_of(lane->second.first),
                   faces_of(BuildMesh(one.rg.get(), plain, api::LaneId(l.id), MaterialType::Lane).first)),
              "lane-mesh", l.id);
        CHECK(same(faces_of(mark->second.first),
                   faces_of(BuildMesh(one.rg.get(), plain, api::LaneId(l.id), MaterialType::Marker).first)),
              "lane-marker-mesh", l.id);
      }
    }
  }
  CHECK(all.lane_lane_mesh.size() == normal_lanes && all.lane_grayed_lane_mesh.size() == grayed_lanes,
        "lane-mesh-count", all.lane_lane_mesh.size() << " " << all.lane_grayed_lane_mesh.size());
  for (const auto& key : kKeys) {
    if (key == "branch_point") continue;
    CHECK(same(faces_of(meshes.at(key).first), want[key]), "grouping",
          key << " has " << meshes.at(key).first.faces().size() << " faces, want " << want[key].size());
  }
  CHECK(same(faces_of(all.asphalt_mesh.at("asphalt").first), want["asphalt"]), "grouping", "asphalt mesh");
  CHECK(same(faces_of(all.grayed_asphalt_mesh.at("grayed_asphalt").first), want["grayed_asphalt"]), "grouping",
        "grayed asphalt mesh");
  CHECK(same(faces_of(all.hbounds_mesh.at("h_bounds").first), want["h_bounds"]), "grouping", "h_bounds mesh");
}

// ---------------------------------------------------------------------------------------------------------------------
// Branch points
// ---------------------------------------------------------------------------------------------------------------------

PROBE(P26, branch_points, 400, 5000) {
  RoadSpec spec = ConnectedRoad(src, {4, 3, true, true, true, false});
  spec.linear_tolerance = 0.05;
  spec.translation = random_translation(src);
  ObjFeatures f;
  f.draw_stripes = f.draw_arrows = f.draw_lane_haze = f.draw_elevation_bounds = false;
  f.max_grid_unit = 100.;
  f.min_grid_resolution = 1.;
  f.off_grid_mesh_generation = true;
  f.branch_point_elevation = src.pick(std::vector<double>{0.5, 0., 2.});
  f.branch_point_height = src.pick(std::vector<double>{0.5, 1., 0.25});
  f.draw_branch_points = src.b(7, 8);
  NOTE(Describe(spec) << "; elevation " << f.branch_point_elevation << " height " << f.branch_point_height);
  const Road road = Build(spec);
  const api::RoadGeometry* rg = road.rg.get();
  const Meshes meshes = BuildMeshes(rg, f);
  const Faces faces = faces_of(meshes.at("branch_point").first);
  const RoadGeometryMesh all = BuildRoadGeometryMesh(rg, f);
  if (!f.draw_branch_points) {
    CHECK(faces.empty() && all.branch_point_mesh.empty(), "branch-points-disabled", faces.size());
    return;
  }
  if (rg->num_branch_points() >= 2) pbt::nontrivial();
  CHECK(static_cast<int>(all.branch_point_mesh.size()) == rg->num_branch_points(), "branch-point-count",
        all.branch_point_mesh.size());
  size_t at = 0;
  std::vector<V3> centers;
  int raised = 0;
  for (int b = 0; b < rg->num_branch_points(); ++b) {
    const api::BranchPoint* bp = rg->branch_point(b);
    std::vector<api::LaneEnd> ends;
    for (const auto* set : {bp->GetASide(), bp->GetBSide()}) {
      for (int k = 0; k < set->size(); ++k) ends.push_back(set->get(k));
    }
    const std::string what = bp->id().string();
    const auto own = all.branch_point_mesh.find("branch_point_" + what);
    CHECK(own != all.branch_point_mesh.end(), "branch-point-key", what);
    const Faces alone = faces_of(own->second.first);
    CHECK(own->second.second.name == "branch_point_glow", "material", what);
    CHECK(alone.size() == 1 + 2 * ends.size(), "branch-point-faces", what << " has " << alone.size());
    CHECK(at + alone.size() <= faces.size(), "branch-point-faces", "faces end before " << what);
    const LaneGeom& g = road.geom(ends[0].lane);
    const double s = ends[0].end == api::LaneEnd::kStart ? 0. : g.length;
    const double width = g.rmax(s) - g.rmin(s);
    V3 xs, xr, xh;
    g.axes(s, &xs, &xr, &xh);
    // The elevation: base, or raised in steps of the height until nothing is in
    // the way.
    double elevation = f.branch_point_elevation;
    V3 center;
    bool unclear = false;
    while (true) {
      center = g.to_xyz({s, 0., elevation});
      bool conflict = false;
      for (const V3& c : centers) {
        const V3 d = c - center;
        const double flat = std::hypot(dot(d, xs), dot(d, xr));
        const double up = std::abs(dot(d, xh));
        if (std::abs(flat - width) < 1e-9 || std::abs(up - f.branch_point_height) < 1e-9) unclear = true;
        if (flat < width && up < f.branch_point_height) conflict = true;
      }
      if (!conflict) break;
      elevation += f.branch_point_height;
      ++raised;
    }
    if (unclear) {  // Read the elevation off the picture.
      V3 c{};
      for (const auto& v : faces[at]) c = c + 0.25 * (v.first - spec.translation);
      elevation = srh_of(g, c).z;
      const double k = (elevation - f.branch_point_elevation) / f.branch_point_height;
      CHECK(std::abs(k - std::round(k)) < 1e-6 && k > -0.5, "branch-point-elevation", what << " " << elevation);
      center = g.to_xyz({s, 0., elevation});
    }
    centers.push_back(center);
    // The diamond stands across the reference lane end, its arrows lie along
    // the lanes; both for the mesh of the whole road and for the branch point's
    // own one (which is not raised).
    for (int which = 0; which < 2; ++which) {
      const Faces& got = which == 0 ? faces : alone;
      const size_t from = which == 0 ? at : 0;
      const double e = which == 0 ? elevation : f.branch_point_elevation;
      const double h = f.branch_point_height;
      const auto srh = [&](size_t face, size_t v, const LaneGeom& lane) {
        return srh_of(lane, got[face][v].first - spec.translation);
      };
      V3 c{};
      for (size_t v = 0; v < 4; ++v) {
        CHECK(got[from].size() == 4, "diamond-size", what);
        const V3 q = srh(from, v, g);
        const double ds = g.kappa == 0. ? q.x - s : std::remainder(q.x - s, 2. * M_PI / std::abs(g.kappa));
        CHECK(std::abs(ds) < 1e-6, "diamond-place", what << " s " << q.x << " want " << s);
        CHECK(std::abs(q.y) < 0.5 * width, "diamond-width", what << " r " << q.y);
        CHECK(std::abs(q.z - e) < 0.5 * h + 1e-6, "diamond-height", what << " h " << q.z << " about " << e);
        c = c + 0.25 * q;
      }
      CHECK(std::abs(c.y) < 1e-6 && std::abs(c.z - e) < 1e-6, "diamond-center", what << " " << c << " want h " << e);
      for (size_t k = 0; k < ends.size(); ++k) {
        const LaneGeom& lane = road.geom(ends[k].lane);
        const bool start = ends[k].end == api::LaneEnd::kStart;
        const double end_s = start ? 0. : lane.length;
        const double lane_width = lane.rmax(end_s) - lane.rmin(end_s);
        for (int quad = 0; quad < 2; ++quad) {
          const size_t face = from + 1 + 2 * k + quad;
          CHECK(got[face].size() == 4, "arrow-size", what);
          int at_end = 0, within = 0;
          V3 mean{};
          for (size_t v = 0; v < 4; ++v) {
            const V3 q = srh(face, v, lane);
            double in = start ? q.x - end_s : end_s - q.x;
            if (lane.kappa != 0.) in = std::remainder(in, 2. * M_PI / std::abs(lane.kappa));
            if (std::abs(in) < 1e-6) ++at_end;
            if (in > 1e-6 && in < std::min(0.5 * lane.length, 1.01 * lane_width)) ++within;
            mean = mean + 0.25 * q;
            CHECK(std::abs(q.y) < 0.5 * lane_width, "arrow-width", what << " r " << q.y);
            CHECK(std::abs(q.z - e) < 0.5 * h + 1e-6, "arrow-height", what << " h " << q.z << " about " << e);
            if (quad == 0) CHECK(std::abs(q.z - e) < 1e-6, "arrow-flat", what << " h " << q.z << " want " << e);
            if (quad == 1) CHECK(std::abs(q.y) < 1e-6, "arrow-upright", what << " r " << q.y);
          }
          CHECK(at_end == 2 && within == 2, "arrow-direction",
                what << " end " << k << " of lane " << ends[k].lane->id().string() << ": " << at_end << " at the end, "
                     << within << " into the lane");
          CHECK(std::abs(mean.y) < 1e-6 && std::abs(mean.z - e) < 1e-6, "arrow-center", what << " " << mean);
        }
      }
    }
    at += alone.size();
    MUST_THROW("branch-point-material", BuildMesh(rg, f, bp->id(), MaterialType::Lane), what);
  }
  CHECK(at == faces.size(), "branch-point-faces", faces.size() << " want " << at);
  if (raised > 0) pbt::label("raised branch points", raised);
}

// ---------------------------------------------------------------------------------------------------------------------
// Files
// ---------------------------------------------------------------------------------------------------------------------

struct Scratch {
  Scratch() {
    char t[] = "/tmp/verif_obj_XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    root = t;
  }
  ~Scratch() {
    std::error_code ec;
    std::filesystem::remove_all(root, ec);
  }
  std::string root;
};

std::string slurp(const std::string& path) {
  std::ifstream is(path);
  CHECK(is.good(), "file-missing", path);
  std::ostringstream os;
  os << is.rdbuf();
  return os.str();
}

PROBE(P26, files, 150, 2000) {
  RoadSpec spec = src.b() ? ScatteredRoad(src, 20., 3, 2) : ConnectedRoad(src, {3, 2, true, true, true, false});
  spec.id = src.pick(std::vector<std::string>{"rg", "my road", "a-b_c.1"});
  spec.linear_tolerance = src.pick(std::vector<double>{0.05, 0.1, 0.02, 0.3});
  spec.translation = random_translation(src);
  ObjFeatures f = coarse_features(src, spec.linear_tolerance);
  f.off_grid_mesh_generation = false;
  f.max_grid_unit = 5.;
  f.origin =
      src.b() ? api::InertialPosition(0., 0., 0.) : api::InertialPosition(src.sym(100.), src.sym(100.), src.sym(10.));
  for (const auto& j : spec.junctions) {
    for (const auto& s : j.segments) {
      if (src.b(1, 4)) f.highlighted_segments.push_back(api::SegmentId(s.id));
    }
  }
  NOTE(Describe(spec) << "; tolerance " << spec.linear_tolerance << "; " << describe(f));
  Road road = Build(spec);
  const maliput::api::RoadGeometry* rg = road.rg.get();
  const bool of_network = src.b(1, 3);
  std::unique_ptr<maliput::api::RoadNetwork> network;
  if (of_network) {
    network = MakeNetwork(&road);
    pbt::label("of a network");
  }
  const Meshes meshes = of_network ? BuildMeshes(network.get(), f) : BuildMeshes(rg, f);
  pbt::nontrivial();
  Scratch scratch;
  const std::string root = src.pick(std::vector<std::string>{"road", "a.b", "x y"});
  const bool urdf = src.b();
  if (urdf) {
    maliput::utility::GenerateUrdfFile(rg, scratch.root, root, f);
  } else if (of_network) {
    maliput::utility::GenerateObjFile(network.get(), scratch.root, root, f);
  } else {
    maliput::utility::GenerateObjFile(rg, scratch.root, root, f);
  }
  std::set<std::string> files, want_files{root + ".obj", root + ".mtl"};
  if (urdf) want_files.insert(root + ".urdf");
  for (const auto& e : std::filesystem::directory_iterator(scratch.root)) files.insert(e.path().filename().string());
  CHECK(files == want_files, "files", files.size());

  // OBJ.
  std::istringstream is(slurp(scratch.root + "/" + root + ".obj"));
  std::vector<V3> v, vn;
  std::string material, library, line;
  std::map<std::string, Faces> got;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::string word;
    ls >> word;
    if (word.empty() || word[0] == '#') continue;
    if (word == "v" || word == "vn") {
      V3 p;
      ls >> p.x >> p.y >> p.z;
      CHECK(!ls.fail(), "obj-line", line);
      (word == "v" ? v : vn).push_back(p);
    } else if (word == "usemtl") {
      ls >> material;
    } else if (word == "mtllib") {
      std::getline(ls >> std::ws, library);
    } else if (word == "f") {
      got[material].emplace_back();
      std::string ref;
      while (ls >> ref) {
        const size_t slash = ref.find("//");
        CHECK(slash != std::string::npos, "obj-line", line);
        const int vi = std::stoi(ref.substr(0, slash)), ni = std::stoi(ref.substr(slash + 2));
        CHECK(vi >= 1 && vi <= static_cast<int>(v.size()) && ni >= 1 && ni <= static_cast<int>(vn.size()),
              "obj-reference", line);
        got[material].back().push_back({v[vi - 1], vn[ni - 1]});
      }
    } else {
      CHECK(false, "obj-line", line);
    }
  }
  CHECK(library == root + ".mtl", "obj-library", library);
  const V3 origin = of(f.origin);
  // Rounding moves no vertex by more than a tenth of the road's linear
  // tolerance.
  const double eps = 0.1 * spec.linear_tolerance + 1e-9;
  for (const auto& m : meshes) {
    const Faces want = faces_of(m.second.first);
    const Faces& have = got[kMaterialOf.at(m.first)];
    CHECK(have.size() == want.size(), "obj-face-count",
          m.first << ": " << have.size() << " faces in the file, " << want.size() << " in the mesh");
    for (size_t k = 0; k < want.size(); ++k) {
      CHECK(have[k].size() == want[k].size(), "obj-face-size", m.first << " face " << k);
      for (size_t c = 0; c < want[k].size(); ++c) {
        CHECK(norm(have[k][c].first - (want[k][c].first - origin)) <= eps, "obj-vertex",
              m.first << " face " << k << ": " << have[k][c].first << " want " << want[k][c].first - origin);
        CHECK(norm(have[k][c].second - want[k][c].second) <= eps, "obj-normal", m.first << " face " << k);
      }
    }
  }
  for (const auto& g : got) {
    CHECK(g.second.empty() ||
              std::any_of(kMaterialOf.begin(), kMaterialOf.end(), [&](const auto& m) { return m.second == g.first; }),
          "obj-material", g.first);
  }
  // MTL: each used material once, with its properties.
  std::map<std::string, std::map<std::string, std::vector<double>>> mtl;
  std::istringstream ms(slurp(scratch.root + "/" + root + ".mtl"));
  std::string current;
  while (std::getline(ms, line)) {
    std::istringstream ls(line);
    std::string word;
    ls >> word;
    if (word.empty() || word[0] == '#') continue;
    if (word == "newmtl") {
      ls >> current;
      CHECK(mtl.count(current) == 0, "mtl-twice", current);
      mtl[current];
      continue;
    }
    double x;
    while (ls >> x) mtl[current][word].push_back(x);
  }
  for (const auto& m : meshes) {
    if (m.second.first.faces().empty()) continue;
    const auto it = mtl.find(kMaterialOf.at(m.first));
    CHECK(it != mtl.end(), "mtl-missing", m.first);
    const Material& want = GetMaterialByName(it->first);
    const auto close = [&](const std::string& key, const maliput::math::Vector3& c) {
      const auto& x = it->second[key];
      CHECK(x.size() == 3 && norm(V3{x[0], x[1], x[2]} - of(c)) < 1e-5, "mtl-" + key, it->first);
    };
    close("Ka", want.ambient);
    close("Kd", want.diffuse);
    close("Ks", want.specular);
    CHECK(it->second["Ns"].size() == 1 && std::abs(it->second["Ns"][0] - want.shininess) < 1e-5, "mtl-Ns", it->first);
    CHECK(it->second["d"].size() == 1 && std::abs(it->second["d"][0] - (1. - want.transparency)) < 0.051, "mtl-d",
          it->first);
  }
  if (urdf) {
    const std::string text = slurp(scratch.root + "/" + root + ".urdf");
    CHECK(text.find("<mesh filename=\"" + root + ".obj\"") != std::string::npos, "urdf-mesh", text);
    CHECK(text.find("<robot name=\"" + spec.id + "\"") != std::string::npos, "urdf-name", text);
  }
}

}  // namespace
