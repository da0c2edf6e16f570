// P01 road position lookup, P02 find road positions, P03 spatial index.
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <limits>
#include <set>

#include "maliput/geometry_base/brute_force_find_road_positions_strategy.h"
#include "maliput/geometry_base/brute_force_strategy.h"
#include "maliput/geometry_base/filter_positions.h"
#include "maliput/geometry_base/kd_tree_strategy.h"
#include "maliput/geometry_base/strategy_base.h"
#include "maliput/math/axis_aligned_box.h"
#include "maliput/math/kd_tree.h"
#include "maliput/math/vector.h"
#include "testroad.h"

using namespace tr;
using maliput::math::AxisAlignedBox;
using maliput::math::KDTree;
using maliput::math::KDTree3D;
using maliput::math::OverlappingType;
using maliput::math::Vector2;
using maliput::math::Vector3;

PBT_RULE(
    P01,
    "Random roads (scattered straight/tilted/curved multi-lane segments, with a random frame translation) and query "
    "points on, near, above and far from lanes, both search strategies, with and without hint. A case is "
    "non-trivial when the road has two or more lanes and at least one query was compared with the exhaustive "
    "closed-form scan.");
PBT_RULE(P02,
         "Random roads, query points and radii (zero, tiny, comparable with lane distances, infinite), both search "
         "strategies. Non-trivial: at least one lane lies within the radius and at least one outside, or the radius is "
         "infinite and there are several lanes.");
PBT_RULE(
    P03,
    "Random 2D/3D point sets (clusters, lattices, duplicates, collinear), query points and boxes (touching, "
    "degenerate, unbounded). Non-trivial: three or more points, and for range search a result that is neither empty "
    "nor everything.");

namespace {

constexpr double kEps = 1e-9;

// ---------------------------------------------------------------- P03

std::vector<std::array<double, 3>> Points(pbt::Src& src, int max_n) {
  const int n = src.b(1, 8) ? static_cast<int>(src.i(1, max_n)) : static_cast<int>(src.i(1, 30));
  const int style = static_cast<int>(src.i(0, 4));
  const double scale = src.pick(std::vector<double>{1., 10., 1000., 1e-3});
  std::vector<std::array<double, 3>> pts;
  for (int k = 0; k < n; ++k) {
    std::array<double, 3> p{};
    if (style == 0 || (style == 3 && src.b(1, 2))) {
      for (double& c : p) c = static_cast<double>(src.i(-3, 3));  // Lattice: ties everywhere.
    } else if (style == 1) {
      for (double& c : p) c = src.fine(-1., 1.) * scale;
    } else if (style == 2) {  // On a line.
      const double t = src.sym(1.) * scale;
      p = {t, 2. * t, 0.};
    } else if (!pts.empty() && src.b(1, 3)) {
      p = pts[src.idx(pts.size())];  // Duplicate.
    } else {
      for (double& c : p) c = src.sym(1.) * scale + static_cast<double>(src.i(0, 1)) * 5. * scale;
    }
    pts.push_back(p);
  }
  return pts;
}

std::array<double, 3> Query(pbt::Src& src, const std::vector<std::array<double, 3>>& pts) {
  std::array<double, 3> q = pts[src.idx(pts.size())];
  const int mode = static_cast<int>(src.i(0, 3));
  if (mode == 1)
    for (double& c : q) c += src.sym(1.);
  if (mode == 2)
    for (double& c : q) c += static_cast<double>(src.i(-2, 2)) * 0.5;
  if (mode == 3)
    for (double& c : q) c = src.sym(20.);
  return q;
}

double Sq(const std::array<double, 3>& a, const std::array<double, 3>& b, int dim) {
  double d = 0.;
  for (int k = 0; k < dim; ++k) d += (a[k] - b[k]) * (a[k] - b[k]);
  return d;
}

}  // namespace

PROBE(P03, nearest, 130000, 4000000) {
  const auto pts = Points(src, 300);
  if (pts.size() >= 3) pbt::nontrivial();
  std::vector<Vector3> v3;
  std::vector<Vector2> v2;
  for (const auto& p : pts) {
    v3.emplace_back(p[0], p[1], p[2]);
    v2.emplace_back(p[0], p[1]);
  }
  const bool by_iterators = src.b();
  std::unique_ptr<KDTree3D<Vector3>> t3 = by_iterators ? std::make_unique<KDTree3D<Vector3>>(v3.begin(), v3.end())
                                                       : std::make_unique<KDTree3D<Vector3>>(std::vector<Vector3>(v3));
  KDTree<Vector3, 3> g3(v3.begin(), v3.end());
  KDTree<Vector2, 2> g2(v2.begin(), v2.end());
  NOTE(pts.size() << " points");
  for (int k = static_cast<int>(src.i(1, 6)); k > 0; --k) {
    const auto q = Query(src, pts);
    double best3 = std::numeric_limits<double>::infinity(), best2 = best3;
    for (const auto& p : pts) {
      best3 = std::min(best3, Sq(p, q, 3));
      best2 = std::min(best2, Sq(p, q, 2));
    }
    const Vector3 r3 = t3->nearest_point(Vector3(q[0], q[1], q[2]));
    const Vector3 s3 = g3.nearest_point(Vector3(q[0], q[1], q[2]));
    const Vector2 r2 = g2.nearest_point(Vector2(q[0], q[1]));
    NOTE("q=(" << q[0] << "," << q[1] << "," << q[2] << ") nearest=" << r3);
    CHECK(std::count(v3.begin(), v3.end(), r3) > 0, "nearest-not-a-point", "nearest " << r3 << " is not in the set");
    CHECK(std::count(v2.begin(), v2.end(), r2) > 0, "nearest-not-a-point", "nearest " << r2 << " is not in the set");
    auto close = [](double got, double want) { return got <= want * (1. + 1e-12) + 1e-290; };
    CHECK(close(Sq({r3.x(), r3.y(), r3.z()}, q, 3), best3), "nearest-not-minimal",
          "3D: got " << r3 << " at squared distance " << Sq({r3.x(), r3.y(), r3.z()}, q, 3) << ", best is " << best3);
    CHECK(
        close(Sq({s3.x(), s3.y(), s3.z()}, q, 3), best3), "nearest-not-minimal",
        "KDTree<3>: got " << s3 << " at squared distance " << Sq({s3.x(), s3.y(), s3.z()}, q, 3) << ", best " << best3);
    CHECK(close(Sq({r2.x(), r2.y(), 0.}, q, 2), best2), "nearest-not-minimal",
          "2D: got " << r2 << " at squared distance " << Sq({r2.x(), r2.y(), 0.}, q, 2) << ", best is " << best2);
    // A match within the tolerance is enough when one is given.
    const double tol = src.pick(std::vector<double>{1e-6, 0.1, 1., 2.});
    const Vector3 a3 = t3->nearest_point(Vector3(q[0], q[1], q[2]), tol);
    const double d2 = Sq({a3.x(), a3.y(), a3.z()}, q, 3);
    CHECK(close(d2, best3) || std::sqrt(d2) <= std::max(tol, std::sqrt(tol)), "nearest-tolerance",
          "tolerance " << tol << ": got squared distance " << d2 << ", best is " << best3);
  }
}

PROBE(P03, range_search, 130000, 4000000) {
  const auto pts = Points(src, 300);
  std::vector<Vector3> v3;
  for (const auto& p : pts) v3.emplace_back(p[0], p[1], p[2]);
  const KDTree3D<Vector3> tree(v3.begin(), v3.end());
  const double inf = std::numeric_limits<double>::infinity();
  for (int k = static_cast<int>(src.i(1, 5)); k > 0; --k) {
    Vector3 lo, hi;
    const auto a = Query(src, pts), b = src.b(1, 3) ? pts[src.idx(pts.size())] : Query(src, pts);
    for (int c = 0; c < 3; ++c) {
      lo[c] = std::min(a[c], b[c]);
      hi[c] = std::max(a[c], b[c]);
      if (src.b(1, 4)) {
        lo[c] = -inf;
        if (src.b()) hi[c] = inf;
      }
    }
    const AxisAlignedBox box(lo, hi);
    const auto result = tree.RangeSearch(box);
    NOTE(pts.size() << " points, box " << lo << ".." << hi << " -> " << result.size());
    // Multiset comparison; points within 1e-12 of a face may go either way.
    std::vector<std::array<double, 3>> got;
    std::set<const Vector3*> addresses;
    for (const Vector3* p : result) {
      CHECK(addresses.insert(p).second, "range-duplicate", "point " << *p << " is reported twice");
      got.push_back({p->x(), p->y(), p->z()});
    }
    size_t in = 0;
    std::vector<std::array<double, 3>> must, may;
    for (const auto& p : pts) {
      bool inside = true, surely = true;
      for (int c = 0; c < 3; ++c) {
        inside = inside && p[c] >= lo[c] - 1e-12 && p[c] <= hi[c] + 1e-12;
        surely = surely && p[c] >= lo[c] && p[c] <= hi[c];
      }
      if (surely) {
        must.push_back(p);
        ++in;
      }
      if (inside) may.push_back(p);
    }
    auto count = [](const std::vector<std::array<double, 3>>& v, const std::array<double, 3>& p) {
      return std::count(v.begin(), v.end(), p);
    };
    for (const auto& p : must)
      CHECK(count(got, p) >= count(must, p), "range-missing",
            "point (" << p[0] << "," << p[1] << "," << p[2] << ") lies in " << lo << ".." << hi << " but is reported "
                      << count(got, p) << " times instead of " << count(must, p));
    for (const auto& p : got)
      CHECK(count(got, p) <= count(may, p), "range-extra",
            "point (" << p[0] << "," << p[1] << "," << p[2] << ") is reported for " << lo << ".." << hi);
    if (pts.size() >= 3 && in > 0 && in < pts.size()) pbt::nontrivial();
  }
}

PROBE(P03, box_relations, 200000, 4800000) {
  auto coord = [&]() { return src.b(2, 3) ? static_cast<double>(src.i(-3, 3)) : src.sym(4.); };
  double lo[2][3], hi[2][3];
  for (int b = 0; b < 2; ++b)
    for (int c = 0; c < 3; ++c) {
      const double u = coord(), v = coord();
      lo[b][c] = std::min(u, v);
      hi[b][c] = std::max(u, v);
    }
  const AxisAlignedBox A({lo[0][0], lo[0][1], lo[0][2]}, {hi[0][0], hi[0][1], hi[0][2]});
  const AxisAlignedBox B({lo[1][0], lo[1][1], lo[1][2]}, {hi[1][0], hi[1][1], hi[1][2]});
  bool intersect = true, contains = true, ambiguous = false;
  for (int c = 0; c < 3; ++c) {
    intersect = intersect && lo[0][c] <= hi[1][c] && lo[1][c] <= hi[0][c];
    contains = contains && lo[0][c] <= lo[1][c] && hi[1][c] <= hi[0][c];
    for (double u : {lo[0][c], hi[0][c]})
      for (double v : {lo[1][c], hi[1][c]}) ambiguous = ambiguous || (u != v && std::abs(u - v) < 1e-12);
  }
  if (ambiguous) return;
  NOTE("A=" << A.min_corner() << ".." << A.max_corner() << " B=" << B.min_corner() << ".." << B.max_corner());
  pbt::label(contains ? "contained" : intersect ? "intersected" : "disjoint");
  if (intersect) pbt::nontrivial();
  const OverlappingType want = contains    ? OverlappingType::kContained
                               : intersect ? OverlappingType::kIntersected
                                           : OverlappingType::kDisjointed;
  CHECK(A.Overlaps(B) == want, "box-overlap",
        "overlap is " << static_cast<int>(A.Overlaps(B)) << ", expected " << static_cast<int>(want));
  CHECK(A.IsBoxIntersected(B) == intersect && B.IsBoxIntersected(A) == intersect, "box-intersected",
        "IsBoxIntersected disagrees with the intervals");
  CHECK(A.IsBoxContained(B) == contains, "box-contained", "IsBoxContained disagrees with the intervals");
  const auto I = A.GetIntersection(B);
  CHECK(I.has_value() == intersect, "box-intersection", "GetIntersection presence");
  for (int c = 0; c < 3; ++c) {
    if (I) {
      CHECK(I->min_corner()[c] == std::max(lo[0][c], lo[1][c]) && I->max_corner()[c] == std::min(hi[0][c], hi[1][c]),
            "box-intersection", "intersection corners " << I->min_corner() << " " << I->max_corner());
    }
    CHECK(std::abs(A.position()[c] - 0.5 * (lo[0][c] + hi[0][c])) < 1e-12, "box-position", "centre " << A.position());
  }
  // Vertices: all corners, no more.
  const auto vs = A.get_vertices();
  CHECK(vs.size() == 8, "box-vertices", "count " << vs.size());
  for (int m = 0; m < 8; ++m) {
    const Vector3 corner(m & 1 ? hi[0][0] : lo[0][0], m & 2 ? hi[0][1] : lo[0][1], m & 4 ? hi[0][2] : lo[0][2]);
    CHECK(std::find(vs.begin(), vs.end(), corner) != vs.end(), "box-vertices", "corner " << corner << " is missing");
  }
  // Point membership.
  for (int k = 0; k < 4; ++k) {
    double p[3];
    bool inside = true, edge = false;
    for (int c = 0; c < 3; ++c) {
      p[c] = coord();
      inside = inside && p[c] >= lo[0][c] && p[c] <= hi[0][c];
      for (double u : {lo[0][c], hi[0][c]}) edge = edge || (p[c] != u && std::abs(p[c] - u) < 1e-12);
    }
    if (!edge)
      CHECK(A.Contains({p[0], p[1], p[2]}) == inside, "box-contains-point",
            "(" << p[0] << "," << p[1] << "," << p[2] << ") inside=" << inside);
  }

  // A box built with a tolerance holds what lies within it of each face.
  const double tolerance = src.pick(std::vector<double>{0., 1e-3, 0.25, 2.});
  const AxisAlignedBox T(A.min_corner(), A.max_corner(), tolerance);
  bool grown = true;
  for (int c = 0; c < 3; ++c) {
    grown = grown && lo[1][c] >= lo[0][c] - tolerance && hi[1][c] <= hi[0][c] + tolerance;
    for (double u : {lo[0][c] - tolerance, hi[0][c] + tolerance})
      for (double v : {lo[1][c], hi[1][c]}) ambiguous = ambiguous || std::abs(u - v) < 1e-12;
  }
  if (!ambiguous)
    CHECK(T.IsBoxContained(B) == grown, "box-tolerance", "box contained within " << tolerance << ": want " << grown);
  const auto TI = T.GetIntersection(B);
  for (int k = 0; k < 4; ++k) {
    double p[3];
    bool inside = true, both = true, near_both = true, edge = false;
    for (int c = 0; c < 3; ++c) {
      const double by = src.pick(std::vector<double>{0.25, 0.5, 0.9, 1.2}) * tolerance;
      switch (src.weighted({4, 2, 2, 1})) {
        case 0:
          p[c] = src.real(lo[0][c], hi[0][c]);
          break;
        case 1:
          p[c] = lo[0][c] - by;
          break;
        case 2:
          p[c] = hi[0][c] + by;
          break;
        default:
          p[c] = coord();
      }
      inside = inside && p[c] >= lo[0][c] - tolerance && p[c] <= hi[0][c] + tolerance;
      const double low = std::max(lo[0][c], lo[1][c]), high = std::min(hi[0][c], hi[1][c]);
      both = both && p[c] >= low && p[c] <= high;
      near_both = near_both && p[c] >= low - tolerance && p[c] <= high + tolerance;
      for (double u : {lo[0][c] - tolerance, hi[0][c] + tolerance, low, high, low - tolerance, high + tolerance})
        edge = edge || std::abs(p[c] - u) < 1e-12;
    }
    if (edge) continue;
    CHECK(T.Contains({p[0], p[1], p[2]}) == inside, "box-tolerance",
          "(" << p[0] << "," << p[1] << "," << p[2] << ") within " << tolerance << ": want " << inside);
    // Which tolerance the intersection has is not said.
    if (TI && both == near_both)
      CHECK(TI->Contains({p[0], p[1], p[2]}) == both, "box-tolerance",
            "(" << p[0] << "," << p[1] << "," << p[2] << ") of the intersection: want " << both);
  }
}

// ---------------------------------------------------------------- P01 / P02

namespace {

struct QueryPoint {
  V3 inertial;
};

V3 QueryPosition(pbt::Src& src, const RoadSpec& spec, double half_size) {
  const auto lanes = spec.lanes();
  V3 p;
  const int mode = static_cast<int>(src.weighted({4, 3, 2, 1}));
  if (mode == 3) {
    p = {src.sym(2. * half_size), src.sym(2. * half_size), src.sym(half_size / 2.)};
  } else {
    const LaneGeom& g = lanes[src.idx(lanes.size())]->geom;
    double s = src.real(0., g.length), r = src.real(g.rmin(s), g.rmax(s)), h = src.real(g.h_min, g.h_max);
    if (mode == 1) h = 0.;
    if (mode == 2) {  // Around it.
      s = src.real(-3., g.length + 3.);
      r = src.real(g.seg_min - 3., g.seg_max + 3.);
      h = src.real(g.h_min - 2., g.h_max + 2.);
      if (g.kappa != 0.) {  // Stays on the right side of the centre.
        const double radius = 1. / g.kappa;
        r = radius > 0 ? std::min(r, radius * 0.9) : std::max(r, radius * 0.9);
      }
    }
    p = g.to_xyz({s, r, h});
  }
  return p + spec.translation;
}

struct LaneDistance {
  const api::Lane* lane;
  V3 srh, xyz;
  double distance;
};

std::vector<LaneDistance> Scan(const Road& road, const V3& p) {
  std::vector<LaneDistance> out;
  for (const auto& l : road.lanes) {
    LaneDistance d;
    d.lane = l.second;
    l.second->geom().nearest(p - road.spec.translation, false, &d.srh, &d.xyz, &d.distance);
    d.xyz = d.xyz + road.spec.translation;
    out.push_back(d);
  }
  return out;
}

void CheckConsistent(const Road& road, const V3& p, const api::RoadPositionResult& r, const char* what) {
  CHECK(r.road_position.lane != nullptr, "null-lane", what);
  const LaneGeom& g = road.geom(r.road_position.lane);
  const V3 xyz = g.to_xyz(of(r.road_position.pos)) + road.spec.translation;
  CHECK(norm(xyz - of(r.nearest_position)) < 1e-6, "nearest-not-road-position",
        what << ": road position " << r.road_position.lane->id().string() << of(r.road_position.pos) << " maps to "
             << xyz << " but the nearest position is " << of(r.nearest_position));
  CHECK(std::abs(norm(of(r.nearest_position) - p) - r.distance) < 1e-6, "distance-wrong",
        what << ": distance " << r.distance << " to " << of(r.nearest_position) << " from " << p);
  const api::InertialPosition via = r.road_position.lane->ToInertialPosition(r.road_position.pos);
  CHECK(norm(of(via) - of(r.nearest_position)) <= road.rg->linear_tolerance(), "round-trip",
        what << ": maps back to " << of(via));
  const V3 srh = of(r.road_position.pos);
  CHECK(srh.x >= -kEps && srh.x <= g.length + kEps && srh.y >= g.rmin(srh.x) - kEps && srh.y <= g.rmax(srh.x) + kEps &&
            srh.z >= g.h_min - kEps && srh.z <= g.h_max + kEps,
        "outside-lane", what << ": " << srh);
}

RoadSpec QueryRoad(pbt::Src& src, double half, bool for_kd) {
  RoadSpec spec = ScatteredRoad(src, half, for_kd ? 4 : 6, for_kd ? 3 : 4, true, true, true);
  if (src.b(2, 3)) spec.translation = {src.sym(50.), src.sym(50.), src.sym(10.)};
  return spec;
}

void SetStrategy(pbt::Src& src, const Road& road, bool kd) {
  if (kd) {
    double area = 0.;
    for (const auto* l : road.spec.lanes())
      area += l->geom.length *
              std::max(l->geom.r_max - l->geom.r_min, l->geom.rmax(l->geom.length) - l->geom.rmin(l->geom.length));
    double step = src.pick(std::vector<double>{1., 0.5, 0.7, 2.});
    while (area / (step * step) > 3000.) step *= 1.5;
    NOTE("sampling step " << step);
    road.rg->InitializeStrategy<maliput::geometry_base::KDTreeStrategy>(step);
  } else if (src.b()) {
    road.rg->InitializeStrategy<maliput::geometry_base::BruteForceStrategy>();
  }
}

void CheckLookup(pbt::Src& src, bool kd) {
  const double half = kd ? 12. : 30.;
  const Road road = Build(QueryRoad(src, half, kd), false);
  SetStrategy(src, road, kd);
  if (road.lanes.size() >= 2) pbt::nontrivial();
  NOTE(Describe(road.spec) << " T=" << road.spec.translation);
  for (int k = static_cast<int>(src.i(1, 8)); k > 0; --k) {
    const V3 p = QueryPosition(src, road.spec, half);
    const auto scan = Scan(road, p);
    const auto best = std::min_element(scan.begin(), scan.end(),
                                       [](const auto& a, const auto& b) { return a.distance < b.distance; });
    const api::RoadPositionResult r = road.rg->ToRoadPosition(ip(p));
    NOTE("q=" << p << " -> " << r.road_position.lane->id().string() << of(r.road_position.pos) << " d=" << r.distance);
    CheckConsistent(road, p, r, "lookup");
    CHECK(r.distance <= best->distance + kEps, "not-nearest",
          "query " << p << ": lane " << r.road_position.lane->id().string() << " at " << r.distance << " but lane "
                   << best->lane->id().string() << " is at " << best->distance);
    // Ties (the boundaries between neighbours): a lane whose lateral range holds the point wins, then the smallest |r|.
    std::vector<const LaneDistance*> tied;
    bool murky = false;
    const LaneDistance* chosen = nullptr;
    for (const auto& d : scan) {
      const double delta = d.distance - best->distance;
      if (delta < 1e-13) {
        tied.push_back(&d);
        if (d.lane == r.road_position.lane) chosen = &d;
      } else if (delta < 1e-8) {
        murky = true;
      }
    }
    if (!murky && tied.size() > 1) {
      pbt::label("ties");
      CHECK(chosen != nullptr, "tie-not-nearest", "the chosen lane is not one of the nearest");
      auto in_bounds = [&](const LaneDistance* d, double margin) {
        const LaneGeom& g = road.geom(d->lane);
        return d->srh.y >= g.rmin(d->srh.x) + margin && d->srh.y < g.rmax(d->srh.x) - margin;
      };
      for (const LaneDistance* d : tied) {
        if (d == chosen) continue;
        const bool d_in = in_bounds(d, kEps), d_out = !in_bounds(d, -kEps);
        const bool c_in = in_bounds(chosen, kEps), c_out = !in_bounds(chosen, -kEps);
        CHECK(!(d_in && c_out), "tie-lane-bounds", "the chosen lane does not hold the point while another one does");
        if ((d_in && c_in) || (d_out && c_out))
          CHECK(std::abs(d->srh.y) >= std::abs(chosen->srh.y) - kEps, "tie-min-r",
                "chose " << chosen->lane->id().string() << " r=" << chosen->srh.y << " although "
                         << d->lane->id().string() << " has r=" << d->srh.y);
      }
    }
    // With a hint the result is the hinted lane's nearest point, or a closer one.
    if (src.b(1, 3)) {
      const auto& hint_lane = scan[src.idx(scan.size())];
      const api::RoadPosition hint(hint_lane.lane, api::LanePosition(src.real(0., 1.), 0., 0.));
      const auto h = road.rg->ToRoadPosition(ip(p), hint);
      CheckConsistent(road, p, h, "hint");
      CHECK(h.distance <= hint_lane.distance + kEps, "hint-not-nearest",
            "with hint " << hint_lane.lane->id().string() << ": " << h.distance << " > " << hint_lane.distance);
      pbt::label("hints");
    }
    pbt::label(r.distance < 1e-9 ? "on-road" : "off-road");
  }
}

void CheckFind(pbt::Src& src, bool kd) {
  const double half = kd ? 12. : 30.;
  const Road road = Build(QueryRoad(src, half, kd), false);
  SetStrategy(src, road, kd);
  NOTE(Describe(road.spec) << " T=" << road.spec.translation);
  const double inf = std::numeric_limits<double>::infinity();
  for (int k = static_cast<int>(src.i(1, 6)); k > 0; --k) {
    const V3 p = QueryPosition(src, road.spec, half);
    const auto scan = Scan(road, p);
    double radius = 0.;
    switch (src.weighted({2, 2, 3, 3, 2})) {
      case 0:
        radius = 0.;
        break;
      case 1:
        radius = src.real(1e-6, 0.2);
        break;
      case 2:
        radius = scan[src.idx(scan.size())].distance + src.pick(std::vector<double>{1e-4, -1e-4, 0.01, 0.5});
        break;
      case 3:
        radius = src.real(0., 2. * half);
        break;
      case 4:
        radius = inf;
        break;
    }
    radius = std::max(radius, 0.);
    const auto results = road.rg->FindRoadPositions(ip(p), radius);
    NOTE("q=" << p << " radius=" << radius << " -> " << results.size());
    std::set<const api::Lane*> seen;
    for (const auto& r : results) {
      CheckConsistent(road, p, r, "find");
      CHECK(seen.insert(r.road_position.lane).second, "find-duplicate",
            "lane " << r.road_position.lane->id().string() << " is reported more than once for radius " << radius);
      const double limit = radius == 0. ? road.rg->linear_tolerance() : radius;
      CHECK(r.distance <= limit + kEps, "find-too-far",
            "lane " << r.road_position.lane->id().string() << " at " << r.distance << " > radius " << radius);
      for (const auto& d : scan)
        if (d.lane == r.road_position.lane)
          CHECK(std::abs(d.distance - r.distance) < 1e-6, "find-not-nearest-of-lane",
                "lane " << d.lane->id().string() << " is at " << d.distance << " but " << r.distance << " is reported");
    }
    size_t in = 0;
    for (const auto& d : scan) {
      const bool must =
          radius == inf || (radius == 0. ? d.distance == 0. && d.lane->ToLanePosition(ip(p)).distance == 0.
                                         : d.distance < radius - kEps);
      if (must) {
        ++in;
        CHECK(seen.count(d.lane), "find-missing",
              "lane " << d.lane->id().string() << " at distance " << d.distance << " is not reported for radius "
                      << radius << " around " << p);
      }
    }
    if (scan.size() >= 2 && in > 0 && (in < scan.size() || radius == inf)) pbt::nontrivial();
    pbt::label(radius == 0. ? "zero-radius" : radius == inf ? "infinite-radius" : "finite-radius");
    pbt::label("lanes-in-radius", in);
  }
}

}  // namespace

PROBE(P01, brute_force, 60000, 2400000) { CheckLookup(src, false); }
PROBE(P01, kd_tree, 30000, 960000) { CheckLookup(src, true); }
PROBE(P02, brute_force, 60000, 2400000) { CheckFind(src, false); }
PROBE(P02, kd_tree, 30000, 960000) { CheckFind(src, true); }

PROBE(P02, helper_and_filter, 30000, 640000) {
  const Road road = Build(QueryRoad(src, 20., false), false);
  NOTE(Describe(road.spec));
  const V3 p = QueryPosition(src, road.spec, 20.);
  const double radius = src.b(1, 4) ? std::numeric_limits<double>::infinity() : src.real(0., 30.);
  const auto results = maliput::geometry_base::BruteForceFindRoadPositionsStrategy(road.rg.get(), ip(p), radius);
  std::set<const api::Lane*> seen;
  for (const auto& r : results) {
    CheckConsistent(road, p, r, "helper");
    CHECK(seen.insert(r.road_position.lane).second, "find-duplicate", "duplicate lane");
  }
  size_t in = 0;
  for (const auto& d : Scan(road, p)) {
    if (radius == std::numeric_limits<double>::infinity() || d.distance < radius - kEps) {
      ++in;
      CHECK(seen.count(d.lane), "find-missing", "lane " << d.lane->id().string() << " at " << d.distance);
    } else if (d.distance > radius + kEps) {
      CHECK(!seen.count(d.lane), "find-too-far", "lane " << d.lane->id().string() << " at " << d.distance);
    }
  }
  if (in > 0 && road.lanes.size() > 1) pbt::nontrivial();
  // The filter keeps exactly what satisfies the predicate, in order.
  const double limit = src.real(0., 10.);
  const auto kept = maliput::geometry_base::FilterRoadPositionResults(
      results, [limit](const api::RoadPositionResult& r) { return r.distance <= limit; });
  std::vector<const api::Lane*> want, got;
  for (const auto& r : results)
    if (r.distance <= limit) want.push_back(r.road_position.lane);
  for (const auto& r : kept) got.push_back(r.road_position.lane);
  CHECK(want == got, "filter", "filtered " << got.size() << " results, expected " << want.size());
  MUST_THROW("negative-radius", road.rg->FindRoadPositions(ip(p), -1.), "negative radius");
}
