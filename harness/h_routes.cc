// P11 routes and phases.
#include <algorithm>
#include <cmath>
#include <limits>
#include <set>

#include "maliput/api/lane_data.h"
#include "maliput/api/regions.h"
#include "maliput/routing/lane_s_range_relation.h"
#include "maliput/routing/phase.h"
#include "maliput/routing/route.h"
#include "network.h"
#include "testroad.h"

using namespace tr;
using api::Lane;
using api::LaneId;
using api::LanePosition;
using api::LaneSRange;
using api::LaneSRoute;
using api::RoadPosition;
using api::SRange;

namespace rt = maliput::routing;
using Rel = rt::LaneSRangeRelation;

PBT_RULE(
    P11,
    "Random smooth connected roads with rings, parallel ways, merges and lanes in both directions; routes of one to "
    "seven phases along them, over windows of the lanes of each segment, cut at borders of segments and within them; "
    "query points and ranges in, near and out of them. Non-trivial: the route has two or more phases and some phase "
    "two or more lanes.");

namespace {

struct PhaseSpec {
  const SegmentSpec* segment{};
  int lo{}, hi{};     // Lanes, both included.
  double f0{}, f1{};  // Fractions of the lanes where the phase starts and ends.
  std::vector<int> starts, ends;
  bool with_s() const { return f1 > f0; }
  int size() const { return hi - lo + 1; }
  const LaneSpec& lane(int i) const { return segment->lanes[lo + i]; }
  double at(int i, double f) const { return f == 1. ? lane(i).geom.length : f * lane(i).geom.length; }
  double s0(int i) const { return at(i, f0); }
  double s1(int i) const { return at(i, f1); }
};

struct RouteSpec {
  std::vector<PhaseSpec> phases;
  double tolerance{1e-3};
};

int bp(const LaneSpec& l, bool start) { return start ? l.start_bp : l.finish_bp; }
bool side(const LaneSpec& l, bool start) { return start ? l.start_a : l.finish_a; }
bool Connected(const LaneSpec& a, bool sa, const LaneSpec& b, bool sb) {
  return bp(a, sa) == bp(b, sb) && side(a, sa) != side(b, sb);
}

void Window(pbt::Src& src, PhaseSpec* p, int must) {
  const int n = static_cast<int>(p->segment->lanes.size());
  p->lo = static_cast<int>(src.b(2, 3) ? 0 : src.i(0, must));
  p->hi = static_cast<int>(src.b(2, 3) ? n - 1 : src.i(must, n - 1));
}

RouteSpec MakeRoute(pbt::Src& src, const RoadSpec& spec) {
  std::vector<const SegmentSpec*> segments;
  for (const auto& j : spec.junctions)
    for (const auto& s : j.segments) segments.push_back(&s);
  RouteSpec r;
  r.tolerance = src.pick(std::vector<double>{1e-3, 1e-6, 1e-2});
  PhaseSpec p;
  p.segment = segments[src.idx(segments.size())];
  bool with_s = src.b();
  Window(src, &p, static_cast<int>(src.idx(p.segment->lanes.size())));
  double f = src.b(1, 3) ? (with_s ? 0. : 1.) : src.real(0.05, 0.95);
  p.f0 = f;
  const int count = static_cast<int>(src.i(1, 7));
  std::set<const SegmentSpec*> visited{p.segment};
  while (true) {
    const bool last = static_cast<int>(r.phases.size()) + 1 == count;
    const double far = with_s ? 1. : 0.;
    if (last || src.b(1, 5)) {
      // It ends within the segment, here or in another phase.
      p.f1 = last && src.b(1, 3) ? far : f + (far - f) * src.real(0.1, 0.9);
      if (last) break;
      PhaseSpec q;
      q.segment = p.segment;
      q.f0 = p.f1;
      Window(src, &q, static_cast<int>(src.i(p.lo, p.hi)));
      for (int k = std::max(p.lo, q.lo); k <= std::min(p.hi, q.hi); ++k) {
        p.ends.push_back(k - p.lo);
        q.starts.push_back(k - q.lo);
      }
      r.phases.push_back(p);
      f = q.f0;
      p = q;
      continue;
    }
    p.f1 = far;
    struct Next {
      const SegmentSpec* segment;
      bool start;
      int from, to;
    };
    std::vector<Next> nexts;
    const bool again = src.b(1, 8);
    for (const SegmentSpec* s : segments) {
      if (!again && visited.count(s)) continue;
      for (bool start : {true, false})
        for (int x = p.lo; x <= p.hi; ++x)
          for (int y = 0; y < static_cast<int>(s->lanes.size()); ++y)
            if (Connected(p.segment->lanes[x], !with_s, s->lanes[y], start)) nexts.push_back({s, start, x, y});
    }
    if (nexts.empty()) break;
    const Next next = nexts[src.idx(nexts.size())];
    PhaseSpec q;
    q.segment = next.segment;
    q.f0 = next.start ? 0. : 1.;
    Window(src, &q, next.to);
    for (int x = p.lo; x <= p.hi; ++x)
      for (int y = q.lo; y <= q.hi; ++y)
        if (Connected(p.segment->lanes[x], !with_s, q.segment->lanes[y], next.start)) {
          p.ends.push_back(x - p.lo);
          q.starts.push_back(y - q.lo);
        }
    r.phases.push_back(p);
    with_s = next.start;
    f = q.f0;
    visited.insert(q.segment);
    p = q;
  }
  r.phases.push_back(p);
  r.phases.front().starts = {static_cast<int>(src.idx(r.phases.front().size()))};
  r.phases.back().ends = {static_cast<int>(src.idx(r.phases.back().size()))};
  return r;
}

struct Built {
  Road road;
  std::unique_ptr<api::RoadNetwork> network;
  RouteSpec spec;
};

std::vector<LaneSRange> Ranges(const PhaseSpec& p) {
  std::vector<LaneSRange> r;
  for (int i = 0; i < p.size(); ++i) r.emplace_back(LaneId(p.lane(i).id), SRange(p.s0(i), p.s1(i)));
  return r;
}
std::vector<RoadPosition> Positions(const Built& b, const PhaseSpec& p, bool start) {
  std::vector<RoadPosition> r;
  for (int i : start ? p.starts : p.ends)
    r.emplace_back(b.road.lanes.at(p.lane(i).id), LanePosition(start ? p.s0(i) : p.s1(i), 0., 0.));
  return r;
}
rt::Phase MakePhase(const Built& b, int k) {
  const PhaseSpec& p = b.spec.phases[k];
  return rt::Phase(k, b.spec.tolerance, Positions(b, p, true), Positions(b, p, false), Ranges(p), b.network.get());
}
std::string Show(const RouteSpec& r) {
  std::ostringstream os;
  for (const PhaseSpec& p : r.phases) {
    os << p.segment->id << " (";
    for (int i = 0; i < p.size(); ++i) os << (i ? " " : "") << p.lane(i).id << ":" << p.s0(i) << ">" << p.s1(i);
    os << ") ";
  }
  return os.str();
}

std::unique_ptr<Built> Make(pbt::Src& src) {
  auto b = std::make_unique<Built>();
  ConnectedOptions options;
  options.max_strips = static_cast<int>(src.i(1, 8));
  options.max_lanes = 4;
  options.defaults = false;
  b->road = Build(ConnectedRoad(src, options));
  b->spec = MakeRoute(src, b->road.spec);
  b->network = MakeNetwork(&b->road);
  NOTE(Describe(b->road.spec));
  NOTE("route " << Show(b->spec) << "tolerance " << b->spec.tolerance);
  bool wide = false;
  for (const auto& p : b->spec.phases) wide = wide || p.size() > 1;
  if (wide && b->spec.phases.size() > 1) pbt::nontrivial();
  return b;
}

rt::Route MakeRouteOf(const Built& b) {
  std::vector<rt::Phase> phases;
  for (size_t k = 0; k < b.spec.phases.size(); ++k) phases.push_back(MakePhase(b, static_cast<int>(k)));
  return rt::Route(phases, b.network.get());
}

V3 Inertial(const Built& b, const V3& backend) { return backend - b.road.spec.translation; }

// The stretch of a lane which a phase covers.
LaneGeom Stretch(const PhaseSpec& p, int i) {
  LaneGeom g = p.lane(i).geom;
  const double a = std::min(p.s0(i), p.s1(i)), z = std::max(p.s0(i), p.s1(i));
  g.origin = g.to_xyz({a, 0., 0.});
  g.heading += g.kappa * a;
  g.length = z - a;
  return g;
}

}  // namespace

PROBE(P11, phases, 30000, 600000) {
  const auto b = Make(src);
  const PhaseSpec& p = b->spec.phases[src.idx(b->spec.phases.size())];
  const double tol = b->spec.tolerance;
  const auto starts = Positions(*b, p, true), ends = Positions(*b, p, false);
  const auto ranges = Ranges(p);
  const int index = static_cast<int>(src.i(0, 9));
  auto make = [&](const std::vector<RoadPosition>& s, const std::vector<RoadPosition>& e,
                  const std::vector<LaneSRange>& r) { return rt::Phase(index, tol, s, e, r, b->network.get()); };
  std::unique_ptr<rt::Phase> phase;
  MUST_NOT_THROW("phase-refused", phase = std::make_unique<rt::Phase>(make(starts, ends, ranges)), "");
  CHECK(phase->index() == index && phase->lane_s_range_tolerance() == tol &&
            phase->start_positions().size() == starts.size() && phase->end_positions().size() == ends.size() &&
            phase->lane_s_ranges().size() == ranges.size(),
        "phase-accessors", "");
  for (size_t k = 0; k < ranges.size(); ++k)
    CHECK(phase->lane_s_ranges()[k].lane_id() == ranges[k].lane_id() &&
              phase->lane_s_ranges()[k].s_range().s0() == ranges[k].s_range().s0() &&
              phase->lane_s_ranges()[k].s_range().s1() == ranges[k].s_range().s1(),
          "phase-accessors", "range " << k);
  // Refusals.
  const size_t which = src.idx(10);
  Road* road = &b->road;
  switch (which) {
    case 0:
      MUST_THROW("phase-index",
                 rt::Phase(-1 - static_cast<int>(src.i(0, 3)), tol, starts, ends, ranges, b->network.get()), "");
      MUST_THROW("phase-tolerance", rt::Phase(index, -src.real(1e-9, 1.), starts, ends, ranges, b->network.get()), "");
      MUST_THROW("phase-network", rt::Phase(index, tol, starts, ends, ranges, nullptr), "");
      break;
    case 1:
      MUST_THROW("phase-no-start", make({}, ends, ranges), "");
      MUST_THROW("phase-no-end", make(starts, {}, ranges), "");
      MUST_THROW("phase-no-range", make(starts, ends, {}), "");
      break;
    case 2: {
      auto bad = src.b() ? starts : ends;
      const bool s = src.b();
      bad.insert(bad.begin() + src.idx(bad.size() + 1), RoadPosition(nullptr, LanePosition(0., 0., 0.)));
      MUST_THROW("phase-null-position", s ? make(bad, ends, ranges) : make(starts, bad, ranges), "");
      break;
    }
    case 3: {  // A position out of its range.
      const int i = static_cast<int>(src.idx(p.size()));
      const double lo = std::min(p.s0(i), p.s1(i)) - tol, hi = std::max(p.s0(i), p.s1(i)) + tol;
      const double out = src.b() ? lo - src.real(1e-6, 5.) : hi + src.real(1e-6, 5.);
      const bool s = src.b();
      auto bad = s ? starts : ends;
      bad.insert(bad.begin() + src.idx(bad.size() + 1),
                 RoadPosition(road->lanes.at(p.lane(i).id), LanePosition(std::max(0., out), 0., 0.)));
      if (out >= 0.)
        MUST_THROW("phase-position-out", s ? make(bad, ends, ranges) : make(starts, bad, ranges), "at " << out);
      // Within the tolerance it is fine.
      const double in = src.b() ? std::max(0., lo + tol * src.real(0.1, 0.9)) : hi - tol * src.real(0.1, 0.9);
      auto good = s ? starts : ends;
      good.emplace_back(road->lanes.at(p.lane(i).id), LanePosition(in, src.sym(1.), 0.));
      MUST_NOT_THROW("phase-position-in", s ? make(good, ends, ranges) : make(starts, good, ranges), "at " << in);
      break;
    }
    case 4: {  // A position on a lane which is none of the ranges'.
      const auto lanes = road->spec.lanes();
      const LaneSpec* l = lanes[src.idx(lanes.size())];
      bool of = false;
      for (int i = 0; i < p.size(); ++i) of = of || p.lane(i).id == l->id;
      if (of) break;
      auto bad = starts;
      bad.emplace_back(road->lanes.at(l->id), LanePosition(0., 0., 0.));
      MUST_THROW("phase-position-lane", make(bad, ends, ranges), "");
      break;
    }
    case 5: {  // A range out of the road.
      auto bad = ranges;
      const size_t k = src.idx(bad.size());
      const double L = p.lane(static_cast<int>(k)).geom.length;
      if (src.b()) {
        bad[k] = LaneSRange(LaneId("no such lane"), SRange(0., 1.));
      } else {
        const double out = L + tol + src.real(1e-6, 3.);
        bad[k] = LaneSRange(bad[k].lane_id(), src.b() ? SRange(0., out) : SRange(out, 0.));
      }
      MUST_THROW("phase-range-out", make(starts, ends, bad), bad[k].lane_id().string() << " " << bad[k].s_range().s1());
      auto good = ranges;
      good[k] = LaneSRange(good[k].lane_id(), SRange(0., L + 0.9 * tol));
      MUST_NOT_THROW("phase-range-in", make(starts, ends, good), "");
      break;
    }
    case 6: {  // A missing range: not adjacent, or positions without their range.
      if (p.size() < 3) break;
      auto bad = ranges;
      bad.erase(bad.begin() + 1 + src.idx(bad.size() - 2));
      const RoadPosition at(road->lanes.at(bad.front().lane_id().string()),
                            LanePosition(bad.front().s_range().s0(), 0., 0.));
      MUST_THROW("phase-not-adjacent", make({at}, {at}, bad), "");
      break;
    }
    case 7: {  // A lane of another segment.
      const auto lanes = road->spec.lanes();
      const LaneSpec* l = lanes[src.idx(lanes.size())];
      bool of = false;
      for (const LaneSpec& x : p.segment->lanes) of = of || &x == l;
      if (of) break;
      auto bad = ranges;
      bad.insert(src.b() ? bad.begin() : bad.end(), LaneSRange(LaneId(l->id), SRange(0., l->geom.length)));
      MUST_THROW("phase-not-adjacent", make(starts, ends, bad), "");
      break;
    }
    default:
      break;
  }
  if (which == 8) {
    MUST_THROW("route-no-phase", rt::Route({}, b->network.get()), "");
    MUST_THROW("route-network", rt::Route({*phase}, nullptr), "");
    MUST_THROW("phase-query-null", phase->FindPhasePosition(RoadPosition(nullptr, LanePosition(0., 0., 0.))), "");
    const rt::Route route = MakeRouteOf(*b);
    MUST_THROW("route-query-null", route.FindRoutePosition(RoadPosition(nullptr, LanePosition(0., 0., 0.))), "");
    MUST_THROW("route-query-null", route.ComputeLaneSRoute(RoadPosition(nullptr, LanePosition(0., 0., 0.))), "");
    MUST_THROW("route-index", route.Get(route.size()), "");
    MUST_THROW("route-index", route.Get(-1), "");
    MUST_THROW("route-index", route.GetLaneSRange(0, static_cast<int>(route.Get(0).lane_s_ranges().size())), "");
    MUST_THROW("route-index", route.GetLaneSRange(0, -1), "");
  }
}

namespace {

struct Bounds {
  double volume{std::numeric_limits<double>::infinity()}, centre{std::numeric_limits<double>::infinity()};
};

// Distances from a point to what a phase covers of a lane.
Bounds To(const PhaseSpec& p, int i, const V3& backend) {
  LaneGeom g = Stretch(p, i);
  Bounds r;
  V3 srh, xyz;
  g.nearest(backend, false, &srh, &xyz, &r.volume);
  g.r_min = g.r_max = g.h_min = g.h_max = 0.;
  g.nearest(backend, false, &srh, &xyz, &r.centre);
  return r;
}

}  // namespace

PROBE(P11, positions, 60000, 1500000) {
  const auto b = Make(src);
  const rt::Route route = MakeRouteOf(*b);
  const auto& phases = b->spec.phases;
  const double tol = b->spec.tolerance;
  // A point in or near a lane.
  const auto lanes = b->road.spec.lanes();
  const size_t kp = src.idx(phases.size());
  const LaneSpec* near =
      src.b(3, 4) ? &phases[kp].lane(static_cast<int>(src.idx(phases[kp].size()))) : lanes[src.idx(lanes.size())];
  const LaneGeom& g = near->geom;
  const double s = src.b(1, 6) ? (src.b() ? 0. : g.length) : src.real(0., 1.) * g.length;
  const double r = src.b(1, 4) ? 0. : src.b(2, 3) ? src.real(g.r_min, g.r_max) : src.sym(15.);
  const double h = src.b(1, 2) ? 0. : src.sym(4.);
  V3 q = g.to_xyz({s, r, h});
  if (src.b(1, 6)) q = q + V3{src.sym(20.), src.sym(20.), src.sym(5.)};
  const V3 query = Inertial(*b, q);
  NOTE("query " << query << " near " << near->id << " at " << s << ", " << r << ", " << h);
  std::vector<std::vector<Bounds>> d(phases.size());
  Bounds best;
  bool bent = false;
  bool seam = false;  // Where a closed ring starts and finishes: s may be either.
  for (size_t k = 0; k < phases.size(); ++k)
    for (int i = 0; i < phases[k].size(); ++i) {
      d[k].push_back(To(phases[k], i, q));
      best.volume = std::min(best.volume, d[k].back().volume);
      best.centre = std::min(best.centre, d[k].back().centre);
      const LaneGeom& l = phases[k].lane(i).geom;
      if (std::fabs(l.kappa) * l.length > 6.) {
        V3 srh, xyz;
        double distance;
        l.nearest(q, false, &srh, &xyz, &distance);
        seam = seam || srh.x < 2. * tol || srh.x > l.length - 2. * tol;
      }
      bent = bent ||
             (l.kappa != 0. && (std::fabs(l.kappa) * l.length > 1.6 || d[k].back().centre * std::fabs(l.kappa) > 0.5));
    }
  const double slack = 3. * tol + 1e-6;  // Stretched by the curvature.
  pbt::label(best.volume == 0. ? "inside" : best.volume < 3. ? "near" : "far");
  auto check = [&](const rt::PhasePositionResult& x, size_t k, const V3& from, const char* what) {
    const PhaseSpec& p = phases[k];
    CHECK(x.lane_s_range_index >= 0 && x.lane_s_range_index < p.size(), "position-index", what << x.lane_s_range_index);
    const LaneSpec& l = p.lane(x.lane_s_range_index);
    const double a = std::min(p.s0(x.lane_s_range_index), p.s1(x.lane_s_range_index));
    const double z = std::max(p.s0(x.lane_s_range_index), p.s1(x.lane_s_range_index));
    CHECK(x.lane_position.s() >= a - slack && x.lane_position.s() <= z + slack, "position-out-of-range",
          what << l.id << " at " << x.lane_position << ", of " << a << " to " << z);
    const V3 at = Inertial(*b, l.geom.to_xyz(of(x.lane_position)));
    CHECK(norm(at - of(x.inertial_position)) < 1e-6, "position-inconsistent",
          what << l.id << " at " << x.lane_position << " is " << at << ", reported " << x.inertial_position);
    CHECK(std::fabs(norm(from - of(x.inertial_position)) - x.distance) < 1e-6, "position-distance",
          what << x.distance << " reported, " << norm(from - of(x.inertial_position)));
  };
  // Whether the range found is the right one among those of a phase.
  auto best_of = [&](const rt::PhasePositionResult& x, size_t k, const char* what) {
    Bounds m;
    int inside = 0;
    for (const Bounds& e : d[k]) {
      m.volume = std::min(m.volume, e.volume);
      m.centre = std::min(m.centre, e.centre);
      inside += e.volume == 0.;
    }
    CHECK(x.distance >= m.volume - slack, "position-too-near", what << x.distance << " < " << m.volume);
    if (!bent) CHECK(x.distance <= m.centre + slack, "position-not-nearest", what << x.distance << " > " << m.centre);
    const Bounds& got = d[k][x.lane_s_range_index];
    if (inside && !seam) CHECK(got.volume <= slack, "position-not-in-volume", what << "the point is in another range");
  };
  for (size_t k = 0; k < phases.size(); ++k) {
    const auto x = route.Get(static_cast<int>(k)).FindPhasePosition(ip(query));
    check(x, k, query, "phase: ");
    best_of(x, k, "phase: ");
  }
  const auto x = route.FindRoutePosition(ip(query));
  CHECK(x.phase_index >= 0 && x.phase_index < route.size(), "position-phase", x.phase_index);
  check(x.phase_position_result, x.phase_index, query, "route: ");
  best_of(x.phase_position_result, x.phase_index, "route: ");
  CHECK(x.phase_position_result.distance >= best.volume - slack, "position-too-near", "route");
  if (!bent)
    CHECK(x.phase_position_result.distance <= best.centre + slack, "position-not-nearest",
          "route: " << x.phase_position_result.distance << " > " << best.centre);
  for (size_t k = 0; k < phases.size(); ++k) {
    const auto y = route.Get(static_cast<int>(k)).FindPhasePosition(ip(query));
    CHECK(x.phase_position_result.distance <= y.distance + 1e-9, "position-phase-not-nearest",
          "phase " << x.phase_index << " at " << x.phase_position_result.distance << ", phase " << k << " at "
                   << y.distance);
  }
  if (best.volume == 0. && !seam)
    CHECK(d[x.phase_index][x.phase_position_result.lane_s_range_index].volume <= slack, "position-not-in-volume",
          "route");
  // By road position.
  const RoadPosition rp(b->road.lanes.at(near->id),
                        LanePosition(s, std::clamp(r, g.r_min, g.r_max), std::clamp(h, g.h_min, g.h_max)));
  const V3 rq = Inertial(*b, g.to_xyz(of(rp.pos)));
  auto holds = [&](size_t k, double margin) {
    for (int i = 0; i < phases[k].size(); ++i)
      if (&phases[k].lane(i) == near && s >= std::min(phases[k].s0(i), phases[k].s1(i)) - margin &&
          s <= std::max(phases[k].s0(i), phases[k].s1(i)) + margin)
        return i;
    return -1;
  };
  auto same = [&](const rt::PhasePositionResult& u, const rt::PhasePositionResult& v) {
    return u.lane_s_range_index == v.lane_s_range_index && norm(of(u.lane_position) - of(v.lane_position)) < 1e-9 &&
           std::fabs(u.distance - v.distance) < 1e-9;
  };
  // At the same s, or where a closed ring starts and finishes.
  const V3 centre = g.to_xyz({s, 0., 0.});
  auto there = [&](const rt::PhasePositionResult& u) {
    return norm(g.to_xyz({u.lane_position.s(), 0., 0.}) - centre) < slack;
  };
  bool in_some = false, maybe_some = false;
  for (size_t k = 0; k < phases.size(); ++k) {
    const rt::Phase& phase = route.Get(static_cast<int>(k));
    const auto y = phase.FindPhasePosition(rp);
    in_some = in_some || holds(k, tol - 1e-9) >= 0;
    maybe_some = maybe_some || holds(k, tol + 1e-9) >= 0;
    if (holds(k, tol - 1e-9) >= 0) {
      CHECK(y.lane_s_range_index == holds(k, tol - 1e-9) && there(y), "road-position-lost",
            near->id << " at " << rp.pos << " is found on range " << y.lane_s_range_index << " at " << y.lane_position);
      CHECK(norm(of(y.inertial_position) - of(ip(centre))) < slack, "road-position-off-centre",
            near->id << " at " << rp.pos << " is taken to " << y.inertial_position << ", off the centerline");
    } else if (holds(k, tol + 1e-9) < 0) {
      CHECK(same(y, phase.FindPhasePosition(ip(rq))), "road-position-elsewhere", near->id << " at " << rp.pos);
    }
  }
  const auto y = route.FindRoutePosition(rp);
  if (in_some) {
    CHECK(y.phase_index >= 0 && y.phase_index < route.size(), "position-phase", y.phase_index);
    CHECK(holds(y.phase_index, tol + 1e-9) == y.phase_position_result.lane_s_range_index &&
              there(y.phase_position_result),
          "road-position-lost",
          "route: " << near->id << " at " << rp.pos << " is found in phase " << y.phase_index << " range "
                    << y.phase_position_result.lane_s_range_index);
    pbt::label("road position in the route");
  } else if (!maybe_some) {
    const auto z = route.FindRoutePosition(ip(rq));
    CHECK(y.phase_index == z.phase_index && same(y.phase_position_result, z.phase_position_result),
          "road-position-elsewhere", "route: " << near->id << " at " << rp.pos);
    pbt::label("road position out of the route");
  }
}

namespace {

struct At {
  int phase, range;
};

// The relations of b with respect to a which may be reported.
std::set<Rel> Relations(const Built& b, const At& x, const At& y) {
  const auto& phases = b.spec.phases;
  if (std::abs(x.phase - y.phase) > 1) return {Rel::kUnrelated};
  const PhaseSpec& p = phases[x.phase];
  const PhaseSpec& q = phases[y.phase];
  if (x.phase == y.phase) {
    const int d = (y.range - x.range) * (p.with_s() ? 1 : -1);
    if (d == 0) return {Rel::kCoincident};
    return {d == 1 ? Rel::kAdjacentLeft : d > 1 ? Rel::kLeft : d == -1 ? Rel::kAdjacentRight : Rel::kRight};
  }
  const bool ahead = y.phase > x.phase;
  const double sa = ahead ? p.s1(x.range) : p.s0(x.range), sb = ahead ? q.s0(y.range) : q.s1(y.range);
  const V3 pa = p.lane(x.range).geom.to_xyz({sa, 0., 0.}), pb = q.lane(y.range).geom.to_xyz({sb, 0., 0.});
  const double distance = norm(pb - pa), tol = b.road.spec.linear_tolerance;
  std::set<Rel> r;
  if (distance <= tol + 1e-7) r.insert(ahead ? Rel::kSucceedingStraight : Rel::kPrecedingStraight);
  if (distance >= tol - 1e-7) {
    V3 xs, xr, xh;
    p.lane(x.range).geom.axes(sa, &xs, &xr, &xh);
    const double left = dot(xr, pb - pa) * (p.with_s() ? 1. : -1.);
    if (left > -1e-6 * distance) r.insert(ahead ? Rel::kSucceedingLeft : Rel::kPrecedingLeft);
    if (left < 1e-6 * distance) r.insert(ahead ? Rel::kSucceedingRight : Rel::kPrecedingRight);
  }
  return r;
}

// Where a range of the road may be found in the route, within the tolerance.
std::vector<At> Places(const Built& b, const std::string& lane, double s0, double s1, double margin) {
  std::vector<At> r;
  for (size_t k = 0; k < b.spec.phases.size(); ++k) {
    const PhaseSpec& p = b.spec.phases[k];
    for (int i = 0; i < p.size(); ++i) {
      const double a = std::min(p.s0(i), p.s1(i)) - margin, z = std::max(p.s0(i), p.s1(i)) + margin;
      if (p.lane(i).id == lane && std::min(s0, s1) >= a && std::max(s0, s1) <= z) r.push_back({static_cast<int>(k), i});
    }
  }
  return r;
}

}  // namespace

PROBE(P11, relations, 60000, 1500000) {
  const auto b = Make(src);
  const rt::Route route = MakeRouteOf(*b);
  const auto& phases = b->spec.phases;
  const double tol = b->road.spec.linear_tolerance;
  struct Query {
    LaneSRange range;
    std::vector<At> sure, maybe;
  };
  auto query = [&]() {
    std::string lane = "none";
    double s0 = 0., s1 = 1.;
    if (src.b(7, 8)) {
      const size_t k = src.idx(phases.size());
      const int i = static_cast<int>(src.idx(phases[k].size()));
      lane = phases[k].lane(i).id;
      s0 = phases[k].s0(i);
      s1 = phases[k].s1(i);
      switch (src.weighted({4, 2, 1, 1, 1})) {
        case 1: {
          const double a = src.real(0., 1.), z = src.real(0., 1.);
          const double u = s0 + a * (s1 - s0), v = s0 + z * (s1 - s0);
          s0 = u;
          s1 = v;
          break;
        }
        case 2:
          std::swap(s0, s1);
          break;
        case 3:
          s1 = s1 + (s1 > s0 ? 1. : -1.) * src.pick(std::vector<double>{tol * 0.5, tol * 2.});
          s1 = std::max(0., s1);
          break;
        case 4:
          s0 = s1 = src.real(0., 1.) * phases[k].lane(i).geom.length;
          break;
        default:
          break;
      }
    } else if (src.b()) {
      const auto lanes = b->road.spec.lanes();
      lane = lanes[src.idx(lanes.size())]->id;
    }
    return Query{LaneSRange(LaneId(lane), SRange(s0, s1)), Places(*b, lane, s0, s1, tol - 1e-9),
                 Places(*b, lane, s0, s1, tol + 1e-9)};
  };
  const int rounds = 6;
  for (int round = 0; round < rounds; ++round) {
    const Query x = query(), y = query();
    std::set<Rel> allowed;
    if (x.sure.empty() || y.sure.empty()) allowed.insert(Rel::kUnknown);
    for (const At& u : x.maybe)
      for (const At& v : y.maybe) {
        const auto r = Relations(*b, u, v);
        allowed.insert(r.begin(), r.end());
      }
    Rel got{};
    MUST_NOT_THROW("relation-throws", got = route.ComputeLaneSRangeRelation(x.range, y.range), "");
    std::ostringstream os;
    for (Rel r : allowed) os << r << " ";
    CHECK(allowed.count(got), "relation-wrong",
          y.range.lane_id().string() << " " << y.range.s_range().s0() << ">" << y.range.s_range().s1() << " is " << got
                                     << " of " << x.range.lane_id().string() << " " << x.range.s_range().s0() << ">"
                                     << x.range.s_range().s1() << ", not " << os.str());
    pbt::label(rt::LaneSRangeRelationMapper().at(got));
  }
}

PROBE(P11, lane_s_routes, 60000, 1500000) {
  const auto b = Make(src);
  const rt::Route route = MakeRouteOf(*b);
  const auto& phases = b->spec.phases;
  const double tol = b->road.spec.linear_tolerance;
  const int last = static_cast<int>(phases.size()) - 1;
  // Whether range j of phase k is straight ahead of range i of the phase before.
  auto straight = [&](int k, int i, int j) { return Relations(*b, {k - 1, i}, {k, j}); };
  auto maybe_straight = [&](int k, int i, int j) { return straight(k, i, j).count(Rel::kSucceedingStraight) > 0; };
  auto surely_straight = [&](int k, int i, int j) { return maybe_straight(k, i, j) && straight(k, i, j).size() == 1; };
  for (int round = 0; round < 3; ++round) {
    const auto lanes = b->road.spec.lanes();
    const LaneSpec* l = nullptr;
    double s = 0.;
    if (src.b(4, 5)) {
      const size_t k = src.idx(phases.size());
      const int i = static_cast<int>(src.idx(phases[k].size()));
      l = &phases[k].lane(i);
      s = phases[k].s0(i) + src.real(0., 1.) * (phases[k].s1(i) - phases[k].s0(i));
    } else {
      l = lanes[src.idx(lanes.size())];
      s = src.real(0., 1.) * l->geom.length;
    }
    const RoadPosition start(b->road.lanes.at(l->id), LanePosition(s, src.b() ? 0. : src.sym(1.), 0.));
    std::vector<At> places = Places(*b, l->id, s, s, tol + 1e-9);
    const bool sure = !Places(*b, l->id, s, s, tol - 1e-9).empty();
    if (!sure) {
      const auto at = route.FindRoutePosition(start);
      places.push_back({at.phase_index, at.phase_position_result.lane_s_range_index});
    }
    NOTE("start on " << l->id << " at " << s);
    std::unique_ptr<LaneSRoute> got;
    MUST_NOT_THROW(sure ? "lane-s-route-throws" : "lane-s-route-throws-outside",
                   got = std::make_unique<LaneSRoute>(route.ComputeLaneSRoute(start)), "");
    const auto& ranges = got->ranges();
    std::ostringstream os;
    for (const auto& r : ranges)
      os << r.lane_id().string() << ":" << r.s_range().s0() << ">" << r.s_range().s1() << " ";
    CHECK(!ranges.empty(), "lane-s-route-empty", "");
    auto is = [&](const LaneSRange& r, const At& a) {
      const PhaseSpec& p = phases[a.phase];
      return r.lane_id().string() == p.lane(a.range).id &&
             std::min(r.s_range().s0(), r.s_range().s1()) >= std::min(p.s0(a.range), p.s1(a.range)) - tol &&
             std::max(r.s_range().s0(), r.s_range().s1()) <= std::max(p.s0(a.range), p.s1(a.range)) + tol &&
             (p.with_s() ? r.s_range().s1() >= r.s_range().s0() : r.s_range().s1() <= r.s_range().s0());
    };
    // Some reading of the ranges as places in the route must do.
    std::string why = "no range of the route holds the start";
    size_t depth = 0;
    std::function<bool(std::vector<At>*)> read = [&](std::vector<At>* at) {
      const size_t k = at->size();
      auto note = [&](const std::string& text) {
        if (k >= depth) {
          depth = k;
          why = text;
        }
      };
      if (k == ranges.size()) {
        const At& end = at->back();
        if (end.phase != last || end.range != phases[last].ends[0]) {
          note("it does not end where the route does");
          return false;
        }
        // In each phase, no more hops than needed.
        for (size_t z = k; z-- > 0;) {
          const At& exit = (*at)[z];
          size_t first = z;
          while (first > 0 && (*at)[first - 1].phase == exit.phase) --first;
          z = first;
          if (exit.phase == at->front().phase) break;
          const int hops = std::abs((*at)[first].range - exit.range);
          for (int j = 0; j < phases[exit.phase].size(); ++j)
            for (int i = 0; i < phases[exit.phase - 1].size(); ++i)
              if (surely_straight(exit.phase, i, j) && std::abs(j - exit.range) < hops) {
                note("it switches " + std::to_string(hops) + " lanes in phase " + std::to_string(exit.phase) +
                     ", where " + std::to_string(std::abs(j - exit.range)) + " would do");
                return false;
              }
        }
        return true;
      }
      const At& now = at->back();
      for (int d : {-1, 1}) {
        const At next{now.phase, now.range + d};
        if (next.range < 0 || next.range >= phases[now.phase].size() || !is(ranges[k], next)) continue;
        // No way back within a phase.
        if (k >= 2 && (*at)[k - 2].phase == now.phase && (*at)[k - 2].range == next.range) {
          note("it goes back to a lane of the same phase");
          continue;
        }
        at->push_back(next);
        if (read(at)) return true;
        at->pop_back();
      }
      if (now.phase < last) {
        for (int j = 0; j < phases[now.phase + 1].size(); ++j) {
          const At next{now.phase + 1, j};
          if (!is(ranges[k], next) || !maybe_straight(next.phase, now.range, j)) continue;
          at->push_back(next);
          if (read(at)) return true;
          at->pop_back();
        }
      }
      note("range " + std::to_string(k) + " is not next to the one before");
      return false;
    };
    bool ok = false;
    for (const At& place : places) {
      if (!is(ranges[0], place)) continue;
      std::vector<At> at{place};
      ok = ok || read(&at);
    }
    CHECK(ok, sure ? "lane-s-route-wrong" : "lane-s-route-wrong-outside",
          os.str() << "from " << l->id << " at " << s << ": " << why);
    pbt::label(ranges.size() > 3 ? "long" : ranges.size() > 1 ? "short" : "one range");
    if (!sure) pbt::label("start out of the route");
  }
}

PROBE(P11, connectivity, 40000, 800000) {
  const auto b = Make(src);
  const auto& specs = b->spec.phases;
  const double tol = b->road.spec.linear_tolerance;
  struct Ends {
    std::vector<RoadPosition> starts, ends;
  };
  std::vector<Ends> at;
  for (const PhaseSpec& p : specs) at.push_back({Positions(*b, p, true), Positions(*b, p, false)});
  auto errors = [&]() {
    std::vector<rt::Phase> phases;
    for (size_t k = 0; k < specs.size(); ++k)
      phases.emplace_back(static_cast<int>(k), b->spec.tolerance, at[k].starts, at[k].ends, Ranges(specs[k]),
                          b->network.get());
    return rt::Route(phases, b->network.get()).ValidateEndToEndConnectivity();
  };
  CHECK(errors().empty(), "connected-route-refused", pbt::join(errors()));
  const size_t k = src.idx(specs.size());
  const PhaseSpec& p = specs[k];
  auto lane = [&](const PhaseSpec& q, int i) { return b->road.lanes.at(q.lane(i).id); };
  switch (src.idx(5)) {
    case 0: {
      const int i = static_cast<int>(src.idx(specs.front().size()));
      at.front().starts.emplace_back(lane(specs.front(), i), LanePosition(specs.front().s0(i), 0., 0.));
      CHECK(!errors().empty(), "two-starts-accepted", "");
      pbt::label("two starts");
      break;
    }
    case 1: {
      const int i = static_cast<int>(src.idx(specs.back().size()));
      at.back().ends.emplace_back(lane(specs.back(), i), LanePosition(specs.back().s1(i), 0., 0.));
      CHECK(!errors().empty(), "two-ends-accepted", "");
      pbt::label("two ends");
      break;
    }
    case 2: {  // Different numbers of positions at a joint.
      if (k + 1 == specs.size()) break;
      auto& list = src.b() ? at[k].ends : at[k + 1].starts;
      if (list.size() < 2) {
        list.push_back(list.front());
      } else {
        list.erase(list.begin() + src.idx(list.size()));
      }
      CHECK(!errors().empty(), "joint-count-accepted",
            at[k].ends.size() << " ends, " << at[k + 1].starts.size() << " starts");
      pbt::label("counts");
      break;
    }
    case 3: {  // A position off the joint.
      if (k + 1 == specs.size()) break;
      const bool end = src.b();
      auto& list = end ? at[k].ends : at[k + 1].starts;
      const PhaseSpec& q = end ? p : specs[k + 1];
      const size_t j = src.idx(list.size());
      const int i = end ? q.ends[j] : q.starts[j];
      const double length = std::fabs(q.s1(i) - q.s0(i));
      const bool little = src.b();
      const double off = little ? src.real(0., 0.5) * tol : std::max(3. * tol, src.real(0., 1.) * length);
      if (off > length) break;
      const double to = end ? q.s1(i) + (q.s0(i) > q.s1(i) ? off : -off) : q.s0(i) + (q.s1(i) > q.s0(i) ? off : -off);
      list[j] = RoadPosition(list[j].lane, LanePosition(to, 0., 0.));
      // Still at the joint, on a lane which bends back?
      const V3 before = q.lane(i).geom.to_xyz({end ? q.s1(i) : q.s0(i), 0., 0.}),
               now = q.lane(i).geom.to_xyz({to, 0., 0.});
      if (little) {
        CHECK(errors().empty(), "close-joint-refused", "off by " << off << ": " << pbt::join(errors()));
      } else if (norm(now - before) > 2. * tol) {
        CHECK(!errors().empty(), "far-joint-accepted", "off by " << off);
      }
      pbt::label(little ? "close joint" : "far joint");
      break;
    }
    default: {  // A position on another lane.
      if (k + 1 == specs.size() || p.size() < 2) break;
      auto& list = at[k].ends;
      const size_t j = src.idx(list.size());
      const int i = static_cast<int>(src.idx(p.size()));
      const V3 now = p.lane(i).geom.to_xyz({p.s1(i), 0., 0.});
      bool meets = false;
      for (int y : specs[k + 1].starts)
        meets = meets || norm(now - specs[k + 1].lane(y).geom.to_xyz({specs[k + 1].s0(y), 0., 0.})) < 3. * tol;
      if (meets) break;
      list[j] = RoadPosition(lane(p, i), LanePosition(p.s1(i), 0., 0.));
      CHECK(!errors().empty(), "unconnected-lane-accepted", p.lane(i).id);
      pbt::label("another lane");
      break;
    }
  }
}
