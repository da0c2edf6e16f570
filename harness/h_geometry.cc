// P04 road graph, P05 invariant checker, P06 longitudinal regions, P07 route sampling and contiguity, P32 lane frames.
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <optional>
#include <set>

#include "frames.h"
#include "maliput/api/compare.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/regions.h"
#include "maliput/api/road_geometry.h"
#include "maliput/math/vector.h"
#include "network.h"
#include "testroad.h"
#include "walks.h"

using namespace tr;
using api::LaneEnd;
using api::LaneId;
using api::LaneSRange;
using api::LaneSRoute;
using api::SRange;
using maliput::math::Vector3;

PBT_RULE(
    P04,
    "Random graph-building histories (junctions, segments, lanes and branch points added in interleaved order, "
    "attached before or after their parent joins the road, defaults set and replaced, invalid additions in between) "
    "compared with a model after the history. Non-trivial: at least two segments, three lanes and one branch point "
    "with ends on both sides.");
PBT_RULE(
    P05,
    "Random smooth connected roads, then zero or more injected inconsistencies (moved, turned, tilted or wrongly "
    "sided lane ends, empty branch points, lying back-pointers). Non-trivial: at least one branch point joins two or "
    "more lane ends.");
PBT_RULE(
    P06,
    "Random ranges, range lists and tolerances on a coarse lattice and off it; points near lanes. Non-trivial: two "
    "ranges of the same lane are compared, or a point is tested against several ranges.");
PBT_RULE(P07,
         "Random end-to-end routes over random connected roads, in both directions over each lane, and sampling steps. "
         "Non-trivial: the route has two or more ranges and three or more samples, or a contiguity question on two "
         "lanes.");
PBT_RULE(
    P32,
    "Random lanes (straight, tilted, curved, tapered) under random frame translations, with positions inside, on and "
    "outside their bounds. Non-trivial: the translation is not zero, or the position is within a few tolerances of "
    "some bound.");

namespace {

std::pair<std::string, bool> Key(const LaneEnd& e) { return {e.lane->id().string(), e.end == LaneEnd::kStart}; }
std::string Str(const std::pair<std::string, bool>& k) { return k.first + (k.second ? "[start]" : "[finish]"); }

std::vector<std::pair<std::string, bool>> Ends(const api::LaneEndSet* set) {
  std::vector<std::pair<std::string, bool>> r;
  for (int k = 0; k < set->size(); ++k) r.push_back(Key(set->get(k)));
  return r;
}

template <typename T>
std::string Join(const T& v) {
  std::string r;
  for (const auto& k : v) r += Str(k) + " ";
  return r;
}

}  // namespace

// ---------------------------------------------------------------- P04

PROBE(P04, build_history, 60000, 900000) {
  struct MLane {
    std::string id, segment;
    int index;
    TLane* lane;
    std::array<int, 2> bp{-1, -1};  // start, finish
    std::array<bool, 2> a{true, true};
  };
  struct MSegment {
    std::string id;
    int junction{-1};  // -1: not in a junction yet.
    TSegment* raw;
    std::unique_ptr<TSegment> own;
    std::vector<int> lanes;
  };
  struct MJunction {
    std::string id;
    bool in_road{false};
    TJunction* raw;
    std::unique_ptr<TJunction> own;
    std::vector<int> segments;
  };
  struct MBranch {
    std::string id;
    bool in_road{false};
    TBranchPoint* raw;
    std::unique_ptr<TBranchPoint> own;
    std::vector<std::pair<int, bool>> a, b;  // lane number, is start; in order of addition.
    std::map<std::pair<int, bool>, std::pair<int, bool>> defaults;
  };
  const double lin = src.pick(std::vector<double>{1e-6, 1e-3, 0.1}),
               ang = src.pick(std::vector<double>{1e-6, 1e-3, 0.1});
  const double scale = src.pick(std::vector<double>{1., 0.5, 10.});
  const V3 translation{src.sym(100.), src.sym(100.), src.sym(100.)};
  auto rg = std::make_unique<TRoadGeometry>(api::RoadGeometryId("the_road"), lin, ang, scale,
                                            Vector3(translation.x, translation.y, translation.z));
  std::vector<MLane> lanes;
  std::vector<MSegment> segments;
  std::vector<MJunction> junctions;
  std::vector<MBranch> branches;
  std::vector<int> road_junctions, road_branches;
  const std::vector<std::string> suffix{"", "_0", ".a", " "};
  auto fresh = [&](const char* prefix, size_t n) { return prefix + std::to_string(n) + src.pick(suffix); };

  const int steps = static_cast<int>(src.i(4, src.b(1, 3) ? 60 : 180));
  for (int step = 0; step < steps; ++step) {
    switch (src.weighted({2, 3, 3, 6, 4, 2, 3, 10, 5, 2, 1})) {
      case 0: {
        MJunction j;
        j.id = fresh("j", junctions.size());
        j.own = std::make_unique<TJunction>(api::JunctionId(j.id));
        j.raw = j.own.get();
        junctions.push_back(std::move(j));
        break;
      }
      case 1: {
        MSegment s;
        s.id = fresh("s", segments.size());
        s.own = std::make_unique<TSegment>(api::SegmentId(s.id));
        s.raw = s.own.get();
        segments.push_back(std::move(s));
        break;
      }
      case 2: {
        if (junctions.empty()) break;
        const int k = static_cast<int>(src.idx(junctions.size()));
        MJunction& j = junctions[k];
        if (j.in_road) break;
        CHECK(rg->AddJunction(std::move(j.own)) == j.raw, "graph-return", "AddJunction returns another object");
        j.in_road = true;
        road_junctions.push_back(k);
        break;
      }
      case 3: {
        if (segments.empty()) break;
        const int k = static_cast<int>(src.idx(segments.size()));
        MSegment& s = segments[k];
        MLane l;
        l.id = fresh("l", lanes.size());
        l.index = static_cast<int>(s.lanes.size());
        l.segment = s.id;
        LaneGeom g;
        g.length = 1. + static_cast<double>(lanes.size());
        l.lane = s.raw->AddLane(std::make_unique<TLane>(LaneId(l.id), g));
        s.lanes.push_back(static_cast<int>(lanes.size()));
        lanes.push_back(l);
        break;
      }
      case 4: {
        if (segments.empty() || junctions.empty()) break;
        const int k = static_cast<int>(src.idx(segments.size()));
        MSegment& s = segments[k];
        if (s.junction >= 0) break;
        s.junction = static_cast<int>(src.idx(junctions.size()));
        CHECK(junctions[s.junction].raw->AddSegment(std::move(s.own)) == s.raw, "graph-return",
              "AddSegment returns another object");
        junctions[s.junction].segments.push_back(k);
        break;
      }
      case 5: {
        MBranch b;
        b.id = fresh("b", branches.size());
        b.own = std::make_unique<TBranchPoint>(api::BranchPointId(b.id));
        b.raw = b.own.get();
        branches.push_back(std::move(b));
        break;
      }
      case 6: {
        if (branches.empty()) break;
        const int k = static_cast<int>(src.idx(branches.size()));
        MBranch& b = branches[k];
        if (b.in_road) break;
        CHECK(rg->AddBranchPoint(std::move(b.own)) == b.raw, "graph-return", "AddBranchPoint returns another object");
        b.in_road = true;
        road_branches.push_back(k);
        break;
      }
      case 7: {  // Attach an end; an end which is attached already must be refused, changing nothing.
        if (branches.empty() || lanes.empty()) break;
        const int k = static_cast<int>(src.idx(branches.size()));
        int n = static_cast<int>(src.idx(lanes.size()));
        const bool start = src.b(), a = src.b();
        // Mostly free ends.
        for (int t = 0; t < 4 && lanes[n].bp[start ? 0 : 1] >= 0; ++t) n = static_cast<int>(src.idx(lanes.size()));
        MBranch& b = branches[k];
        MLane& l = lanes[n];
        const auto which = start ? LaneEnd::kStart : LaneEnd::kFinish;
        const auto add = [&]() { a ? b.raw->AddABranch(l.lane, which) : b.raw->AddBBranch(l.lane, which); };
        if (l.bp[start ? 0 : 1] >= 0) {
          pbt::label("reattach refused");
          MUST_THROW("graph-double-attach", add(),
                     l.id << (start ? " start" : " finish") << " is attached to " << branches[l.bp[start ? 0 : 1]].id
                          << " already");
        } else {
          MUST_NOT_THROW("graph-attach", add(), l.id);
          l.bp[start ? 0 : 1] = k;
          l.a[start ? 0 : 1] = a;
          (a ? b.a : b.b).push_back({n, start});
        }
        break;
      }
      case 8: {  // Defaults: only between opposite sides of the same branch point.
        if (branches.empty() || lanes.empty()) break;
        const int k = static_cast<int>(src.idx(branches.size()));
        MBranch& b = branches[k];
        const bool inside = src.b(3, 4) && !(b.a.empty() && b.b.empty());
        std::vector<std::pair<int, bool>> all = b.a;
        all.insert(all.end(), b.b.begin(), b.b.end());
        auto pick = [&]() -> std::pair<int, bool> {
          if (inside) return all[src.idx(all.size())];
          return {static_cast<int>(src.idx(lanes.size())), src.b()};
        };
        const auto from = pick(), to = pick();
        const bool fa = std::count(b.a.begin(), b.a.end(), from) > 0, fb = std::count(b.b.begin(), b.b.end(), from) > 0;
        const bool ta = std::count(b.a.begin(), b.a.end(), to) > 0, tb = std::count(b.b.begin(), b.b.end(), to) > 0;
        const LaneEnd le(lanes[from.first].lane, from.second ? LaneEnd::kStart : LaneEnd::kFinish);
        const LaneEnd de(lanes[to.first].lane, to.second ? LaneEnd::kStart : LaneEnd::kFinish);
        if ((fa && tb) || (fb && ta)) {
          MUST_NOT_THROW("graph-default", b.raw->SetDefault(le, de), b.id);
          b.defaults[from] = to;
          pbt::label("default set");
        } else {
          MUST_THROW("graph-bad-default", b.raw->SetDefault(le, de),
                     Str({lanes[from.first].id, from.second})
                         << " -> " << Str({lanes[to.first].id, to.second}) << " at " << b.id);
        }
        break;
      }
      case 9: {  // Null additions.
        switch (src.i(0, 4)) {
          case 0:
            MUST_THROW("graph-null", rg->AddJunction(std::unique_ptr<TJunction>()), "null junction");
            break;
          case 1:
            MUST_THROW("graph-null", rg->AddBranchPoint(std::unique_ptr<TBranchPoint>()), "null branch point");
            break;
          case 2:
            if (!segments.empty())
              MUST_THROW("graph-null", segments[src.idx(segments.size())].raw->AddLane(std::unique_ptr<TLane>()),
                         "null lane");
            break;
          case 3:
            if (!junctions.empty())
              MUST_THROW("graph-null",
                         junctions[src.idx(junctions.size())].raw->AddSegment(std::unique_ptr<TSegment>()),
                         "null segment");
            break;
          default:
            if (!branches.empty())
              MUST_THROW("graph-null", branches[src.idx(branches.size())].raw->AddABranch(nullptr, LaneEnd::kStart),
                         "null lane end");
        }
        break;
      }
      default:
        break;
    }
  }
  if (pbt::noting()) {
    for (const auto& s : segments)
      NOTE(s.id << " in junction " << s.junction << " with " << s.lanes.size() << " lanes");
    for (const auto& b : branches) NOTE(b.id << " road=" << b.in_road << " a=" << b.a.size() << " b=" << b.b.size());
  }

  // Compare everything with the model.
  CHECK(rg->id().string() == "the_road", "graph-id", rg->id().string());
  CHECK(rg->linear_tolerance() == lin && rg->angular_tolerance() == ang && rg->scale_length() == scale, "graph-scalars",
        rg->linear_tolerance() << " " << rg->angular_tolerance() << " " << rg->scale_length());
  const Vector3 t = rg->inertial_to_backend_frame_translation();
  CHECK(t.x() == translation.x && t.y() == translation.y && t.z() == translation.z, "graph-translation", t);
  CHECK(rg->num_junctions() == static_cast<int>(road_junctions.size()), "graph-count",
        "junctions " << rg->num_junctions());
  CHECK(rg->num_branch_points() == static_cast<int>(road_branches.size()), "graph-count",
        "branch points " << rg->num_branch_points());
  std::set<std::string> road_lanes, road_segments;
  size_t n_segments = 0;
  for (size_t k = 0; k < road_junctions.size(); ++k) {
    const MJunction& j = junctions[road_junctions[k]];
    const api::Junction* jp = rg->junction(static_cast<int>(k));
    CHECK(jp == j.raw, "graph-order", "junction " << k << " is not " << j.id);
    CHECK(jp->id().string() == j.id && jp->road_geometry() == rg.get(), "graph-junction", j.id);
    CHECK(jp->num_segments() == static_cast<int>(j.segments.size()), "graph-count", j.id << " segments");
    CHECK(rg->ById().GetJunction(api::JunctionId(j.id)) == jp, "graph-index-junction", j.id);
    for (size_t m = 0; m < j.segments.size(); ++m) {
      const MSegment& s = segments[j.segments[m]];
      const api::Segment* sp = jp->segment(static_cast<int>(m));
      ++n_segments;
      road_segments.insert(s.id);
      CHECK(sp == s.raw, "graph-order", "segment " << m << " of " << j.id);
      CHECK(sp->id().string() == s.id && sp->junction() == jp, "graph-segment", s.id);
      CHECK(sp->num_lanes() == static_cast<int>(s.lanes.size()), "graph-count", s.id << " lanes");
      CHECK(rg->ById().GetSegment(api::SegmentId(s.id)) == sp, "graph-index-segment", s.id);
      for (size_t i = 0; i < s.lanes.size(); ++i) {
        const MLane& l = lanes[s.lanes[i]];
        road_lanes.insert(l.id);
        const api::Lane* lp = sp->lane(static_cast<int>(i));
        CHECK(lp == l.lane, "graph-order", "lane " << i << " of " << s.id);
        CHECK(rg->ById().GetLane(LaneId(l.id)) == lp, "graph-index-lane", l.id);
      }
      MUST_THROW("graph-out-of-range", sp->lane(sp->num_lanes()), s.id);
      MUST_THROW("graph-out-of-range", sp->lane(-1), s.id);
    }
    MUST_THROW("graph-out-of-range", jp->segment(jp->num_segments()), j.id);
    MUST_THROW("graph-out-of-range", jp->segment(-1), j.id);
  }
  MUST_THROW("graph-out-of-range", rg->junction(rg->num_junctions()), "junction");
  MUST_THROW("graph-out-of-range", rg->branch_point(rg->num_branch_points()), "branch point");
  MUST_THROW("graph-out-of-range", rg->junction(-1), "junction");
  const auto& index = rg->ById().GetLanes();
  CHECK(index.size() == road_lanes.size(), "graph-index-lanes",
        index.size() << " indexed, " << road_lanes.size() << " in the road");
  for (const auto& kv : index)
    CHECK(road_lanes.count(kv.first.string()) && kv.second->id() == kv.first, "graph-index-lanes", kv.first.string());
  // Lanes and adjacency, in or out of the road.
  for (const MSegment& s : segments)
    for (size_t i = 0; i < s.lanes.size(); ++i) {
      const MLane& l = lanes[s.lanes[i]];
      CHECK(l.lane->id().string() == l.id && l.lane->segment() == s.raw, "graph-lane", l.id);
      CHECK(l.lane->index() == static_cast<int>(i), "graph-lane-index", l.id << " " << l.lane->index());
      CHECK(l.lane->to_right() == (i == 0 ? nullptr : lanes[s.lanes[i - 1]].lane), "graph-right", l.id);
      CHECK(l.lane->to_left() == (i + 1 == s.lanes.size() ? nullptr : lanes[s.lanes[i + 1]].lane), "graph-left", l.id);
      if (!road_lanes.count(l.id))
        CHECK(rg->ById().GetLane(LaneId(l.id)) == nullptr, "graph-index-stray", l.id << " is not in the road");
    }
  for (const MSegment& s : segments)
    if (!road_segments.count(s.id))
      CHECK(rg->ById().GetSegment(api::SegmentId(s.id)) == nullptr, "graph-index-stray", s.id);
  for (const MJunction& j : junctions)
    if (!j.in_road) CHECK(rg->ById().GetJunction(api::JunctionId(j.id)) == nullptr, "graph-index-stray", j.id);
  // Branch points.
  auto key = [&](const std::pair<int, bool>& e) { return std::make_pair(lanes[e.first].id, e.second); };
  auto keys = [&](const std::vector<std::pair<int, bool>>& v) {
    std::vector<std::pair<std::string, bool>> r;
    for (const auto& e : v) r.push_back(key(e));
    return r;
  };
  auto same = [](std::vector<std::pair<std::string, bool>> x, std::vector<std::pair<std::string, bool>> y) {
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    return x == y;
  };
  bool two_sided = false;
  for (size_t k = 0; k < road_branches.size(); ++k) {
    const MBranch& b = branches[road_branches[k]];
    CHECK(rg->branch_point(static_cast<int>(k)) == b.raw, "graph-order", "branch point " << k);
    CHECK(b.raw->road_geometry() == rg.get(), "graph-branch-road", b.id);
    CHECK(rg->ById().GetBranchPoint(api::BranchPointId(b.id)) == b.raw, "graph-index-branch", b.id);
  }
  for (const MBranch& b : branches) {
    CHECK(b.raw->id().string() == b.id, "graph-branch", b.id);
    if (!b.in_road) CHECK(rg->ById().GetBranchPoint(api::BranchPointId(b.id)) == nullptr, "graph-index-stray", b.id);
    two_sided = two_sided || (!b.a.empty() && !b.b.empty());
    CHECK(same(Ends(b.raw->GetASide()), keys(b.a)), "graph-side",
          b.id << " A side: " << Join(Ends(b.raw->GetASide())) << " expected " << Join(keys(b.a)));
    CHECK(same(Ends(b.raw->GetBSide()), keys(b.b)), "graph-side",
          b.id << " B side: " << Join(Ends(b.raw->GetBSide())) << " expected " << Join(keys(b.b)));
    MUST_THROW("graph-out-of-range", b.raw->GetASide()->get(b.raw->GetASide()->size()), b.id);
    for (bool a : {true, false})
      for (const auto& e : a ? b.a : b.b) {
        const api::Lane* lane = lanes[e.first].lane;
        const auto which = e.second ? LaneEnd::kStart : LaneEnd::kFinish;
        CHECK(lane->GetBranchPoint(which) == b.raw, "graph-lane-branch", Str(key(e)));
        CHECK((e.second ? lanes[e.first].lane->mutable_start_branch_point()
                        : lanes[e.first].lane->mutable_finish_branch_point()) == b.raw,
              "graph-lane-branch", Str(key(e)));
        const auto conf = keys(a ? b.a : b.b), ongo = keys(a ? b.b : b.a);
        CHECK(same(Ends(b.raw->GetConfluentBranches({lane, which})), conf), "graph-confluent", Str(key(e)));
        CHECK(same(Ends(b.raw->GetOngoingBranches({lane, which})), ongo), "graph-ongoing", Str(key(e)));
        CHECK(same(Ends(lane->GetConfluentBranches(which)), conf), "graph-confluent", Str(key(e)));
        CHECK(same(Ends(lane->GetOngoingBranches(which)), ongo), "graph-ongoing", Str(key(e)));
        const auto d = b.raw->GetDefaultBranch({lane, which});
        const auto ld = lane->GetDefaultBranch(which);
        const auto it = b.defaults.find(e);
        CHECK(d.has_value() == (it != b.defaults.end()) && ld.has_value() == d.has_value(), "graph-default-presence",
              Str(key(e)));
        if (d.has_value())
          CHECK(Key(*d) == key(it->second) && Key(*ld) == key(it->second), "graph-default-value",
                Str(key(e)) << " -> " << Str(Key(*d)) << ", expected " << Str(key(it->second)));
      }
  }
  for (const MLane& l : lanes)
    for (int e = 0; e < 2; ++e)
      if (l.bp[e] < 0)
        CHECK(l.lane->GetBranchPoint(e == 0 ? LaneEnd::kStart : LaneEnd::kFinish) == nullptr, "graph-lane-branch",
              l.id << " end " << e << " is not attached");
  // Unknown identifiers.
  CHECK(rg->ById().GetLane(LaneId("nowhere")) == nullptr &&
            rg->ById().GetSegment(api::SegmentId("nowhere")) == nullptr &&
            rg->ById().GetJunction(api::JunctionId("nowhere")) == nullptr &&
            rg->ById().GetBranchPoint(api::BranchPointId("nowhere")) == nullptr,
        "graph-index-stray", "unknown identifiers");
  {
    const std::optional<std::string> mismatch = api::CheckIdIndexing(rg.get());
    CHECK(!mismatch, "index-check-false-alarm", mismatch.value_or(""));
  }
  // An index made by walking over the finished road knows the same components.
  if (src.b(1, 2)) {
    api::BasicIdIndex walked;
    walked.WalkAndAddAll(rg.get());
    CHECK(walked.GetLanes() == index, "walk-lanes", walked.GetLanes().size() << " lanes, expected " << index.size());
    for (const auto& kv : index) CHECK(walked.GetLane(kv.first) == kv.second, "walk-lanes", kv.first.string());
    for (const MSegment& s : segments)
      CHECK(walked.GetSegment(api::SegmentId(s.id)) == (road_segments.count(s.id) ? s.raw : nullptr), "walk-segments",
            s.id);
    for (const MJunction& j : junctions)
      CHECK(walked.GetJunction(api::JunctionId(j.id)) == (j.in_road ? j.raw : nullptr), "walk-junctions", j.id);
    for (const MBranch& b : branches)
      CHECK(walked.GetBranchPoint(api::BranchPointId(b.id)) == (b.in_road ? b.raw : nullptr), "walk-branches", b.id);
    if (!road_junctions.empty() || !road_branches.empty())
      MUST_THROW("walk-duplicate", walked.WalkAndAddAll(rg.get()), "every identifier is already there");
    pbt::label("walked");
  }
  if (n_segments >= 2 && road_lanes.size() >= 3 && two_sided) pbt::nontrivial();
  // Identifiers are unique within the road.
  if (!road_junctions.empty() && src.b(1, 2)) {
    const MJunction& j = junctions[road_junctions[src.idx(road_junctions.size())]];
    switch (src.i(0, 3)) {
      case 0:
        MUST_THROW("graph-duplicate", rg->AddJunction(std::make_unique<TJunction>(api::JunctionId(j.id))), j.id);
        break;
      case 1:
        if (!road_segments.empty())
          MUST_THROW("graph-duplicate",
                     j.raw->AddSegment(std::make_unique<TSegment>(api::SegmentId(*road_segments.begin()))), j.id);
        break;
      case 2:
        if (!road_lanes.empty() && !j.segments.empty())
          MUST_THROW(
              "graph-duplicate",
              segments[j.segments[0]].raw->AddLane(std::make_unique<TLane>(LaneId(*road_lanes.rbegin()), LaneGeom{})),
              *road_lanes.rbegin());
        break;
      default:
        if (!road_branches.empty())
          MUST_THROW(
              "graph-duplicate",
              rg->AddBranchPoint(std::make_unique<TBranchPoint>(api::BranchPointId(branches[road_branches[0]].id))),
              branches[road_branches[0]].id);
    }
  }
}

// ---------------------------------------------------------------- P05

namespace {

api::RoadGeometryId OtherId() { return api::RoadGeometryId("other"); }

}  // namespace

PROBE(P05, geometry_faults, 40000, 1200000) {
  ConnectedOptions o;
  o.max_strips = 5;
  RoadSpec spec = ConnectedRoad(src, o);
  spec.linear_tolerance = src.pick(std::vector<double>{1e-5, 1e-3, 1e-2, 0.1});
  spec.angular_tolerance = src.pick(std::vector<double>{1e-5, 1e-3, 1e-2, 0.1});
  spec.translation = src.b() ? V3{src.sym(100.), src.sym(100.), src.sym(10.)} : V3{};
  const int faults = static_cast<int>(src.i(0, 2));
  auto all = [&]() {
    std::vector<LaneSpec*> v;
    for (auto& j : spec.junctions)
      for (auto& s : j.segments)
        for (auto& l : s.lanes) v.push_back(&l);
    return v;
  }();
  std::string what;
  for (int k = 0; k < faults; ++k) {
    LaneSpec* l = all[src.idx(all.size())];
    LaneGeom& g = l->geom;
    // Well above or well below the tolerance.
    const double f =
        src.b(2, 3) ? src.pick(std::vector<double>{1.5, 3., 20., 1000.}) : src.pick(std::vector<double>{0.05, 0.2});
    switch (src.i(0, 6)) {
      case 0: {
        const double d = f * spec.linear_tolerance;
        const int axis = static_cast<int>(src.i(0, 2));
        (axis == 0 ? g.origin.x : axis == 1 ? g.origin.y : g.origin.z) += src.b() ? d : -d;
        what += "move " + l->id + "; ";
        break;
      }
      case 1:
        g.heading += (src.b() ? 1. : -1.) * std::min(f * spec.angular_tolerance, 3.);
        what += "turn " + l->id + "; ";
        break;
      case 2:
        if (g.kappa != 0.) break;
        g.roll += (src.b() ? 1. : -1.) * std::min(f * spec.angular_tolerance, 3.);
        what += "roll " + l->id + "; ";
        break;
      case 3:
        if (g.kappa != 0.) break;
        g.slope += (src.b() ? 1. : -1.) * std::min(f * spec.angular_tolerance, 1.5);
        what += "slope " + l->id + "; ";
        break;
      case 4:
        g.length += f * spec.linear_tolerance;
        what += "stretch " + l->id + "; ";
        break;
      case 5: {
        const bool start = src.b();
        (start ? l->start_a : l->finish_a) ^= true;
        what += "side of " + l->id + "; ";
        break;
      }
      default: {
        int& bp = src.b() ? l->start_bp : l->finish_bp;
        bp = static_cast<int>(src.idx(spec.branch_points.size()));
        what += "rewire " + l->id + "; ";
      }
    }
  }
  spec.defaults.clear();
  if (src.b(1, 3)) {
    // A branch point which nothing leads to, before all others or among them.
    const int at = src.b() ? 0 : static_cast<int>(src.idx(spec.branch_points.size()));
    spec.branch_points.insert(spec.branch_points.begin() + at, "hollow");
    for (LaneSpec* l : all) {
      if (l->start_bp >= at) ++l->start_bp;
      if (l->finish_bp >= at) ++l->finish_bp;
    }
    what += "hollow branch point; ";
  }
  // Expected: closed-form positions and frames of the ends of each branch point against every other end of it.
  struct End {
    std::string lane;
    bool start, a;
    V3 p;
    std::array<V3, 3> out;
  };
  std::vector<std::vector<End>> ends(spec.branch_points.size());
  for (const LaneSpec* l : std::as_const(spec).lanes()) {
    for (bool start : {true, false})
      ends[start ? l->start_bp : l->finish_bp].push_back({l->id, start, start ? l->start_a : l->finish_a,
                                                          l->geom.to_xyz({start ? 0. : l->geom.length, 0., 0.}),
                                                          Out(l->geom, start)});
  }
  // Must be reported: some pair is further apart than twice the tolerance (any reference end shows it). Must be quiet:
  // all pairs are within half the tolerance.
  bool must = false, may = false;
  std::set<std::string> suspects;
  // What has to be named for each branch point: any of these ends, and the last word.
  std::vector<std::vector<std::string>> to_name;
  for (size_t bp = 0; bp < ends.size(); ++bp) {
    const auto& at = ends[bp];
    if (at.empty()) {
      must = may = true;
      to_name.push_back({"BranchPoint " + spec.branch_points[bp] + " ", "empty"});
    }
    bool position = false, orientation = false;
    if (at.size() >= 2) pbt::nontrivial();
    for (const End& x : at)
      for (const End& y : at) {
        const double dp = norm(x.p - y.p);
        const double da = FrameDistance(x.out, x.a == y.a ? y.out : Reverse(y.out));
        // The library's angle comes from acos: noise of some 1e-7 near zero.
        position = position || dp > 2.0001 * spec.linear_tolerance;
        orientation = orientation || da > 2.0001 * spec.angular_tolerance + 1e-6;
        if (dp > 0.9999 * spec.linear_tolerance || da > 0.9999 * spec.angular_tolerance - 1e-6) {
          may = true;
          suspects.insert(x.lane);
        }
      }
    must = must || position || orientation;
    for (const auto& kind : {std::make_pair(position, "position"), std::make_pair(orientation, "orientation")}) {
      if (!kind.first) continue;
      to_name.emplace_back();
      for (const End& x : at) to_name.back().push_back("Lane " + x.lane + (x.start ? "[start" : "[end"));
      to_name.back().push_back(kind.second);
    }
  }
  const Road road = Build(spec);
  const auto failures = road.rg->CheckInvariants();
  NOTE(Describe(spec));
  NOTE("faults: " << what << " tol=" << spec.linear_tolerance << "," << spec.angular_tolerance << " -> "
                  << failures.size() << (failures.empty() ? "" : ": " + failures[0]));
  pbt::label(must ? "inconsistent" : may ? "borderline" : "consistent");
  if (must) CHECK(!failures.empty(), "invariants-missed", "faults: " << what);
  for (const auto& names : to_name) {
    // Every branch point which is at fault is reported, by some end of its own.
    bool named = false;
    for (size_t n = 0; n + 1 < names.size(); ++n)
      for (const std::string& f : failures)
        named = named || (f.find(names[n]) != std::string::npos && f.find(names.back()) != std::string::npos);
    CHECK(named, "invariants-branch-point-missed",
          "nothing tells of " << names[0] << " and " << names.back() << " (faults: " << what << ")");
  }
  if (!may) CHECK(failures.empty(), "invariants-false-alarm", failures[0] << " (faults: " << what << ")");
  for (const std::string& f : failures) {
    bool known = f.find("BranchPoint ") == 0;
    for (const std::string& s : suspects) known = known || f.find("Lane " + s + "[") != std::string::npos;
    CHECK(known, "invariants-wrong-culprit", f);
  }
}

PROBE(P05, single_end_deviation, 40000, 1200000) {
  // One end of one lane of a sound branch point deviates; the deviation decides, with little slack.
  ConnectedOptions o;
  o.max_strips = 4;
  RoadSpec spec = ConnectedRoad(src, o);
  spec.defaults.clear();
  spec.linear_tolerance = src.pick(std::vector<double>{1e-4, 1e-2});
  spec.angular_tolerance = src.pick(std::vector<double>{1e-4, 1e-2});
  // A new lane continuing some end.
  const auto all = std::as_const(spec).lanes();
  const LaneSpec* base = all[src.idx(all.size())];
  const bool at_start = src.b();
  const int bp = at_start ? base->start_bp : base->finish_bp;
  const bool a = !(at_start ? base->start_a : base->finish_a);
  const auto out = Out(base->geom, at_start);
  LaneSpec l;
  l.id = "extra";
  const bool same_side = src.b(1, 3);  // Merges with the base lane instead of continuing it.
  l.start_bp = bp;
  l.start_a = same_side ? !a : a;
  const V3 dir = same_side ? -1. * out[0] : out[0];
  l.geom.origin = base->geom.to_xyz({at_start ? 0. : base->geom.length, 0., 0.});
  // Frame of the new lane at its start: xs = dir.
  l.geom.heading = std::atan2(dir.y, dir.x);
  l.geom.slope = std::asin(std::clamp(dir.z, -1., 1.));
  const V3 want_r = same_side ? -1. * out[1] : out[1];
  V3 xs, xr, xh;
  l.geom.axes(0., &xs, &xr, &xh);
  l.geom.roll = std::atan2(dot(want_r, xh), dot(want_r, xr));
  l.geom.length = src.real(1., 10.);
  const double factor = src.pick(std::vector<double>{0., 0.5, 0.9, 1.1, 2., 50.});
  const int kind = static_cast<int>(src.i(0, 4));
  bool bad = factor > 1.;
  // All the deviations are from the same reference, as long as the others coincide and "extra" is not the first A end.
  switch (kind) {
    case 0: {
      const double u = src.sym(1.), v = src.sym(M_PI);
      const double c = std::sqrt(1. - u * u);
      l.geom.origin = l.geom.origin + (factor * spec.linear_tolerance) * V3{c * std::cos(v), c * std::sin(v), u};
      break;
    }
    case 1:
    case 2:
    case 3: {
      // A rotation about a frame axis by w turns two axes by w: distance sqrt(2) w.
      const double w = (src.b() ? 1. : -1.) * std::min(factor * spec.angular_tolerance / std::sqrt(2.), 1.4);
      if (kind == 1) l.geom.heading += w;
      if (kind == 2) l.geom.roll += w;
      if (kind == 3) l.geom.slope += w;
      // Heading is not a frame axis under tilt.
      if (kind == 1) {
        LaneGeom g0 = l.geom;
        g0.heading -= w;
        std::array<V3, 3> f0, f1;
        g0.axes(0., &f0[0], &f0[1], &f0[2]);
        l.geom.axes(0., &f1[0], &f1[1], &f1[2]);
        const double d = FrameDistance(f0, f1);
        if (std::fabs(d - spec.angular_tolerance) < 0.02 * spec.angular_tolerance) return;
        bad = d > spec.angular_tolerance;
      } else if (kind == 3 && std::fabs(l.geom.roll) > 1e-9) {
        LaneGeom g0 = l.geom;
        g0.slope -= w;
        std::array<V3, 3> f0, f1;
        g0.axes(0., &f0[0], &f0[1], &f0[2]);
        l.geom.axes(0., &f1[0], &f1[1], &f1[2]);
        const double d = FrameDistance(f0, f1);
        if (std::fabs(d - spec.angular_tolerance) < 0.02 * spec.angular_tolerance) return;
        bad = d > spec.angular_tolerance;
      }
      break;
    }
    default:  // On the wrong side.
      l.start_a = !l.start_a;
      bad = true;
  }
  spec.junctions.push_back({"jx", {{"sx", {l}}}});
  spec.branch_points.push_back("bpx");
  spec.junctions.back().segments[0].lanes[0].finish_bp = static_cast<int>(spec.branch_points.size()) - 1;
  spec.translation = src.b() ? V3{src.sym(10.), src.sym(10.), src.sym(10.)} : V3{};
  const Road road = Build(spec);
  const auto failures = road.rg->CheckInvariants();
  NOTE(Describe(spec));
  NOTE("kind " << kind << " factor " << factor << " -> " << failures.size());
  pbt::nontrivial();
  pbt::label(bad ? "deviating" : "within tolerance");
  if (bad)
    CHECK(!failures.empty(), "invariants-missed", "deviation kind " << kind << " of " << factor << " tolerances");
  else
    CHECK(failures.empty(), "invariants-false-alarm",
          failures[0] << " for deviation kind " << kind << " of " << factor);
}

PROBE(P05, structure_faults, 25000, 600000) {
  ConnectedOptions o;
  o.max_strips = 5;
  RoadSpec spec = ConnectedRoad(src, o);
  spec.defaults.clear();
  // Tolerances far above the geometry's noise.
  spec.linear_tolerance = spec.angular_tolerance = 1e-3;
  const int empties = static_cast<int>(src.weighted({3, 1}));
  for (int k = 0; k < empties; ++k) spec.branch_points.push_back("hollow" + std::to_string(k));
  const Road road = Build(spec, true, true);
  const TRoadGeometry other(OtherId(), 1e-3, 1e-3, 1., Vector3(0., 0., 0.));
  std::vector<std::string> culprits;
  for (int k = 0; k < empties; ++k) culprits.push_back("BranchPoint hollow" + std::to_string(k));
  std::vector<FLane*> lanes;
  for (const auto& kv : road.lanes) lanes.push_back(static_cast<FLane*>(kv.second));
  std::map<const FLane*, const FSegment*> owners;
  for (const FLane* l : lanes) owners[l] = static_cast<const FSegment*>(l->claimed_segment);
  std::set<const void*> touched;
  // A spare segment for lanes to claim.
  Road spare;
  {
    RoadSpec s;
    s.id = "spare";
    s.junctions.push_back({"spare_j", {{"spare_s", {{"spare_l", LaneGeom{}}}}}});
    spare = Build(s);
  }
  const int faults = static_cast<int>(src.i(0, 3));
  for (int k = 0; k < faults; ++k) {
    FLane* lane = lanes[src.idx(lanes.size())];
    auto* segment = const_cast<FSegment*>(owners.at(lane));
    switch (src.i(0, 4)) {
      case 0:
        if (!touched.insert(&lane->claimed_index).second) break;
        lane->claimed_index += (src.b() ? 1 : -1) * static_cast<int>(src.b(3, 4) ? 1 : src.i(2, 5));
        culprits.push_back("Lane " + lane->id().string() + " has index");
        break;
      case 1:
        if (!touched.insert(&lane->claimed_segment).second) break;
        lane->claimed_segment = spare.rg->junction(0)->segment(0);
        if (src.b()) {  // Another segment of the same road.
          const api::Segment* claim = owners.at(lanes[src.idx(lanes.size())]);
          if (claim != segment) lane->claimed_segment = claim;
        }
        culprits.push_back("Lane " + lane->id().string() + " is owned");
        break;
      case 2: {
        if (!touched.insert(segment).second) break;
        const api::Junction* const owner = segment->claimed_junction;
        segment->claimed_junction = spare.rg->junction(0);
        if (src.b()) {  // Another junction of the same road.
          const api::Junction* claim = road.rg->junction(static_cast<int>(src.i(0, road.rg->num_junctions() - 1)));
          if (claim != owner) segment->claimed_junction = claim;
        }
        culprits.push_back("Segment " + segment->id().string() + " is owned");
        break;
      }
      case 3: {
        auto* j = const_cast<FJunction*>(static_cast<const FJunction*>(
            road.rg->junction(static_cast<int>(src.idx(static_cast<size_t>(road.rg->num_junctions()))))));
        if (!touched.insert(j).second) break;
        j->claimed_rg = &other;
        culprits.push_back("Junction " + j->id().string() + " is owned");
        break;
      }
      default: {
        auto* b = static_cast<FBranchPoint*>(road.branch_points[src.idx(road.branch_points.size())]);
        if (!touched.insert(b).second) break;
        b->claimed_rg = &other;
        culprits.push_back("BranchPoint " + b->id().string() + " is owned");
      }
    }
  }
  if (road.lanes.size() >= 2) pbt::nontrivial();
  const auto failures = road.rg->CheckInvariants();
  for (const auto& c : culprits) NOTE("fault: " << c);
  pbt::label(culprits.empty() ? "consistent" : "inconsistent");
  CHECK(failures.size() == culprits.size(), "invariants-count",
        failures.size() << " failures for " << culprits.size() << " injected faults"
                        << (failures.empty() ? "" : ": " + failures[0]));
  for (const auto& c : culprits) {
    // The element and its kind are named.
    const std::string name = c.substr(0, c.find(' ', c.find(' ') + 1)) + " ";
    CHECK(std::any_of(failures.begin(), failures.end(),
                      [&](const std::string& f) { return f.find(name) != std::string::npos; }),
          "invariants-culprit", "no failure names " << name);
  }
}

// ---------------------------------------------------------------- P06

namespace {

double Coord(pbt::Src& src) {
  if (src.b(3, 4)) return static_cast<double>(src.i(0, 8));
  return src.real(0., 8.);
}

struct Interval {
  double lo, hi;
};
Interval Of(const SRange& r) { return {std::min(r.s0(), r.s1()), std::max(r.s0(), r.s1())}; }

}  // namespace

PROBE(P06, s_ranges, 300000, 9000000) {
  const double a0 = Coord(src), a1 = Coord(src), b0 = Coord(src), b1 = Coord(src);
  SRange a(a0, a1), b(b0, b1);
  if (src.b(1, 4)) {
    SRange c;
    CHECK(c.s0() == 0. && c.s1() == 0., "range-default", c.s0() << " " << c.s1());
    c.set_s0(a0);
    c.set_s1(a1);
    a = c;
  }
  CHECK(a.s0() == a0 && a.s1() == a1, "range-accessors", a.s0() << " " << a.s1());
  CHECK(a.size() == std::fabs(a1 - a0), "range-size", a.size());
  CHECK(a.WithS() == (a1 > a0), "range-with-s", a0 << " " << a1);
  const double neg = -std::max(1e-300, src.real(0., 5.));
  MUST_THROW("range-negative", SRange(neg, 1.), neg);
  MUST_THROW("range-negative", SRange(1., neg), neg);
  MUST_THROW("range-negative", a.set_s0(neg), neg);
  MUST_THROW("range-negative", a.set_s1(neg), neg);
  CHECK(a.s0() == a0 && a.s1() == a1, "range-negative", "a refused value changed the range");
  const Interval ia = Of(a), ib = Of(b);
  double tol = src.b(1, 3) ? 0. : (src.b() ? src.pick(std::vector<double>{1e-6, 0.1, 0.5, 1.}) : src.real(0., 2.));
  const bool shrink = src.b(1, 3) && tol > 0.;
  if (shrink) {
    tol = -tol;
    const double half = std::min(a.size(), b.size()) / 2.;
    if (-tol > half) {
      if (-tol > half + 1e-9) {
        pbt::label("tolerance too large");
        MUST_THROW("range-shrink", a.Intersects(b, tol), tol);
        MUST_THROW("range-shrink", a.Contains(b, tol), tol);
        MUST_THROW("range-shrink", a.GetIntersection(b, tol), tol);
      }
      return;
    }
  }
  NOTE("a=[" << a0 << "," << a1 << "] b=[" << b0 << "," << b1 << "] tol=" << tol);
  pbt::nontrivial();
  // Gap between the ranges (negative: they overlap by that much), against the tolerance.
  const double gap = std::max(ia.lo, ib.lo) - std::min(ia.hi, ib.hi);
  const double eps = 1e-9;
  for (int order = 0; order < 2; ++order) {
    const SRange& x = order ? b : a;
    const SRange& y = order ? a : b;
    const Interval ix = order ? ib : ia, iy = order ? ia : ib;
    const bool got = x.Intersects(y, tol);
    if (gap < tol - eps || (gap == tol && tol == 0.))
      CHECK(got, "range-intersects", "gap " << gap << " tolerance " << tol);
    if (gap > tol + eps) CHECK(!got, "range-intersects", "gap " << gap << " tolerance " << tol);
    const bool contains = x.Contains(y, tol);
    const double slack = std::min(iy.lo - ix.lo, ix.hi - iy.hi) + tol;
    if (slack > eps || (slack == 0. && tol == 0.)) CHECK(contains, "range-contains", "slack " << slack);
    if (slack < -eps) CHECK(!contains, "range-contains", "slack " << slack);
    const auto cut = x.GetIntersection(y, tol);
    CHECK(cut.has_value() == got, "range-intersection-presence", "Intersects says " << got);
    if (cut.has_value()) {
      // The exact overlap, each end being off by the tolerance at most.
      const double lo = std::max(ix.lo, iy.lo), hi = std::min(ix.hi, iy.hi);
      const double t = std::fabs(tol) + eps;
      CHECK(std::fabs(cut->s0() - lo) <= t && std::fabs(cut->s1() - hi) <= t, "range-intersection",
            "got [" << cut->s0() << "," << cut->s1() << "], overlap is [" << lo << "," << hi << "]");
      if (tol == 0.)
        CHECK(cut->s0() == lo && cut->s1() == hi, "range-intersection",
              "got [" << cut->s0() << "," << cut->s1() << "], overlap is [" << lo << "," << hi << "]");
    }
    // On lanes.
    const LaneSRange lx(LaneId("a"), x), ly(LaneId("a"), y), lz(LaneId("b"), y);
    CHECK(lx.Intersects(ly, tol) == got, "lane-range-intersects", got);
    CHECK(lx.Contains(ly, tol) == contains, "lane-range-contains", contains);
    CHECK(!lx.Intersects(lz, tol) && !lx.Contains(lz, tol) && !lx.GetIntersection(lz, tol).has_value(),
          "lane-range-other-lane", "ranges of different lanes are related");
    const auto lcut = lx.GetIntersection(ly, tol);
    CHECK(lcut.has_value() == got, "lane-range-intersection", got);
    if (lcut.has_value())
      CHECK(lcut->lane_id() == LaneId("a") && lcut->s_range().s0() == cut->s0() && lcut->s_range().s1() == cut->s1(),
            "lane-range-intersection", lcut->lane_id().string());
    CHECK(lx.length() == x.size() && lx.lane_id() == LaneId("a") && lx.s_range().s0() == x.s0(), "lane-range",
          "accessors");
  }
}

PROBE(P06, routes, 100000, 3000000) {
  const int n_lanes = static_cast<int>(src.i(1, 4));
  auto route = [&]() {
    std::vector<LaneSRange> r;
    for (int k = static_cast<int>(src.i(0, 5)); k > 0; --k)
      r.emplace_back(LaneId("l" + std::to_string(src.idx(static_cast<size_t>(n_lanes)))),
                     SRange(Coord(src), Coord(src)));
    return r;
  };
  const auto ra = route(), rb = route();
  const LaneSRoute a(ra), b(rb);
  const double tol = src.b() ? 0. : src.real(0., 1.);
  bool want = false, close_call = false;
  double length = 0.;
  size_t same_lane = 0;
  for (const auto& x : ra) {
    length += std::fabs(x.s_range().s1() - x.s_range().s0());
    for (const auto& y : rb) {
      if (x.lane_id() != y.lane_id()) continue;
      ++same_lane;
      const Interval ix = Of(x.s_range()), iy = Of(y.s_range());
      const double gap = std::max(ix.lo, iy.lo) - std::min(ix.hi, iy.hi);
      if (tol != 0. && std::fabs(gap - tol) < 1e-9) close_call = true;
      if (gap <= tol) want = true;
    }
  }
  if (same_lane >= 2) pbt::nontrivial();
  NOTE(ra.size() << " and " << rb.size() << " ranges on " << n_lanes << " lanes, tol " << tol << " -> " << want);
  CHECK(std::fabs(a.length() - length) < 1e-9, "route-length", a.length() << " expected " << length);
  CHECK(a.ranges().size() == ra.size(), "route-ranges", a.ranges().size());
  if (close_call) return;
  CHECK(a.Intersects(b, tol) == want, "route-intersects", "expected " << want);
  CHECK(b.Intersects(a, tol) == want, "route-intersects", "expected " << want << " (swapped)");
}

PROBE(P06, included, 40000, 1200000) {
  RoadSpec spec = ScatteredRoad(src, 20., 4, 3);
  spec.linear_tolerance = src.pick(std::vector<double>{1e-3, 1e-2, 0.1});
  spec.translation = src.b(1, 3) ? V3{src.sym(50.), src.sym(50.), src.sym(5.)} : V3{};
  const Road road = Build(spec);
  const auto lanes = spec.lanes();
  const double tol = spec.linear_tolerance;
  // Ranges, several on some lane.
  std::vector<LaneSRange> ranges;
  const LaneSpec* focus = lanes[src.idx(lanes.size())];
  for (int k = static_cast<int>(src.i(1, 5)); k > 0; --k) {
    const LaneSpec* l = src.b() ? focus : lanes[src.idx(lanes.size())];
    ranges.emplace_back(LaneId(l->id), SRange(l->geom.length * src.real(0., 1.), l->geom.length * src.real(0., 1.)));
  }
  for (int q = static_cast<int>(src.i(1, 6)); q > 0; --q) {
    const LaneSpec* l = src.b(3, 4) ? focus : lanes[src.idx(lanes.size())];
    const LaneGeom& g = l->geom;
    double s = g.length * src.real(0., 1.);
    if (src.b(1, 4)) {  // Near the end of some range.
      const SRange r = ranges[src.idx(ranges.size())].s_range();
      s = std::clamp((src.b() ? r.s0() : r.s1()) + src.pick(std::vector<double>{-5., -0.5, 0., 0.5, 5.}) * tol, 0.,
                     g.length);
    }
    V3 local = g.to_xyz(
        {s, g.r_min + (g.r_max - g.r_min) * src.real(0., 1.), g.h_min + (g.h_max - g.h_min) * src.real(0., 1.)});
    if (src.b(1, 4)) local = local + V3{src.sym(3.), src.sym(3.), src.sym(3.)};
    if (src.b(1, 6)) local.z = g.h_max + g.origin.z + src.pick(std::vector<double>{0.5, 2.}) * tol;
    const api::InertialPosition p = ip(local + spec.translation);
    bool must = false, may = false;
    for (const auto& r : ranges) {
      const LaneGeom& rg = spec.lane(r.lane_id().string())->geom;
      V3 srh, xyz;
      double d;
      rg.nearest(local, false, &srh, &xyz, &d);
      const Interval i = Of(r.s_range());
      const double off = std::max({i.lo - srh.x, srh.x - i.hi, 0.});
      if (d <= tol * 0.999 && off <= tol * 0.999) must = true;
      if (d <= tol * 1.001 && off <= tol * 1.001) may = true;
    }
    const bool got = api::IsIncluded(p, ranges, road.rg.get());
    if (ranges.size() >= 2) pbt::nontrivial();
    pbt::label(must ? "inside" : may ? "borderline" : "outside");
    NOTE("point " << local << " on " << l->id << " s=" << s << " -> " << got);
    if (must) CHECK(got, "included-missed", "point " << local << " lies in one of " << ranges.size() << " ranges");
    if (!may) CHECK(!got, "included-extra", "point " << local << " lies in none of the ranges");
  }
  if (src.b(1, 4)) {
    MUST_THROW("included-bad-args", api::IsIncluded({0., 0., 0.}, ranges, nullptr), "no road");
    auto unknown = ranges;
    unknown.insert(unknown.begin() + static_cast<long>(src.idx(unknown.size() + 1)),
                   LaneSRange(LaneId("nowhere"), SRange(0., 1.)));
    MUST_THROW("included-bad-args", api::IsIncluded({0., 0., 0.}, unknown, road.rg.get()), "unknown lane");
  }
}

// ---------------------------------------------------------------- P07

PROBE(P07, sampling, 60000, 1500000) {
  RoadSpec spec = ConnectedRoad(src, {});
  spec.linear_tolerance = src.pick(std::vector<double>{1e-6, 1e-3, 1e-2, 0.1});
  spec.translation = src.b(1, 3) ? V3{src.sym(50.), src.sym(50.), src.sym(5.)} : V3{};
  const Road road = Build(spec);
  const auto ranges = Walk(src, spec, 6);
  double total = 0.;
  bool backwards = false;
  for (const auto& r : ranges) {
    total += r.s_range().size();
    backwards = backwards || r.s_range().s1() < r.s_range().s0();
  }
  if (total < 1e-3) return;
  double step = src.b(1, 8)   ? total * src.pick(std::vector<double>{1., 1.5, 100.})
                : src.b(1, 3) ? total / static_cast<double>(src.i(1, 12))
                              : total * src.real(0.01, 1.);
  if (src.b(1, 6)) step = spec.linear_tolerance * src.real(0.01, 2.);
  double d = std::max(spec.linear_tolerance, std::min(step, total));
  if (total / d > 2000.) d = step = total / 2000.;
  pbt::label(backwards ? "some range backwards" : "along s only");
  NOTE(Describe(spec));
  for (const auto& r : ranges) NOTE(r.lane_id().string() << " " << r.s_range().s0() << "->" << r.s_range().s1());
  const auto got = road.rg->SampleAheadWaypoints(LaneSRoute(ranges), step);
  auto at = [&](double dist) {
    for (size_t k = 0; k < ranges.size(); ++k) {
      const SRange r = ranges[k].s_range();
      if (dist <= r.size() || k + 1 == ranges.size()) {
        const double along = std::min(dist, r.size());
        const double s = r.s1() >= r.s0() ? r.s0() + along : r.s0() - along;
        return spec.lane(ranges[k].lane_id().string())->geom.to_xyz({s, 0., 0.}) + spec.translation;
      }
      dist -= r.size();
    }
    return V3{};
  };
  const double eps = 1e-6;
  NOTE("step " << step << " used " << d << " total " << total << " -> " << got.size() << " waypoints");
  CHECK(!got.empty(), "sample-empty", "no waypoint");
  const size_t whole = static_cast<size_t>(std::floor((total + 1e-9 * (1. + total)) / d));
  // Waypoint k lies k steps along the route; the last one at its end.
  for (size_t k = 0; k < got.size(); ++k) {
    const V3 p = of(got[k]);
    const double ideal = static_cast<double>(k) * d;
    const V3 want = at(std::min(ideal, total));
    CHECK(norm(p - want) <= eps + 1e-9 * total, "sample-position",
          "waypoint " << k << " of " << got.size() << " is at " << p << ", the route at distance "
                      << std::min(ideal, total) << " of " << total << " is at " << want);
  }
  const double rest = total - static_cast<double>(whole) * d;
  const size_t least = whole + 1 + (rest > spec.linear_tolerance + 1e-7 * (1. + total) ? 1 : 0);
  // Rounding may move the sample at a whole multiple to the final one.
  CHECK(got.size() + (std::fabs(rest) <= 1e-7 * (1. + total) ? 1 : 0) >= least && got.size() <= whole + 2,
        "sample-count", got.size() << " waypoints for a route of " << total << " sampled every " << d);
  CHECK(norm(of(got.back()) - at(total)) <= spec.linear_tolerance + eps + 1e-9 * total, "sample-end",
        "the last waypoint is at " << of(got.back()) << ", the route ends at " << at(total));
  if (ranges.size() >= 2 && got.size() >= 3) pbt::nontrivial();
  if (src.b(1, 8)) {
    MUST_THROW("sample-bad-args", road.rg->SampleAheadWaypoints(LaneSRoute(ranges), src.b() ? 0. : -1.), "step");
    auto unknown = ranges;
    unknown[src.idx(unknown.size())] = LaneSRange(LaneId("nowhere"), SRange(0., 1.));
    MUST_THROW("sample-bad-args", road.rg->SampleAheadWaypoints(LaneSRoute(unknown), 1.), "unknown lane");
  }
}

PROBE(P07, contiguity, 60000, 2000000) {
  RoadSpec spec = ConnectedRoad(src, {});
  spec.linear_tolerance = src.pick(std::vector<double>{1e-5, 1e-3, 0.1});
  spec.angular_tolerance = src.pick(std::vector<double>{1e-5, 1e-3, 0.1});
  spec.translation = src.b(1, 3) ? V3{src.sym(50.), src.sym(50.), src.sym(5.)} : V3{};
  // Slight deviations.
  for (auto& j : spec.junctions)
    for (auto& s : j.segments)
      for (auto& l : s.lanes)
        if (src.b(1, 4)) {
          l.geom.origin.x += src.pick(std::vector<double>{0.3, 3.}) * spec.linear_tolerance;
          if (src.b()) l.geom.heading += src.pick(std::vector<double>{0.3, 3.}) * spec.angular_tolerance;
        }
  spec.defaults.clear();
  const Road road = Build(spec);
  const auto lanes = std::as_const(spec).lanes();
  for (int q = static_cast<int>(src.i(1, 8)); q > 0; --q) {
    const LaneSpec* a = lanes[src.idx(lanes.size())];
    const LaneSpec* b = lanes[src.idx(lanes.size())];
    auto end_or_any = [&](const LaneSpec* l) {
      return src.b(3, 4) ? (src.b() ? 0. : l->geom.length) : l->geom.length * src.real(0., 1.);
    };
    const double a0 = end_or_any(a), a1 = end_or_any(a);
    double b0 = end_or_any(b);
    const double b1 = end_or_any(b);
    if (src.b(1, 4)) {
      b = a;
      b0 = a1;
    }
    const LaneSRange ra(LaneId(a->id), SRange(a0, a1)), rb(LaneId(b->id), SRange(b0, b1));
    std::array<V3, 3> fa, fb;
    a->geom.axes(a1, &fa[0], &fa[1], &fa[2]);
    b->geom.axes(b0, &fb[0], &fb[1], &fb[2]);
    const double dp = norm(a->geom.to_xyz({a1, 0., 0.}) - b->geom.to_xyz({b0, 0., 0.}));
    const double da = FrameDistance(fa, fb);
    const bool got = api::IsContiguous(ra, rb, road.rg.get());
    pbt::nontrivial();
    NOTE(a->id << " s1=" << a1 << " to " << b->id << " s0=" << b0 << ": apart " << dp << ", turned " << da << " -> "
               << got);
    if (dp < 0.999 * spec.linear_tolerance && da < 0.999 * spec.angular_tolerance - 1e-6) {
      pbt::label("contiguous");
      CHECK(got, "contiguous-missed", "apart " << dp << ", turned " << da);
    } else if (dp > 1.001 * spec.linear_tolerance || da > 1.001 * spec.angular_tolerance + 1e-6) {
      CHECK(!got, "contiguous-extra", "apart " << dp << ", turned " << da);
    }
  }
  if (src.b(1, 8)) {
    const LaneSRange ok(LaneId(lanes[0]->id), SRange(0., 0.)), ko(LaneId("nowhere"), SRange(0., 0.));
    MUST_THROW("contiguous-bad-args", api::IsContiguous(ok, ko, road.rg.get()), "second lane unknown");
    MUST_THROW("contiguous-bad-args", api::IsContiguous(ko, ok, road.rg.get()), "first lane unknown");
    MUST_THROW("contiguous-bad-args", api::IsContiguous(ok, ok, nullptr), "no road");
  }
}

// ---------------------------------------------------------------- P32

// The check of the index reports components which it does not know, or knows otherwise, and nothing else.
PROBE(P04, index_check, 20000, 600000) {
  const RoadSpec spec = ConnectedRoad(src, {3, 2, false, false, true, false});
  Road road = Build(spec, true, false, true), other = Build(spec);
  auto* rg = static_cast<FRoadGeometry*>(road.rg.get());
  NOTE(Describe(spec));
  struct Component {
    std::string name;
    std::function<void(bool theirs)> add;
  };
  std::vector<Component> all;
  for (int j = 0; j < rg->num_junctions(); ++j) {
    const api::Junction *mine = rg->junction(j), *their = other.rg->junction(j);
    all.push_back(
        {"junction " + mine->id().string(), [=](bool t) { rg->claimed_index.AddJunction(t ? their : mine); }});
    for (int s = 0; s < mine->num_segments(); ++s) {
      const api::Segment *seg = mine->segment(s), *seg2 = their->segment(s);
      all.push_back({"segment " + seg->id().string(), [=](bool t) { rg->claimed_index.AddSegment(t ? seg2 : seg); }});
      for (int l = 0; l < seg->num_lanes(); ++l) {
        const api::Lane *lane = seg->lane(l), *lane2 = seg2->lane(l);
        all.push_back({"lane " + lane->id().string(), [=](bool t) { rg->claimed_index.AddLane(t ? lane2 : lane); }});
      }
    }
  }
  for (int b = 0; b < rg->num_branch_points(); ++b) {
    const api::BranchPoint *mine = rg->branch_point(b), *their = other.rg->branch_point(b);
    all.push_back(
        {"branch point " + mine->id().string(), [=](bool t) { rg->claimed_index.AddBranchPoint(t ? their : mine); }});
  }
  const size_t wrong = src.idx(all.size());
  const size_t kind = src.idx(3);  // Sound, absent, another one.
  for (size_t k = 0; k < all.size(); ++k) {
    if (k == wrong && kind == 1) continue;
    all[k].add(k == wrong && kind == 2);
  }
  if (kind != 0) pbt::nontrivial();
  pbt::label(kind == 0 ? "sound index" : kind == 1 ? "absent from the index" : "another component in the index");
  const std::optional<std::string> mismatch = api::CheckIdIndexing(rg);
  if (kind == 0) {
    CHECK(!mismatch, "index-check-false-alarm", *mismatch);
  } else {
    CHECK(mismatch.has_value(), "index-check-missed",
          all[wrong].name << (kind == 1 ? " is absent" : " is of another road"));
  }
}

PROBE(P32, frames, 60000, 2000000) {
  RoadSpec spec = ScatteredRoad(src, 30., 3, 3, true, true, true);
  spec.linear_tolerance = src.pick(std::vector<double>{1e-6, 1e-3, 0.1});
  spec.translation = src.b(4, 5) ? V3{src.sym(1000.), src.sym(1000.), src.sym(100.)} : V3{};
  const Road road = Build(spec);
  const auto lanes = std::as_const(spec).lanes();
  if (norm(spec.translation) > 0.) pbt::nontrivial();
  const double eps = 1e-8;
  NOTE(Describe(spec) << " translation " << spec.translation);
  for (int q = static_cast<int>(src.i(1, 6)); q > 0; --q) {
    const LaneSpec* l = lanes[src.idx(lanes.size())];
    const LaneGeom& g = l->geom;
    const api::Lane* lane = road.lanes.at(l->id);
    const double at = g.length * src.real(0., 1.);
    const V3 srh{at, g.smin(at) + (g.smax(at) - g.smin(at)) * src.real(0., 1.),
                 g.h_min + (g.h_max - g.h_min) * src.real(0., 1.)};
    const api::LanePosition pos(srh.x, srh.y, srh.z);
    const V3 want = g.to_xyz(srh) + spec.translation;
    const V3 got = of(lane->ToInertialPosition(pos));
    CHECK(norm(got - want) < eps, "frame-to-inertial", l->id << " " << srh << " -> " << got << ", expected " << want);
    const V3 via = of(api::RoadPosition(lane, pos).ToInertialPosition());
    CHECK(norm(via - want) < eps, "frame-road-position", via << " expected " << want);
    // Rates of the coordinates, of small steps in the frame of the lane.
    {
      const api::IsoLaneVelocity v(src.sym(20.), src.sym(20.), src.sym(20.));
      const double stretch = 1. - g.kappa * srh.y;
      if (std::fabs(stretch) > 1e-3) {
        const V3 rate = of(lane->EvalMotionDerivatives(pos, v));
        CHECK(norm(rate - V3{v.sigma_v / stretch, v.rho_v, v.eta_v}) < 1e-9, "frame-rates", rate);
      }
    }
    // And back: within the segment the mapping inverts.
    const auto back = lane->ToSegmentPosition(ip(want));
    CHECK(back.distance < 1e-6 && norm(of(back.lane_position) - srh) < 1e-6 * (1. + g.length), "frame-round-trip",
          l->id << " " << srh << " came back as " << of(back.lane_position) << " at distance " << back.distance);
    CHECK(norm(of(back.nearest_position) - want) < 1e-6, "frame-nearest",
          of(back.nearest_position) << " expected " << want);
    // Any point: closest point, which is mapped consistently.
    const V3 p = want + V3{src.sym(5.), src.sym(5.), src.sym(5.)};
    for (bool segment : {false, true}) {
      const auto r = segment ? lane->ToSegmentPosition(ip(p)) : lane->ToLanePosition(ip(p));
      V3 n_srh, n_xyz;
      double d;
      g.nearest(p - spec.translation, segment, &n_srh, &n_xyz, &d);
      CHECK(std::fabs(r.distance - d) < eps, "frame-distance",
            l->id << " " << p << ": " << r.distance << " expected " << d);
      CHECK(norm(of(lane->ToInertialPosition(r.lane_position)) - of(r.nearest_position)) <= spec.linear_tolerance + eps,
            "frame-consistency",
            of(r.lane_position) << " maps to " << of(lane->ToInertialPosition(r.lane_position)) << ", not "
                                << of(r.nearest_position));
      CHECK(std::fabs(norm(of(r.nearest_position) - p) - r.distance) < eps, "frame-distance", r.distance);
    }
    // Orientation is not translated.
    std::array<V3, 3> f;
    g.axes(srh.x, &f[0], &f[1], &f[2]);
    const api::Rotation rot = lane->GetOrientation(pos);
    const V3 e[3] = {{1., 0., 0.}, {0., 1., 0.}, {0., 0., 1.}};
    for (int k = 0; k < 3; ++k)
      CHECK(norm(of(rot.Apply(ip(e[k]))) - f[k]) < 1e-9, "frame-orientation",
            "axis " << k << " " << of(rot.Apply(ip(e[k]))));
    CHECK(lane->length() == g.length && lane->lane_bounds(srh.x).min() == g.rmin(srh.x) &&
              lane->lane_bounds(srh.x).max() == g.rmax(srh.x) && lane->segment_bounds(srh.x).min() == g.smin(srh.x) &&
              lane->segment_bounds(srh.x).max() == g.smax(srh.x) &&
              lane->elevation_bounds(srh.x, srh.y).min() == g.h_min &&
              lane->elevation_bounds(srh.x, srh.y).max() == g.h_max,
          "frame-bounds", l->id);
  }
}

PROBE(P32, containment, 100000, 3000000) {
  LaneGeom g;
  g.length = src.real(1., 50.);
  g.r_min = -src.real(0., 3.);
  g.r_max = src.real(0., 3.);
  g.seg_min = g.r_min - src.real(0., 5.);
  g.seg_max = g.r_max + src.real(0., 5.);
  g.h_min = -src.real(0., 3.);
  g.h_max = src.real(0., 5.);
  if (src.b()) {
    g.taper_min = -src.real(0., 0.2);
    g.taper_max = src.real(0., 0.2);
  }
  if (src.b()) {
    g.h_rise_s = src.real(0., 0.2);
    g.h_rise_r = src.real(0., 0.2);
  }
  RoadSpec spec;
  spec.linear_tolerance = src.pick(std::vector<double>{1e-6, 1e-3, 0.05});
  spec.junctions.push_back({"j", {{"s", {{"l", g}}}}});
  const Road road = Build(spec);
  const api::Lane* lane = road.lanes.at("l");
  const double tol = spec.linear_tolerance;
  for (int q = static_cast<int>(src.i(1, 8)); q > 0; --q) {
    // Each coordinate: inside, at a bound, slightly beyond, or far.
    auto coord = [&](double lo, double hi) {
      switch (src.i(0, 3)) {
        case 0:
        case 1:
          return lo + (hi - lo) * src.real(0., 1.);
        case 2: {
          const double off = src.pick(std::vector<double>{-2., -0.5, 0., 0.5, 0.9, 1.1, 2.}) * tol;
          return src.b() ? hi + off : lo - off;
        }
        default:
          return src.b() ? hi + src.real(0., 5.) : lo - src.real(0., 5.);
      }
    };
    const double s = coord(0., g.length);
    const double r = coord(g.smin(s), g.smax(s));
    const double h = coord(g.h_min, g.hmax(s, r));
    auto out = [&](double v, double lo, double hi) { return std::max(lo - v, v - hi); };
    const double worst = std::max({out(s, 0., g.length), out(r, g.smin(s), g.smax(s)), out(h, g.h_min, g.hmax(s, r))});
    const bool got = lane->Contains(api::LanePosition(s, r, h));
    NOTE("(" << s << "," << r << "," << h << ") outside by " << worst << " -> " << got);
    if (std::fabs(worst) < 3. * tol) pbt::nontrivial();
    if (worst < tol * (1 - 1e-6) - 1e-12)
      CHECK(got, "contains-missed", "(" << s << "," << r << "," << h << ") is outside by " << worst);
    if (worst > tol * (1 + 1e-6) + 1e-12)
      CHECK(!got, "contains-extra", "(" << s << "," << r << "," << h << ") is outside by " << worst);
  }
}

PROBE(P32, network, 20000, 600000) {
  // Two roads whose lanes may have the same identifiers.
  Road roads[2] = {Build(ScatteredRoad(src, 30., 3, 3, true, true, true)),
                   Build(ScatteredRoad(src, 30., 3, 3, true, true, true))};
  std::unique_ptr<api::RoadNetwork> networks[2] = {MakeNetwork(&roads[0]), MakeNetwork(&roads[1])};
  std::set<std::string> ids{"nowhere"};
  for (const Road& r : roads)
    for (const auto& kv : r.lanes) ids.insert(kv.first);
  for (int k : {0, 1})
    for (const std::string& id : ids)
      CHECK(networks[k]->Contains(api::LaneId(id)) == (roads[k].lanes.count(id) > 0), "network-lane", id);
  if (roads[0].lanes.size() > 1 && roads[1].lanes.size() > 1) pbt::nontrivial();
  for (int q = static_cast<int>(src.i(1, 8)); q > 0; --q) {
    const int k = static_cast<int>(src.i(0, 1));
    const auto lanes = std::as_const(roads[k].spec).lanes();
    const LaneSpec* l = lanes[src.idx(lanes.size())];
    const LaneGeom& g = l->geom;
    // In or out by more than the tolerance, along any of the axes.
    auto coord = [&](double lo, double hi, bool in) {
      return in        ? lo + (hi - lo) * src.real(0., 1.)
             : src.b() ? hi + 0.01 + src.real(0., 9.)
                       : lo - 0.01 - src.real(0., 9.);
    };
    bool in = src.b();
    const int out = static_cast<int>(src.i(0, 2));
    const double s = coord(0., g.length, in || out != 0);
    const double r = coord(g.smin(s), g.smax(s), in || out != 1), h = coord(g.h_min, g.h_max, in || out != 2);
    const api::RoadPosition position(roads[k].lanes.at(l->id), api::LanePosition(s, r, h));
    for (int n : {0, 1}) {
      const bool got = networks[n]->Contains(position);
      CHECK(got == (in && n == k), "network-position",
            l->id << " (" << s << "," << r << "," << h << ") of road " << k << " in network " << n << ": " << got);
    }
  }
}
