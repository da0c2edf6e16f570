// P21 validation of road networks.
#include <algorithm>
#include <cmath>
#include <set>

#include "frames.h"
#include "maliput/api/road_network_validator.h"
#include "network.h"
#include "phasegen.h"
#include "walks.h"

using namespace tr;
using namespace rg;
using api::rules::Bulb;
using api::rules::BulbColor;
using api::rules::BulbGroup;
using api::rules::BulbType;
using api::rules::TrafficLight;

PBT_RULE(
    P21,
    "Valid random networks (smooth road, rules over walks along it, lights, phase rings) with zero to three faults of "
    "known kinds, checked under random sets of enabled checks. Non-trivial: the network has two or more lanes, and "
    "rules, lights and a ring.");

namespace {

enum Check {
  kCoverage,
  kInvariants,
  kHierarchy,
  kBulbGroups,
  kContiguity,
  kPhaseRules,
  kPhaseBulbs,
  kRelatedRules,
  kChecks
};
const char* kNames[] = {"coverage",   "invariants",  "hierarchy",   "bulb-groups",
                        "contiguity", "phase-rules", "phase-bulbs", "related-rules"};

struct BulbPlan {
  std::string id;
  std::vector<BulbState> states;
};
struct GroupPlan {
  std::string id;
  std::vector<BulbPlan> bulbs;
};
struct LightPlan {
  std::string id;
  std::vector<GroupPlan> groups;
};
struct RulePlan {
  std::string id;
  bool range{};
  std::vector<LaneSRange> zone;
  std::vector<PlainState> states;
};
struct RowPlan {
  std::string id;
  std::vector<LaneSRange> zone;
  std::map<std::string, std::vector<std::string>> groups;
};

std::unique_ptr<TrafficLight> ToLight(const LightPlan& l) {
  std::vector<std::unique_ptr<BulbGroup>> groups;
  for (const auto& g : l.groups) {
    std::vector<std::unique_ptr<Bulb>> bulbs;
    for (const auto& b : g.bulbs)
      bulbs.push_back(std::make_unique<Bulb>(Bulb::Id(b.id), api::InertialPosition(0., 0., 0.), api::Rotation(),
                                             BulbColor::kRed, BulbType::kRound, std::nullopt, b.states));
    groups.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(g.id), api::InertialPosition(0., 0., 0.),
                                                 api::Rotation(), std::move(bulbs)));
  }
  return std::make_unique<TrafficLight>(TrafficLight::Id(l.id), api::InertialPosition(0., 0., 0.), api::Rotation(),
                                        std::move(groups));
}

// Whether the end of `a` and the start of `b` meet smoothly: 1 clearly, 0 clearly not, -1 close to the tolerance.
int Smooth(const RoadSpec& spec, const LaneSRange& a, const LaneSRange& b) {
  const LaneGeom& ga = spec.lane(a.lane_id().string())->geom;
  const LaneGeom& gb = spec.lane(b.lane_id().string())->geom;
  std::array<V3, 3> fa, fb;
  ga.axes(a.s_range().s1(), &fa[0], &fa[1], &fa[2]);
  gb.axes(b.s_range().s0(), &fb[0], &fb[1], &fb[2]);
  const double dp = norm(ga.to_xyz({a.s_range().s1(), 0., 0.}) - gb.to_xyz({b.s_range().s0(), 0., 0.}));
  const double da = FrameDistance(fa, fb);
  if (dp < 0.9 * spec.linear_tolerance && da < 0.9 * spec.angular_tolerance) return 1;
  if (dp > 1.1 * spec.linear_tolerance || da > 1.1 * spec.angular_tolerance) return 0;
  return -1;
}
// The longest start of a walk which only joins smoothly: walks may turn to lanes of opposite directions.
std::vector<LaneSRange> SmoothWalk(pbt::Src& src, const RoadSpec& spec, int max_len) {
  std::vector<LaneSRange> w = Walk(src, spec, max_len), r{w[0]};
  for (size_t k = 1; k < w.size() && Smooth(spec, r.back(), w[k]) == 1; ++k) r.push_back(w[k]);
  return r;
}

}  // namespace

PROBE(P21, validation, 40000, 1000000) {
  ConnectedOptions o;
  o.max_strips = 4;
  RoadSpec spec = ConnectedRoad(src, o);
  spec.junctions.erase(
      std::remove_if(spec.junctions.begin(), spec.junctions.end(), [](const auto& j) { return j.segments.empty(); }),
      spec.junctions.end());
  spec.linear_tolerance = spec.angular_tolerance = 1e-3;
  spec.translation = src.b(1, 3) ? V3{src.sym(50.), src.sym(50.), src.sym(5.)} : V3{};
  // What is broken: no, yes, or not judged.
  enum { kNo, kYes, kMaybe };
  int broken[kChecks] = {};
  auto breaks = [&](Check c) { broken[c] = kYes; };
  auto may_break = [&](Check c) {
    if (broken[c] == kNo) broken[c] = kMaybe;
  };
  std::string what;
  std::set<int> faults;
  for (int64_t k = src.weighted({1, 3, 2, 1}); k > 0; --k) faults.insert(static_cast<int>(src.idx(20)));
  auto fault = [&](int k) { return faults.count(k) > 0; };
  auto lanes_of = [&]() {
    std::vector<LaneSpec*> v;
    for (auto& j : spec.junctions)
      for (auto& s : j.segments)
        for (auto& l : s.lanes) v.push_back(&l);
    return v;
  };
  // Zones are drawn on the sound road: geometric faults may break any of them.
  const RoadSpec sound = spec;

  // -- Lights.
  std::vector<LightPlan> lights;
  for (int64_t k = src.i(0, 3); k > 0; --k) {
    LightPlan l{N("t", k), {}};
    for (int64_t g = src.i(1, 2); g > 0; --g) {
      // The names of groups and bulbs may or may not be the same in other lights.
      GroupPlan group{src.b() ? N("g", g) : l.id + N("g", g), {}};
      for (int64_t b = src.i(1, 3); b > 0; --b) {
        BulbPlan bulb{N("b", b), {}};
        for (int s = 0; s < 3; ++s)
          if (src.b()) bulb.states.push_back(static_cast<BulbState>(s));
        if (bulb.states.empty()) bulb.states = {BulbState::kOff};
        group.bulbs.push_back(bulb);
      }
      l.groups.push_back(group);
    }
    lights.push_back(l);
  }
  // -- Rules.
  std::vector<std::string> rule_ids;
  for (int64_t k = src.i(0, 5); k > 0; --k) rule_ids.push_back(N("r", k));
  std::vector<RulePlan> rules;
  for (const std::string& id : rule_ids) {
    RulePlan r;
    r.id = id;
    r.range = src.b(1, 3);
    r.zone = SmoothWalk(src, sound, 5);
    r.states = RandomStates(src, r.range, false, 1, 3);
    for (auto& s : r.states) {
      s.related_rules.clear();
      for (int64_t g = src.b() ? 0 : src.i(0, 2); g > 0; --g) {
        auto& v = s.related_rules[N("g", g)];
        for (const std::string& other : rule_ids)
          if (src.b(1, 3)) v.push_back(other);
      }
      s.severity = static_cast<int>(&s - r.states.data());  // All different.
    }
    rules.push_back(r);
  }
  std::vector<RowPlan> rows;
  for (int64_t k = src.i(0, 3); k > 0; --k) {
    RowPlan r{N("row", k), SmoothWalk(src, sound, 3), {}};
    for (const auto& l : lights) {
      if (src.b()) continue;
      auto& v = r.groups[l.id];
      for (const auto& g : l.groups)
        if (src.b(2, 3)) v.push_back(g.id);
      if (v.empty()) r.groups.erase(l.id);
    }
    rows.push_back(r);
  }
  // -- Rings: every rule belongs to at most one.
  std::vector<PlainRing> rings;
  const int n_rings = static_cast<int>(src.i(0, 3));
  std::vector<int> ring_of;
  for (size_t k = 0; k < rules.size(); ++k) ring_of.push_back(static_cast<int>(src.i(0, n_rings)) - 1);
  for (int n = 0; n < n_rings; ++n) {
    PlainRing ring;
    ring.id = N("ring", n);
    std::vector<std::pair<BulbKey, const BulbPlan*>> bulbs;
    for (const auto& l : lights)
      for (const auto& g : l.groups)
        for (const auto& b : g.bulbs)
          if (src.b()) bulbs.push_back({{l.id, g.id, b.id}, &b});
    const bool has_bulbs = src.b(3, 4);
    for (int64_t k = src.i(1, 3); k > 0; --k) {
      PlainPhase p;
      p.id = N("p", k);
      for (size_t r = 0; r < rules.size(); ++r)
        if (ring_of[r] == n && !rules[r].range)
          p.discrete[rules[r].id] = rules[r].states[src.idx(rules[r].states.size())];
      if (has_bulbs) {
        p.bulbs.emplace();
        for (const auto& b : bulbs) (*p.bulbs)[b.first] = b.second->states[src.idx(b.second->states.size())];
      }
      ring.phases.push_back(p);
    }
    rings.push_back(ring);
  }
  if (lanes_of().size() >= 2 && !rules.empty() && !lights.empty() && !rings.empty()) pbt::nontrivial();

  // -- Faults of the geometry.
  bool bad_geometry = false, own_index = false, dead_ends = true;
  {
    const auto all = lanes_of();
    LaneSpec* l = all[src.idx(all.size())];
    if (fault(0)) {  // A lane off its place; matters when another lane end meets one of its ends.
      bad_geometry = true;
      const double d = src.pick(std::vector<double>{2.5e-3, 0.1, 10.});
      const int axis = static_cast<int>(src.i(0, 3));
      if (axis == 3 && l->geom.kappa == 0.) {
        l->geom.roll += std::min(d, 1.);
      } else {
        (axis == 0 ? l->geom.origin.x : axis == 1 ? l->geom.origin.y : l->geom.origin.z) += d;
      }
      what += "moved " + l->id + "; ";
    }
    if (fault(1)) {
      spec.branch_points.insert(spec.branch_points.begin() + src.idx(spec.branch_points.size() + 1), "hollow");
      const size_t at =
          std::find(spec.branch_points.begin(), spec.branch_points.end(), "hollow") - spec.branch_points.begin();
      for (LaneSpec* x : all) {
        if (x->start_bp >= static_cast<int>(at)) ++x->start_bp;
        if (x->finish_bp >= static_cast<int>(at)) ++x->finish_bp;
      }
      what += "hollow branch point; ";
      breaks(kHierarchy);
      breaks(kInvariants);
    }
    if (fault(2)) {
      dead_ends = false;
      const int bp = src.b() ? l->start_bp : l->finish_bp;
      // Every lane leaves this branch point, which goes away: no other fault.
      if (!fault(1) && !fault(3)) {
        for (LaneSpec* x : all) {
          for (int* e : {&x->start_bp, &x->finish_bp}) {
            if (*e == bp) {
              *e = -1;
            } else if (*e > bp) {
              --*e;
            }
          }
        }
        spec.branch_points.erase(spec.branch_points.begin() + bp);
        spec.defaults.clear();
        what += "no branch point at an end of " + l->id + "; ";
        breaks(kHierarchy);
      }
    }
    if (fault(3)) {
      // A junction without segments, or a segment without lanes, anywhere.
      auto& js = spec.junctions;
      if (src.b()) {
        js.insert(js.begin() + src.idx(js.size() + 1), JunctionSpec{"bare_j", {}});
      } else if (src.b()) {
        auto& j = js[src.idx(js.size())];
        j.segments.insert(j.segments.begin() + src.idx(j.segments.size() + 1), SegmentSpec{"bare_s", {}});
      } else {
        js.push_back({"bare_j", {{"bare_s", {}}}});
      }
      what += "childless; ";
      breaks(kHierarchy);
    }
  }
  if (spec.branch_points.size() < 2) breaks(kHierarchy);
  own_index = fault(4);
  const bool lies = fault(5) || fault(6);
  if (fault(0)) spec.defaults.clear();
  Road road = Build(spec, dead_ends, lies, own_index);
  const RoadSpec built = road.spec;
  auto* geometry = road.rg.get();
  if (bad_geometry) {
    std::vector<std::vector<std::pair<V3, std::array<V3, 3>>>> at(built.branch_points.size());
    for (const LaneSpec* l : built.lanes())
      for (bool start : {true, false}) {
        const int bp = start ? l->start_bp : l->finish_bp;
        if (bp < 0) continue;
        const auto out = Out(l->geom, start);
        at[bp].push_back({l->geom.to_xyz({start ? 0. : l->geom.length, 0., 0.}),
                          (start ? l->start_a : l->finish_a) ? out : Reverse(out)});
      }
    for (const auto& v : at)
      for (const auto& x : v)
        for (const auto& y : v) {
          const double dp = norm(x.first - y.first), da = FrameDistance(x.second, y.second);
          if (dp > 2.1e-3 || da > 2.1e-3) {
            breaks(kInvariants);
          } else if (dp > 0.9e-3 || da > 0.9e-3) {
            may_break(kInvariants);
          }
        }
  }
  // Elements which are in the index of the road.
  std::set<std::string> indexed;
  {
    for (const LaneSpec* l : built.lanes()) indexed.insert(l->id);
    if (own_index) {
      auto* f = static_cast<FRoadGeometry*>(geometry);
      const int kind = static_cast<int>(src.i(0, 4));  // 4: nothing is missing.
      auto missing = [&](int n) { return static_cast<int>(src.idx(static_cast<size_t>(std::max(n, 1)))); };
      std::vector<const api::Segment*> segments;
      std::vector<const api::Lane*> lanes;
      for (int i = 0; i < geometry->num_junctions(); ++i)
        for (int j = 0; j < geometry->junction(i)->num_segments(); ++j) {
          segments.push_back(geometry->junction(i)->segment(j));
          for (int k = 0; k < segments.back()->num_lanes(); ++k) lanes.push_back(segments.back()->lane(k));
        }
      const int mj = kind == 0 ? missing(geometry->num_junctions()) : -1;
      const int ms = kind == 1 ? missing(static_cast<int>(segments.size())) : -1;
      const int ml = kind == 2 ? missing(static_cast<int>(lanes.size())) : -1;
      const int mb = kind == 3 ? missing(geometry->num_branch_points()) : -1;
      for (int i = 0; i < geometry->num_junctions(); ++i)
        if (i != mj) f->claimed_index.AddJunction(geometry->junction(i));
      for (int i = 0; i < static_cast<int>(segments.size()); ++i)
        if (i != ms) f->claimed_index.AddSegment(segments[i]);
      for (int i = 0; i < static_cast<int>(lanes.size()); ++i)
        if (i != ml) f->claimed_index.AddLane(lanes[i]);
      for (int i = 0; i < geometry->num_branch_points(); ++i)
        if (i != mb) f->claimed_index.AddBranchPoint(geometry->branch_point(i));
      if (ml >= 0) {
        indexed.erase(lanes[ml]->id().string());
        // Zones on it cannot be looked up.
        may_break(kContiguity);
      }
      if (kind < 4) {
        what += std::string("not indexed: ") + "jslb"[kind] + "; ";
        breaks(kHierarchy);
        may_break(kInvariants);
      }
    }
  }
  static const Road spare = [] {
    RoadSpec s;
    s.id = "spare";
    s.junctions.push_back({"spare_j", {{"spare_s", {{"spare_l", LaneGeom{}}}}}});
    return Build(s);
  }();
  if (fault(5)) {
    std::vector<std::string> names;
    for (const auto& kv : road.lanes) names.push_back(kv.first);
    auto* lane = static_cast<FLane*>(road.lanes.at(names[src.idx(names.size())]));
    auto* segment = const_cast<FSegment*>(static_cast<const FSegment*>(lane->claimed_segment));
    auto* junction = const_cast<FJunction*>(static_cast<const FJunction*>(segment->junction()));
    switch (src.i(0, 4)) {
      case 0:
        lane->claimed_segment = spare.rg->junction(0)->segment(0);
        break;
      case 1:
        segment->claimed_junction = spare.rg->junction(0);
        break;
      case 2:
        junction->claimed_rg = spare.rg.get();
        break;
      case 3:
        if (road.branch_points.empty()) {
          junction->claimed_rg = spare.rg.get();
          break;
        }
        static_cast<FBranchPoint*>(road.branch_points[src.idx(road.branch_points.size())])->claimed_rg = spare.rg.get();
        break;
      default:
        lane->claimed_index += src.b() ? 1 : -1;
    }
    what += "an element misreports; ";
    may_break(kContiguity);  // Frames of lanes come from the road they claim to be of.
    breaks(kInvariants);
    bool index_only = true;
    if (lane->claimed_segment->id().string() == "spare_s" || segment->claimed_junction != junction) index_only = false;
    if (junction->claimed_rg != geometry) index_only = false;
    for (auto* b : road.branch_points) index_only = index_only && static_cast<FBranchPoint*>(b)->claimed_rg == geometry;
    if (!index_only) breaks(kHierarchy);
  }

  // -- Faults of the books.
  if (fault(7) && !rows.empty()) {
    RowPlan& r = rows[src.idx(rows.size())];
    switch (src.i(0, 2)) {
      case 0:
        r.groups["no light"] = {lights.empty() ? "g" : lights[0].groups[0].id};
        breaks(kBulbGroups);
        break;
      case 1:
        if (lights.empty()) break;
        r.groups[lights[src.idx(lights.size())].id].push_back("no group");
        breaks(kBulbGroups);
        break;
      default: {
        // A group of another light.
        if (lights.size() < 2) break;
        const size_t a = src.idx(lights.size()), b = (a + 1 + src.idx(lights.size() - 1)) % lights.size();
        const std::string& g = lights[b].groups[src.idx(lights[b].groups.size())].id;
        for (const auto& x : lights[a].groups)
          if (x.id == g) goto same;
        r.groups[lights[a].id].push_back(g);
        breaks(kBulbGroups);
      }
    }
    what += "bulb groups of " + r.id + "; ";
  same:;
  }
  for (int k : {8, 9}) {
    if (!fault(k) || rules.empty()) continue;
    RulePlan& r = rules[src.idx(rules.size())];
    const size_t at = src.idx(r.zone.size() + 1);
    const auto lanes = sound.lanes();
    const LaneSpec* l = lanes[src.idx(lanes.size())];
    const double L = l->geom.length, a = src.b() ? 0. : L * src.real(0., 1.), b = src.b() ? L : L * src.real(0., 1.);
    r.zone.insert(r.zone.begin() + at, LaneSRange(LaneId(l->id), SRange(a, b)));
    what += "a range in the zone of " + r.id + "; ";
  }
  for (const RulePlan& r : rules)
    for (size_t k = 1; k < r.zone.size(); ++k) {
      const int smooth = Smooth(built, r.zone[k - 1], r.zone[k]);
      if (smooth == 0) breaks(kContiguity);
      if (smooth < 0) may_break(kContiguity);
    }
  if (fault(10) && !rules.empty()) {
    RulePlan& r = rules[src.idx(rules.size())];
    auto& m = r.states[src.idx(r.states.size())].related_rules;
    auto& v = m[N("g", src.i(1, 3))];
    v.insert(v.begin() + src.idx(v.size() + 1), "no rule");
    what += "related rules of " + r.id + "; ";
    breaks(kRelatedRules);
    // Phases mention the state as it was.
    if (!r.range)
      for (auto& ring : rings)
        for (auto& p : ring.phases)
          if (p.discrete.count(r.id)) p.discrete[r.id] = r.states[src.idx(r.states.size())];
  }
  for (int k : {11, 12}) {
    if (!fault(k) || rings.empty()) continue;
    PlainRing& ring = rings[src.idx(rings.size())];
    PlainPhase& p = ring.phases[src.idx(ring.phases.size())];
    if (k == 11) {
      if (p.discrete.empty() || src.b()) {
        if (std::any_of(rings.begin(), rings.end(),
                        [](const auto& x) { return x.phases[0].discrete.count("no rule"); }))
          continue;
        for (auto& q : ring.phases) q.discrete["no rule"] = RandomState(src, false, false);
      } else {
        auto it = p.discrete.begin();
        std::advance(it, src.idx(p.discrete.size()));
        PlainState& s = it->second;
        switch (src.i(0, 3)) {
          case 0:
            s.text += "?";
            break;
          case 1:
            s.severity += 10;
            break;
          case 2:
            s.related_ids["other"] = {"u"};
            break;
          default:
            s.related_rules["other"] = {rule_ids[0]};
        }
      }
      breaks(kPhaseRules);
      what += "a rule state of " + ring.id + "/" + p.id + "; ";
    } else {
      auto put = [&](const BulbKey& key) {
        for (auto& q : ring.phases) {
          if (!q.bulbs) q.bulbs.emplace();
          (*q.bulbs)[key] = BulbState::kOff;
        }
        breaks(kPhaseBulbs);
      };
      const int kind = static_cast<int>(src.i(0, 3));
      if (kind == 0 || lights.empty()) {
        put({"no light", "g1", "b1"});
      } else {
        const LightPlan& l = lights[src.idx(lights.size())];
        const GroupPlan& g = l.groups[src.idx(l.groups.size())];
        const BulbPlan& b = g.bulbs[src.idx(g.bulbs.size())];
        if (kind == 1) put({l.id, "no group", b.id});
        if (kind == 2) put({l.id, g.id, "b4"});
        if (kind == 3 && b.states.size() < 3) {
          const BulbKey key{l.id, g.id, b.id};
          if (!p.bulbs || !p.bulbs->count(key)) {
            put(key);
            broken[kPhaseBulbs] = kMaybe;
            for (auto& q : ring.phases) (*q.bulbs)[key] = b.states[0];
          }
          for (int s = 0; s < 3; ++s)
            if (std::find(b.states.begin(), b.states.end(), static_cast<BulbState>(s)) == b.states.end())
              (*p.bulbs)[key] = static_cast<BulbState>(s);
          breaks(kPhaseBulbs);
        }
      }
      what += "a bulb state of " + ring.id + "/" + p.id + "; ";
    }
  }

  // -- The network.
  auto network_rg = std::move(road.rg);
  auto book = std::make_unique<maliput::ManualRulebook>();
  auto light_book = std::make_unique<maliput::TrafficLightBook>();
  auto ring_book = std::make_unique<maliput::ManualPhaseRingBook>();
  const bool no_coverage = fault(13) || fault(14);
  const auto built_lanes = built.lanes();
  const size_t uncovered = src.idx(built_lanes.size());
  for (size_t k = 0; k < built_lanes.size(); ++k) {
    if (no_coverage && k == uncovered) {
      if (indexed.count(built_lanes[k]->id)) breaks(kCoverage);
      what += "no direction usage on " + built_lanes[k]->id + "; ";
      continue;
    }
    const double L = built_lanes[k]->geom.length;
    for (int64_t n = src.i(1, 2); n > 0; --n) {
      const double a = src.b(2, 3) ? 0. : L * src.real(0., 1.), b = src.b(2, 3) ? L : L * src.real(0., 1.);
      book->AddRule(api::rules::DirectionUsageRule(
          api::rules::DirectionUsageRule::Id(built_lanes[k]->id + N("/", n)),
          LaneSRange(LaneId(built_lanes[k]->id), SRange(a, b)),
          {api::rules::DirectionUsageRule::State(api::rules::DirectionUsageRule::State::Id("s"),
                                                 api::rules::DirectionUsageRule::State::Type::kWithS,
                                                 api::rules::DirectionUsageRule::State::Severity::kStrict)}));
    }
  }
  for (const RowPlan& r : rows) {
    RightOfWayRule::RelatedBulbGroups groups;
    for (const auto& kv : r.groups)
      for (const auto& g : kv.second) groups[TrafficLight::Id(kv.first)].push_back(BulbGroup::Id(g));
    book->AddRule(RightOfWayRule(
        RightOfWayRule::Id(r.id), LaneSRoute(r.zone), RightOfWayRule::ZoneType::kStopAllowed,
        {RightOfWayRule::State(RightOfWayRule::State::Id("go"), RightOfWayRule::State::Type::kGo, {})}, groups));
  }
  for (const RulePlan& r : rules) {
    if (r.range) {
      book->AddRule(RangeValueRule(Rule::Id(r.id), Rule::TypeId("t"), LaneSRoute(r.zone), Ranges(r.states)));
    } else {
      book->AddRule(DiscreteValueRule(Rule::Id(r.id), Rule::TypeId("t"), LaneSRoute(r.zone), Discretes(r.states)));
    }
  }
  for (const LightPlan& l : lights) light_book->AddTrafficLight(ToLight(l));
  for (const PlainRing& r : rings) ring_book->AddPhaseRing(ToRing(r));
  auto discrete = std::make_unique<maliput::ManualDiscreteValueRuleStateProvider>(book.get());
  auto range = std::make_unique<maliput::ManualRangeValueRuleStateProvider>(book.get());
  auto intersections = std::make_unique<maliput::IntersectionBook>(network_rg.get());
  const api::RoadNetwork network(std::move(network_rg), std::move(book), std::move(light_book),
                                 std::move(intersections), std::move(ring_book),
                                 std::make_unique<maliput::ManualPhaseProvider>(),
                                 std::make_unique<api::rules::RuleRegistry>(), std::move(discrete), std::move(range));
  NOTE(Describe(built));
  NOTE("faults: " << what);

  // -- The verdicts.
  for (int q = 0; q < 6; ++q) {
    bool on[kChecks];
    if (q == 0) {
      std::fill(on, on + kChecks, true);
    } else if (q < 4) {
      std::fill(on, on + kChecks, false);
      on[src.idx(kChecks)] = true;
    } else {
      for (bool& x : on) x = src.b();
    }
    api::RoadNetworkValidatorOptions options{on[kCoverage],   on[kInvariants], on[kHierarchy],  on[kBulbGroups],
                                             on[kContiguity], on[kPhaseRules], on[kPhaseBulbs], on[kRelatedRules]};
    if (q == 0 && src.b()) options = {};
    bool must = false, may = false;
    std::string enabled, reasons;
    for (int c = 0; c < kChecks; ++c) {
      if (!on[c]) continue;
      enabled += std::string(kNames[c]) + " ";
      must = must || broken[c] == kYes;
      may = may || broken[c] == kMaybe;
      if (broken[c] != kNo) reasons += std::string(kNames[c]) + " ";
    }
    std::string error;
    bool threw = false;
    try {
      api::ValidateRoadNetwork(network, options);
    } catch (const std::exception& e) {
      threw = true;
      error = e.what();
    }
    pbt::label(must ? "refused" : may ? "either" : "accepted");
    if (must) CHECK(threw, "validator-missed", "enabled: " << enabled << "; broken: " << reasons << "; " << what);
    if (!must && !may) CHECK(!threw, "validator-false-alarm", error << " enabled: " << enabled << "; " << what);
    for (int c = 0; c < kChecks && q < 4; ++c)
      if (on[c] && broken[c] == kYes) pbt::label(kNames[c]);
  }
}
