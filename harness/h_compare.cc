// P30 identity, hashes, orders and comparison helpers.
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <set>
#include <unordered_set>

#include "maliput/api/compare.h"
#include "maliput/api/lane_data.h"
#include "maliput/api/rules/compare.h"
#include "maliput/api/rules/right_of_way_rule_state_provider.h"
#include "maliput/api/type_specific_identifier.h"
#include "maliput/api/unique_id.h"
#include "maliput/common/maliput_hash.h"
#include "maliput/math/compare.h"
#include "maliput/routing/compare.h"
#include "phasegen.h"
#include "testroad.h"

namespace {

using namespace rg;
using api::InertialPosition;
using api::LaneEnd;
using api::Rotation;
using api::rules::Bulb;
using api::rules::BulbColor;
using api::rules::BulbGroup;
using api::rules::BulbStates;
using api::rules::BulbType;
using api::rules::RightOfWayRuleStateProvider;
using api::rules::TrafficLight;
using maliput::math::Vector3;

PBT_RULE(
    P30,
    "values which differ in one field (or in one component, about the tolerance), identifiers which share a prefix, or "
    "bytes to hash which are split differently");

tr::Road ThreeLanes() {
  tr::LaneGeom ref;
  ref.length = 10.;
  tr::RoadSpec spec;
  tr::SegmentSpec segment{"s0", {}};
  for (const auto& g : tr::MakeStrip(ref, {3., 3., 3.}, -4.5))
    segment.lanes.push_back({N("l", segment.lanes.size()), g});
  spec.junctions.push_back({"j0", {segment}});
  return tr::Build(spec);
}

// The fields of a value, as small numbers. Builders below are injective: two values are equal exactly when the numbers
// their builders drew are.
struct Fields {
  pbt::Src* src;
  const std::vector<int>* base = nullptr;  // What to replay,
  std::set<size_t> mutated;                // but at these.
  std::vector<int> used;
  std::vector<int> ranges;
  int get(int n) {
    const size_t k = used.size();
    int v;
    if (base && k < base->size() && (*base)[k] < n && !mutated.count(k)) {
      v = (*base)[k];
    } else {
      v = static_cast<int>(src->i(0, n - 1));
    }
    used.push_back(v);
    ranges.push_back(n);
    return v;
  }
  bool flag() { return get(2) == 1; }
  double real() {
    const double v = 0.25 * get(24);
    return v + get(3) * 1e-9;
  }
  double positive() { return real() + 0.25; }
  std::string name(const char* p, int n = 3) { return N(p, get(n)); }
};

Vector3 MakeVector(Fields& f) {
  const double a = f.real(), b = f.real(), c = f.real();
  return {a, b, c};
}
InertialPosition MakePosition(Fields& f) { return InertialPosition::FromXyz(MakeVector(f)); }
Rotation MakeRotation(Fields& f) {
  const double a = 0.1 * f.get(10), b = 0.1 * f.get(10), c = 0.1 * f.get(10);
  return Rotation::FromRpy(a, b, c);
}
SRange MakeSRange(Fields& f) {
  const double a = f.real(), b = f.real();
  return {a, b};
}
LaneSRange MakeLaneSRange(Fields& f) {
  const std::string l = f.name("l");
  return {LaneId(l), MakeSRange(f)};
}
template <typename T>
std::vector<T> MakeVectorOf(Fields& f, int min_n, int max_n, const std::function<T(Fields&, int)>& make) {
  std::vector<T> v;
  const int n = min_n + f.get(max_n - min_n + 1);
  for (int k = 0; k < n; ++k) v.push_back(make(f, k));
  return v;
}
std::vector<LaneSRange> MakeRanges(Fields& f) {
  return MakeVectorOf<LaneSRange>(f, 0, 3, [](Fields& g, int) { return MakeLaneSRange(g); });
}
LaneSRoute MakeRoute(Fields& f) {
  return LaneSRoute(MakeVectorOf<LaneSRange>(f, 1, 3, [](Fields& g, int) { return MakeLaneSRange(g); }));
}
// Sets of names, by membership.
std::vector<std::string> MakeNames(Fields& f, const char* p, int n) {
  std::vector<std::string> v;
  for (int k = 0; k < n; ++k)
    if (f.flag()) v.push_back(N(p, k));
  return v;
}
void MakeState(Fields& f, Rule::State* s) {
  s->severity = f.get(3);
  for (const std::string& g : MakeNames(f, "g", 2)) {
    auto& v = s->related_rules[g];
    for (const auto& x : MakeNames(f, "r", 2)) v.push_back(Rule::Id(x));
  }
  for (const std::string& g : MakeNames(f, "h", 2)) {
    auto& v = s->related_unique_ids[g];
    for (const auto& x : MakeNames(f, "u", 2)) v.push_back(UniqueId(x));
  }
}
DiscreteValue MakeDiscrete(Fields& f) {
  DiscreteValue v;
  MakeState(f, &v);
  v.value = f.name("v");
  return v;
}
Range MakeRange(Fields& f) {
  Range v;
  MakeState(f, &v);
  v.description = f.name("d");
  v.min = f.real();
  v.max = v.min + f.real();
  return v;
}
// States of a rule, made distinct through their texts.
std::vector<DiscreteValue> MakeDiscretes(Fields& f) {
  return MakeVectorOf<DiscreteValue>(f, 1, 3, [](Fields& g, int k) {
    DiscreteValue v = MakeDiscrete(g);
    v.value += N("#", k);
    return v;
  });
}
std::vector<Range> MakeRuleRanges(Fields& f) {
  return MakeVectorOf<Range>(f, 1, 3, [](Fields& g, int k) {
    Range v = MakeRange(g);
    v.description += N("#", k);
    return v;
  });
}
DiscreteValueRule MakeDiscreteRule(Fields& f) {
  const std::string id = f.name("r"), type = f.name("t");
  const LaneSRoute zone = MakeRoute(f);
  return {Rule::Id(id), Rule::TypeId(type), zone, MakeDiscretes(f)};
}
RangeValueRule MakeRangeRule(Fields& f) {
  const std::string id = f.name("r"), type = f.name("t");
  const LaneSRoute zone = MakeRoute(f);
  return {Rule::Id(id), Rule::TypeId(type), zone, MakeRuleRanges(f)};
}
api::rules::RuleStates MakeRuleStates(Fields& f) {
  api::rules::RuleStates m;
  for (const auto& r : MakeNames(f, "w", 3)) m.emplace(RightOfWayRule::Id(r), RightOfWayRule::State::Id(f.name("s")));
  return m;
}
api::rules::DiscreteValueRuleStates MakeDiscreteStates(Fields& f) {
  api::rules::DiscreteValueRuleStates m;
  for (const auto& r : MakeNames(f, "r", 3)) m.emplace(Rule::Id(r), MakeDiscrete(f));
  return m;
}
std::optional<BulbStates> MakeBulbStates(Fields& f) {
  if (!f.flag()) return std::nullopt;
  BulbStates m;
  for (int k = 0; k < 4; ++k)
    if (f.flag()) m.emplace(ToBulb({N("t", k % 2), "g", N("b", k / 2)}), static_cast<BulbState>(f.get(3)));
  return m;
}
std::optional<double> MakeOptional(Fields& f) { return f.flag() ? std::optional<double>(f.real()) : std::nullopt; }
Phase MakePhase(Fields& f) {
  const std::string id = f.name("p");
  const auto a = MakeRuleStates(f);
  const auto b = MakeDiscreteStates(f);
  const auto c = MakeBulbStates(f);
  return {Phase::Id(id), a, b, c};
}
PhaseRing::NextPhase MakeNext(Fields& f) {
  const std::string id = f.name("p");
  return {Phase::Id(id), MakeOptional(f)};
}
std::vector<PhaseRing::NextPhase> MakeNexts(Fields& f) {
  return MakeVectorOf<PhaseRing::NextPhase>(f, 0, 3, [](Fields& g, int) { return MakeNext(g); });
}
DirectionUsageRule::State MakeDirectionState(Fields& f, int k) {
  const std::string id = f.name("s") + N("#", k);
  const int type = f.get(7), severity = f.get(2);
  return {DirectionUsageRule::State::Id(id), static_cast<DirectionUsageRule::State::Type>(type),
          static_cast<DirectionUsageRule::State::Severity>(severity)};
}
std::vector<DirectionUsageRule::State> MakeDirectionStates(Fields& f) {
  return MakeVectorOf<DirectionUsageRule::State>(f, 1, 3, MakeDirectionState);
}
DirectionUsageRule MakeDirectionRule(Fields& f) {
  const std::string id = f.name("r");
  const LaneSRange zone = MakeLaneSRange(f);
  return {DirectionUsageRule::Id(id), zone, MakeDirectionStates(f)};
}
RightOfWayRule::State MakeWayState(Fields& f, int k) {
  const std::string id = f.name("s") + N("#", k);
  const int type = f.get(3);
  RightOfWayRule::State::YieldGroup y;
  for (const auto& r : MakeNames(f, "y", 2)) y.push_back(RightOfWayRule::Id(r));
  return {RightOfWayRule::State::Id(id), static_cast<RightOfWayRule::State::Type>(type), y};
}
RightOfWayRule::RelatedBulbGroups MakeGroups(Fields& f) {
  RightOfWayRule::RelatedBulbGroups m;
  for (const auto& t : MakeNames(f, "t", 2)) {
    auto& v = m[TrafficLight::Id(t)];
    for (const auto& g : MakeNames(f, "g", 3)) v.push_back(BulbGroup::Id(g));
  }
  return m;
}
RightOfWayRule MakeWayRule(Fields& f) {
  const std::string id = f.name("r");
  const LaneSRoute zone = MakeRoute(f);
  const int type = f.get(2);
  const auto states = MakeVectorOf<RightOfWayRule::State>(f, 1, 3, MakeWayState);
  return {RightOfWayRule::Id(id), zone, static_cast<RightOfWayRule::ZoneType>(type), states, MakeGroups(f)};
}
RightOfWayRuleStateProvider::RightOfWayResult MakeWayResult(Fields& f) {
  RightOfWayRuleStateProvider::RightOfWayResult r{RightOfWayRule::State::Id(f.name("s")), std::nullopt};
  if (f.flag()) {
    const std::string next = f.name("s");
    r.next = RightOfWayRuleStateProvider::RightOfWayResult::Next{RightOfWayRule::State::Id(next), MakeOptional(f)};
  }
  return r;
}
SpeedLimitRule MakeSpeedRule(Fields& f) {
  const std::string id = f.name("r");
  const LaneSRange zone = MakeLaneSRange(f);
  const int severity = f.get(2);
  const double min = f.get(5) * 0.25, more = f.get(5) * 0.25;
  return {SpeedLimitRule::Id(id), zone, static_cast<SpeedLimitRule::Severity>(severity), min, min + more};
}
Bulb::BoundingBox MakeBox(Fields& f) {
  Bulb::BoundingBox b;
  b.p_BMin = MakeVector(f) * -1.;
  b.p_BMax = MakeVector(f);
  return b;
}
std::unique_ptr<Bulb> MakeBulb(Fields& f, int k) {
  const std::string id = f.name("b") + N("#", k);
  const InertialPosition p = MakePosition(f);
  const Rotation r = MakeRotation(f);
  const int color = f.get(3);
  const bool arrow = f.flag();
  const std::optional<double> angle = arrow ? std::optional<double>(f.real()) : std::nullopt;
  const BulbType type = arrow ? BulbType::kArrow : BulbType::kRound;
  std::optional<std::vector<BulbState>> states;
  switch (f.get(4)) {  // Absent states are {off, on}.
    case 1:
      states = std::vector<BulbState>{BulbState::kOn};
      break;
    case 2:
      states = std::vector<BulbState>{BulbState::kOff, BulbState::kOn, BulbState::kBlinking};
      break;
    case 3:
      states = std::vector<BulbState>{BulbState::kBlinking};
      break;
    default:
      break;
  }
  return std::make_unique<Bulb>(Bulb::Id(id), p, r, static_cast<BulbColor>(color), type, angle, states, MakeBox(f));
}
std::unique_ptr<BulbGroup> MakeGroup(Fields& f, int k) {
  const std::string id = f.name("g") + N("#", k);
  const InertialPosition p = MakePosition(f);
  const Rotation r = MakeRotation(f);
  std::vector<std::unique_ptr<Bulb>> bulbs;
  const int n = 1 + f.get(2);
  for (int j = 0; j < n; ++j) bulbs.push_back(MakeBulb(f, j));
  return std::make_unique<BulbGroup>(BulbGroup::Id(id), p, r, std::move(bulbs));
}
std::unique_ptr<TrafficLight> MakeLight(Fields& f) {
  const std::string id = f.name("t");
  const InertialPosition p = MakePosition(f);
  const Rotation r = MakeRotation(f);
  std::vector<std::unique_ptr<BulbGroup>> groups;
  const int n = f.get(3);
  for (int j = 0; j < n; ++j) groups.push_back(MakeGroup(f, j));
  return std::make_unique<TrafficLight>(TrafficLight::Id(id), p, r, std::move(groups));
}

// A value, and one which differs in a few fields, or in none.
template <typename T>
struct Pair {
  T a, b;
  bool equal;
  bool one;
};
template <typename T>
Pair<T> MakePair(pbt::Src& src, const std::function<T(Fields&)>& make) {
  Fields fa{&src};
  T a = make(fa);
  Fields fb{&src, &fa.used};
  const bool one = src.b(2, 3);
  if (one) {
    fb.mutated.insert(src.idx(fa.used.size()));
  } else {
    for (int64_t k = src.i(0, 3); k > 0; --k) fb.mutated.insert(src.idx(fa.used.size()));
  }
  T b = make(fb);
  std::ostringstream d;
  for (size_t k = 0; k < fa.used.size() && k < fb.used.size(); ++k)
    if (fa.used[k] != fb.used[k])
      d << " field " << k << "/" << fa.used.size() << ": " << fa.used[k] << " vs " << fb.used[k];
  NOTE("differences:" << d.str() << (fa.used.size() != fb.used.size() ? " (other sizes)" : ""));
  return {std::move(a), std::move(b), fa.used == fb.used, one && fa.used != fb.used};
}

template <typename T>
void Judge(pbt::Src& src, const char* name, const std::function<T(Fields&)>& make,
           const std::function<std::optional<std::string>(const T&, const T&)>& compare) {
  NOTE(name);
  pbt::label(name);
  Pair<T> p = MakePair<T>(src, make);
  if (p.one) pbt::nontrivial();
  std::optional<std::string> ab, ba, aa;
  MUST_NOT_THROW("comparison-throws", ab = compare(p.a, p.b), name);
  MUST_NOT_THROW("comparison-throws", ba = compare(p.b, p.a), name);
  MUST_NOT_THROW("comparison-throws", aa = compare(p.a, p.a), name);
  CHECK(!aa, "differs-from-itself", name << ": " << *aa);
  if (p.equal) {
    CHECK(!ab && !ba, "false-difference", name << ": " << ab.value_or("") << ba.value_or(""));
  } else {
    CHECK(ab && ba, "difference-missed", name << (ab ? " when swapped" : ba ? " unless swapped" : ""));
    CHECK(!ab->empty(), "difference-not-described", name);
  }
}

#define MSG(expr) [](const auto& a, const auto& b) -> std::optional<std::string> { return (expr).message; }
#define EQ(expr)                                                                 \
  [](const auto& a, const auto& b) -> std::optional<std::string> {               \
    return (expr) ? std::nullopt : std::make_optional<std::string>("different"); \
  }

PROBE(P30, rule_values, 60000, 1500000) {
  namespace r = api::rules;
  switch (src.i(0, 17)) {
    case 0:
      return Judge<r::RuleStates>(src, "right of way states", MakeRuleStates, MSG(r::IsEqual(a, b)));
    case 1:
      return Judge<r::DiscreteValueRuleStates>(src, "discrete states", MakeDiscreteStates, MSG(r::IsEqual(a, b)));
    case 2:
      return Judge<Phase>(src, "phase", MakePhase, MSG(r::IsEqual(a, b)));
    case 3:
      return Judge<PhaseRing::NextPhase>(src, "next phase", MakeNext, MSG(r::IsEqual(a, b)));
    case 4:
      return Judge<std::vector<PhaseRing::NextPhase>>(src, "next phases", MakeNexts, MSG(r::IsEqual(a, b)));
    case 5:
      return Judge<DiscreteValue>(src, "discrete value", MakeDiscrete, MSG(r::IsEqual(a, b)));
    case 6:
      return Judge<std::vector<DiscreteValue>>(src, "discrete values", MakeDiscretes, MSG(r::IsEqual(a, b)));
    case 7:
      return Judge<DiscreteValueRule>(src, "discrete rule", MakeDiscreteRule, MSG(r::IsEqual(a, b)));
    case 8:
      return Judge<Range>(src, "range", MakeRange, MSG(r::IsEqual(a, b)));
    case 9:
      return Judge<std::vector<Range>>(src, "ranges", MakeRuleRanges, MSG(r::IsEqual(a, b)));
    case 10:
      return Judge<RangeValueRule>(src, "range rule", MakeRangeRule, MSG(r::IsEqual(a, b)));
    case 11:
      return Judge<DirectionUsageRule::State>(
          src, "direction state", [](Fields& f) { return MakeDirectionState(f, 0); }, MSG(r::IsEqual(a, b)));
    case 12:
      return Judge<DirectionUsageRule>(src, "direction rule", MakeDirectionRule, MSG(r::IsEqual(a, b)));
    case 13:
      return Judge<RightOfWayRule::State>(
          src, "right of way state", [](Fields& f) { return MakeWayState(f, 0); }, MSG(r::IsEqual(a, b)));
    case 14:
      return Judge<RightOfWayRule>(src, "right of way rule", MakeWayRule, MSG(r::IsEqual(a, b)));
    case 15:
      return Judge<RightOfWayRule::RelatedBulbGroups>(src, "related bulb groups", MakeGroups, MSG(r::IsEqual(a, b)));
    case 16:
      return Judge<RightOfWayRuleStateProvider::RightOfWayResult>(src, "right of way result", MakeWayResult,
                                                                  MSG(r::IsEqual(a, b)));
    default:
      return Judge<SpeedLimitRule>(src, "speed limit rule", MakeSpeedRule, MSG(r::IsEqual(a, b)));
  }
}

PROBE(P30, light_values, 24000, 700000) {
  namespace r = api::rules;
  using BulbP = std::unique_ptr<Bulb>;
  using GroupP = std::unique_ptr<BulbGroup>;
  using LightP = std::unique_ptr<TrafficLight>;
  switch (src.i(0, 5)) {
    case 0:
      return Judge<std::optional<BulbStates>>(src, "bulb states", MakeBulbStates, MSG(r::IsEqual(a, b)));
    case 1:
      return Judge<std::optional<double>>(src, "optional number", MakeOptional, MSG(r::IsEqual(a, b)));
    case 2:
      return Judge<Bulb::BoundingBox>(src, "bounding box", MakeBox, MSG(r::IsEqual(a, b)));
    case 3:
      return Judge<BulbP>(src, "bulb", [](Fields& f) { return MakeBulb(f, 0); }, MSG(r::IsEqual(a.get(), b.get())));
    case 4:
      return Judge<GroupP>(
          src, "bulb group", [](Fields& f) { return MakeGroup(f, 0); }, MSG(r::IsEqual(a.get(), b.get())));
    default:
      return Judge<LightP>(src, "traffic light", MakeLight, MSG(r::IsEqual(a.get(), b.get())));
  }
}

PROBE(P30, geometry_values, 30000, 900000) {
  static const tr::Road road = ThreeLanes();
  static const std::vector<const api::Lane*> lanes = [] {
    std::vector<const api::Lane*> v;
    for (const auto& kv : road.rg->ById().GetLanes()) v.push_back(kv.second);
    std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return a->id().string() < b->id().string(); });
    return v;
  }();
  switch (src.i(0, 9)) {
    case 0:
      return Judge<SRange>(src, "s range", MakeSRange, MSG(api::IsEqual(a, b)));
    case 1:
      return Judge<LaneSRange>(src, "lane s range", MakeLaneSRange, MSG(api::IsEqual(a, b)));
    case 2:
      return Judge<std::vector<LaneSRange>>(src, "lane s ranges", MakeRanges, MSG(api::IsEqual(a, b)));
    case 3:
      return Judge<LaneSRoute>(src, "lane s route", MakeRoute, MSG(api::IsEqual(a, b)));
    case 4:
      return Judge<InertialPosition>(src, "inertial position", MakePosition, MSG(api::IsEqual(a, b)));
    case 5:
      return Judge<Rotation>(src, "rotation", MakeRotation, MSG(api::IsEqual(a, b)));
    case 6:
      return Judge<InertialPosition>(src, "inertial position ==", MakePosition, EQ(a == b && !(a != b)));
    case 7:
      return Judge<DiscreteValue>(src, "discrete value ==", MakeDiscrete, EQ(a == b && !(a != b)));
    case 8:
      return Judge<Range>(src, "range ==", MakeRange, EQ(a == b && !(a != b)));
    default: {
      auto end = [&](Fields& f) {
        const int l = f.get(static_cast<int>(lanes.size())), e = f.get(2);
        return LaneEnd(lanes[l], e ? LaneEnd::kFinish : LaneEnd::kStart);
      };
      if (src.b()) return Judge<LaneEnd>(src, "lane end", end, MSG(api::IsEqual(a, b)));
      if (src.b()) return Judge<LaneEnd>(src, "lane end, exactly", end, MSG(api::IsLaneEndEqual(a, b)));
      return Judge<LaneEnd>(src, "lane end order", end, [](const auto& a, const auto& b) -> std::optional<std::string> {
        const LaneEnd::StrictOrder less;
        CHECK(!(less(a, b) && less(b, a)), "lane-end-order", "both before the other");
        return less(a, b) || less(b, a) ? std::make_optional<std::string>("different") : std::nullopt;
      });
    }
  }
}

// Component-wise closeness: different exactly when some component is farther than the tolerance.
PROBE(P30, closeness, 40000, 1200000) {
  static const tr::Road road = ThreeLanes();
  const api::Segment* segment = road.rg->junction(0)->segment(0);
  const double tol = src.pick(std::vector<double>{0.25, 0.5, 1e-3, 2., 16.});
  constexpr int kMax = 12;
  std::array<double, kMax> x{}, y{};
  const int n = kMax;
  int differing = -1;
  if (src.b(3, 4)) differing = static_cast<int>(src.i(0, n - 1));
  for (int k = 0; k < n; ++k) {
    x[k] = src.sym(1.2);
    // Differences away from the tolerance, which is not judged.
    const double d = k == differing ? tol * (1.001 + src.real(0., 2.)) : src.b() ? 0. : tol * src.real(0., 0.99);
    y[k] = x[k] + (src.b() ? d : -d);
  }
  auto judge = [&](const char* name, int used, const std::function<std::optional<std::string>(bool)>& compare) {
    const bool close = differing < 0 || differing >= used;
    NOTE(name << " tolerance " << tol << (close ? " close" : " apart in component " + std::to_string(differing)));
    pbt::label(name);
    if (!close) pbt::nontrivial();
    for (bool swap : {false, true}) {
      std::optional<std::string> m;
      MUST_NOT_THROW("comparison-throws", m = compare(swap), name);
      CHECK(m.has_value() == !close, close ? "false-difference" : "difference-missed", name << " " << m.value_or(""));
    }
  };
  auto inertial = [&](const std::array<double, kMax>& v, int k) { return InertialPosition(v[k], v[k + 1], v[k + 2]); };
  auto lane = [&](const std::array<double, kMax>& v, int k) { return api::LanePosition(v[k], v[k + 1], v[k + 2]); };
  auto lane_result = [&](const std::array<double, kMax>& v) {
    return api::LanePositionResult{lane(v, 0), inertial(v, 3), v[6]};
  };
  auto phase_result = [&](const std::array<double, kMax>& v, size_t k) {
    maliput::routing::PhasePositionResult r;
    r.lane_s_range_index = k;
    r.lane_position = lane(v, 0);
    r.inertial_position = inertial(v, 3);
    r.distance = v[6];
    return r;
  };
  switch (src.i(0, 8)) {
    case 0:
      return judge("inertial position", 3, [&](bool s) {
        return api::IsInertialPositionClose(inertial(s ? y : x, 0), inertial(s ? x : y, 0), tol).message;
      });
    case 1:
      return judge("lane position", 3, [&](bool s) {
        return api::IsLanePositionClose(lane(s ? y : x, 0), lane(s ? x : y, 0), tol).message;
      });
    case 2: {
      if (tol > 0.5) return;  // Angles would wrap.
      auto rotation = [&](const std::array<double, kMax>& v) { return Rotation::FromRpy(v[0], 0.2 * v[1], v[2]); };
      std::array<double, kMax> xx = x, yy = y;
      for (int k : {1}) xx[k] = x[k] * 5., yy[k] = y[k] * 5.;
      for (int k = 0; k < 3; ++k)
        if (std::abs(x[k]) > 1.4 || std::abs(y[k]) > 1.4) return;
      return judge("rotation", 3, [&](bool s) {
        return api::IsRotationClose(rotation(s ? yy : xx), rotation(s ? xx : yy), tol).message;
      });
    }
    case 3: {
      auto bounds = [&](const std::array<double, kMax>& v) { return api::RBounds(v[0] - 60., v[1] + 60.); };
      return judge("r bounds", 2,
                   [&](bool s) { return api::IsRBoundsClose(bounds(s ? y : x), bounds(s ? x : y), tol).message; });
    }
    case 4: {
      auto bounds = [&](const std::array<double, kMax>& v) { return api::HBounds(v[0] - 60., v[1] + 60.); };
      return judge("h bounds", 2,
                   [&](bool s) { return api::IsHBoundsClose(bounds(s ? y : x), bounds(s ? x : y), tol).message; });
    }
    case 5:
      return judge("lane position result", 7, [&](bool s) {
        return api::IsLanePositionResultClose(lane_result(s ? y : x), lane_result(s ? x : y), tol).message;
      });
    case 6: {
      const int lanes = segment->num_lanes();
      const api::Lane* la = segment->lane(static_cast<int>(src.i(0, lanes - 1)));
      const api::Lane* lb = src.b(3, 4) ? la : segment->lane(static_cast<int>(src.i(0, lanes - 1)));
      if (la != lb) differing = 0;
      auto result = [&](const std::array<double, kMax>& v, const api::Lane* l) {
        return api::RoadPositionResult{{l, lane(v, 0)}, inertial(v, 3), v[6]};
      };
      return judge("road position result", 7, [&](bool s) {
        return api::IsRoadPositionResultClose(result(s ? y : x, s ? lb : la), result(s ? x : y, s ? la : lb), tol)
            .message;
      });
    }
    case 7: {
      const size_t ka = src.idx(3), kb = src.b(3, 4) ? ka : src.idx(3);
      if (ka != kb) differing = 0;
      return judge("phase position result", 7, [&](bool s) {
        return maliput::routing::IsPhasePositionResultClose(phase_result(s ? y : x, s ? kb : ka),
                                                            phase_result(s ? x : y, s ? ka : kb), tol)
            .message;
      });
    }
    default: {
      const size_t ka = src.idx(3), kb = src.b(3, 4) ? ka : src.idx(3), pa = src.idx(3),
                   pb = src.b(3, 4) ? pa : src.idx(3);
      if (ka != kb || pa != pb) differing = 0;
      auto result = [&](const std::array<double, kMax>& v, size_t p, size_t k) {
        maliput::routing::RoutePositionResult r;
        r.phase_index = p;
        r.phase_position_result = phase_result(v, k);
        return r;
      };
      return judge("route position result", 7, [&](bool s) {
        return maliput::routing::IsRoutePositionResultClose(result(s ? y : x, s ? pb : pa, s ? kb : ka),
                                                            result(s ? x : y, s ? pa : pb, s ? ka : kb), tol)
            .message;
      });
    }
  }
}

// Vectors and matrices, with special values.
template <size_t N_, typename V>
void JudgeVectors(pbt::Src& src) {
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  const bool relative = src.b();
  const double tol = src.pick(std::vector<double>{0., 0.25, 1e-3, 0.0625});
  V a, b;
  maliput::math::Matrix<N_> ma, mb;
  bool apart = false, special = false, matrix = src.b();
  auto component = [&](double* x, double* y) {
    switch (src.weighted({12, 1, 1, 1, 1, 1, 1, 1})) {
      case 1:
        *x = *y = inf;
        special = true;
        return;
      case 2:
        *x = *y = -inf;
        special = true;
        return;
      case 3:
        *x = *y = nan;
        special = true;
        return;
      case 4:
        *x = nan, *y = src.sym(9.), apart = special = true;
        return;
      case 5:
        *x = src.pick(std::vector<double>{inf, -inf}), *y = src.sym(9.), apart = special = true;
        return;
      case 6:
        *x = inf, *y = -inf, apart = special = true;
        return;
      case 7:
        *x = src.pick(std::vector<double>{inf, -inf}), *y = nan, apart = special = true;
        return;
      default:
        break;
    }
    *x = src.pick(std::vector<double>{0., 1., -1., 1e3, -1e6}) + src.sym(0.5);
    if (src.b()) {
      *y = *x;
      return;
    }
    const double bound = tol * (relative ? std::max(1., std::abs(*x)) : 1.);
    const double d = src.b(1, 4) ? bound * (1.3 + src.real(0., 9.)) + 1e-3 : bound * src.real(0., 0.9);
    *y = *x + (src.b() ? d : -d);
    const double limit = tol * (relative ? std::max({1., std::abs(*x), std::abs(*y)}) : 1.);
    apart |= std::abs(*x - *y) > limit;
  };
  for (size_t r = 0; r < N_; ++r) {
    if (!matrix) {
      double x, y;
      component(&x, &y);
      a[r] = x, b[r] = y;
      continue;
    }
    for (size_t c = 0; c < N_; ++c) {
      double x, y;
      if (src.b()) {
        x = y = 1.;
      } else {
        component(&x, &y);
      }
      ma[r][c] = x, mb[r][c] = y;
    }
  }
  if (special || apart) pbt::nontrivial();
  NOTE((matrix ? "matrices of " : "vectors of ")
       << N_ << (relative ? " relative " : " absolute ") << tol << (apart ? " apart" : " close"));
  const auto type = relative ? maliput::math::CompareType::kRelative : maliput::math::CompareType::kAbsolute;
  for (bool s : {false, true}) {
    std::optional<std::string> m;
    if (matrix) {
      m = maliput::math::CompareMatrices(s ? mb : ma, s ? ma : mb, tol, type).message;
    } else {
      m = maliput::math::CompareVectors<N_, V>(s ? b : a, s ? a : b, tol, type).message;
    }
    CHECK(m.has_value() == apart, apart ? "difference-missed" : "false-difference", m.value_or(""));
  }
}

PROBE(P30, arrays, 40000, 1200000) {
  switch (src.i(0, 2)) {
    case 0:
      return JudgeVectors<2, maliput::math::Vector2>(src);
    case 1:
      return JudgeVectors<3, maliput::math::Vector3>(src);
    default:
      return JudgeVectors<4, maliput::math::Vector4>(src);
  }
}

std::string RandomText(pbt::Src& src, bool may_be_empty) {
  std::string s;
  for (int64_t k = src.i(may_be_empty ? 0 : 1, 5); k > 0; --k)
    s += src.b(9, 10) ? src.pick(std::vector<char>{'a', 'b', 'A', '-', '_'}) : static_cast<char>(src.i(0, 255));
  return s;
}

template <typename Id>
void JudgeIds(pbt::Src& src, const char* name) {
  NOTE(name);
  const size_t n = src.i(2, 6);
  std::vector<std::string> t;
  for (size_t k = 0; k < n; ++k) {
    if (!t.empty() && src.b(1, 4)) {
      t.push_back(src.pick(t));
    } else if (!t.empty() && src.b(1, 3)) {
      t.push_back(src.pick(t) + RandomText(src, true));
    } else {
      t.push_back(RandomText(src, false));
    }
  }
  std::vector<Id> ids;
  for (const auto& x : t) ids.push_back(Id(x));
  MUST_THROW("empty-id", Id(std::string()), name);
  const std::less<Id> less;
  const std::hash<Id> hash;
  bool prefix = false;
  for (size_t a = 0; a < n; ++a) {
    CHECK(ids[a].string() == t[a], "id-text", name);
    for (size_t b = 0; b < n; ++b) {
      prefix |= a != b && t[a] != t[b] && t[b].compare(0, t[a].size(), t[a]) == 0;
      CHECK((ids[a] == ids[b]) == (t[a] == t[b]) && (ids[a] != ids[b]) == (t[a] != t[b]), "id-equality",
            t[a] << "|" << t[b]);
      if (t[a] == t[b]) {
        CHECK(hash(ids[a]) == hash(ids[b]), "id-hash", t[a]);
        CHECK(!less(ids[a], ids[b]), "id-order", t[a]);
      } else {
        CHECK(less(ids[a], ids[b]) != less(ids[b], ids[a]), "id-order", t[a] << "|" << t[b]);
      }
      for (size_t c = 0; c < n; ++c)
        CHECK(!(less(ids[a], ids[b]) && less(ids[b], ids[c])) || less(ids[a], ids[c]), "id-order", "not transitive");
    }
  }
  if (prefix) pbt::nontrivial();
  const std::set<std::string> distinct(t.begin(), t.end());
  CHECK((std::set<Id, std::less<Id>>(ids.begin(), ids.end()).size() == distinct.size()), "id-ordered-set", name);
  std::unordered_set<Id> us(ids.begin(), ids.end());
  CHECK(us.size() == distinct.size(), "id-hash-set", name);
  for (const auto& x : t) CHECK(us.count(Id(x)) == 1, "id-hash-set", x);
  Id copy = ids[0];
  copy = ids[1];
  CHECK(copy == ids[1], "id-copy", "");
}

PROBE(P30, identifiers, 30000, 900000) {
  switch (src.i(0, 5)) {
    case 0:
      return JudgeIds<LaneId>(src, "lane id");
    case 1:
      return JudgeIds<Rule::Id>(src, "rule id");
    case 2:
      return JudgeIds<UniqueId>(src, "unique id");
    case 3:
      return JudgeIds<TrafficLight::Id>(src, "traffic light id");
    case 4:
      return JudgeIds<Phase::Id>(src, "phase id");
    default:
      return JudgeIds<Rule::TypeId>(src, "rule type id");
  }
}

// A hasher which records the bytes it is given: equal values append equal bytes, and values which differ append others.
std::string Bytes(const std::function<void(maliput::common::DelegatingHasher&)>& append) {
  std::string bytes;
  maliput::common::DelegatingHasher h(
      [&bytes](const void* data, size_t n) { bytes.append(static_cast<const char*>(data), n); });
  append(h);
  return bytes;
}
template <typename T>
void JudgeHash(const T& a, const T& b, bool equal, const char* name) {
  using maliput::common::hash_append;
  const std::string x = Bytes([&](auto& h) { hash_append(h, a); }), y = Bytes([&](auto& h) { hash_append(h, b); });
  CHECK((x == y) == equal, equal ? "hash-differs" : "hash-ignores-content", name);
  const maliput::common::DefaultHash hash;
  CHECK(!equal || hash(a) == hash(b), "hash-differs", name);
  // FNV-1a of those bytes.
  uint64_t fnv = 0xcbf29ce484222325u;
  for (unsigned char c : x) fnv = (fnv ^ c) * 1099511628211u;
  CHECK(hash(a) == fnv, "hash-value", name);
}

PROBE(P30, hashes, 30000, 900000) {
  const std::string t = RandomText(src, true), u = RandomText(src, true), v = t + u;
  const size_t cut = src.idx(v.size() + 1);
  const std::string t2 = v.substr(0, cut), u2 = v.substr(cut);
  NOTE(t.size() << "+" << u.size() << " bytes, split again at " << cut);
  if (cut != t.size()) pbt::nontrivial();
  JudgeHash(std::make_pair(t, u), std::make_pair(t2, u2), t == t2, "pair of texts");
  JudgeHash(std::set<std::string>{t, u}, std::set<std::string>{t2, u2},
            std::set<std::string>{t, u} == std::set<std::string>{t2, u2}, "set");
  const std::map<std::string, std::string> m{{t, u}}, m2{{t2, u2}};
  JudgeHash(m, m2, m == m2, "map");
  const std::optional<std::string> o = src.b() ? std::optional<std::string>(t) : std::nullopt,
                                   o2 = src.b() ? std::optional<std::string>(t2) : std::nullopt;
  JudgeHash(o, o2, o == o2, "optional");
  const double x = src.pick(std::vector<double>{0., -0., 1., -1., 1e-300, 5e-324}),
               y = src.pick(std::vector<double>{0., -0., 1., -1., 5e-324});
  JudgeHash(x, y, x == y, "double");
  const int i = static_cast<int>(src.i(-2, 2)), j = static_cast<int>(src.i(-2, 2));
  JudgeHash(i, j, i == j, "int");
  JudgeHash(std::make_pair(i, j), std::make_pair(j, i), i == j, "pair of int");
  const BulbState e = static_cast<BulbState>(src.i(0, 2)), f = static_cast<BulbState>(src.i(0, 2));
  JudgeHash(e, f, e == f, "enum");
}

// The order of ranges is a strict weak one, which agrees with their equality as far as they differ in what it orders.
PROBE(P30, range_order, 30000, 900000) {
  std::vector<Range> v;
  for (int k = 0; k < 3; ++k) {
    Range r;
    r.severity = static_cast<int>(src.i(0, 1));
    r.description = N("d", src.i(0, 1));
    r.min = static_cast<double>(src.i(0, 1));
    r.max = r.min + static_cast<double>(src.i(0, 2));
    v.push_back(r);
  }
  int differing = 0;
  for (const auto& a : v) {
    for (const auto& b : v) {
      const bool same = a.severity == b.severity && a.description == b.description && a.min == b.min && a.max == b.max;
      differing += !same;
      CHECK((a == b) == same && (a != b) == !same, "range-equality", "");
      CHECK(same ? !(a < b) && !(b < a) : (a < b) != (b < a), "range-order",
            a.severity << a.description << a.min << a.max << " vs " << b.severity << b.description << b.min << b.max);
      for (const auto& c : v) CHECK(!(a < b && b < c) || a < c, "range-order", "not transitive");
    }
  }
  if (differing) pbt::nontrivial();
}

}  // namespace
