// P19 documents load as written, P20 malformed documents are refused cleanly.
#include <unistd.h>

#include <array>
#include <cstdio>
#include <fstream>
#include <memory>

#include "maliput/base/intersection_book_loader.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/phase_ring_book_loader.h"
#include "maliput/base/road_rulebook_loader.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/rule_registry_loader.h"
#include "maliput/base/traffic_light_book.h"
#include "maliput/base/traffic_light_book_loader.h"
#include "phasegen.h"
#include "testroad.h"
#include "yamlgen.h"

using namespace rg;
using api::rules::Bulb;
using api::rules::BulbColor;
using api::rules::BulbGroup;
using api::rules::BulbType;
using api::rules::PhaseRingBook;
using api::rules::RoadRulebook;
using api::rules::RuleRegistry;
using api::rules::TrafficLight;
using api::rules::TrafficLightBook;
using maliput::ManualPhaseProvider;
using maliput::ManualRulebook;
using yg::Y;

PBT_RULE(
    P19,
    "Random models of every kind of document, written with random presentation (block or flow, quoting, comments, "
    "anchors, order of attributes, optional attributes left out), loaded from text and from a file. Non-trivial: the "
    "document holds two or more elements.");
PBT_RULE(
    P20,
    "The documents of P19 with one attribute broken in a known way, with random changes of the tree, or with random "
    "changes of the text. Non-trivial: the changed document differs from the original one.");

namespace {

const std::string kRow = "Right-Of-Way Rule Type", kStop = "Vehicle-Stop-In-Zone-Behavior Rule Type";

// Names: mostly plain, sometimes demanding for a parser. Distinct for distinct `k` within a prefix.
std::string Name(pbt::Src& src, const char* prefix, int64_t k) {
  const std::string base = N(prefix, k);
  if (!src.b(1, 8)) return base;
  switch (src.idx(12)) {
    case 0:
      return base + " with spaces";
    case 1:
      return "it's " + base;
    case 2:
      return "\"" + base + "\"";
    case 3:
      return base + ": x";
    case 4:
      return "#" + base;
    case 5:
      return "[" + base + "]";
    case 6:
      return "{" + base + "}";
    case 7:
      return "1." + std::to_string(1000 + k) + (*prefix);
    case 8:
      return "\xe5\x90\x8d" + base;
    case 9:
      return base + "\\n";
    case 10:
      return "*" + base + " &";
    default:
      return base + "/" + base;
  }
}
std::vector<std::string> Names(pbt::Src& src, const char* prefix, int64_t n) {
  std::vector<std::string> v;
  for (int64_t k = 0; k < n; ++k) v.push_back(Name(src, prefix, k));
  return v;
}
// A random subset, in random order.
template <typename T>
std::vector<T> Subset(pbt::Src& src, std::vector<T> v, size_t min_n) {
  src.shuffle(&v);
  const size_t n = min_n >= v.size() ? v.size() : static_cast<size_t>(src.i(min_n, v.size()));
  v.resize(n);
  return v;
}

std::string FromFile(const std::string& text, const std::function<void(const std::string&)>& f) {
  const std::string path = "/tmp/pbt_yaml_" + std::to_string(getpid()) + ".yaml";
  std::ofstream(path) << text;
  try {
    f(path);
  } catch (...) {
    std::remove(path.c_str());
    throw;
  }
  std::remove(path.c_str());
  return path;
}

// A road whose lanes are referred to by documents.
struct World {
  tr::Road road;
  std::vector<std::pair<std::string, double>> lanes;
  const api::RoadGeometry* rg() const { return road.rg.get(); }
};
World MakeWorld(pbt::Src& src) {
  tr::RoadSpec spec;
  tr::JunctionSpec j{"j", {}};
  World w;
  const int64_t n = src.i(1, 4);
  for (int64_t k = 0; k < n; ++k) {
    tr::LaneSpec l;
    l.id = Name(src, "lane", k);
    l.geom.origin = {0., 20. * k, 0.};
    l.geom.length = 5. + 0.25 * static_cast<double>(src.i(0, 60));
    w.lanes.emplace_back(l.id, l.geom.length);
    j.segments.push_back({N("s", k), {l}});
  }
  spec.junctions.push_back(j);
  w.road = tr::Build(spec);
  return w;
}

Y Id(const std::string& s) { return Y::S(s, "id"); }
Y Ref(const std::string& s) { return Y::S(s, "ref"); }
Y Strings(const std::vector<std::string>& v, const char* role = "text", const char* seq_role = "seq") {
  Y y = Y::Seq(seq_role);
  for (const auto& s : v) y.Add(Y::S(s, role));
  return y;
}

struct Zone {
  std::vector<LaneSRange> ranges;
};
LaneSRange RandomZonePart(pbt::Src& src, const World& w, bool* whole) {
  const auto& l = w.lanes[src.idx(w.lanes.size())];
  *whole = src.b(1, 3);
  if (*whole) return LaneSRange(LaneId(l.first), SRange(0., l.second));
  auto coord = [&]() {
    switch (src.weighted({1, 1, 4})) {
      case 0:
        return 0.;
      case 1:
        return l.second;
      default:
        return 0.25 * static_cast<double>(src.i(0, static_cast<int64_t>(l.second * 4)));
    }
  };
  const double a = coord(), b = coord();
  return LaneSRange(LaneId(l.first), SRange(a, b));
}
Y ZonePart(pbt::Src&, const LaneSRange& r, bool whole, const char* lane_key, const char* range_key, const World& w) {
  Y y = Y::Map();
  y.Need(lane_key, Ref(r.lane_id().string()));
  if (!whole) {
    double length = 0.;
    for (const auto& l : w.lanes)
      if (l.first == r.lane_id().string()) length = l.second;
    char role[60];
    std::snprintf(role, sizeof(role), "srange:%.17g", length);
    Y s = Y::Seq(role);
    s.Add(Y::Num(r.s_range().s0())).Add(Y::Num(r.s_range().s1()));
    y.Put(range_key, s);
  }
  return y;
}
std::vector<LaneSRange> RandomZone(pbt::Src& src, const World& w, const char* lane_key, const char* range_key, Y* y) {
  std::vector<LaneSRange> v;
  *y = Y::Seq();
  for (int64_t k = src.i(1, 3); k > 0; --k) {
    bool whole;
    v.push_back(RandomZonePart(src, w, &whole));
    y->Add(ZonePart(src, v.back(), whole, lane_key, range_key, w));
  }
  return v;
}

// ---- Rule registry.
struct TypeModel {
  std::string id;
  bool range{};
  std::vector<PlainState> states;
};
using RegistryModel = std::vector<TypeModel>;
void Clear(std::map<std::string, std::vector<std::string>>* m) {
  for (auto& kv : *m) kv.second.clear();
}
std::vector<PlainState> Unique(const std::vector<PlainState>& r) {
  std::vector<PlainState> u;
  for (const auto& p : r)
    if (std::none_of(u.begin(), u.end(), [&](const PlainState& q) { return Equal(p, q); })) u.push_back(p);
  return u;
}
// States with demanding texts.
std::vector<PlainState> States(pbt::Src& src, bool range) {
  std::vector<PlainState> v = RandomStates(src, range, false);
  for (auto& p : v)
    if (src.b(1, 6)) p.text = Name(src, "v", src.i(0, 2));
  return Unique(v);
}
RegistryModel RandomRegistry(pbt::Src& src) {
  RegistryModel m;
  const auto ids = Names(src, "type", src.i(0, 4));
  for (const auto& id : ids) {
    TypeModel t;
    t.id = id;
    t.range = src.b();
    t.states = States(src, t.range);
    for (auto& p : t.states) {
      Clear(&p.related_rules);
      Clear(&p.related_ids);
    }
    t.states = Unique(t.states);
    m.push_back(t);
  }
  return m;
}
Y Keys(const std::map<std::string, std::vector<std::string>>& m) {
  Y y = Y::Seq();
  for (const auto& kv : m) y.Add(Y::S(kv.first));
  return y;
}
Y Doc(pbt::Src& src, const RegistryModel& m) {
  Y types = Y::Map();
  for (const auto& t : m) {
    Y states = Y::Seq("nonempty");
    for (const auto& p : t.states) {
      Y y = Y::Map();
      if (t.range) {
        y.Need("range", Y::Seq("minmax").Add(Y::Num(p.min)).Add(Y::Num(p.max)));
        y.Need("description", Y::S(p.text));
      } else {
        y.Need("value", Y::S(p.text));
      }
      if (p.severity != 0 || src.b()) y.Put("severity", Y::Raw(std::to_string(p.severity), "severity"));
      if (!p.related_rules.empty() || src.b(1, 4)) y.Put("related_rules", Keys(p.related_rules));
      if (!p.related_ids.empty() || src.b(1, 4)) y.Put("related_unique_ids", Keys(p.related_ids));
      y.role = "unique";
      states.Add(y);
    }
    types.Need(t.id, states);
    types.entries.back().second.required = false;
  }
  Y root = Y::Map();
  root.Need("RuleRegistry", types);
  return root;
}
void Compare(const RuleRegistry& r, const RegistryModel& m) {
  size_t ranges = 0;
  for (const auto& t : m) ranges += t.range;
  CHECK(r.RangeValueRuleTypes().size() == ranges && r.DiscreteValueRuleTypes().size() == m.size() - ranges,
        "registry-types", "");
  for (const auto& t : m) {
    if (t.range) {
      const auto it = r.RangeValueRuleTypes().find(Rule::TypeId(t.id));
      CHECK(it != r.RangeValueRuleTypes().end() && Plains(it->second) == t.states, "registry-ranges", t.id);
    } else {
      const auto it = r.DiscreteValueRuleTypes().find(Rule::TypeId(t.id));
      CHECK(it != r.DiscreteValueRuleTypes().end() && Plains(it->second) == t.states, "registry-values", t.id);
    }
  }
}
std::unique_ptr<RuleRegistry> ToRegistry(const RegistryModel& m) {
  auto r = std::make_unique<RuleRegistry>();
  for (const auto& t : m) {
    if (t.range) {
      r->RegisterRangeValueRule(Rule::TypeId(t.id), Ranges(t.states));
    } else {
      r->RegisterDiscreteValueRule(Rule::TypeId(t.id), Discretes(t.states));
    }
  }
  return r;
}

// ---- Rulebook of registered types.
struct RuleModel {
  std::string id, type;
  bool range{};
  std::vector<LaneSRange> zone;
  std::vector<PlainState> states;
};
void DropEmpty(std::map<std::string, std::vector<std::string>>* m) {
  for (auto it = m->begin(); it != m->end();) it = it->second.empty() ? m->erase(it) : std::next(it);
}
Y Groups(pbt::Src& src, const std::map<std::string, std::vector<std::string>>& m) {
  Y y = Y::Seq();
  for (const auto& kv : m) {
    size_t done = 0;
    // A group may be given in pieces.
    if (kv.second.size() > 1 && src.b(1, 4)) {
      done = 1;
      y.Add(Y::Map().Put(kv.first, Strings({kv.second[0]})));
    }
    const std::vector<std::string> rest(kv.second.begin() + done, kv.second.end());
    if (!y.items.empty() && done == 0 && src.b(1, 3)) {
      y.items.back().Put(kv.first, Strings(rest));
    } else {
      y.Add(Y::Map().Put(kv.first, Strings(rest)));
    }
  }
  if (src.b(1, 10)) y.Add(Y::Map());
  return y;
}
std::vector<RuleModel> RandomRulebook(pbt::Src& src, const World& w, const RegistryModel& reg, Y* doc) {
  std::vector<RuleModel> v;
  Y list = Y::Seq();
  const auto ids = Names(src, "rule", src.i(0, 4));
  for (const auto& id : ids) {
    if (reg.empty()) break;
    const TypeModel& t = reg[src.idx(reg.size())];
    RuleModel r;
    r.id = id;
    r.type = t.id;
    r.range = t.range;
    std::vector<PlainState> states;
    for (const auto& s : Subset(src, t.states, 1)) {
      PlainState p = s;
      p.related_rules = RandomGroups(src, "r", false);
      p.related_ids = RandomGroups(src, "u", false);
      DropEmpty(&p.related_rules);
      DropEmpty(&p.related_ids);
      states.push_back(p);
    }
    r.states = Unique(states);
    Y zone;
    r.zone = RandomZone(src, w, "lane_id", "s_range", &zone);
    Y y = Y::Map("unique");
    y.Need("id", Id(r.id));
    y.Need("type", Ref(r.type));
    y.Need("zone", zone);
    Y values = Y::Seq("nonempty");
    for (const auto& p : r.states) {
      Y s = Y::Map("unique");
      if (t.range) {
        s.Need("range", Y::Seq("minmax").Add(Y::Num(p.min)).Add(Y::Num(p.max)));
        s.Need("description", Y::S(p.text, "ref"));
      } else {
        s.Need("value", Y::S(p.text, "ref"));
      }
      if (p.severity != 0 || src.b()) s.Put("severity", Y::Raw(std::to_string(p.severity), "severity"));
      s.Need("related_rules", Groups(src, p.related_rules));
      s.Need("related_unique_ids", Groups(src, p.related_ids));
      values.Add(s);
    }
    y.Need(t.range ? "ranges" : "values", values);
    list.Add(y);
    v.push_back(r);
  }
  *doc = Y::Map();
  doc->Need("RoadRulebook", list);
  return v;
}
template <typename R>
void CompareRule(const R& got, const RuleModel& r) {
  CHECK(got.id().string() == r.id && got.type_id().string() == r.type, "rule-id", r.id);
  CHECK(Same(got.zone().ranges(), r.zone), "rule-zone", r.id);
  CHECK(Plains(got.states()).size() == r.states.size(), "rule-states", r.id);
  for (size_t k = 0; k < r.states.size(); ++k)
    CHECK(Plain(got.states()[k]) == r.states[k], "rule-states",
          r.id << " " << Str(Plain(got.states()[k])) << " for " << Str(r.states[k]));
}
void Compare(const RoadRulebook& book, const std::vector<RuleModel>& m) {
  const auto rules = book.Rules();
  size_t ranges = 0;
  for (const auto& r : m) ranges += r.range;
  CHECK(rules.range_value_rules.size() == ranges && rules.discrete_value_rules.size() == m.size() - ranges &&
            rules.right_of_way.empty() && rules.direction_usage.empty() && rules.speed_limit.empty(),
        "rulebook-size", rules.range_value_rules.size() << "+" << rules.discrete_value_rules.size());
  for (const auto& r : m) {
    if (r.range) {
      CompareRule(book.GetRangeValueRule(Rule::Id(r.id)), r);
    } else {
      CompareRule(book.GetDiscreteValueRule(Rule::Id(r.id)), r);
    }
  }
}

// ---- Rulebook of right-of-way and direction usage rules.
struct RowModel {
  std::string id;
  std::vector<LaneSRange> zone;
  bool stop_allowed{};
  std::map<std::string, std::vector<std::string>> states;  // State -> yields to.
  std::map<std::string, std::vector<std::string>> groups;  // Light -> bulb groups.
};
struct UsageModel {
  std::string id;
  LaneSRange zone{LaneId("x"), SRange(0., 0.)};
  std::map<std::string, std::pair<std::string, bool>> states;  // State -> type, strict?
};
struct OldBook {
  std::vector<RowModel> row;
  std::vector<UsageModel> usage;
};
OldBook RandomOldBook(pbt::Src& src, const World& w, Y* doc, int64_t min_rules = 0) {
  OldBook b;
  Y rows = Y::Seq(), usages = Y::Seq();
  const auto ids = Names(src, "rule", src.i(min_rules, 4));
  const auto lights = Names(src, "light", 3), groups = Names(src, "group", 3);
  for (const auto& id : ids) {
    RowModel r;
    r.id = id;
    Y y = Y::Map("unique");
    y.Need("ID", Id(id));
    Y zone;
    r.zone = RandomZone(src, w, "Lane", "SRange", &zone);
    y.Need("Zone", zone);
    r.stop_allowed = src.b(1, 3);
    if (r.stop_allowed || src.b()) y.Put("ZoneType", Y::S(r.stop_allowed ? "StopAllowed" : "StopExcluded", "enum"));
    Y states = Y::Map("states");
    for (const auto& s : Subset(src, std::vector<std::string>{"Go", "Stop", "StopThenGo"}, 1)) {
      r.states[s] = Subset(src, ids, 0);
      states.Put(s, Strings(r.states[s]));
    }
    y.Need("States", states);
    if (src.b()) {
      Y related = Y::Map();
      for (const auto& l : Subset(src, lights, 0)) {
        r.groups[l] = Subset(src, groups, 0);
        related.Put(l, Strings(r.groups[l]));
      }
      y.Put("RelatedBulbGroups", related);
    }
    rows.Add(y);
    b.row.push_back(r);
  }
  for (const auto& id : Names(src, "usage", src.i(0, 3))) {
    UsageModel u;
    u.id = id;
    Y y = Y::Map("unique");
    y.Need("ID", Id(id));
    bool whole;
    u.zone = RandomZonePart(src, w, &whole);
    y.Need("Zone", ZonePart(src, u.zone, whole, "Lane", "SRange", w));
    Y states = Y::Seq("nonempty");
    for (const auto& s : Names(src, "state", src.i(1, 3))) {
      const std::string type = src.pick(
          std::vector<std::string>{"WithS", "AgainstS", "Bidirectional", "BidirectionalTurnOnly", "NoUse", "Parking"});
      const bool strict = src.b();
      u.states[s] = {type, strict};
      states.Add(Y::Map("unique")
                     .Need("ID", Id(s))
                     .Need("Severity", Y::S(strict ? "Strict" : "Preferred", "enum"))
                     .Need("Type", Y::S(type, "enum")));
    }
    y.Need("States", states);
    usages.Add(y);
    b.usage.push_back(u);
  }
  *doc = Y::Map();
  doc->Need("RoadRulebook", Y::Map().Need("RightOfWayRules", rows).Need("DirectionUsageRules", usages));
  return b;
}
std::string TypeName(DirectionUsageRule::State::Type t) {
  switch (t) {
    case DirectionUsageRule::State::Type::kWithS:
      return "WithS";
    case DirectionUsageRule::State::Type::kAgainstS:
      return "AgainstS";
    case DirectionUsageRule::State::Type::kBidirectional:
      return "Bidirectional";
    case DirectionUsageRule::State::Type::kBidirectionalTurnOnly:
      return "BidirectionalTurnOnly";
    case DirectionUsageRule::State::Type::kNoUse:
      return "NoUse";
    case DirectionUsageRule::State::Type::kParking:
      return "Parking";
    default:
      return "?";
  }
}
std::string TypeName(RightOfWayRule::State::Type t) {
  switch (t) {
    case RightOfWayRule::State::Type::kGo:
      return "Go";
    case RightOfWayRule::State::Type::kStop:
      return "Stop";
    case RightOfWayRule::State::Type::kStopThenGo:
      return "StopThenGo";
    default:
      return "?";
  }
}
// The discrete counterpart of a state of a right-of-way rule.
PlainState DiscreteOf(const RowModel& r, const std::string& state) {
  PlainState p;
  p.text = state;
  p.related_rules[kStop] = {kStop + "/" + r.id};
  auto& yield = p.related_rules["Yield Group"];
  for (const auto& y : r.states.at(state)) yield.push_back(kRow + "/" + y);
  auto& ids = p.related_ids["Bulb Group"];
  for (const auto& l : r.groups)
    for (const auto& g : l.second) ids.push_back(l.first + "-" + g);
  return p;
}
void Compare(const RoadRulebook& book, const OldBook& m) {
  const auto rules = book.Rules();
  CHECK(rules.right_of_way.size() == m.row.size() && rules.direction_usage.size() == m.usage.size() &&
            rules.discrete_value_rules.size() == 2 * m.row.size() && rules.range_value_rules.empty() &&
            rules.speed_limit.empty(),
        "old-rulebook-size", rules.right_of_way.size() << " " << rules.discrete_value_rules.size());
  for (const auto& r : m.row) {
    const auto got = book.GetRule(RightOfWayRule::Id(r.id));
    CHECK(got.id().string() == r.id && Same(got.zone().ranges(), r.zone), "row-zone", r.id);
    CHECK((got.zone_type() == RightOfWayRule::ZoneType::kStopAllowed) == r.stop_allowed, "row-zone-type", r.id);
    CHECK(got.states().size() == r.states.size(), "row-states", r.id);
    for (const auto& kv : r.states) {
      const auto it = got.states().find(RightOfWayRule::State::Id(kv.first));
      CHECK(it != got.states().end() && TypeName(it->second.type()) == kv.first, "row-states", r.id << " " << kv.first);
      std::vector<std::string> yields;
      for (const auto& y : it->second.yield_to()) yields.push_back(y.string());
      CHECK(yields == kv.second, "row-yields", r.id << " " << kv.first << ": " << pbt::join(yields));
    }
    std::map<std::string, std::vector<std::string>> groups;
    for (const auto& kv : got.related_bulb_groups())
      for (const auto& g : kv.second) groups[kv.first.string()].push_back(g.string());
    auto want = r.groups;
    DropEmpty(&want);
    CHECK(groups == want, "row-bulb-groups", r.id);
    const auto stop = book.GetDiscreteValueRule(Rule::Id(kStop + "/" + r.id));
    PlainState s;
    s.text = r.stop_allowed ? "UnconstrainedParking" : "DoNotStop";
    CHECK(stop.type_id().string() == kStop && Same(stop.zone().ranges(), r.zone) && stop.states().size() == 1 &&
              Plain(stop.states()[0]) == s,
          "row-stop-rule", r.id);
    const auto row = book.GetDiscreteValueRule(Rule::Id(kRow + "/" + r.id));
    CHECK(row.type_id().string() == kRow && Same(row.zone().ranges(), r.zone) && row.states().size() == r.states.size(),
          "row-discrete-rule", r.id);
    for (const auto& kv : r.states) {
      const PlainState want_state = DiscreteOf(r, kv.first);
      bool found = false;
      for (const auto& st : row.states()) found = found || Equal(Plain(st), want_state);
      CHECK(found, "row-discrete-states", r.id << " " << Str(want_state));
    }
  }
  for (const auto& u : m.usage) {
    const auto got = book.GetRule(DirectionUsageRule::Id(u.id));
    CHECK(got.id().string() == u.id && Same(got.zone(), u.zone) && got.states().size() == u.states.size(), "usage-zone",
          u.id);
    for (const auto& kv : u.states) {
      const auto it = got.states().find(DirectionUsageRule::State::Id(kv.first));
      CHECK(it != got.states().end() && it->second.id().string() == kv.first &&
                TypeName(it->second.type()) == kv.second.first &&
                (it->second.severity() == DirectionUsageRule::State::Severity::kStrict) == kv.second.second,
            "usage-states", u.id << " " << kv.first);
    }
  }
}

// ---- Traffic lights.
struct Pose {
  std::array<double, 3> xyz{};
  std::array<double, 4> q{1., 0., 0., 0.};
};
struct BulbModel {
  std::string id;
  Pose pose;
  std::optional<std::array<double, 6>> box;
  BulbColor color{};
  std::optional<double> arrow;
  std::vector<BulbState> states;
};
struct GroupModel {
  std::string id;
  Pose pose;
  std::vector<BulbModel> bulbs;
};
struct LightModel {
  std::string id;
  Pose pose;
  std::vector<GroupModel> groups;
};
const char* kStateNames[] = {"Off", "On", "Blinking"};
BulbState kStates[] = {BulbState::kOff, BulbState::kOn, BulbState::kBlinking};
std::string StateName(BulbState s) {
  for (int k = 0; k < 3; ++k)
    if (kStates[k] == s) return kStateNames[k];
  return "?";
}
BulbState DefaultState(const BulbModel& b) {
  for (auto s : {BulbState::kOff, BulbState::kBlinking, BulbState::kOn})
    if (std::find(b.states.begin(), b.states.end(), s) != b.states.end()) return s;
  return BulbState::kOn;
}
Pose RandomPose(pbt::Src& src) {
  Pose p;
  for (auto& x : p.xyz) x = src.sym(50.);
  if (src.b()) {
    // Not of unit length on purpose: orientations are normalized.
    double n = 0.;
    for (auto& x : p.q) {
      x = src.sym(2.);
      n += x * x;
    }
    if (n < 1e-2) p.q = {0., 0., 1., 0.};
  }
  return p;
}
Y PoseDoc(const Pose& p, const std::string& frame) {
  Y xyz = Y::Seq("count"), q = Y::Seq("count");
  for (double x : p.xyz) xyz.Add(Y::Num(x));
  for (double x : p.q) q.Add(Y::Num(x));
  return Y::Map().Need("position_" + frame, xyz).Need("orientation_" + frame, q);
}
std::vector<LightModel> RandomLights(pbt::Src& src, Y* doc, int64_t min_lights = 0) {
  std::vector<LightModel> v;
  Y lights = Y::Seq();
  for (const auto& lid : Names(src, "light", src.i(min_lights, 3))) {
    LightModel l{lid, RandomPose(src), {}};
    Y groups = Y::Seq();
    for (const auto& gid : Names(src, "group", src.i(0, 3))) {
      GroupModel g{gid, RandomPose(src), {}};
      Y bulbs = Y::Seq("nonempty");
      for (const auto& bid : Names(src, "bulb", src.i(1, 3))) {
        BulbModel b;
        b.id = bid;
        b.pose = RandomPose(src);
        Y y = Y::Map("unique");
        y.Need("ID", Id(bid)).Need("Pose", PoseDoc(b.pose, "bulb_group"));
        if (src.b(1, 3)) {
          b.box.emplace();
          for (auto& x : *b.box) x = src.sym(1.);
          Y lo = Y::Seq("count"), hi = Y::Seq("count");
          for (int k = 0; k < 3; ++k) {
            lo.Add(Y::Num((*b.box)[k]));
            hi.Add(Y::Num((*b.box)[k + 3]));
          }
          y.Put("BoundingBox", Y::Map().Need("min", lo).Need("max", hi));
        }
        const size_t c = src.idx(3);
        b.color = std::vector<BulbColor>{BulbColor::kRed, BulbColor::kYellow, BulbColor::kGreen}[c];
        y.Need("Color", Y::S(std::vector<std::string>{"Red", "Yellow", "Green"}[c], "enum"));
        if (src.b(1, 3)) b.arrow = src.sym(3.);
        y.Need("Type", Y::S(b.arrow ? "Arrow" : "Round", "enum"));
        if (b.arrow) y.Need("ArrowOrientation", Y::Num(*b.arrow));
        b.states = {BulbState::kOff, BulbState::kOn};
        if (src.b()) {
          b.states = Subset(src, std::vector<BulbState>(kStates, kStates + 3), 1);
          Y states = Y::Seq();
          for (auto s : b.states) states.Add(Y::S(StateName(s), "enum"));
          y.Put("States", states);
        }
        bulbs.Add(y);
        g.bulbs.push_back(b);
      }
      groups.Add(
          Y::Map("unique").Need("ID", Id(gid)).Need("Pose", PoseDoc(g.pose, "traffic_light")).Need("Bulbs", bulbs));
      l.groups.push_back(g);
    }
    lights.Add(
        Y::Map("unique").Need("ID", Id(lid)).Need("Pose", PoseDoc(l.pose, "road_network")).Need("BulbGroups", groups));
    v.push_back(l);
  }
  *doc = Y::Map().Need("TrafficLights", lights);
  return v;
}
void ComparePose(const api::InertialPosition& p, const api::Rotation& r, const Pose& m, const std::string& what) {
  CHECK(p.x() == m.xyz[0] && p.y() == m.xyz[1] && p.z() == m.xyz[2], "light-position", what);
  double n = 0., d = 0.;
  for (double x : m.q) n += x * x;
  n = std::sqrt(n);
  const std::array<double, 4> got{r.quat().w(), r.quat().x(), r.quat().y(), r.quat().z()};
  for (int k = 0; k < 4; ++k) d += got[k] * m.q[k] / n;
  CHECK(std::abs(std::abs(d) - 1.) < 1e-9, "light-orientation", what << " " << d);
}
void Compare(const TrafficLightBook& book, const std::vector<LightModel>& m) {
  CHECK(book.TrafficLights().size() == m.size(), "lights-size", "");
  for (const auto& l : m) {
    const TrafficLight* light = book.GetTrafficLight(TrafficLight::Id(l.id));
    CHECK(light && light->id().string() == l.id && light->bulb_groups().size() == l.groups.size(), "light", l.id);
    ComparePose(light->position_road_network(), light->orientation_road_network(), l.pose, l.id);
    for (const auto& g : l.groups) {
      const BulbGroup* group = light->GetBulbGroup(BulbGroup::Id(g.id));
      CHECK(group && group->bulbs().size() == g.bulbs.size(), "light-group", g.id);
      ComparePose(group->position_traffic_light(), group->orientation_traffic_light(), g.pose, l.id + " " + g.id);
      for (const auto& b : g.bulbs) {
        const Bulb* bulb = group->GetBulb(Bulb::Id(b.id));
        CHECK(bulb && bulb->color() == b.color, "light-bulb", b.id);
        CHECK((bulb->type() == BulbType::kArrow) == b.arrow.has_value() && bulb->arrow_orientation_rad() == b.arrow,
              "light-arrow", b.id);
        ComparePose(bulb->position_bulb_group(), bulb->orientation_bulb_group(), b.pose,
                    l.id + " " + g.id + " " + b.id);
        CHECK(std::set<BulbState>(bulb->states().begin(), bulb->states().end()) ==
                  std::set<BulbState>(b.states.begin(), b.states.end()),
              "light-states", b.id);
        const auto box = b.box.value_or(std::array<double, 6>{-0.0889, -0.1778, -0.1778, 0.0889, 0.1778, 0.1778});
        const auto& lo = bulb->bounding_box().p_BMin;
        const auto& hi = bulb->bounding_box().p_BMax;
        for (int k = 0; k < 3; ++k) CHECK(lo[k] == box[k] && hi[k] == box[k + 3], "light-box", b.id);
        CHECK(bulb->GetDefaultState() == DefaultState(b), "light-default-state", b.id);
      }
    }
  }
}
std::unique_ptr<maliput::TrafficLightBook> ToBook(const std::vector<LightModel>& m) {
  auto book = std::make_unique<maliput::TrafficLightBook>();
  auto rot = [](const Pose& p) { return api::Rotation::FromQuat({p.q[0], p.q[1], p.q[2], p.q[3]}); };
  auto pos = [](const Pose& p) { return api::InertialPosition(p.xyz[0], p.xyz[1], p.xyz[2]); };
  for (const auto& l : m) {
    std::vector<std::unique_ptr<BulbGroup>> groups;
    for (const auto& g : l.groups) {
      std::vector<std::unique_ptr<Bulb>> bulbs;
      for (const auto& b : g.bulbs)
        bulbs.push_back(std::make_unique<Bulb>(Bulb::Id(b.id), pos(b.pose), rot(b.pose), b.color,
                                               b.arrow ? BulbType::kArrow : BulbType::kRound, b.arrow, b.states));
      groups.push_back(std::make_unique<BulbGroup>(BulbGroup::Id(g.id), pos(g.pose), rot(g.pose), std::move(bulbs)));
    }
    book->AddTrafficLight(
        std::make_unique<TrafficLight>(TrafficLight::Id(l.id), pos(l.pose), rot(l.pose), std::move(groups)));
  }
  return book;
}

// ---- Phase rings.
// Discrete rules, each with some of the right-of-way values.
std::vector<RuleModel> RandomGoverned(pbt::Src& src, const World& w) {
  std::vector<RuleModel> v;
  for (const auto& id : Names(src, "rule", src.i(0, 4))) {
    RuleModel r;
    r.id = id;
    r.type = "type";
    Y unused;
    r.zone = RandomZone(src, w, "", "", &unused);
    for (const auto& value : Subset(src, std::vector<std::string>{"Stop", "Go", "StopThenGo"}, 1)) {
      PlainState p = RandomState(src, false, false);
      p.text = value;
      r.states.push_back(p);
    }
    if (src.b(1, 3)) {
      // Others: another value, the same value in another way.
      PlainState p = r.states[src.idx(r.states.size())];
      if (src.b()) {
        p.text = "Yield";
      } else {
        p.severity += 1;
      }
      r.states.insert(r.states.begin() + src.idx(r.states.size() + 1), p);
    }
    r.states = Unique(r.states);
    v.push_back(r);
  }
  return v;
}
const PlainState& StateOf(const RuleModel& r, const std::string& value) {
  for (const auto& s : r.states)
    if (s.text == value) return s;
  pbt::fail("harness", "no state " + value);
  return r.states[0];
}
std::string DefaultValue(const std::vector<std::string>& values) {
  for (const char* v : {"Stop", "StopThenGo", "Go"})
    if (std::find(values.begin(), values.end(), v) != values.end()) return v;
  pbt::fail("harness", "no default state");
  return "";
}
// What a ring may refer to: rules with the values they may take, and how a value shows in the phase.
struct Governed {
  std::string id;
  std::vector<std::string> values;
  std::function<void(const std::string&, PlainPhase*)> set;
};
std::vector<PlainRing> RandomRings(pbt::Src& src, const std::vector<Governed>& rules,
                                   const std::vector<LightModel>& lights, bool states_required, Y* doc,
                                   int64_t min_rings = 0) {
  std::vector<PlainRing> v;
  Y rings = Y::Seq();
  std::vector<Governed> left = Subset(src, rules, 0);
  const auto ring_ids = Names(src, "ring", src.i(min_rings, 3));
  for (size_t k = 0; k < ring_ids.size(); ++k) {
    PlainRing r;
    r.id = ring_ids[k];
    std::vector<Governed> own = k + 1 == ring_ids.size() ? left : Subset(src, left, 0);
    for (const auto& g : own)
      left.erase(std::find_if(left.begin(), left.end(), [&](const Governed& x) { return x.id == g.id; }));
    Y y = Y::Map("unique");
    y.Need("ID", Id(r.id));
    Y names = Y::Seq();
    for (const auto& g : own) names.Add(Ref(g.id));
    y.Need("Rules", names);
    std::vector<std::pair<const LightModel*, std::vector<const GroupModel*>>> governed;
    const bool bulbs = src.b(2, 3);
    if (bulbs) {
      for (const auto& l : lights) {
        std::vector<const GroupModel*> gs;
        for (const auto& g : l.groups)
          if (src.b(2, 3)) gs.push_back(&g);
        if (src.b(3, 4)) governed.emplace_back(&l, gs);
      }
    }
    Y phases = Y::Seq("nonempty");
    for (const auto& pid : Names(src, "phase", src.i(1, 4))) {
      PlainPhase p;
      p.id = pid;
      Y py = Y::Map("unique");
      py.Need("ID", Id(pid));
      Y states = Y::Map("named");
      for (const auto& g : own) {
        std::string value = DefaultValue(g.values);
        if (src.b()) {
          value = src.pick(g.values);
          states.Put(g.id, Y::S(value, "enum"));
        }
        g.set(value, &p);
      }
      if (states_required || !states.entries.empty() || src.b(1, 3)) {
        if (states_required) {
          py.Need("RightOfWayRuleStates", states);
        } else {
          py.Put("RightOfWayRuleStates", states);
        }
      }
      if (bulbs) {
        p.bulbs.emplace();
        Y ls = Y::Map("named maps");
        for (const auto& lg : governed) {
          Y gs = Y::Map("named maps");
          for (const auto* g : lg.second) {
            Y bs = Y::Map("named");
            for (const auto& b : g->bulbs) {
              BulbState s = DefaultState(b);
              if (src.b()) {
                s = src.pick(b.states);
                bs.Put(b.id, Y::S(StateName(s), "enum"));
              }
              (*p.bulbs)[{lg.first->id, g->id, b.id}] = s;
            }
            gs.Put(g->id, bs);
          }
          ls.Put(lg.first->id, gs);
        }
        py.Put("TrafficLightStates", ls);
      }
      phases.Add(py);
      r.phases.push_back(p);
    }
    y.Need("Phases", phases);
    if (src.b(3, 4)) {
      r.next.emplace();
      Y graph = Y::Map("graph");
      for (const auto& p : r.phases) {
        auto& nexts = (*r.next)[p.id];
        Y list = Y::Seq();
        for (int64_t n = src.i(0, 2); n > 0; --n) {
          PlainNext next{r.phases[src.idx(r.phases.size())].id, {}};
          Y ny = Y::Map();
          ny.Need("ID", Ref(next.id));
          if (src.b()) {
            next.duration = 0.25 * static_cast<double>(src.i(1, 100));
            ny.Put("duration_until", Y::Num(*next.duration));
          }
          nexts.push_back(next);
          list.Add(ny);
        }
        graph.Need(p.id, list);
      }
      y.Put("PhaseTransitionGraph", graph);
    }
    rings.Add(y);
    v.push_back(r);
  }
  *doc = Y::Map().Need("PhaseRings", rings);
  return v;
}
bool SamePhaseLoosely(const Phase& a, const PlainPhase& p) {
  if (a.id().string() != p.id || PlainRuleStates(a.rule_states()) != p.right_of_way) return false;
  const auto discrete = PlainDiscreteStates(a.discrete_value_rule_states());
  if (discrete.size() != p.discrete.size()) return false;
  for (const auto& kv : p.discrete) {
    const auto it = discrete.find(kv.first);
    if (it == discrete.end() || !Equal(it->second, kv.second)) return false;
  }
  const auto bulbs = a.bulb_states();
  if (bulbs.has_value() != p.bulbs.has_value()) return false;
  return !p.bulbs || PlainBulbStates(*bulbs) == *p.bulbs;
}
std::string Str(const PlainPhase& p) {
  std::string s = p.id + " {";
  for (const auto& kv : p.right_of_way) s += kv.first + "=" + kv.second + " ";
  s += "|";
  for (const auto& kv : p.discrete) s += " " + kv.first + "=" + kv.second.text;
  s += "|";
  if (p.bulbs)
    for (const auto& kv : *p.bulbs)
      s += " " + kv.first[0] + "/" + kv.first[1] + "/" + kv.first[2] + "=" + StateName(kv.second);
  else
    s += " none";
  return s + "}";
}
void Compare(const PhaseRingBook& book, const std::vector<PlainRing>& m) {
  CHECK(book.GetPhaseRings().size() == m.size(), "rings-size", "");
  for (const auto& r : m) {
    const auto ring = book.GetPhaseRing(PhaseRing::Id(r.id));
    CHECK(ring.has_value() && ring->id().string() == r.id && ring->phases().size() == r.phases.size(), "ring", r.id);
    for (const auto& p : r.phases) {
      const auto phase = ring->GetPhase(Phase::Id(p.id));
      CHECK(phase.has_value() && SamePhaseLoosely(*phase, p), "ring-phase", r.id << ": expected " << Str(p));
      const auto& next = ring->GetNextPhases(Phase::Id(p.id));
      const std::vector<PlainNext> want = r.next ? r.next->at(p.id) : std::vector<PlainNext>();
      CHECK(next.size() == want.size(), "ring-next", r.id << " " << p.id);
      for (size_t k = 0; k < want.size(); ++k)
        CHECK(next[k].id.string() == want[k].id && next[k].duration_until == want[k].duration, "ring-next",
              r.id << " " << p.id);
    }
  }
}

// Everything a case of the ring or intersection probes needs.
struct RingWorld {
  World world;
  std::vector<RuleModel> rules;  // New ones.
  OldBook old;
  bool is_old{};
  std::unique_ptr<RoadRulebook> rulebook;
  std::vector<LightModel> lights;
  std::unique_ptr<maliput::TrafficLightBook> light_book;
  std::vector<PlainRing> rings;
  Y doc;
  std::map<std::string, std::vector<LaneSRange>> zones;      // Of the discrete rules.
  std::map<std::string, std::vector<LaneSRange>> old_zones;  // Of the right-of-way rules.

  std::unique_ptr<PhaseRingBook> Load(const std::string& text) const {
    return is_old ? maliput::LoadPhaseRingBookOldRules(rulebook.get(), light_book.get(), text)
                  : maliput::LoadPhaseRingBook(rulebook.get(), light_book.get(), text);
  }
  std::unique_ptr<PhaseRingBook> LoadFile(const std::string& path) const {
    return is_old ? maliput::LoadPhaseRingBookFromFileOldRules(rulebook.get(), light_book.get(), path)
                  : maliput::LoadPhaseRingBookFromFile(rulebook.get(), light_book.get(), path);
  }
};
RightOfWayRule ToRow(const RowModel& r) {
  std::vector<RightOfWayRule::State> states;
  for (const auto& kv : r.states) {
    RightOfWayRule::State::YieldGroup yields;
    for (const auto& y : kv.second) yields.push_back(RightOfWayRule::Id(y));
    states.push_back(RightOfWayRule::State(RightOfWayRule::State::Id(kv.first),
                                           kv.first == "Go"     ? RightOfWayRule::State::Type::kGo
                                           : kv.first == "Stop" ? RightOfWayRule::State::Type::kStop
                                                                : RightOfWayRule::State::Type::kStopThenGo,
                                           yields));
  }
  RightOfWayRule::RelatedBulbGroups groups;
  for (const auto& kv : r.groups) {
    auto& g = groups[TrafficLight::Id(kv.first)];
    for (const auto& x : kv.second) g.push_back(BulbGroup::Id(x));
  }
  return RightOfWayRule(
      RightOfWayRule::Id(r.id), LaneSRoute(r.zone),
      r.stop_allowed ? RightOfWayRule::ZoneType::kStopAllowed : RightOfWayRule::ZoneType::kStopExcluded, states,
      groups);
}
RingWorld MakeRingWorld(pbt::Src& src, bool is_old, int64_t min_rings = 0, bool odd = false) {
  RingWorld w;
  w.is_old = is_old;
  w.world = MakeWorld(src);
  Y unused;
  w.lights = RandomLights(src, &unused);
  w.light_book = ToBook(w.lights);
  auto book = std::make_unique<ManualRulebook>();
  std::vector<Governed> governed;
  if (is_old) {
    w.old = RandomOldBook(src, w.world, &unused);
    for (const auto& r : w.old.row) {
      book->AddRule(ToRow(r));
      std::vector<PlainState> states;
      Governed g;
      g.id = r.id;
      for (const auto& kv : r.states) {
        g.values.push_back(kv.first);
        states.push_back(DiscreteOf(r, kv.first));
      }
      // The loader looks groups up in the order in which the rule holds them.
      const auto rule = book->GetRule(RightOfWayRule::Id(r.id));
      for (auto& s : states) {
        auto& ids = s.related_ids["Bulb Group"];
        ids.clear();
        for (const auto& l : rule.related_bulb_groups())
          for (const auto& x : l.second) ids.push_back(l.first.string() + "-" + x.string());
      }
      const std::string discrete_id = kRow + "/" + r.id;
      book->AddRule(
          DiscreteValueRule(Rule::Id(discrete_id), Rule::TypeId(kRow), LaneSRoute(r.zone), Discretes(states)));
      w.zones[discrete_id] = r.zone;
      w.old_zones[r.id] = r.zone;
      g.set = [r, discrete_id](const std::string& value, PlainPhase* p) {
        p->right_of_way[r.id] = value;
        p->discrete[discrete_id] = DiscreteOf(r, value);
      };
      governed.push_back(g);
    }
  } else {
    w.rules = RandomGoverned(src, w.world);
    for (const auto& r : w.rules) {
      book->AddRule(DiscreteValueRule(Rule::Id(r.id), Rule::TypeId(r.type), LaneSRoute(r.zone), Discretes(r.states)));
      w.zones[r.id] = r.zone;
      Governed g;
      g.id = r.id;
      for (const auto& s : r.states)
        if (std::find(g.values.begin(), g.values.end(), s.text) == g.values.end()) g.values.push_back(s.text);
      g.set = [r](const std::string& value, PlainPhase* p) { p->discrete[r.id] = StateOf(r, value); };
      governed.push_back(g);
    }
  }
  // Rules which take none of the values of right-of-way rules.
  if (odd) {
    PlainState p;
    p.text = "Yield";
    book->AddRule(DiscreteValueRule(Rule::Id("odd rule"), Rule::TypeId("type"),
                                    LaneSRoute({LaneSRange(LaneId(w.world.lanes[0].first), SRange(0., 1.))}),
                                    Discretes({p})));
  }
  w.rulebook = std::move(book);
  w.rings = RandomRings(src, governed, w.lights, is_old, &w.doc, min_rings);
  return w;
}

// ---- Intersections.
struct CrossingModel {
  std::string id;
  size_t ring{};
  std::string phase;
};
std::vector<CrossingModel> RandomCrossings(pbt::Src& src, const std::vector<PlainRing>& rings, Y* doc) {
  std::vector<CrossingModel> v;
  Y list = Y::Seq();
  if (!rings.empty()) {
    for (const auto& id : Names(src, "crossing", src.i(0, 3))) {
      CrossingModel c{id, src.idx(rings.size()), ""};
      c.phase = rings[c.ring].phases[src.idx(rings[c.ring].phases.size())].id;
      list.Add(Y::Map("unique")
                   .Need("ID", Id(id))
                   .Need("PhaseRing", Ref(rings[c.ring].id))
                   .Need("InitialPhase", Ref(c.phase)));
      v.push_back(c);
    }
  }
  *doc = Y::Map();
  if (!v.empty() || src.b()) {
    doc->Put("Intersections", list);
  } else {
    doc->Put("Other", Y::S("x"));
  }
  return v;
}
std::vector<std::string> SortedRegion(const std::vector<LaneSRange>& r) {
  std::vector<std::string> v;
  for (const auto& x : r) {
    std::ostringstream os;
    os << x.lane_id().string() << " " << x.s_range().s0() << " " << x.s_range().s1();
    v.push_back(os.str());
  }
  std::sort(v.begin(), v.end());
  return v;
}
void Compare(api::IntersectionBook* book, const ManualPhaseProvider& provider, const std::vector<CrossingModel>& m,
             const RingWorld& w) {
  CHECK(book->GetIntersections().size() == m.size(), "crossings-size", "");
  std::map<size_t, std::string> current;
  for (const auto& c : m) current[c.ring] = c.phase;
  for (const auto& c : m) {
    api::Intersection* got = book->GetIntersection(api::Intersection::Id(c.id));
    const PlainRing& r = w.rings[c.ring];
    CHECK(got && got->id().string() == c.id && got->ring_id().string() == r.id, "crossing", c.id);
    std::vector<LaneSRange> region;
    for (const auto& kv : r.phases[0].discrete)
      for (const auto& x : w.zones.at(kv.first)) region.push_back(x);
    if (r.phases[0].discrete.empty())
      for (const auto& kv : r.phases[0].right_of_way)
        for (const auto& x : w.old_zones.at(kv.first)) region.push_back(x);
    CHECK(SortedRegion(got->region()) == SortedRegion(region), "crossing-region",
          c.id << ": " << pbt::join(SortedRegion(got->region())) << " for " << pbt::join(SortedRegion(region)));
    const auto phase = got->Phase();
    CHECK(phase.has_value() && phase->state.string() == current.at(c.ring), "crossing-phase", c.id);
  }
  for (size_t k = 0; k < w.rings.size(); ++k) {
    const PlainRing& r = w.rings[k];
    const auto got = provider.GetPhase(PhaseRing::Id(r.id));
    CHECK(got.has_value() == (current.count(k) > 0), "crossing-provider", r.id);
    if (!got) continue;
    const auto next = r.next ? r.next->at(current.at(k)) : std::vector<PlainNext>();
    CHECK(got->state.string() == current.at(k) && got->next.has_value() == !next.empty(), "crossing-provider", r.id);
    if (!next.empty())
      CHECK(got->next->state.string() == next[0].id && got->next->duration_until == next[0].duration,
            "crossing-provider-next", r.id);
  }
}

// Emits `doc`, with its attributes in any order.
std::string Text(pbt::Src& src, Y doc) {
  yg::ShuffleEntries(src, &doc);
  const std::string t = yg::Emit(src, doc);
  NOTE(t);
  return t;
}

template <typename Load, typename Check>
void LoadBothWays(const std::string& text, Load&& load, Check&& check, pbt::Src& src) {
  if (src.b(1, 6)) {
    FromFile(text, [&](const std::string& path) { check(load(path, true)); });
    pbt::label("from a file");
  } else {
    check(load(text, false));
  }
}

}  // namespace

PROBE(P19, registry, 4000, 120000) {
  const RegistryModel m = RandomRegistry(src);
  if (m.size() >= 2) pbt::nontrivial();
  const std::string text = Text(src, Doc(src, m));
  LoadBothWays(
      text,
      [](const std::string& t, bool file) {
        return file ? maliput::LoadRuleRegistryFromFile(t) : maliput::LoadRuleRegistry(t);
      },
      [&](std::unique_ptr<RuleRegistry> r) { Compare(*r, m); }, src);
}

PROBE(P19, rulebook, 4000, 120000) {
  const World w = MakeWorld(src);
  const RegistryModel reg = RandomRegistry(src);
  Y doc;
  const auto m = RandomRulebook(src, w, reg, &doc);
  if (m.size() >= 2) pbt::nontrivial();
  const std::string text = Text(src, doc);
  const auto registry = ToRegistry(reg);
  LoadBothWays(
      text,
      [&](const std::string& t, bool file) {
        return file ? maliput::LoadRoadRulebookFromFile(w.rg(), t, *registry)
                    : maliput::LoadRoadRulebook(w.rg(), t, *registry);
      },
      [&](std::unique_ptr<RoadRulebook> b) { Compare(*b, m); }, src);
}

PROBE(P19, right_of_way_rulebook, 4000, 120000) {
  const World w = MakeWorld(src);
  Y doc;
  const OldBook m = RandomOldBook(src, w, &doc);
  if (m.row.size() + m.usage.size() >= 2) pbt::nontrivial();
  const std::string text = Text(src, doc);
  LoadBothWays(
      text,
      [&](const std::string& t, bool file) {
        return file ? maliput::LoadRoadRulebookFromFile(w.rg(), t) : maliput::LoadRoadRulebook(w.rg(), t);
      },
      [&](std::unique_ptr<RoadRulebook> b) { Compare(*b, m); }, src);
}

PROBE(P19, traffic_lights, 4000, 120000) {
  Y doc;
  const auto m = RandomLights(src, &doc);
  if (m.size() >= 2) pbt::nontrivial();
  const std::string text = Text(src, doc);
  LoadBothWays(
      text,
      [&](const std::string& t, bool file) {
        return file ? maliput::LoadTrafficLightBookFromFile(t) : maliput::LoadTrafficLightBook(t);
      },
      [&](std::unique_ptr<TrafficLightBook> b) { Compare(*b, m); }, src);
}

PROBE(P19, phase_rings, 6000, 160000) {
  const RingWorld w = MakeRingWorld(src, src.b());
  pbt::label(w.is_old ? "right-of-way rules" : "discrete value rules");
  size_t phases = 0;
  for (const auto& r : w.rings) phases = std::max(phases, r.phases.size());
  if (phases >= 2) pbt::nontrivial();
  const std::string text = Text(src, w.doc);
  LoadBothWays(
      text, [&](const std::string& t, bool file) { return file ? w.LoadFile(t) : w.Load(t); },
      [&](std::unique_ptr<PhaseRingBook> b) { Compare(*b, w.rings); }, src);
}

PROBE(P19, intersections, 4000, 120000) {
  RingWorld w = MakeRingWorld(src, src.b(), 1);
  if (w.is_old && src.b()) {
    // Rings of right-of-way rules only.
    for (auto& r : w.rings)
      for (auto& p : r.phases) p.discrete.clear();
    pbt::label("right-of-way rules only");
  }
  auto rings = std::make_unique<maliput::ManualPhaseRingBook>();
  for (const auto& r : w.rings) rings->AddPhaseRing(ToRing(r));
  Y doc;
  const auto m = RandomCrossings(src, w.rings, &doc);
  if (m.size() >= 2) pbt::nontrivial();
  const std::string text = Text(src, doc);
  ManualPhaseProvider provider;
  LoadBothWays(
      text,
      [&](const std::string& t, bool file) {
        return file ? maliput::LoadIntersectionBookFromFile(t, *w.rulebook, *rings, w.world.rg(), &provider)
                    : maliput::LoadIntersectionBook(t, *w.rulebook, *rings, w.world.rg(), &provider);
      },
      [&](std::unique_ptr<api::IntersectionBook> b) { Compare(b.get(), provider, m, w); }, src);
}

// ---- Malformed documents.
namespace {

// A kind of document with everything it refers to.
struct Subject {
  std::string kind;
  Y doc;
  std::vector<std::string> words;  // To be used in changed documents.
  // Loads and, when it loads, checks that what came out is sound. Throws what the loader throws.
  std::function<void(const std::string&)> load;
};

void SoundZone(const World& w, const std::vector<LaneSRange>& zone) {
  for (const auto& r : zone) {
    bool ok = false;
    for (const auto& l : w.lanes)
      if (l.first == r.lane_id().string())
        ok = std::min(r.s_range().s0(), r.s_range().s1()) >= 0. &&
             std::max(r.s_range().s0(), r.s_range().s1()) <= l.second;
    CHECK(ok, "unsound-zone", r.lane_id().string() << " [" << r.s_range().s0() << "," << r.s_range().s1() << "]");
  }
}
template <typename S>
void SoundStates(const std::vector<S>& states) {
  CHECK(!states.empty(), "unsound-states", "none");
  for (const auto& s : states) {
    const PlainState p = Plain(s);
    CHECK(p.severity >= 0 && p.min <= p.max, "unsound-states", Str(p));
  }
}

Subject MakeSubject(pbt::Src& src, std::shared_ptr<void>* keep) {
  Subject s;
  switch (src.idx(7)) {
    case 0: {
      s.kind = "registry";
      s.doc = Doc(src, RandomRegistry(src));
      s.load = [](const std::string& t) {
        const auto r = maliput::LoadRuleRegistry(t);
        CHECK(r != nullptr, "null", "");
        for (const auto& kv : r->DiscreteValueRuleTypes()) SoundStates(kv.second);
        for (const auto& kv : r->RangeValueRuleTypes()) SoundStates(kv.second);
      };
      return s;
    }
    case 1: {
      s.kind = "rulebook";
      auto w = std::make_shared<World>(MakeWorld(src));
      const RegistryModel reg = RandomRegistry(src);
      RandomRulebook(src, *w, reg, &s.doc);
      s.load = [w, reg](const std::string& t) {
        const auto registry = ToRegistry(reg);
        const auto book = maliput::LoadRoadRulebook(w->rg(), t, *registry);
        CHECK(book != nullptr, "null", "");
        for (const auto& kv : book->Rules().discrete_value_rules) {
          SoundZone(*w, kv.second.zone().ranges());
          SoundStates(kv.second.states());
          CHECK(registry->DiscreteValueRuleTypes().count(kv.second.type_id()), "unsound-type",
                kv.second.type_id().string());
        }
        for (const auto& kv : book->Rules().range_value_rules) {
          SoundZone(*w, kv.second.zone().ranges());
          SoundStates(kv.second.states());
          CHECK(registry->RangeValueRuleTypes().count(kv.second.type_id()), "unsound-type",
                kv.second.type_id().string());
        }
      };
      return s;
    }
    case 2: {
      s.kind = "right-of-way rulebook";
      auto w = std::make_shared<World>(MakeWorld(src));
      RandomOldBook(src, *w, &s.doc);
      s.load = [w](const std::string& t) {
        const auto book = maliput::LoadRoadRulebook(w->rg(), t);
        CHECK(book != nullptr, "null", "");
        for (const auto& kv : book->Rules().right_of_way) {
          SoundZone(*w, kv.second.zone().ranges());
          CHECK(!kv.second.states().empty(), "unsound-states", kv.first.string());
        }
        for (const auto& kv : book->Rules().direction_usage) {
          SoundZone(*w, {kv.second.zone()});
          CHECK(!kv.second.states().empty(), "unsound-states", kv.first.string());
        }
      };
      return s;
    }
    case 3: {
      s.kind = "traffic lights";
      RandomLights(src, &s.doc);
      s.load = [](const std::string& t) {
        const auto book = maliput::LoadTrafficLightBook(t);
        CHECK(book != nullptr, "null", "");
        for (const auto* l : book->TrafficLights())
          for (const auto* g : l->bulb_groups()) {
            CHECK(!g->bulbs().empty() && g->traffic_light() == l, "unsound-group", l->id().string());
            for (const auto* b : g->bulbs())
              CHECK(b->bulb_group() == g && !b->states().empty() &&
                        (b->type() == BulbType::kArrow) == b->arrow_orientation_rad().has_value(),
                    "unsound-bulb", b->id().string());
          }
      };
      return s;
    }
    case 4:
    case 5: {
      s.kind = "phase rings";
      auto w = std::make_shared<RingWorld>(MakeRingWorld(src, src.b(1, 3), 0, true));
      s.doc = w->doc;
      s.words = {"odd rule"};
      s.load = [w](const std::string& t) {
        const auto book = w->Load(t);
        CHECK(book != nullptr, "null", "");
        for (const auto& id : book->GetPhaseRings()) {
          const auto ring = book->GetPhaseRing(id);
          CHECK(ring.has_value() && !ring->phases().empty(), "unsound-ring", id.string());
          for (const auto& kv : ring->phases()) {
            for (const auto& rs : kv.second.discrete_value_rule_states()) {
              const auto rule = w->rulebook->GetDiscreteValueRule(rs.first);
              bool found = false;
              for (const auto& st : rule.states()) found = found || Equal(Plain(st), Plain(rs.second));
              CHECK(found, "unsound-phase-state", rs.first.string() << " " << Str(Plain(rs.second)));
            }
            for (const auto& rs : kv.second.rule_states())
              CHECK(w->rulebook->GetRule(rs.first).states().count(rs.second), "unsound-phase-state", rs.first.string());
            if (kv.second.bulb_states()) {
              for (const auto& bs : *kv.second.bulb_states()) {
                const auto* light = w->light_book->GetTrafficLight(bs.first.traffic_light_id());
                const auto* group = light ? light->GetBulbGroup(bs.first.bulb_group_id()) : nullptr;
                CHECK(group && group->GetBulb(bs.first.bulb_id()), "unsound-phase-bulb", bs.first.string());
              }
            }
            for (const auto& n : ring->GetNextPhases(kv.first))
              CHECK(ring->GetPhase(n.id).has_value(), "unsound-next", n.id.string());
          }
        }
      };
      return s;
    }
    default: {
      s.kind = "intersections";
      auto w = std::make_shared<RingWorld>(MakeRingWorld(src, src.b(), 1));
      auto rings = std::make_shared<maliput::ManualPhaseRingBook>();
      for (const auto& r : w->rings) rings->AddPhaseRing(ToRing(r));
      RandomCrossings(src, w->rings, &s.doc);
      s.load = [w, rings](const std::string& t) {
        ManualPhaseProvider provider;
        const auto book = maliput::LoadIntersectionBook(t, *w->rulebook, *rings, w->world.rg(), &provider);
        CHECK(book != nullptr, "null", "");
        for (auto* i : book->GetIntersections()) {
          const auto ring = rings->GetPhaseRing(i->ring_id());
          CHECK(ring.has_value() && i->Phase().has_value() && ring->GetPhase(i->Phase()->state).has_value(),
                "unsound-crossing", i->id().string());
          SoundZone(w->world, i->region());
        }
      };
      return s;
    }
  }
  (void)keep;
  return s;
}

void Collect(Y* y, std::vector<Y*>* out) {
  out->push_back(y);
  for (auto& i : y->items) Collect(&i, out);
  for (auto& e : y->entries) Collect(&e.second, out);
}

// One way of breaking the document which no loader may accept.
struct Breakage {
  std::string what;
  std::function<void()> apply;
};
std::vector<Breakage> Breakages(Y* root) {
  std::vector<Breakage> v;
  std::vector<Y*> nodes;
  Collect(root, &nodes);
  for (Y* y : nodes) {
    if (y->kind == Y::kMap) {
      for (size_t k = 0; k < y->entries.size(); ++k) {
        if (!y->entries[k].second.required) continue;
        v.push_back({"no " + y->entries[k].first, [y, k] { y->entries.erase(y->entries.begin() + k); }});
        if (y->role != "graph")
          v.push_back({"misspelt " + y->entries[k].first, [y, k] { y->entries[k].first += "_"; }});
      }
    }
    if (y->role == "unique" || y->role == "map" || y->role == "graph" || y->role == "states" || y->role == "named" ||
        y->role == "named maps") {
      if (y->required || y->role == "unique") v.push_back({"scalar for a map", [y] { *y = Y::S("oops"); }});
    }
    if (y->kind == Y::kSeq) {
      if (y->required) v.push_back({"scalar for a list", [y] { *y = Y::S("oops"); }});
      for (size_t k = 0; k < y->items.size(); ++k)
        if (y->items[k].role == "unique") v.push_back({"element twice", [y, k] { y->Add(y->items[k]); }});
    }
    if (y->role == "nonempty") v.push_back({"empty list", [y] { y->items.clear(); }});
    if (y->role == "states") {
      v.push_back({"no states", [y] { y->entries.clear(); }});
      v.push_back({"unknown state", [y] { y->Put("Halt", Y::Seq()); }});
    }
    if (y->role == "graph") {
      v.push_back({"transitions of an unknown phase", [y] { y->Put("nowhere", Y::Seq()); }});
    }
    if (y->role == "named" || y->role == "named maps") {
      // Entries are named after existing things and have to be all right, whatever the other ones are.
      const Y value = y->role == "named" ? Y::S(y->entries.empty() ? "Go" : y->entries[0].second.text) : Y::Map();
      v.push_back({"entry for something unknown", [y, value] { y->Put("no such thing", value); }});
      for (size_t k = 0; k < y->entries.size(); ++k)
        v.push_back({"entry of something unknown", [y, k] { y->entries[k].first += "_"; }});
    }
    if (y->role == "enum") {
      v.push_back({"unknown word", [y] { y->text = "Bogus"; }});
      v.push_back({"unknown word, longer", [y] { y->text += "Or"; }});
      v.push_back({"unknown word, shorter", [y] { y->text.pop_back(); }});
    }
    if (y->role == "ref") v.push_back({"unknown reference", [y] { y->text = "no such thing"; }});
    if (y->role == "id") v.push_back({"empty identifier", [y] { y->text = ""; }});
    if (y->role == "num") {
      v.push_back({"not a number", [y] { *y = Y::S("abc"); }});
      v.push_back({"list for a number", [y] { *y = Y::Seq(); }});
    }
    if (y->role == "severity") v.push_back({"negative severity", [y] { y->text = "-1"; }});
    if (y->role == "minmax") {
      v.push_back({"reversed range", [y] {
                     y->items[0] = Y::Num(2.);
                     y->items[1] = Y::Num(1.);
                   }});
      v.push_back({"range of one", [y] { y->items.pop_back(); }});
      v.push_back({"range of three", [y] { y->Add(Y::Num(1e3)); }});
    }
    if (y->role == "count") {
      v.push_back({"too few", [y] { y->items.pop_back(); }});
      v.push_back({"too many", [y] { y->Add(Y::Num(0.)); }});
    }
    if (y->role.compare(0, 7, "srange:") == 0) {
      const double length = std::stod(y->role.substr(7));
      v.push_back({"start before the lane", [y] { y->items[0] = Y::Num(-0.25); }});
      v.push_back({"end before the lane", [y] { y->items[1] = Y::Num(-0.25); }});
      v.push_back({"start beyond the lane", [y, length] { y->items[0] = Y::Num(length + 0.25); }});
      v.push_back({"end beyond the lane", [y, length] { y->items[1] = Y::Num(length + 0.25); }});
      v.push_back({"one end", [y] { y->items.pop_back(); }});
    }
  }
  return v;
}

void Attempt(const Subject& s, const std::string& text) {
  NOTE(s.kind << ":\n" << text);
  try {
    s.load(text);
    pbt::label("loaded");
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    pbt::label("refused");
  }
}

void MutateTree(pbt::Src& src, Y* root, const std::vector<std::string>& words) {
  std::vector<Y*> nodes;
  Collect(root, &nodes);
  Y* y = nodes[src.idx(nodes.size())];
  Y* z = nodes[src.idx(nodes.size())];
  switch (src.idx(14)) {
    case 0: {
      const Y copy = *z;
      *y = copy;
      break;
    }
    case 1:
      *y = Y::S(src.pick(std::vector<std::string>{"", " ", "x", "Go", "null", "0", "-1", "Stop", "On"}));
      break;
    case 2:
      *y = Y::Raw(src.pick(std::vector<std::string>{"~", ".nan", ".inf", "-.inf", "1e400", "-0", "99999999999999999999",
                                                    "0x10", "true", "!!binary AA==", "2147483648", "1e-320"}));
      break;
    case 3:
      *y = Y::Seq();
      break;
    case 4:
      *y = Y::Map();
      break;
    case 5:
      if (!y->items.empty()) y->items.erase(y->items.begin() + src.idx(y->items.size()));
      if (!y->entries.empty()) y->entries.erase(y->entries.begin() + src.idx(y->entries.size()));
      break;
    case 6:
      if (!y->items.empty()) y->items.push_back(y->items[src.idx(y->items.size())]);
      if (!y->entries.empty()) y->entries.push_back(y->entries[src.idx(y->entries.size())]);
      break;
    case 7: {
      const Y copy = *y;
      *y = Y::Seq();
      y->Add(copy);
      break;
    }
    case 8: {
      const Y copy = *y;
      *y = Y::Map();
      y->Put(src.pick(std::vector<std::string>{"ID", "id", "value", "x"}), copy);
      break;
    }
    case 9:
      if (!y->entries.empty()) {
        std::vector<std::string> keys;
        for (Y* n : nodes)
          for (const auto& e : n->entries) keys.push_back(e.first);
        y->entries[src.idx(y->entries.size())].first = src.pick(keys);
      }
      break;
    default:
      if (y->items.size() > 1) src.shuffle(&y->items);
      if (y->kind == Y::kString) {
        std::vector<std::string> texts = words;
        for (Y* n : nodes)
          if (n->kind == Y::kString) texts.push_back(n->text);
        y->text = src.pick(texts);
      }
  }
}

}  // namespace

PROBE(P20, refused, 16000, 500000) {
  std::shared_ptr<void> keep;
  Subject s = MakeSubject(src, &keep);
  auto broken = Breakages(&s.doc);
  if (broken.empty()) return;
  const Breakage& b = broken[src.idx(broken.size())];
  b.apply();
  pbt::nontrivial();
  pbt::label(s.kind);
  const std::string text = Text(src, s.doc);
  NOTE(s.kind << ": " << b.what);
  MUST_THROW("accepted", s.load(text), s.kind << ", " << b.what);
}

PROBE(P20, changed_tree, 16000, 500000) {
  std::shared_ptr<void> keep;
  Subject s = MakeSubject(src, &keep);
  const std::string before = s.doc.Canonical();
  for (int64_t k = src.i(1, 3); k > 0; --k) MutateTree(src, &s.doc, s.words);
  if (s.doc.Count() > 4000) return;
  if (s.doc.Canonical() != before) pbt::nontrivial();
  Attempt(s, yg::Emit(src, s.doc));
}

PROBE(P20, changed_text, 16000, 500000) {
  std::shared_ptr<void> keep;
  Subject s = MakeSubject(src, &keep);
  std::string text = yg::Emit(src, s.doc);
  const std::string before = text;
  static const std::vector<std::string> kPieces{
      ":", "-", "\n", " ", "{",     "}",  "[",   "]",  ",", "&a ", "*a",   "#",        "'",     "\"", "? ",
      "|", ">", "!!", "%", "---\n", "\t", "...", "<<", "@", "`",   "\xff", "\xc3\xa9", "\\u00", "0",  "\n  "};
  for (int64_t k = src.i(1, 3); k > 0; --k) {
    const size_t at = src.idx(text.size() + 1);
    switch (src.idx(4)) {
      case 0:
        text.insert(at, src.pick(kPieces));
        break;
      case 1:
        text.erase(at, static_cast<size_t>(src.i(1, 6)));
        break;
      case 2:
        if (at < text.size()) text[at] = static_cast<char>(src.draw(255));
        break;
      default: {
        const size_t from = src.idx(text.size() + 1);
        text.insert(at, text.substr(from, static_cast<size_t>(src.i(1, 30))));
      }
    }
    if (text.empty()) break;
  }
  if (text != before) pbt::nontrivial();
  Attempt(s, text);
}
