// P12 rule validation and registry, P13 rulebook, P14 manual state providers.
#include <memory>
#include <optional>

#include "maliput/api/lane_data.h"
#include "maliput/api/rules/rule_registry.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_right_of_way_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/rule_filter.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/rule_tools.h"
#include "rulegen.h"
#include "testroad.h"

using namespace rg;
using api::rules::RoadRulebook;
using api::rules::RuleRegistry;
using maliput::ManualRulebook;

PBT_RULE(
    P12,
    "Random rule states (near-duplicates, permuted groups, one broken attribute) fed to the rule constructors and to "
    "random histories of registry operations. Non-trivial: two or more states are involved, or the history registers "
    "a type and builds a rule of it.");
PBT_RULE(
    P13,
    "Random histories of additions, removals and queries over all five rule kinds with clashing identifiers, against "
    "plain maps. Non-trivial: at least two rules with zones were held, one removed and one query had a non-empty "
    "answer.");
PBT_RULE(
    P14,
    "Random histories of state settings (valid and invalid) and queries by rule and by road position. Non-trivial: "
    "a state was set twice for some rule, or a position query matched a rule.");

namespace {
// A positive duration, once in a while a very short or a very long one.
inline double RandomDuration(pbt::Src& src) {
  if (src.b(1, 8)) return src.pick(std::vector<double>{1e-9, 1e-5, 0.001, 86400., 1e7});
  return 0.25 * static_cast<double>(src.i(1, 40));
}

std::string StrAll(const std::vector<PlainState>& v) {
  std::string r;
  for (const auto& p : v) r += Str(p) + " ";
  return r;
}

template <typename T>
bool Threw(T&& f) {
  try {
    f();
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

}  // namespace

PROBE(P12, states_equality, 60000, 1800000) {
  const bool range = src.b();
  const auto v = RandomStates(src, range, false, 2, 5);
  if (v.size() >= 2) pbt::nontrivial();
  NOTE(StrAll(v));
  std::vector<PlainState> w = v;
  for (auto& p : w) {  // Same states, groups in another order.
    for (auto& kv : p.related_rules) src.shuffle(&kv.second);
    for (auto& kv : p.related_ids) src.shuffle(&kv.second);
  }
  for (size_t i = 0; i < v.size(); ++i) {
    for (size_t j = 0; j < w.size(); ++j) {
      const bool want = Equal(v[i], w[j]);
      if (range) {
        const Range a = ToRange(v[i]), b = ToRange(w[j]);
        CHECK((a == b) == want && (b == a) == want && (a != b) != want, "state-equality",
              Str(v[i]) << " and " << Str(w[j]) << ": == " << (a == b) << ", swapped == " << (b == a));
        auto key = [](const PlainState& p) { return std::make_tuple(p.severity, p.text, p.min, p.max); };
        CHECK((a < b) == (key(v[i]) < key(w[j])), "range-order", Str(v[i]) << " < " << Str(w[j]));
      } else {
        const DiscreteValue a = ToDiscrete(v[i]), b = ToDiscrete(w[j]);
        CHECK((a == b) == want && (b == a) == want && (a != b) != want, "state-equality",
              Str(v[i]) << " and " << Str(w[j]) << ": == " << (a == b) << ", swapped == " << (b == a));
      }
    }
  }
}

PROBE(P12, construction, 60000, 1800000) {
  const bool range = src.b();
  const auto v = RandomStates(src, range, true, 0, 4);
  const bool valid = ValidStates(v);
  if (v.size() >= 2) pbt::nontrivial();
  pbt::label(valid ? "valid" : "invalid");
  NOTE(StrAll(v) << (valid ? "valid" : "invalid"));
  const auto zone = RandomRanges(src, 1, 3);
  const Rule::Id id(N("r", src.i(0, 5)));
  const Rule::TypeId type(N("t", src.i(0, 5)));
  auto check = [&](const Rule& rule) {
    CHECK(rule.id() == id && rule.type_id() == type && Same(rule.zone().ranges(), zone), "rule-accessors",
          rule.id().string());
  };
  bool threw = false;
  try {
    if (range) {
      const RangeValueRule rule(id, type, LaneSRoute(zone), Ranges(v));
      check(rule);
      CHECK(Plains(rule.states()) == v, "rule-accessors", StrAll(v));
    } else {
      const DiscreteValueRule rule(id, type, LaneSRoute(zone), Discretes(v));
      check(rule);
      CHECK(Plains(rule.states()) == v, "rule-accessors", StrAll(v));
    }
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    threw = true;
  }
  CHECK(threw == !valid, "rule-validation", (threw ? "refused " : "accepted ") << StrAll(v));
}

PROBE(P12, deprecated_rules, 30000, 900000) {
  const auto zone = RandomRanges(src, 1, 3);
  pbt::nontrivial();
  switch (src.idx(3)) {
    case 0: {
      const double min = src.sym(3.), max = src.sym(3.);
      const bool valid = min >= 0. && max >= 0. && min <= max;
      NOTE("speed limit " << min << " " << max);
      bool threw = Threw([&] {
        const SpeedLimitRule r(SpeedLimitRule::Id("s"), zone[0], SpeedLimitRule::Severity::kAdvisory, min, max);
        CHECK(r.min() == min && r.max() == max && Same(r.zone(), zone[0]) && r.id().string() == "s" &&
                  r.severity() == SpeedLimitRule::Severity::kAdvisory,
              "speed-limit-accessors", r.min());
      });
      CHECK(threw == !valid, "speed-limit-validation", min << " " << max);
      break;
    }
    case 1: {
      std::vector<DirectionUsageRule::State> states;
      std::set<std::string> ids;
      for (int64_t k = src.i(0, 3); k > 0; --k) {
        const std::string id = N("d", src.i(0, 4));
        states.emplace_back(DirectionUsageRule::State::Id(id),
                            static_cast<DirectionUsageRule::State::Type>(src.i(0, 6)),
                            DirectionUsageRule::State::Severity::kStrict);
        ids.insert(id);
      }
      const bool valid = !states.empty() && ids.size() == states.size();
      NOTE("direction usage " << states.size() << " states " << valid);
      bool threw = Threw([&] {
        const DirectionUsageRule r(DirectionUsageRule::Id("d"), zone[0], states);
        CHECK(r.states().size() == states.size() && r.is_static() == (states.size() == 1), "direction-usage-accessors",
              states.size());
        for (const auto& s : states)
          CHECK(r.states().at(s.id()).type() == s.type(), "direction-usage-accessors", s.id().string());
        if (r.is_static()) {
          CHECK(r.static_state().id() == states[0].id(), "direction-usage-accessors", "static");
        } else {
          MUST_THROW("static-state", r.static_state(), "");
        }
      });
      CHECK(threw == !valid, "direction-usage-validation", states.size());
      break;
    }
    default: {
      std::vector<RightOfWayRule::State> states;
      std::set<std::string> ids;
      for (int64_t k = src.i(0, 3); k > 0; --k) {
        const std::string id = N("w", src.i(0, 4));
        RightOfWayRule::State::YieldGroup yield;
        for (int64_t y = src.i(0, 2); y > 0; --y) yield.push_back(RightOfWayRule::Id(N("r", y)));
        states.emplace_back(RightOfWayRule::State::Id(id), static_cast<RightOfWayRule::State::Type>(src.i(0, 2)),
                            yield);
        ids.insert(id);
      }
      RightOfWayRule::RelatedBulbGroups groups;
      bool repeated = false;
      for (int64_t g = src.i(0, 2); g > 0; --g) {
        auto& v = groups[api::rules::TrafficLight::Id(N("t", g))];
        std::set<int64_t> seen;
        for (int64_t k = src.i(0, 3); k > 0; --k) {
          const int64_t b = src.i(0, 6);
          if (!seen.insert(b).second) repeated = true;
          v.push_back(api::rules::BulbGroup::Id(N("b", b)));
        }
      }
      const bool valid = !states.empty() && ids.size() == states.size() && !repeated;
      NOTE("right of way " << states.size() << " states " << valid);
      bool threw = Threw([&] {
        const RightOfWayRule r(RightOfWayRule::Id("w"), LaneSRoute(zone), RightOfWayRule::ZoneType::kStopAllowed,
                               states, groups);
        CHECK(r.states().size() == states.size() && r.is_static() == (states.size() == 1) &&
                  r.related_bulb_groups() == groups && Same(r.zone().ranges(), zone),
              "right-of-way-accessors", states.size());
        for (const auto& s : states)
          CHECK(r.states().at(s.id()).type() == s.type() && r.states().at(s.id()).yield_to() == s.yield_to(),
                "right-of-way-accessors", s.id().string());
        if (r.is_static()) {
          CHECK(r.static_state().id() == states[0].id(), "right-of-way-accessors", "static");
        } else {
          MUST_THROW("static-state", r.static_state(), "");
        }
      });
      CHECK(threw == !valid, "right-of-way-validation", states.size());
    }
  }
}

PROBE(P12, registry, 12000, 360000) {
  RuleRegistry registry;
  std::map<std::string, std::vector<PlainState>> ranges, discretes;
  int built = 0;
  if (src.b(1, 6)) {
    for (const auto& t : {maliput::BuildDirectionUsageRuleType(), maliput::BuildRightOfWayRuleType(),
                          maliput::BuildVehicleStopInZoneBehaviorRuleType()}) {
      MUST_NOT_THROW("builtin-types", registry.RegisterDiscreteValueRule(t.first, t.second), t.first.string());
      discretes[t.first.string()] = Plains(t.second);
    }
  }
  const int64_t ops = src.i(1, 14);
  for (int64_t op = 0; op < ops; ++op) {
    const std::string type = N("t", src.i(0, 3));
    const bool known = ranges.count(type) || discretes.count(type);
    if (src.b(2, 5)) {
      const bool range = src.b();
      const auto states = RandomStates(src, range, src.b(1, 3), src.b(1, 8) ? 0 : 1, 4);
      bool dup = false;
      for (size_t i = 0; i < states.size(); ++i)
        for (size_t j = 0; j < i; ++j) dup = dup || Equal(states[i], states[j]);
      // Groups with repeated members have no defined equality, ranges which aren't numbers have none either.
      bool vague = false;
      for (const auto& p : states)
        vague = vague || HasRepeats(p.related_rules) || HasRepeats(p.related_ids) || p.min != p.min || p.max != p.max;
      if (vague) continue;
      const bool valid = !known && !states.empty() && !dup;
      NOTE("register " << (range ? "range " : "discrete ") << type << " " << StrAll(states)
                       << (valid ? "" : "refused"));
      const bool threw = Threw([&] {
        if (range) {
          registry.RegisterRangeValueRule(Rule::TypeId(type), Ranges(states));
        } else {
          registry.RegisterDiscreteValueRule(Rule::TypeId(type), Discretes(states));
        }
      });
      CHECK(threw == !valid, "registry-register", type << " " << StrAll(states));
      if (valid) (range ? ranges : discretes)[type] = states;
    } else {
      const bool range = src.b();
      auto& book = range ? ranges : discretes;
      std::vector<PlainState> states;
      if (book.count(type) && src.b(3, 4)) {
        // Subset of the registered states, with groups of its own.
        for (const auto& p : book.at(type)) {
          if (src.b(1, 3)) continue;
          PlainState q = p;
          if (src.b()) q.related_rules = RandomGroups(src, "r", false);
          if (src.b(1, 8)) q.severity += 5;
          if (src.b(1, 8)) q.text += "?";
          if (range && src.b(1, 8)) q.max += 0.25;
          states.push_back(q);
        }
      } else {
        states = RandomStates(src, range, false, 1, 2);
      }
      bool registered = book.count(type) > 0;
      for (const auto& p : states) {
        bool found = false;
        if (registered)
          for (const auto& q : book.at(type))
            found = found || (p.severity == q.severity && p.text == q.text && p.min == q.min && p.max == q.max);
        if (!found) registered = false;
        if (!registered) break;
      }
      bool vague = false;
      for (const auto& p : states) vague = vague || HasRepeats(p.related_rules) || HasRepeats(p.related_ids);
      if (vague) continue;
      const bool valid = registered && ValidStates(states);
      NOTE("build " << (range ? "range " : "discrete ") << type << " " << StrAll(states) << (valid ? "" : "refused"));
      const auto zone = RandomRanges(src, 1, 2);
      const bool threw = Threw([&] {
        if (range) {
          const auto rule =
              registry.BuildRangeValueRule(Rule::Id("r"), Rule::TypeId(type), LaneSRoute(zone), Ranges(states));
          CHECK(rule.id().string() == "r" && rule.type_id().string() == type && Same(rule.zone().ranges(), zone) &&
                    Plains(rule.states()) == states,
                "registry-build", type);
        } else {
          const auto rule =
              registry.BuildDiscreteValueRule(Rule::Id("r"), Rule::TypeId(type), LaneSRoute(zone), Discretes(states));
          CHECK(rule.id().string() == "r" && rule.type_id().string() == type && Same(rule.zone().ranges(), zone) &&
                    Plains(rule.states()) == states,
                "registry-build", type);
        }
      });
      CHECK(threw == !valid, "registry-build",
            type << " " << StrAll(states) << " expected " << (valid ? "a rule" : "a refusal"));
      if (valid) ++built;
    }
    // The registry's contents.
    CHECK(registry.RangeValueRuleTypes().size() == ranges.size() &&
              registry.DiscreteValueRuleTypes().size() == discretes.size(),
          "registry-contents", ranges.size() << " " << discretes.size());
    for (const auto& kv : ranges) {
      CHECK(Plains(registry.RangeValueRuleTypes().at(Rule::TypeId(kv.first))) == kv.second, "registry-contents",
            kv.first);
      const auto q = registry.GetPossibleStatesOfRuleType(Rule::TypeId(kv.first));
      CHECK(q.has_value() && q->type_id.string() == kv.first, "registry-query", kv.first);
      const auto* s = std::get_if<RuleRegistry::QueryResult::Ranges>(&q->rule_values);
      CHECK(s != nullptr && Plains(*s) == kv.second, "registry-query", kv.first);
    }
    for (const auto& kv : discretes) {
      CHECK(Plains(registry.DiscreteValueRuleTypes().at(Rule::TypeId(kv.first))) == kv.second, "registry-contents",
            kv.first);
      const auto q = registry.GetPossibleStatesOfRuleType(Rule::TypeId(kv.first));
      CHECK(q.has_value() && q->type_id.string() == kv.first, "registry-query", kv.first);
      const auto* s = std::get_if<RuleRegistry::QueryResult::DiscreteValues>(&q->rule_values);
      CHECK(s != nullptr && Plains(*s) == kv.second, "registry-query", kv.first);
    }
    if (!ranges.count(type) && !discretes.count(type))
      CHECK(!registry.GetPossibleStatesOfRuleType(Rule::TypeId(type)).has_value(), "registry-query", type);
  }
  if (built > 0) pbt::nontrivial();
}

namespace {

// Reference model of a rulebook.
struct Book {
  std::map<std::string, std::vector<LaneSRange>> right_of_way, speed_limit, direction_usage;
  std::map<std::string, std::pair<std::vector<LaneSRange>, std::vector<PlainState>>> discrete, range;
};

template <typename M>
std::set<std::string> Keys(const M& m) {
  std::set<std::string> r;
  for (const auto& kv : m) r.insert(kv.first);
  return r;
}
template <typename M>
std::set<std::string> IdKeys(const M& m) {
  std::set<std::string> r;
  for (const auto& kv : m) {
    CHECK(kv.first == kv.second.id(), "rulebook-key", kv.first.string() << " " << kv.second.id().string());
    r.insert(kv.first.string());
  }
  return r;
}
std::string Join(const std::set<std::string>& s) {
  std::string r;
  for (const auto& x : s) r += x + " ";
  return r;
}

template <typename M>
std::set<std::string> Touching(const M& m, const std::vector<LaneSRange>& q, double tol) {
  std::set<std::string> r;
  for (const auto& kv : m)
    if (Touch(kv.second, q, tol)) r.insert(kv.first);
  return r;
}
template <typename M>
std::set<std::string> TouchingFirst(const M& m, const std::vector<LaneSRange>& q, double tol) {
  std::set<std::string> r;
  for (const auto& kv : m)
    if (Touch(kv.second.first, q, tol)) r.insert(kv.first);
  return r;
}

#define SAME_SET(got, want, tag)                                                      \
  do {                                                                                \
    const std::set<std::string> g_ = (got), w_ = (want);                              \
    CHECK(g_ == w_, tag, "got { " << Join(g_) << "} expected { " << Join(w_) << "}"); \
  } while (0)

void CheckContents(const RoadRulebook::QueryResults& q, const Book& m) {
  SAME_SET(IdKeys(q.right_of_way), Keys(m.right_of_way), "rulebook-rules");
  SAME_SET(IdKeys(q.speed_limit), Keys(m.speed_limit), "rulebook-rules");
  SAME_SET(IdKeys(q.direction_usage), Keys(m.direction_usage), "rulebook-rules");
  SAME_SET(IdKeys(q.discrete_value_rules), Keys(m.discrete), "rulebook-rules");
  SAME_SET(IdKeys(q.range_value_rules), Keys(m.range), "rulebook-rules");
}
// Every rule of the answer is the one that was added.
void CheckRules(const RoadRulebook::QueryResults& q, const Book& m) {
  for (const auto& kv : q.right_of_way)
    CHECK(Same(kv.second.zone().ranges(), m.right_of_way.at(kv.first.string())), "rulebook-content", kv.first.string());
  for (const auto& kv : q.speed_limit)
    CHECK(Same(kv.second.zone(), m.speed_limit.at(kv.first.string())[0]), "rulebook-content", kv.first.string());
  for (const auto& kv : q.direction_usage)
    CHECK(Same(kv.second.zone(), m.direction_usage.at(kv.first.string())[0]), "rulebook-content", kv.first.string());
  for (const auto& kv : q.discrete_value_rules)
    CHECK(Same(kv.second.zone().ranges(), m.discrete.at(kv.first.string()).first) &&
              Plains(kv.second.states()) == m.discrete.at(kv.first.string()).second,
          "rulebook-content", kv.first.string());
  for (const auto& kv : q.range_value_rules)
    CHECK(Same(kv.second.zone().ranges(), m.range.at(kv.first.string()).first) &&
              Plains(kv.second.states()) == m.range.at(kv.first.string()).second,
          "rulebook-content", kv.first.string());
}

RightOfWayRule MakeRightOfWay(const std::string& id, const std::vector<LaneSRange>& zone) {
  return RightOfWayRule(RightOfWayRule::Id(id), LaneSRoute(zone), RightOfWayRule::ZoneType::kStopAllowed,
                        {RightOfWayRule::State(RightOfWayRule::State::Id("go"), RightOfWayRule::State::Type::kGo, {})},
                        {});
}
DirectionUsageRule MakeDirectionUsage(const std::string& id, const LaneSRange& zone) {
  return DirectionUsageRule(
      DirectionUsageRule::Id(id), zone,
      {DirectionUsageRule::State(DirectionUsageRule::State::Id("s"), DirectionUsageRule::State::Type::kWithS,
                                 DirectionUsageRule::State::Severity::kStrict)});
}

}  // namespace

PROBE(P13, histories, 12000, 360000) {
  ManualRulebook book;
  Book m;
  const int n_lanes = static_cast<int>(src.i(1, 4));
  int held = 0, removed = 0, answered = 0;
  const int64_t ops = src.i(1, 40);
  for (int64_t op = 0; op < ops; ++op) {
    const std::string id = N("r", src.i(0, 5));
    const size_t kind = src.idx(5);
    switch (src.weighted({8, 5, 6, 1, 2})) {
      case 0: {  // Add.
        const auto zone = RandomRanges(src, 1, 4, n_lanes);
        bool valid = true;
        bool threw = false;
        std::vector<PlainState> states;
        std::string what;
        for (const auto& z : zone)
          what += " " + z.lane_id().string() + "[" + std::to_string(z.s_range().s0()) + "," +
                  std::to_string(z.s_range().s1()) + "]";
        NOTE("add kind " << kind << " " << id << what);
        switch (kind) {
          case 0:
            valid = !m.right_of_way.count(id);
            threw = Threw([&] { book.AddRule(MakeRightOfWay(id, zone)); });
            if (valid) m.right_of_way[id] = zone;
            break;
          case 1:
            valid = !m.speed_limit.count(id);
            threw = Threw([&] {
              book.AddRule(SpeedLimitRule(SpeedLimitRule::Id(id), zone[0], SpeedLimitRule::Severity::kStrict, 0., 1.));
            });
            if (valid) m.speed_limit[id] = {zone[0]};
            break;
          case 2:
            valid = !m.direction_usage.count(id);
            threw = Threw([&] { book.AddRule(MakeDirectionUsage(id, zone[0])); });
            if (valid) m.direction_usage[id] = {zone[0]};
            break;
          case 3:
            valid = !m.discrete.count(id) && !m.range.count(id);
            states = RandomStates(src, false, false, 1, 2);
            threw = Threw([&] {
              book.AddRule(DiscreteValueRule(Rule::Id(id), Rule::TypeId("t"), LaneSRoute(zone), Discretes(states)));
            });
            if (valid) m.discrete[id] = {zone, states};
            break;
          default:
            valid = !m.discrete.count(id) && !m.range.count(id);
            states = RandomStates(src, true, false, 1, 2);
            threw = Threw([&] {
              book.AddRule(RangeValueRule(Rule::Id(id), Rule::TypeId("t"), LaneSRoute(zone), Ranges(states)));
            });
            if (valid) m.range[id] = {zone, states};
        }
        CHECK(threw == !valid, "rulebook-add", "kind " << kind << " " << id << (threw ? " refused" : " accepted"));
        if (valid) ++held;
        break;
      }
      case 1: {  // Remove.
        bool valid = false, threw = false;
        NOTE("remove kind " << kind << " " << id);
        switch (kind) {
          case 0:
            valid = m.right_of_way.erase(id) > 0;
            threw = Threw([&] { book.RemoveRule(RightOfWayRule::Id(id)); });
            break;
          case 1:
            valid = m.speed_limit.erase(id) > 0;
            threw = Threw([&] { book.RemoveRule(SpeedLimitRule::Id(id)); });
            break;
          case 2:
            valid = m.direction_usage.erase(id) > 0;
            threw = Threw([&] { book.RemoveRule(DirectionUsageRule::Id(id)); });
            break;
          default:
            valid = m.discrete.erase(id) + m.range.erase(id) > 0;
            threw = Threw([&] { book.RemoveRule(Rule::Id(id)); });
        }
        CHECK(threw == !valid, "rulebook-remove", "kind " << kind << " " << id << (threw ? " refused" : " accepted"));
        if (valid) ++removed;
        break;
      }
      case 2: {  // Find.
        const auto q = RandomRanges(src, 0, 3, n_lanes);
        const double tol = Tolerance(src);
        const auto got = book.FindRules(q, tol);
        NOTE("find with " << q.size() << " ranges, tolerance " << tol);
        SAME_SET(IdKeys(got.right_of_way), Touching(m.right_of_way, q, tol), "rulebook-find");
        SAME_SET(IdKeys(got.speed_limit), Touching(m.speed_limit, q, tol), "rulebook-find");
        SAME_SET(IdKeys(got.direction_usage), Touching(m.direction_usage, q, tol), "rulebook-find");
        SAME_SET(IdKeys(got.discrete_value_rules), TouchingFirst(m.discrete, q, tol), "rulebook-find");
        SAME_SET(IdKeys(got.range_value_rules), TouchingFirst(m.range, q, tol), "rulebook-find");
        CheckRules(got, m);
        if (got.right_of_way.size() + got.speed_limit.size() + got.direction_usage.size() +
                got.discrete_value_rules.size() + got.range_value_rules.size() >
            0)
          ++answered;
        if (src.b(1, 8)) MUST_THROW("rulebook-tolerance", book.FindRules(q, -0.5), "");
        break;
      }
      case 3:
        NOTE("remove all");
        book.RemoveAll();
        m = Book();
        break;
      default: {  // Get.
        auto get = [&](auto&& f, bool known) {
          bool out_of_range = false;
          try {
            f();
          } catch (const std::out_of_range&) {
            out_of_range = true;
          }
          CHECK(out_of_range == !known, "rulebook-get", id << " known " << known);
        };
        get([&] { CHECK(book.GetRule(RightOfWayRule::Id(id)).id().string() == id, "rulebook-get", id); },
            m.right_of_way.count(id));
        get([&] { CHECK(book.GetRule(SpeedLimitRule::Id(id)).id().string() == id, "rulebook-get", id); },
            m.speed_limit.count(id));
        get([&] { CHECK(book.GetRule(DirectionUsageRule::Id(id)).id().string() == id, "rulebook-get", id); },
            m.direction_usage.count(id));
        get(
            [&] {
              CHECK(Plains(book.GetDiscreteValueRule(Rule::Id(id)).states()) == m.discrete.at(id).second,
                    "rulebook-get", id);
            },
            m.discrete.count(id));
        get(
            [&] {
              CHECK(Plains(book.GetRangeValueRule(Rule::Id(id)).states()) == m.range.at(id).second, "rulebook-get", id);
            },
            m.range.count(id));
      }
    }
    const auto all = book.Rules();
    CheckContents(all, m);
    CheckRules(all, m);
  }
  // Once everything is removed, rules can be added again and nothing old is found.
  if (held >= 2 && removed >= 1 && answered >= 1) pbt::nontrivial();
}

PROBE(P13, filters, 20000, 600000) {
  RoadRulebook::QueryResults rules;
  std::map<std::string, std::vector<PlainState>> discrete, range;
  std::map<std::string, std::string> types;
  for (int64_t k = src.i(0, 6); k > 0; --k) {
    const std::string id = N("r", k), type = N("t", src.i(0, 1));
    types[id] = type;
    if (src.b()) {
      discrete[id] = RandomStates(src, false, false, 1, 3);
      rules.discrete_value_rules.emplace(
          Rule::Id(id), DiscreteValueRule(Rule::Id(id), Rule::TypeId(type), LaneSRoute(RandomRanges(src, 1, 1)),
                                          Discretes(discrete[id])));
    } else {
      range[id] = RandomStates(src, true, false, 1, 3);
      rules.range_value_rules.emplace(
          Rule::Id(id),
          RangeValueRule(Rule::Id(id), Rule::TypeId(type), LaneSRoute(RandomRanges(src, 1, 1)), Ranges(range[id])));
    }
  }
  for (int64_t k = src.i(0, 2); k > 0; --k)
    rules.right_of_way.emplace(RightOfWayRule::Id(N("w", k)), MakeRightOfWay(N("w", k), RandomRanges(src, 1, 1)));
  std::vector<maliput::DiscreteValueRuleFilter> df;
  std::vector<maliput::RangeValueRuleFilter> rf;
  std::set<std::string> want_d = Keys(discrete), want_r = Keys(range);
  auto keep = [](std::set<std::string>* s, const std::function<bool(const std::string&)>& f) {
    std::set<std::string> r;
    for (const auto& x : *s)
      if (f(x)) r.insert(x);
    *s = r;
  };
  for (int64_t k = src.i(0, 3); k > 0; --k) {
    const bool d = src.b();
    if (src.b()) {
      const std::string type = N("t", src.i(0, 1));
      if (d) {
        df.push_back(maliput::RuleTypeFilter(Rule::TypeId(type)));
        keep(&want_d, [&](const std::string& x) { return types[x] == type; });
      } else {
        rf.push_back(maliput::RuleTypeFilter(Rule::TypeId(type)));
        keep(&want_r, [&](const std::string& x) { return types[x] == type; });
      }
    } else {
      const size_t n = static_cast<size_t>(src.i(1, 3));
      if (d) {
        df.push_back([n](const DiscreteValueRule& r) { return r.states().size() >= n; });
        keep(&want_d, [&](const std::string& x) { return discrete[x].size() >= n; });
      } else {
        rf.push_back([n](const RangeValueRule& r) { return r.states().size() >= n; });
        keep(&want_r, [&](const std::string& x) { return range[x].size() >= n; });
      }
    }
  }
  NOTE(rules.discrete_value_rules.size() << "+" << rules.range_value_rules.size() << " rules, " << df.size() << "+"
                                         << rf.size() << " filters");
  if (df.size() + rf.size() > 0 && types.size() > 1) pbt::nontrivial();
  const auto got = maliput::FilterRules(rules, df, rf);
  SAME_SET(IdKeys(got.discrete_value_rules), want_d, "filter");
  SAME_SET(IdKeys(got.range_value_rules), want_r, "filter");
  SAME_SET(IdKeys(got.right_of_way), IdKeys(rules.right_of_way), "filter");
  for (const auto& kv : got.discrete_value_rules)
    CHECK(Plains(kv.second.states()) == discrete.at(kv.first.string()), "filter", kv.first.string());
}

namespace {

template <typename Result>
void CheckState(const std::optional<Result>& got, const PlainState& state, const std::optional<PlainState>& next,
                const std::optional<double>& duration, const std::string& id) {
  CHECK(got.has_value(), "state-missing", id);
  CHECK(Plain(got->state) == state, "state-current",
        id << " got " << Str(Plain(got->state)) << " expected " << Str(state));
  CHECK(got->next.has_value() == next.has_value(), "state-next", id);
  if (next.has_value()) {
    CHECK(Plain(got->next->state) == *next, "state-next",
          id << " got " << Str(Plain(got->next->state)) << " expected " << Str(*next));
    CHECK(got->next->duration_until == duration, "state-duration", id);
  }
}

struct SetStateModel {
  PlainState state;
  std::optional<PlainState> next;
  std::optional<double> duration;
};

// kRange: ManualRangeValueRuleStateProvider, else ManualDiscreteValueRuleStateProvider.
template <bool kRange>
void ProviderHistory(pbt::Src& src) {
  using Provider = std::conditional_t<kRange, maliput::ManualRangeValueRuleStateProvider,
                                      maliput::ManualDiscreteValueRuleStateProvider>;
  const int n_lanes = 3;
  ManualRulebook book;
  struct R {
    std::string type;
    std::vector<LaneSRange> zone;
    std::vector<PlainState> states;
  };
  std::map<std::string, R> rules;
  for (int64_t k = src.i(1, 5); k > 0; --k) {
    R r{N("t", src.i(0, 1)), RandomRanges(src, 1, 3, n_lanes), RandomStates(src, kRange, false, 1, 4)};
    const std::string id = N("r", k);
    if (kRange) {
      book.AddRule(RangeValueRule(Rule::Id(id), Rule::TypeId(r.type), LaneSRoute(r.zone), Ranges(r.states)));
    } else {
      book.AddRule(DiscreteValueRule(Rule::Id(id), Rule::TypeId(r.type), LaneSRoute(r.zone), Discretes(r.states)));
    }
    rules[id] = r;
  }
  // Rules of the other kind are never matched.
  if (src.b()) {
    const auto zone = RandomRanges(src, 1, 3, n_lanes);
    if (kRange) {
      book.AddRule(DiscreteValueRule(Rule::Id("other"), Rule::TypeId("t0"), LaneSRoute(zone),
                                     Discretes(RandomStates(src, false, false, 1, 2))));
    } else {
      book.AddRule(RangeValueRule(Rule::Id("other"), Rule::TypeId("t0"), LaneSRoute(zone),
                                  Ranges(RandomStates(src, true, false, 1, 2))));
    }
  }
  std::unique_ptr<Provider> provider;
  std::map<std::string, SetStateModel> m;
  if constexpr (kRange) {
    if (src.b(1, 3)) {
      provider = Provider::GetDefaultManualRangeValueRuleStateProvider(&book);
      for (const auto& kv : rules) m[kv.first] = {kv.second.states.front(), {}, {}};
    }
  }
  if (!provider) provider = std::make_unique<Provider>(&book);
  // Lanes named as in the zones.
  std::vector<std::unique_ptr<tr::TLane>> lanes;
  for (int k = 0; k < n_lanes; ++k) lanes.push_back(std::make_unique<tr::TLane>(LaneId(N("l", k)), tr::LaneGeom()));
  bool twice = false, matched = false;
  auto make = [](const PlainState& p) {
    if constexpr (kRange) {
      return ToRange(p);
    } else {
      return ToDiscrete(p);
    }
  };
  using State = decltype(make(PlainState()));
  for (int64_t op = src.i(1, 25); op > 0; --op) {
    if (src.b(3, 5)) {
      const std::string id = src.b(1, 10)   ? "unknown"
                             : src.b(1, 12) ? "other"
                                            : N("r", src.i(1, static_cast<int64_t>(rules.size())));
      const bool known = rules.count(id) > 0;
      bool valid = known;
      auto pick = [&]() {
        PlainState p = known ? src.pick(rules[id].states) : RandomState(src, kRange, false);
        if (src.b(1, 10)) {
          p.severity += 3;
        } else if (src.b(1, 10)) {
          p.related_rules["zz"] = {"r9"};
        }
        if (known && std::none_of(rules[id].states.begin(), rules[id].states.end(),
                                  [&](const PlainState& q) { return Equal(p, q); }))
          valid = false;
        return p;
      };
      SetStateModel s;
      s.state = pick();
      if (src.b()) s.next = pick();
      if (src.b())
        s.duration = src.b(1, 6) ? src.pick(std::vector<double>{0., -1.5, std::numeric_limits<double>::quiet_NaN()})
                                 : RandomDuration(src);
      if (s.duration.has_value() && (!s.next.has_value() || !(*s.duration > 0.))) valid = false;
      NOTE("set " << id << " " << Str(s.state) << (s.next ? " next " + Str(*s.next) : "") << (valid ? "" : " refused"));
      const bool threw = Threw([&] {
        provider->SetState(Rule::Id(id), make(s.state), s.next ? std::optional<State>(make(*s.next)) : std::nullopt,
                           s.duration);
      });
      CHECK(threw == !valid, "state-set", id << (threw ? " refused" : " accepted"));
      if (valid) {
        twice = twice || m.count(id);
        m[id] = s;
      }
    } else {
      const double tol = Tolerance(src);
      const int lane = static_cast<int>(src.i(0, n_lanes - 1));
      const double s = Coord(src);
      const std::string type = N("t", src.i(0, 2));
      const api::RoadPosition pos(lanes[static_cast<size_t>(lane)].get(), api::LanePosition(s, src.sym(2.), 0.));
      const LaneSRange at(LaneId(N("l", lane)), SRange(s, s));
      std::vector<std::string> candidates;
      for (const auto& kv : rules)
        if (kv.second.type == type && Touch(kv.second.zone, {at}, tol)) candidates.push_back(kv.first);
      NOTE("query " << type << " at l" << lane << " s " << s << " tolerance " << tol << ": " << candidates.size()
                    << " candidates");
      if (src.b(1, 10)) MUST_THROW("state-tolerance", provider->GetState(pos, Rule::TypeId(type), -0.25), "");
      bool threw = false;
      using Result = std::decay_t<decltype(provider->GetState(pos, Rule::TypeId(type), tol))>;
      Result got;
      try {
        got = provider->GetState(pos, Rule::TypeId(type), tol);
      } catch (const std::exception&) {
        threw = true;
      }
      if (candidates.empty()) {
        CHECK(!threw && !got.has_value(), "state-by-position", "no rule of the type is there, but a state was found");
        continue;
      }
      matched = true;
      // Some applicable rule answers; one without a state cannot.
      bool stateless = false, ok = false;
      for (const auto& c : candidates) {
        if (!m.count(c)) {
          stateless = true;
          continue;
        }
        if (got.has_value() && Plain(got->state) == m[c].state && got->next.has_value() == m[c].next.has_value() &&
            (!got->next.has_value() ||
             (Plain(got->next->state) == *m[c].next && got->next->duration_until == m[c].duration)))
          ok = true;
      }
      if (!got.has_value() || threw) {
        CHECK(stateless, "state-by-position", "every applicable rule has a state, but none was reported");
      } else {
        CHECK(ok, "state-by-position",
              "got " << Str(Plain(got->state)) << ", which is the state of no applicable rule");
      }
    }
    for (const auto& kv : rules) {
      const auto got = provider->GetState(Rule::Id(kv.first));
      if (!m.count(kv.first)) {
        CHECK(!got.has_value(), "state-unset", kv.first);
      } else {
        CheckState(got, m[kv.first].state, m[kv.first].next, m[kv.first].duration, kv.first);
      }
    }
    CHECK(!provider->GetState(Rule::Id("unknown")).has_value() && !provider->GetState(Rule::Id("other")).has_value(),
          "state-unknown", "");
  }
  if (twice || matched) pbt::nontrivial();
}

}  // namespace

PROBE(P14, discrete, 8000, 240000) { ProviderHistory<false>(src); }
PROBE(P14, range, 8000, 240000) { ProviderHistory<true>(src); }

PROBE(P14, right_of_way, 10000, 300000) {
  maliput::ManualRightOfWayRuleStateProvider provider;
  std::map<std::string, std::string> m;
  for (int64_t op = src.i(1, 20); op > 0; --op) {
    const std::string id = N("r", src.i(0, 3)), state = N("s", src.i(0, 3));
    const bool add = src.b();
    NOTE((add ? "add " : "set ") << id << " " << state);
    const bool threw = Threw([&] {
      if (add) {
        provider.AddState(RightOfWayRule::Id(id), RightOfWayRule::State::Id(state));
      } else {
        provider.SetState(RightOfWayRule::Id(id), RightOfWayRule::State::Id(state));
      }
    });
    const bool valid = add ? !m.count(id) : m.count(id);
    CHECK(threw == !valid, "right-of-way-set", id);
    if (valid) {
      if (!add) pbt::nontrivial();
      m[id] = state;
    }
    for (int k = 0; k < 5; ++k) {
      const auto got = provider.GetState(RightOfWayRule::Id(N("r", k)));
      CHECK(got.has_value() == (m.count(N("r", k)) > 0), "right-of-way-get", k);
      if (got.has_value()) CHECK(got->state.string() == m[N("r", k)] && !got->next.has_value(), "right-of-way-get", k);
    }
  }
}

PROBE(P14, groups_of_current_state, 10000, 300000) {
  // The yield group and bulb group of a right-of-way rule are those of its current state.
  ManualRulebook book;
  const bool right_type = src.b(3, 4);
  std::vector<PlainState> states;
  for (int64_t k = src.i(1, 3); k > 0; --k) {
    PlainState p = RandomState(src, false, false);
    p.text = N("v", k);
    if (src.b(3, 4)) p.related_rules["Yield Group"] = {N("y", src.i(0, 3))};
    if (src.b(3, 4)) p.related_ids["Bulb Group"] = {N("b", src.i(0, 3)), "b9"};
    states.push_back(p);
  }
  const DiscreteValueRule rule(Rule::Id("r"), right_type ? maliput::RightOfWayRuleTypeId() : Rule::TypeId("t"),
                               LaneSRoute(RandomRanges(src, 1, 1)), Discretes(states));
  book.AddRule(rule);
  maliput::ManualDiscreteValueRuleStateProvider provider(&book);
  const bool set = src.b(4, 5);
  const PlainState current = src.pick(states);
  if (set) provider.SetState(Rule::Id("r"), ToDiscrete(current), std::nullopt, std::nullopt);
  if (set && right_type) pbt::nontrivial();
  NOTE(StrAll(states) << " current " << Str(current));
  MUST_THROW("group-null", maliput::GetCurrentYieldGroup(rule, nullptr), "");
  auto check = [&](auto&& f, const std::map<std::string, std::vector<std::string>>& groups, const char* key) {
    std::vector<std::string> got;
    const bool threw = Threw([&] {
      for (const auto& x : f()) got.push_back(x.string());
    });
    const bool valid = groups.count(key) && set && right_type;
    CHECK(threw == !valid, "group", key << (threw ? " refused" : " answered"));
    if (valid) CHECK(got == groups.at(key), "group", key);
  };
  check([&] { return maliput::GetCurrentYieldGroup(rule, &provider); }, current.related_rules, "Yield Group");
  check([&] { return maliput::GetCurrentBulbGroup(rule, &provider); }, current.related_ids, "Bulb Group");
}
