// Generators and reference semantics for phases and phase rings, shared by the rule harnesses.
#pragma once

#include <optional>

#include "maliput/api/rules/phase.h"
#include "maliput/api/rules/phase_ring.h"
#include "maliput/api/rules/traffic_lights.h"
#include "rulegen.h"

namespace rg {

using api::rules::BulbState;
using api::rules::Phase;
using api::rules::PhaseRing;
using api::rules::UniqueBulbId;

using BulbKey = std::array<std::string, 3>;

struct PlainPhase {
  std::string id;
  std::map<std::string, std::string> right_of_way;
  std::map<std::string, PlainState> discrete;
  std::optional<std::map<BulbKey, BulbState>> bulbs;
};
// A positive duration, once in a while a very short or a very long one.
inline double RandomDuration(pbt::Src& src) {
  if (src.b(1, 8)) return src.pick(std::vector<double>{1e-9, 1e-5, 0.001, 86400., 1e7});
  return 0.25 * static_cast<double>(src.i(1, 40));
}

struct PlainNext {
  std::string id;
  std::optional<double> duration;
  bool operator==(const PlainNext& o) const { return id == o.id && duration == o.duration; }
};
struct PlainRing {
  std::string id;
  std::vector<PlainPhase> phases;
  std::optional<std::map<std::string, std::vector<PlainNext>>> next;
  const PlainPhase& phase(const std::string& p) const {
    for (const auto& x : phases)
      if (x.id == p) return x;
    pbt::fail("harness", "no phase " + p);
    return phases[0];
  }
};

inline UniqueBulbId ToBulb(const BulbKey& k) {
  return UniqueBulbId(api::rules::TrafficLight::Id(k[0]), api::rules::BulbGroup::Id(k[1]), api::rules::Bulb::Id(k[2]));
}
inline BulbKey FromBulb(const UniqueBulbId& id) {
  return {id.traffic_light_id().string(), id.bulb_group_id().string(), id.bulb_id().string()};
}
inline Phase ToPhase(const PlainPhase& p) {
  api::rules::RuleStates rules;
  for (const auto& kv : p.right_of_way)
    rules.emplace(RightOfWayRule::Id(kv.first), RightOfWayRule::State::Id(kv.second));
  api::rules::DiscreteValueRuleStates discrete;
  for (const auto& kv : p.discrete) discrete.emplace(Rule::Id(kv.first), ToDiscrete(kv.second));
  std::optional<api::rules::BulbStates> bulbs;
  if (p.bulbs) {
    bulbs.emplace();
    for (const auto& kv : *p.bulbs) bulbs->emplace(ToBulb(kv.first), kv.second);
  }
  return Phase(Phase::Id(p.id), rules, discrete, bulbs);
}
inline std::map<std::string, std::string> PlainRuleStates(const api::rules::RuleStates& s) {
  std::map<std::string, std::string> r;
  for (const auto& kv : s) r[kv.first.string()] = kv.second.string();
  return r;
}
inline std::map<std::string, PlainState> PlainDiscreteStates(const api::rules::DiscreteValueRuleStates& s) {
  std::map<std::string, PlainState> r;
  for (const auto& kv : s) r[kv.first.string()] = Plain(kv.second);
  return r;
}
inline std::map<BulbKey, BulbState> PlainBulbStates(const api::rules::BulbStates& s) {
  std::map<BulbKey, BulbState> r;
  for (const auto& kv : s) r[FromBulb(kv.first)] = kv.second;
  return r;
}
inline bool SamePhase(const Phase& a, const PlainPhase& p) {
  if (a.id().string() != p.id || PlainRuleStates(a.rule_states()) != p.right_of_way ||
      PlainDiscreteStates(a.discrete_value_rule_states()) != p.discrete ||
      a.bulb_states().has_value() != p.bulbs.has_value())
    return false;
  return !p.bulbs || PlainBulbStates(*a.bulb_states()) == *p.bulbs;
}
inline std::vector<Phase> ToPhases(const PlainRing& r) {
  std::vector<Phase> v;
  for (const auto& p : r.phases) v.push_back(ToPhase(p));
  return v;
}
inline std::optional<const std::unordered_map<Phase::Id, std::vector<PhaseRing::NextPhase>>> ToNext(
    const PlainRing& r) {
  if (!r.next) return std::nullopt;
  std::unordered_map<Phase::Id, std::vector<PhaseRing::NextPhase>> m;
  for (const auto& kv : *r.next) {
    auto& v = m[Phase::Id(kv.first)];
    for (const auto& n : kv.second) v.push_back({Phase::Id(n.id), n.duration});
  }
  return m;
}
inline PhaseRing ToRing(const PlainRing& r) { return PhaseRing(PhaseRing::Id(r.id), ToPhases(r), ToNext(r)); }

// Whether a phase ring may be built. `vague`: bulb states are absent here and empty there.
inline bool ValidRing(const PlainRing& r, bool* vague) {
  *vague = false;
  if (r.phases.empty()) return false;
  std::set<std::string> ids;
  for (const auto& p : r.phases)
    if (!ids.insert(p.id).second) return false;
  auto keys = [](const auto& m) {
    std::vector<std::decay_t<decltype(m.begin()->first)>> v;
    for (const auto& kv : m) v.push_back(kv.first);
    return v;
  };
  for (const auto& p : r.phases) {
    const auto& q = r.phases[0];
    if (keys(p.right_of_way) != keys(q.right_of_way) || keys(p.discrete) != keys(q.discrete)) return false;
    if (keys(p.bulbs.value_or(std::map<BulbKey, BulbState>())) !=
        keys(q.bulbs.value_or(std::map<BulbKey, BulbState>())))
      return false;
    if (p.bulbs.has_value() != q.bulbs.has_value()) *vague = true;
  }
  if (r.next) {
    std::set<std::string> from;
    for (const auto& kv : *r.next) {
      from.insert(kv.first);
      for (const auto& n : kv.second)
        if (!ids.count(n.id)) return false;
    }
    if (from != ids) return false;
  }
  return true;
}

// A well-formed ring over given rules.
inline PlainRing RandomRing(pbt::Src& src, const std::string& id, const std::vector<std::string>& right_of_way,
                            const std::vector<std::string>& discrete, const std::vector<BulbKey>& bulbs,
                            bool has_bulbs) {
  PlainRing r;
  r.id = id;
  for (int64_t k = src.i(1, 4); k > 0; --k) {
    PlainPhase p;
    p.id = N("p", k);
    for (const auto& x : right_of_way) p.right_of_way[x] = N("s", src.i(0, 2));
    for (const auto& x : discrete) p.discrete[x] = RandomState(src, false, false);
    if (has_bulbs) {
      p.bulbs.emplace();
      for (const auto& x : bulbs) (*p.bulbs)[x] = static_cast<BulbState>(src.i(0, 2));
    }
    r.phases.push_back(p);
  }
  if (src.b(3, 4)) {
    r.next.emplace();
    for (const auto& p : r.phases) {
      auto& v = (*r.next)[p.id];
      for (int64_t k = src.i(0, src.b(1, 5) ? 5 : 2); k > 0; --k) {
        PlainNext n{r.phases[src.idx(r.phases.size())].id, {}};
        if (src.b()) n.duration = RandomDuration(src);
        v.push_back(n);
      }
    }
  }
  return r;
}
inline std::vector<std::string> SomeNames(pbt::Src& src, const char* prefix, int n, int max_n) {
  std::set<std::string> s;
  for (int64_t k = src.i(0, max_n); k > 0; --k) s.insert(N(prefix, src.i(0, n - 1)));
  return {s.begin(), s.end()};
}
inline std::vector<BulbKey> SomeBulbs(pbt::Src& src, int max_n) {
  std::set<BulbKey> s;
  for (int64_t k = src.i(0, max_n); k > 0; --k)
    s.insert({N("t", src.i(0, 2)), N("g", src.i(0, 1)), N("b", src.i(0, 2))});
  return {s.begin(), s.end()};
}

}  // namespace rg
