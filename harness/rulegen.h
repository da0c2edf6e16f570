// Generators and reference semantics for rules, shared by the rule harnesses.
#pragma once

#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "maliput/api/regions.h"
#include "maliput/api/rules/direction_usage_rule.h"
#include "maliput/api/rules/discrete_value_rule.h"
#include "maliput/api/rules/range_value_rule.h"
#include "maliput/api/rules/right_of_way_rule.h"
#include "maliput/api/rules/speed_limit_rule.h"
#include "pbt.h"

namespace rg {

namespace api = maliput::api;
using api::LaneId;
using api::LaneSRange;
using api::LaneSRoute;
using api::SRange;
using api::UniqueId;
using api::rules::DirectionUsageRule;
using api::rules::DiscreteValueRule;
using api::rules::RangeValueRule;
using api::rules::RightOfWayRule;
using api::rules::Rule;
using api::rules::SpeedLimitRule;
using DiscreteValue = DiscreteValueRule::DiscreteValue;
using Range = RangeValueRule::Range;

inline std::string N(const char* prefix, int64_t k) { return prefix + std::to_string(k); }

// Longitudinal coordinates on a dyadic lattice: sums and comparisons with lattice tolerances are exact.
// Some are off the lattice by a little, which is exact too.
inline double Coord(pbt::Src& src, double top = 20.) {
  const double c = 0.25 * static_cast<double>(src.i(0, static_cast<int64_t>(top * 4)));
  return src.b(1, 8) ? c + (src.b() ? 0x1p-11 : 0x1p-22) : c;
}
inline double Tolerance(pbt::Src& src) {
  return src.b() ? 0. : src.pick(std::vector<double>{0.25, 0.5, 1., 2.5, 0x1p-10});
}

inline LaneSRange RandomRange(pbt::Src& src, int n_lanes = 4) {
  const double a = Coord(src), b = Coord(src);
  return {LaneId(N("l", src.i(0, n_lanes - 1))), SRange(a, b)};
}
inline std::vector<LaneSRange> RandomRanges(pbt::Src& src, int min_n, int max_n, int n_lanes = 4) {
  std::vector<LaneSRange> r;
  for (int64_t k = src.i(min_n, max_n); k > 0; --k) {
    if (!r.empty() && src.b(1, 5)) {
      r.push_back(r[src.idx(r.size())]);  // The same range again.
    } else {
      r.push_back(RandomRange(src, n_lanes));
    }
  }
  return r;
}

// Whether two ranges are on the same lane and at most `tolerance` apart.
inline bool Touch(const LaneSRange& a, const LaneSRange& b, double tolerance) {
  if (a.lane_id().string() != b.lane_id().string()) return false;
  const double alo = std::min(a.s_range().s0(), a.s_range().s1()), ahi = std::max(a.s_range().s0(), a.s_range().s1());
  const double blo = std::min(b.s_range().s0(), b.s_range().s1()), bhi = std::max(b.s_range().s0(), b.s_range().s1());
  return std::max(alo, blo) - std::min(ahi, bhi) <= tolerance;
}
inline bool Touch(const std::vector<LaneSRange>& a, const std::vector<LaneSRange>& b, double tolerance) {
  for (const auto& x : a)
    for (const auto& y : b)
      if (Touch(x, y, tolerance)) return true;
  return false;
}
inline bool Same(const LaneSRange& a, const LaneSRange& b) {
  return a.lane_id().string() == b.lane_id().string() && a.s_range().s0() == b.s_range().s0() &&
         a.s_range().s1() == b.s_range().s1();
}
inline bool Same(const std::vector<LaneSRange>& a, const std::vector<LaneSRange>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k)
    if (!Same(a[k], b[k])) return false;
  return true;
}

// The parts of a rule state as plain data.
struct PlainState {
  int severity{};
  std::map<std::string, std::vector<std::string>> related_rules, related_ids;
  std::string text;  // Value of a discrete state, description of a range.
  double min{}, max{};
  bool operator==(const PlainState& o) const {
    return severity == o.severity && related_rules == o.related_rules && related_ids == o.related_ids &&
           text == o.text && min == o.min && max == o.max;
  }
};
inline std::map<std::string, std::vector<std::string>> Sorted(std::map<std::string, std::vector<std::string>> m) {
  for (auto& kv : m) std::sort(kv.second.begin(), kv.second.end());
  return m;
}
// Equality of states: the order within groups means nothing.
inline bool Equal(const PlainState& a, const PlainState& b) {
  return a.severity == b.severity && Sorted(a.related_rules) == Sorted(b.related_rules) &&
         Sorted(a.related_ids) == Sorted(b.related_ids) && a.text == b.text && a.min == b.min && a.max == b.max;
}
inline bool HasRepeats(const std::map<std::string, std::vector<std::string>>& m) {
  for (const auto& kv : m)
    if (std::set<std::string>(kv.second.begin(), kv.second.end()).size() != kv.second.size()) return true;
  return false;
}
inline bool HasEmptyKey(const std::map<std::string, std::vector<std::string>>& m) { return m.count("") > 0; }

template <typename State>
PlainState PlainBase(const State& s) {
  PlainState p;
  p.severity = s.severity;
  for (const auto& kv : s.related_rules) {
    p.related_rules[kv.first];
    for (const auto& id : kv.second) p.related_rules[kv.first].push_back(id.string());
  }
  for (const auto& kv : s.related_unique_ids) {
    p.related_ids[kv.first];
    for (const auto& id : kv.second) p.related_ids[kv.first].push_back(id.string());
  }
  return p;
}
inline PlainState Plain(const DiscreteValue& v) {
  PlainState p = PlainBase(v);
  p.text = v.value;
  return p;
}
inline PlainState Plain(const Range& v) {
  PlainState p = PlainBase(v);
  p.text = v.description;
  p.min = v.min;
  p.max = v.max;
  return p;
}
inline void Base(const PlainState& p, Rule::State* s) {
  s->severity = p.severity;
  for (const auto& kv : p.related_rules) {
    auto& v = s->related_rules[kv.first];
    for (const auto& id : kv.second) v.push_back(Rule::Id(id));
  }
  for (const auto& kv : p.related_ids) {
    auto& v = s->related_unique_ids[kv.first];
    for (const auto& id : kv.second) v.push_back(UniqueId(id));
  }
}
inline DiscreteValue ToDiscrete(const PlainState& p) {
  Rule::State s;
  Base(p, &s);
  return DiscreteValue(s.severity, s.related_rules, s.related_unique_ids, p.text);
}
inline Range ToRange(const PlainState& p) {
  Rule::State s;
  Base(p, &s);
  return Range(s.severity, s.related_rules, s.related_unique_ids, p.text, p.min, p.max);
}

inline std::map<std::string, std::vector<std::string>> RandomGroups(pbt::Src& src, const char* prefix, bool faults) {
  std::map<std::string, std::vector<std::string>> m;
  for (int64_t g = src.b() ? 0 : src.i(0, 2); g > 0; --g) {
    const std::string key = faults && src.b(1, 30) ? "" : N("g", src.i(0, 2));
    std::vector<std::string>& v = m[key];
    v.clear();
    for (int64_t k = src.i(0, 3); k > 0; --k) {
      const std::string id = N(prefix, src.i(0, 4));
      if (std::find(v.begin(), v.end(), id) == v.end() || (faults && src.b(1, 30))) v.push_back(id);
    }
  }
  return m;
}
inline PlainState RandomState(pbt::Src& src, bool range, bool faults) {
  PlainState p;
  p.severity = faults && src.b(1, 40) ? -1 - static_cast<int>(src.i(0, 2)) : static_cast<int>(src.i(0, 2));
  p.related_rules = RandomGroups(src, "r", faults);
  p.related_ids = RandomGroups(src, "u", faults);
  p.text = N("v", src.i(0, 2));
  if (range) {
    p.min = Coord(src, 3.);
    p.max = p.min + Coord(src, 2.);
    if (faults && src.b(1, 40)) p.max = p.min - 0.25;
    if (faults && src.b(1, 60)) (src.b() ? p.min : p.max) = std::numeric_limits<double>::quiet_NaN();
  }
  return p;
}
// A list of states; often contains near-duplicates (one attribute changed, or the same groups in another order).
inline std::vector<PlainState> RandomStates(pbt::Src& src, bool range, bool faults, int min_n = 1, int max_n = 4) {
  std::vector<PlainState> r;
  for (int64_t k = src.i(min_n, max_n); k > 0; --k) {
    if (r.empty() || src.b()) {
      r.push_back(RandomState(src, range, faults));
      continue;
    }
    PlainState p = r[src.idx(r.size())];
    switch (src.idx(6)) {
      case 0:
        p.severity += 1;
        break;
      case 1:
        p.text += "x";
        break;
      case 2:
        if (!p.related_rules.empty()) {
          auto& v = p.related_rules.begin()->second;
          const std::string extra = "extra";
          if (std::find(v.begin(), v.end(), extra) == v.end()) v.push_back(extra);
        } else {
          p.related_rules["g"] = {};
        }
        break;
      case 3:
        if (!p.related_ids.empty() && !p.related_ids.begin()->second.empty()) {
          p.related_ids.begin()->second.pop_back();
        } else {
          p.related_ids["g"] = {"u"};
        }
        break;
      case 4:
        for (auto& kv : p.related_rules) std::reverse(kv.second.begin(), kv.second.end());
        for (auto& kv : p.related_ids) std::reverse(kv.second.begin(), kv.second.end());
        if (!faults) p.severity += 7 + static_cast<int>(r.size());
        break;
      default:
        if (range) {
          p.max += 0.25;
        } else {
          p.text += "y";
        }
    }
    r.push_back(p);
  }
  if (!faults) {  // Keep the first of equal ones.
    std::vector<PlainState> u;
    for (const auto& p : r)
      if (std::none_of(u.begin(), u.end(), [&](const PlainState& q) { return Equal(p, q); })) u.push_back(p);
    r = u;
  }
  return r;
}
inline bool ValidStates(const std::vector<PlainState>& v) {
  if (v.empty()) return false;
  for (size_t i = 0; i < v.size(); ++i) {
    const PlainState& p = v[i];
    if (p.severity < 0 || HasEmptyKey(p.related_rules) || HasEmptyKey(p.related_ids) || HasRepeats(p.related_rules) ||
        HasRepeats(p.related_ids) || !(p.min <= p.max))
      return false;
    for (size_t j = 0; j < i; ++j)
      if (Equal(v[i], v[j])) return false;
  }
  return true;
}
inline std::vector<DiscreteValue> Discretes(const std::vector<PlainState>& v) {
  std::vector<DiscreteValue> r;
  for (const auto& p : v) r.push_back(ToDiscrete(p));
  return r;
}
inline std::vector<Range> Ranges(const std::vector<PlainState>& v) {
  std::vector<Range> r;
  for (const auto& p : v) r.push_back(ToRange(p));
  return r;
}
template <typename T>
std::vector<PlainState> Plains(const std::vector<T>& v) {
  std::vector<PlainState> r;
  for (const auto& p : v) r.push_back(Plain(p));
  return r;
}
inline std::string Str(const PlainState& p) {
  std::ostringstream os;
  os << "{" << p.severity << " " << p.text;
  if (p.min != 0. || p.max != 0.) os << " [" << p.min << "," << p.max << "]";
  for (const auto* m : {&p.related_rules, &p.related_ids})
    for (const auto& kv : *m) {
      os << " " << (m == &p.related_rules ? "R" : "U") << "'" << kv.first << "':";
      for (const auto& s : kv.second) os << s << ",";
    }
  os << "}";
  return os.str();
}

}  // namespace rg
