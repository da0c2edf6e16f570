// A road network around straight lanes, with the books given or empty ones.
#pragma once
#include <memory>
#include <utility>

#include "line_road.h"
#include "maliput/api/road_network.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/traffic_light_book.h"

namespace lr {
struct Books {
  std::unique_ptr<maliput::ManualRulebook> rules = std::make_unique<maliput::ManualRulebook>();
  std::unique_ptr<maliput::ManualPhaseRingBook> rings = std::make_unique<maliput::ManualPhaseRingBook>();
};
inline std::unique_ptr<api::RoadNetwork> Network(std::unique_ptr<Road> road, Books books = {}) {
  auto discrete = std::make_unique<maliput::ManualDiscreteValueRuleStateProvider>(books.rules.get());
  auto range = std::make_unique<maliput::ManualRangeValueRuleStateProvider>(books.rules.get());
  auto intersections = std::make_unique<maliput::IntersectionBook>(road.get());
  return std::make_unique<api::RoadNetwork>(
      std::move(road), std::move(books.rules), std::make_unique<maliput::TrafficLightBook>(), std::move(intersections),
      std::move(books.rings), std::make_unique<maliput::ManualPhaseProvider>(),
      std::make_unique<api::rules::RuleRegistry>(), std::move(discrete), std::move(range));
}
}  // namespace lr
