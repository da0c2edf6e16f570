// A road network around a generated road, with empty books.
#pragma once

#include <memory>
#include <utility>

#include "maliput/api/road_network.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/rule_registry.h"
#include "maliput/base/traffic_light_book.h"
#include "testroad.h"

namespace tr {

// Takes `road`'s geometry; its other members stay valid.
inline std::unique_ptr<api::RoadNetwork> MakeNetwork(Road* road) {
  auto rulebook = std::make_unique<maliput::ManualRulebook>();
  auto discrete = std::make_unique<maliput::ManualDiscreteValueRuleStateProvider>(rulebook.get());
  auto range = std::make_unique<maliput::ManualRangeValueRuleStateProvider>(rulebook.get());
  auto intersections = std::make_unique<maliput::IntersectionBook>(road->rg.get());
  return std::make_unique<api::RoadNetwork>(
      std::move(road->rg), std::move(rulebook), std::make_unique<maliput::TrafficLightBook>(), std::move(intersections),
      std::make_unique<maliput::ManualPhaseRingBook>(), std::make_unique<maliput::ManualPhaseProvider>(),
      std::make_unique<api::rules::RuleRegistry>(), std::move(discrete), std::move(range));
}

}  // namespace tr
