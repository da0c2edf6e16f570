// Walks along a road.
#pragma once

#include <utility>
#include <vector>

#include "maliput/api/regions.h"
#include "testroad.h"

namespace tr {

// Random walk over the ends; returns ranges which are contiguous, first and last may be partial.
inline std::vector<api::LaneSRange> Walk(pbt::Src& src, const RoadSpec& spec, int max_len) {
  struct End {
    const LaneSpec* lane;
    bool start, a;
  };
  std::vector<std::vector<End>> at(spec.branch_points.size());
  for (const LaneSpec* l : spec.lanes()) {
    at[l->start_bp].push_back({l, true, l->start_a});
    at[l->finish_bp].push_back({l, false, l->finish_a});
  }
  std::vector<api::LaneSRange> r;
  const auto lanes = spec.lanes();
  const LaneSpec* l = lanes[src.idx(lanes.size())];
  bool with_s = src.b();
  const int n = static_cast<int>(src.i(1, max_len));
  for (int k = 0; k < n; ++k) {
    const double L = l->geom.length;
    double s0 = with_s ? 0. : L, s1 = with_s ? L : 0.;
    bool stop = false;
    if (k == 0 && src.b(1, 3)) s0 = L * src.real(0., 1.);
    if (k == n - 1 && src.b(1, 2)) {
      s1 = L * src.real(0., 1.);
      stop = true;
      if (with_s != (s1 > s0) && s0 != s1) std::swap(s0, s1);
      if (k > 0) s0 = with_s ? 0. : L;
    }
    r.emplace_back(api::LaneId(l->id), api::SRange(s0, s1));
    if (stop) break;
    const int bp = with_s ? l->finish_bp : l->start_bp;
    const bool a = with_s ? l->finish_a : l->start_a;
    std::vector<End> next;
    for (const End& e : at[bp])
      if (e.a != a) next.push_back(e);
    if (next.empty()) break;
    const End& e = next[src.idx(next.size())];
    l = e.lane;
    with_s = e.start;
  }
  return r;
}

}  // namespace tr
