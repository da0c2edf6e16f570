// Roads whose geometry does not matter, only their topology.
#pragma once

#include <algorithm>
#include <string>
#include <vector>

#include "testroad.h"

namespace tr {

inline std::string N(const char* p, int64_t k) { return p + std::to_string(k); }

// Roads whose geometry does not matter: segments between bundles of branch points. A bundle is a row of branch points; a
// segment end takes some of them, in order, all on one side.
inline RoadSpec Topology(pbt::Src& src, int max_segments, int max_lanes, bool subsets) {
  RoadSpec spec;
  const int segments = static_cast<int>(src.i(1, max_segments));
  const int bundles = static_cast<int>(src.i(1, segments + 1));
  std::vector<std::vector<int>> row(bundles);
  for (auto& r : row) {
    const int n = static_cast<int>(src.i(1, max_lanes));
    for (int k = 0; k < n; ++k) {
      r.push_back(static_cast<int>(spec.branch_points.size()));
      spec.branch_points.push_back(N("bp", r.back()));
    }
  }
  int lanes = 0;
  spec.junctions.push_back({"j0", {}});
  for (int s = 0; s < segments; ++s) {
    const auto& from = row[src.idx(row.size())];
    const auto& to = row[src.idx(row.size())];
    int n = static_cast<int>(std::min(from.size(), to.size()));
    if (subsets && src.b(1, 2)) n = static_cast<int>(src.i(1, n));
    const int f0 = subsets ? static_cast<int>(src.i(0, from.size() - n)) : 0;
    const int t0 = subsets ? static_cast<int>(src.i(0, to.size() - n)) : 0;
    const bool fa = src.b(), ta = src.b();
    if (src.b(1, 4)) spec.junctions.push_back({N("j", spec.junctions.size()), {}});
    SegmentSpec segment{N("s", s), {}};
    for (int k = 0; k < n; ++k) {
      LaneSpec lane;
      lane.id = N("l", lanes++);
      lane.geom.origin = {10. * s, 3. * k, 0.};
      lane.geom.length = static_cast<double>(src.i(1, 8)) * 0.5;
      lane.geom.r_min = lane.geom.seg_min = -1.;
      lane.geom.r_max = lane.geom.seg_max = 1.;
      lane.start_bp = from[f0 + k];
      lane.finish_bp = to[t0 + k];
      lane.start_a = fa;
      lane.finish_a = ta;
      segment.lanes.push_back(lane);
    }
    spec.junctions.back().segments.push_back(segment);
  }
  spec.junctions.erase(std::remove_if(spec.junctions.begin(), spec.junctions.end(),
                                      [](const JunctionSpec& j) { return j.segments.empty(); }),
                       spec.junctions.end());
  // Unused branch points go.
  std::vector<int> renumber(spec.branch_points.size(), -1);
  std::vector<std::string> kept;
  for (auto& j : spec.junctions)
    for (auto& s : j.segments)
      for (auto& l : s.lanes)
        for (int* bp : {&l.start_bp, &l.finish_bp}) {
          if (renumber[*bp] < 0) {
            renumber[*bp] = static_cast<int>(kept.size());
            kept.push_back(spec.branch_points[*bp]);
          }
          *bp = renumber[*bp];
        }
  spec.branch_points = kept;
  return spec;
}

inline RoadSpec AnyRoad(pbt::Src& src, int max_segments) {
  if (src.b(1, 3)) {
    ConnectedOptions options;
    options.max_strips = max_segments;
    options.defaults = false;
    return ConnectedRoad(src, options);
  }
  return Topology(src, max_segments, 3, true);
}

}  // namespace tr
