// Orientations of lane ends, in closed form.
#pragma once

#include <array>
#include <cmath>

#include "testroad.h"

namespace tr {

// Angle distance between frames given by axes.
inline double FrameDistance(const std::array<V3, 3>& a, const std::array<V3, 3>& b) {
  double sum = 0.;
  for (int k = 0; k < 3; ++k) {
    // Accurate for small angles, unlike acos(dot).
    const double ang = std::atan2(norm(cross(a[k], b[k])), dot(a[k], b[k]));
    sum += ang * ang;
  }
  return std::sqrt(sum);
}

inline std::array<V3, 3> Out(const LaneGeom& g, bool start) {
  std::array<V3, 3> f;
  g.axes(start ? 0. : g.length, &f[0], &f[1], &f[2]);
  if (start) {
    f[0] = -1. * f[0];
    f[1] = -1. * f[1];
  }
  return f;
}
inline std::array<V3, 3> Reverse(std::array<V3, 3> f) {
  f[0] = -1. * f[0];
  f[1] = -1. * f[1];
  return f;
}

}  // namespace tr
