#pragma once
#include <base/Eigen.hpp>
#include <vector>
namespace base { namespace geometry { struct Spline3 {
  std::vector<base::Vector3d> pts;
  double getStartParam() const { return 0; } double getEndParam() const { return pts.empty() ? 0 : pts.size() - 1; } bool isEmpty() const { return pts.empty(); }
  std::vector<base::Vector3d> sample(double) const { return pts; }
  void interpolate(const std::vector<base::Vector3d>& p) { pts = p; }
  template<class V> void interpolate(const std::vector<V>& p) { pts.assign(p.begin(), p.end()); }
}; } }
