#pragma once
#include <Eigen/Core>
namespace numeric {
template<class V> struct Stats {
    typedef Eigen::Matrix<double, V::RowsAtCompileTime, V::RowsAtCompileTime> M;
    double w; V m; M c; Stats() : w(0) { m.setZero(); c.setZero(); }
    void update(const V& v, double weight = 1) { w += weight; V d = v - m; m += d * (weight / w); c += weight * d * (v - m).transpose(); }
    V mean() const { return m; } M var() const { return c / w; } double sumWeights() const { return w; }
};
}
