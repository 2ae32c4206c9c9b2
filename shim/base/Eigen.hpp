#pragma once
// Minimal stand-in for Rock's base/Eigen.hpp (absent from this sandbox).
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <cmath>
#include <limits>
namespace base {
typedef Eigen::Matrix<double,2,1,Eigen::DontAlign> Vector2d;
typedef Eigen::Matrix<double,3,1,Eigen::DontAlign> Vector3d;
typedef Eigen::Matrix<double,4,1,Eigen::DontAlign> Vector4d;
typedef Eigen::Matrix<double,6,1,Eigen::DontAlign> Vector6d;
typedef Eigen::Matrix<double,3,3,Eigen::DontAlign> Matrix3d;
typedef Eigen::Matrix<double,4,4,Eigen::DontAlign> Matrix4d;
typedef Eigen::Matrix<double,6,6,Eigen::DontAlign> Matrix6d;
typedef Eigen::Quaternion<double,Eigen::DontAlign> Quaterniond;
typedef Eigen::Transform<double,3,Eigen::Affine,Eigen::DontAlign> Affine3d;
typedef Affine3d Transform3d;
typedef Eigen::Quaterniond Orientation;
typedef Eigen::Vector3d Position;
template<class T> inline T unset();
template<> inline double unset<double>() { return std::numeric_limits<double>::quiet_NaN(); }
template<> inline float unset<float>() { return std::numeric_limits<float>::quiet_NaN(); }
template<class T> inline bool isUnset(T v) { return std::isnan(v); }
}
