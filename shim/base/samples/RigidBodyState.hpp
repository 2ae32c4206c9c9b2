#pragma once
#include <string>
#include <base/Pose.hpp>
#include <base/Eigen.hpp>
#include <base/Time.hpp>
namespace base { namespace samples {
struct RigidBodyState {
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Time time; std::string sourceFrame, targetFrame;
    Eigen::Vector3d position; Eigen::Quaterniond orientation;
    Eigen::Matrix3d cov_position, cov_orientation;
    RigidBodyState() : position(Eigen::Vector3d::Zero()), orientation(Eigen::Quaterniond::Identity()),
        cov_position(Eigen::Matrix3d::Zero()), cov_orientation(Eigen::Matrix3d::Zero()) {}
    void setTransform(const Eigen::Affine3d& t) { position = t.translation(); orientation = Eigen::Quaterniond(t.linear()); }
    Eigen::Affine3d getTransform() const { Eigen::Affine3d t; t.setIdentity(); t.translate(position); t.rotate(orientation); return t; }
    operator Eigen::Affine3d() const { return getTransform(); }
};
} }
