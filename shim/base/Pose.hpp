#pragma once
#include <base/Eigen.hpp>
namespace base {
struct Pose {
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Vector3d position; Quaterniond orientation;
    Pose() : position(Vector3d::Zero()), orientation(Quaterniond::Identity()) {}
    template<class D> Pose(const Eigen::MatrixBase<D>& v) { fromVector6d(v); }
    template<class D, class Q> Pose(const Eigen::MatrixBase<D>& p, const Q& q) : position(p), orientation(q) {}
    template<int O> Pose(const Eigen::Transform<double,3,Eigen::Affine,O>& t)
        : position(t.translation()), orientation(Quaterniond(t.linear())) {}
    // rotation part first (scaled axis), then translation, as in Rock
    Vector6d toVector6d() const {
        Eigen::AngleAxisd aa(Eigen::Quaterniond(orientation.w(), orientation.x(), orientation.y(), orientation.z()));
        Vector6d r; r << aa.axis() * aa.angle(), position; return r;
    }
    template<class D> void fromVector6d(const Eigen::MatrixBase<D>& v) {
        Eigen::Vector3d sa = v.template head<3>();
        double n = sa.norm();
        Eigen::Quaterniond q = n > 1e-12 ? Eigen::Quaterniond(Eigen::AngleAxisd(n, sa / n)) : Eigen::Quaterniond::Identity();
        orientation = Quaterniond(q.w(), q.x(), q.y(), q.z());
        position = v.template tail<3>();
    }
    Affine3d toTransform() const { Affine3d t; t.setIdentity(); t.translate(position); t.rotate(orientation); return t; }
    double getYaw() const { Eigen::Matrix3d m(orientation.toRotationMatrix()); return atan2(m(1,0), m(0,0)); }
};
struct Pose2D {
    Vector2d position; double orientation;
    Pose2D() : position(Vector2d::Zero()), orientation(0) {}
    template<class D> Pose2D(const Eigen::MatrixBase<D>& p, double o) : position(p), orientation(o) {}
    Pose2D(const Pose& p) : position(p.position.head<2>()), orientation(p.getYaw()) {}
};
}
