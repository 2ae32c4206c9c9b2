#pragma once
// Least squares fit z = a x + b y + c on running sums (stand-in for Rock's numeric/PlaneFitting)
#include <Eigen/Core>
#include <Eigen/Cholesky>
namespace numeric {
template<class S> struct PlaneFitting {
    typedef Eigen::Matrix<S,3,1> Vector3; typedef Eigen::Matrix<S,3,3> Matrix3;
    S x,y,z,xx,yy,xy,xz,yz,zz,n;
    struct Result { Vector3 coeffs; S residuals; Matrix3 cov; const Vector3& getCoeffs() const { return coeffs; } S getResiduals() const { return residuals; } const Matrix3& getCovariance() const { return cov; } };
    PlaneFitting() { clear(); }
    PlaneFitting(const Vector3& p, S w = 1) { clear(); update(p, w); }
    void clear() { x=y=z=xx=yy=xy=xz=yz=zz=n=0; }
    void update(const Vector3& p, S w = 1) { x+=p.x()*w; y+=p.y()*w; z+=p.z()*w; xx+=p.x()*p.x()*w; yy+=p.y()*p.y()*w; xy+=p.x()*p.y()*w; xz+=p.x()*p.z()*w; yz+=p.y()*p.z()*w; zz+=p.z()*p.z()*w; n+=w; }
    void update(const PlaneFitting& o) { x+=o.x; y+=o.y; z+=o.z; xx+=o.xx; yy+=o.yy; xy+=o.xy; xz+=o.xz; yz+=o.yz; zz+=o.zz; n+=o.n; }
    void scale(S f) { x*=f; y*=f; z*=f; xx*=f; yy*=f; xy*=f; xz*=f; yz*=f; zz*=f; n*=f; }
    Result solve() const {
        Matrix3 A; A << xx,xy,x, xy,yy,y, x,y,n; Vector3 b(xz,yz,z);
        Result r; r.coeffs = A.ldlt().solve(b);
        r.residuals = zz - 2*r.coeffs.dot(b) + r.coeffs.dot(A*r.coeffs); r.cov = Matrix3::Zero(); return r; }
    Vector3 getCoeffs() const { return solve().coeffs; }
    S getResiduals() const { return solve().residuals; }
};
}
