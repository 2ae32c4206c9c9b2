#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include "comp.hpp"
namespace envire {
template <int D> struct Box { long b[6]; Box() { for (int i = 0; i < 6; i++) b[i] = i / 3; } };
#define BMAP(N, D) \
class N : public Map<D> { \
    ENVIRONMENT_ITEM(N) \
public: \
    Box<D> x; \
    N() : Map<D>("") {} \
    Map<D>::Extents getExtents() const { Map<D>::Extents e; Eigen::Matrix<double, D, 1> a, c; \
        for (int i = 0; i < D; i++) { a[i] = x.b[i]; c[i] = x.b[i + 3]; } e.extend(a); e.extend(c); return e; } \
};
BMAP(BMap2, 2)
BMAP(BMap3, 3)
ENVIRONMENT_ITEM_DEF(BMap2)
ENVIRONMENT_ITEM_DEF(BMap3)
}
using namespace envire;
typedef TransformWithUncertainty TU;
static const int NF = 4;
// exact values are integers; anything else is marked
static long ex(double v) { long r = fx(v); if (std::abs(v - r) > 1e-6) return BIG_MARK + 1; return r; }
struct FramesC : public Component
{
    Environment* env;
    FrameNode* f[NF + 1];
    BMap2* m2; BMap3* m3;
    FramesC() { env = 0; reset(); }
    ~FramesC() { delete env; }
    void reset()
    {
        delete env;
        env = new Environment;
        f[0] = env->getRootNode();
        for (int i = 1; i <= NF; i++) { f[i] = new FrameNode; env->attachItem(f[i]); }
        m2 = new BMap2; m3 = new BMap3;
        env->attachItem(m2); env->attachItem(m3);
        env->setFrameNode(m2, f[0]); env->setFrameNode(m3, f[0]);
    }
    static Transform tf(const Args& a, int i)
    {
        Transform t = Transform::Identity();
        Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
        for (int j = 0; j < 3; j++) { long p = a[i + j]; m(std::labs(p) - 1, j) = p < 0 ? -1 : 1; }
        t.linear() = m;
        t.translation() = v3(a, i + 3);
        return t;
    }
    static Eigen::Vector3d v3(const Args& a, int i) { return Eigen::Vector3d(a[i], a[i + 1], a[i + 2]); }
    static void put(J& r, const Transform& t)
    {
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r << ex(t.linear()(i, j));
        for (int i = 0; i < 3; i++) r << ex(t.translation()[i]);
    }
    static void put(J& r, const TU& t)
    {
        put(r, t.getTransform());
        r << (int)t.hasUncertainty();
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) r << (t.hasUncertainty() ? ex(t.getCovariance()(i, j)) : 0);
    }
    static void put(J& r, const Eigen::Vector3d& v) { for (int i = 0; i < 3; i++) r << ex(v[i]); }
    CartesianMap* map(long i) { return i == 1 ? (CartesianMap*)m2 : (CartesianMap*)m3; }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "set") f[a[0]]->setTransform(tf(a, 1));
        else if (n == "setu")
        {
            TU::Covariance c = TU::Covariance::Zero();
            for (int i = 0; i < 6; i++) c(i, i) = a[7 + i];
            f[a[0]]->setTransform(TU(tf(a, 1), c));
        }
        else if (n == "add") { if ((a[0] + a[1]) % 2) f[a[0]]->addChild(f[a[1]]); else env->addChild(f[a[0]], f[a[1]]); }
        else if (n == "rem") env->removeChild(f[a[0]], f[a[1]]);
        else if (n == "place") { if (a[1] % 2) map(a[0])->setFrameNode(f[a[1]]); else env->setFrameNode(map(a[0]), f[a[1]]); }
        else if (n == "box") { for (int i = 0; i < 6; i++) (a[0] == 1 ? m2->x.b : m3->x.b)[i] = a[1 + i]; }
        else if (n == "rel") { put(r, f[a[0]]->relativeTransform(f[a[1]])); put(r, env->relativeTransform(f[a[0]], f[a[1]])); }
        else if (n == "relu") put(r, env->relativeTransformWithUncertainty(f[a[0]], f[a[1]]));
        else if (n == "relm") { put(r, env->relativeTransform(m2, m3)); put(r, env->relativeTransformWithUncertainty(m3, m2)); }
        else if (n == "point") put(r, Eigen::Vector3d(f[a[0]]->relativeTransform(f[a[1]]) * v3(a, 2)));
        else if (n == "pmap")
        {
            if (a[0] == 1) { put(r, m2->toMap(v3(a, 2), *f[a[1]])); put(r, m2->fromMap(v3(a, 2), *f[a[1]])); }
            else { put(r, m3->toMap(v3(a, 2), *f[a[1]])); put(r, m3->fromMap(v3(a, 2), *f[a[1]])); }
        }
        else if (n == "pmaproot")
        {
            if (a[0] == 1) { put(r, m2->toMap(v3(a, 1))); put(r, m2->fromMap(v3(a, 1))); }
            else { put(r, m3->toMap(v3(a, 1))); put(r, m3->fromMap(v3(a, 1))); }
        }
        else if (n == "ext")
        {
            if (a[0] == 1) { Map<2>::Extents e = m2->getExtentsTransformed(*f[a[1]]); for (int i = 0; i < 2; i++) r << ex(e.min()[i]); for (int i = 0; i < 2; i++) r << ex(e.max()[i]); }
            else { Map<3>::Extents e = m3->getExtentsTransformed(*f[a[1]]); for (int i = 0; i < 3; i++) r << ex(e.min()[i]); for (int i = 0; i < 3; i++) r << ex(e.max()[i]); }
        }
        else if (n == "clone")
        {
            Environment other;
            map(a[0])->cloneTo(other);
            std::vector<CartesianMap*> ms = other.getItems<CartesianMap>();
            std::vector<FrameNode*> fs = other.getItems<FrameNode>();
            if (ms.size() != 1 || ms[0] == map(a[0])) { r << -1; return; }
            std::vector<FrameNode*> ch;
            for (FrameNode* x = ms[0]->getFrameNode(); x != other.getRootNode(); x = x->getParent()) ch.push_back(x);
            r << (ch.size() == fs.size() - 1 ? (long)ch.size() : -2L);
            for (int i = (int)ch.size() - 1; i >= 0; i--)
            {
                put(r, ch[i]->getTransformWithUncertainty());
                for (int k = 0; k <= NF; k++) if (ch[i] == f[k]) r << -3;
            }
            long* b = a[0] == 1 ? dynamic_cast<BMap2*>(ms[0])->x.b : dynamic_cast<BMap3*>(ms[0])->x.b;
            for (int i = 0; i < 6; i++) r << b[i];
        }
        else if (n == "alg")
        {
            TU x = f[a[0]]->getTransformWithUncertainty(), y = f[a[1]]->getTransformWithUncertainty();
            put(r, (a[0] + a[1]) % 2 ? x * y : x.composition(y));
            put(r, x.inverse());
            PointWithUncertainty p(v3(a, 2), Eigen::Matrix3d(v3(a, 5).asDiagonal()));
            PointWithUncertainty q = x * p;
            put(r, q.getPoint());
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r << ex(q.getCovariance()(i, j));
        }
        else if (n == "algi")
        {
            TU x = f[a[0]]->getTransformWithUncertainty(), y = f[a[1]]->getTransformWithUncertainty();
            TU xy = x * y;
            put(r, xy.compositionInv(y));
            put(r, xy.preCompositionInv(x));
        }
        else if (n == "rbs")
        {
            base::samples::RigidBodyState s;
            f[a[0]]->getTransformWithUncertainty().copyToRigidBodyState(s);
            TU t(s), w;
            w = s;
            put(r, a[0] % 2 ? t : w);
        }
    }
    std::string obs()
    {
        J j;
        for (int i = 0; i <= NF; i++)
        {
            J e;
            e << (int)f[i]->getTransformWithUncertainty().hasUncertainty();
            put(e, Eigen::Vector3d(f[i]->getTransform().translation()));
            j << e;
        }
        return j.str();
    }
};
Component* make_component() { return new FramesC; }
