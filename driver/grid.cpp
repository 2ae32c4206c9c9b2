#include <limits>
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/Grid.hpp>
#include "comp.hpp"
using namespace envire;
typedef Grid<float> G;
struct GridC : public Component
{
    Environment* env;
    FrameNode* f[3];
    GridBase::Ptr g[2];
    double h;
    GridC() : env(0), h(1 / 32.0) { reset(); }
    ~GridC() { clear(); }
    void clear() { for (int k = 0; k < 2; k++) g[k] = 0; delete env; env = 0; }
    void reset()
    {
        clear();
        h = 1 / 32.0;
        env = new Environment;
        f[0] = env->getRootNode();
        for (int i = 1; i <= 2; i++) { f[i] = new FrameNode; f[i - 1]->addChild(f[i]); }
        for (int k = 0; k < 2; k++) put(k, new G(2, 2, 32 * h, 32 * h), f[0]);
    }
    void put(int k, GridBase::Ptr n, FrameNode* fn)
    {
        if (g[k]) env->detachItem(g[k].get());
        g[k] = n;
        env->attachItem(n.get());
        env->setFrameNode(n.get(), fn);
    }
    static double huge(long i, const GridBase& b, bool y)
    {
        const double inf = std::numeric_limits<double>::infinity(), c = y ? b.getScaleY() : b.getScaleX(), o = y ? b.getOffsetY() : b.getOffsetX();
        const double v[] = {o + c / 2, inf, -inf, std::numeric_limits<double>::quiet_NaN(), 1e30, -1e30, 1e308, -1e308,
                            o + c * 18446744073709551616.0, o + c * 9223372036854775808.0, -c * 18446744073709551616.0, o + c * 4294967296.5, o - c * 4294967295.5, o + c * 1e15, o - c * 1e15};
        return v[i];
    }
    long u(double v) { return fx(v / h); }
    long u2(double v) { double r = v / h * 2; return std::abs(r - std::floor(r + 0.5)) > 1e-6 ? BIG_MARK + 1 : fx(r); }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "unit") { reset(); h = a[0] ? 1 / 20.0 : 1 / 32.0; for (int k = 0; k < 2; k++) put(k, new G(2, 2, 32 * h, 32 * h), f[0]); return; }
        if (n == "frame")
        {
            Transform t = Transform::Identity();
            Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
            for (int j = 0; j < 3; j++) { long p = a[1 + j]; m(std::labs(p) - 1, j) = p < 0 ? -1 : 1; }
            t.linear() = m;
            t.translation() = Eigen::Vector3d(a[4], a[5], a[6]) * h;
            f[a[0]]->setTransform(t);
            return;
        }
        const int k = a[0] - 1;
        const GridBase& b = *g[k];
        if (n == "new")
        {
            GridBase::Ptr p;
            FrameNode* fn = g[k]->getFrameNode();
            if (a[1] == 1)
                p = GridBase::create(G::className, a[2], a[3], a[4] * h, a[5] * h, a[6] * h, a[7] * h);
            else
            {
                p = new G(a[2], a[3], a[4] * h, a[5] * h, a[6] * h, a[7] * h);
                if (a[1] == 2) p = dynamic_cast<G*>(p.get())->clone();
                if (a[1] == 3) { G* q = new G; q->set(p.get()); p = q; }
            }
            put(k, p, fn);
        }
        else if (n == "put") env->setFrameNode(g[k].get(), f[a[1]]);
        else if (n == "to")
        {
            const double x = a[1] * h, y = a[2] * h;
            size_t xi = 77, yi = 77;
            double xm = -h, ym = -h;
            bool i = b.toGrid(x, y, xi, yi, xm, ym);
            r << (int)i << xi << yi << u(xm) << u(ym);
            xi = yi = 77;
            i = b.toGrid(x, y, xi, yi);
            r << (int)i << xi << yi;
            GridBase::Position p(77, 77);
            i = b.toGrid(Eigen::Vector2d(x, y), p);
            r << (int)i << p.x << p.y;
            xi = yi = 77;
            i = b.toGrid(Eigen::Vector3d(x, y, 5), xi, yi);
            r << (int)i << xi << yi;
        }
        else if (n == "tof")
        {
            size_t xi = 77, yi = 77;
            bool i = b.toGrid(Eigen::Vector3d(a[2], a[3], a[4]) * h, xi, yi, f[a[1]]);
            r << (int)i << xi << yi;
        }
        else if (n == "huge")
        {
            const double x = huge(a[1], b, false), y = huge(a[2], b, true);
            size_t xi = 77, yi = 77;
            bool i = b.toGrid(x, y, xi, yi);
            r << (int)i << xi << yi;
            GridBase::Position p(77, 77);
            i = b.toGrid(Eigen::Vector2d(x, y), p);
            r << (int)i << p.x << p.y;
        }
        else if (n == "from")
        {
            double x, y;
            b.fromGrid(a[1], a[2], x, y);
            r << u2(x) << u2(y);
            Eigen::Vector2d p, q = b.fromGrid(GridBase::Position(a[1], a[2]));
            b.fromGrid(GridBase::Position(a[1], a[2]), p);
            r << u2(p.x()) << u2(p.y()) << u2(q.x()) << u2(q.y());
            Eigen::Vector3d v = b.fromGrid(a[1], a[2]), w = b.fromGrid(a[1], a[2], f[a[3]]);
            r << u2(v.x()) << u2(v.y()) << u2(v.z()) << u2(w.x()) << u2(w.y()) << u2(w.z());
        }
        else if (n == "geom")
        {
            r << b.getCellSizeX() << b.getCellSizeY() << b.getWidth() << b.getHeight() << u(b.getScaleX()) << u(b.getScaleY())
              << u(b.getOffsetX()) << u(b.getOffsetY()) << u(b.getSizeX()) << u(b.getSizeY()) << u2(b.getCenterPoint().x()) << u2(b.getCenterPoint().y());
            GridBase::CellExtents c = b.getCellExtents();
            r << c.min().x() << c.min().y() << c.max().x() << c.max().y();
            GridBase::Extents e = b.getExtents();
            r << u(e.min().x()) << u(e.min().y()) << u(e.max().x()) << u(e.max().y());
        }
        else if (n == "has") r << (int)b.contains(GridBase::Position((size_t)a[1], (size_t)a[2]));
        else if (n == "ext")
        {
            GridBase::Extents e = b.getExtentsTransformed(*f[a[1]]);
            r << u(e.min().x()) << u(e.min().y()) << u(e.max().x()) << u(e.max().y());
        }
        else if (n == "align") r << (int)b.isAlignedWith(*g[a[1] - 1]) << (int)b.isCellAlignedWith(*g[a[1] - 1]);
    }
};
Component* make_component() { return new GridC; }
