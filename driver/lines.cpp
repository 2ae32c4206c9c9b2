#include <boost/bind/bind.hpp>
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/Grid.hpp>
#include <envire/tools/BresenhamLine.hpp>
#include "comp.hpp"
using namespace envire;
typedef GridBase::Position P;

static void add(J* j, size_t x, size_t y) { J p; p << x << y; *j << p; }
struct LinesC : public Component
{
    Bresenham* b;
    LinesC() : b(0) { reset(); }
    ~LinesC() { delete b; }
    void reset() { delete b; b = new Bresenham(P(0, 0), P(0, 0)); }
    static void list(const std::vector<P>& v, J& r) { for (size_t i = 0; i < v.size(); i++) add(&r, v[i].x, v[i].y); }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "init")
        {
            if (a[0] == 0) b->init(a[1], a[2], a[3], a[4]);
            else if (a[0] == 1) b->init(P(a[1], a[2]), P(a[3], a[4]));
            else
            {
                delete b;
                b = a[0] == 2 ? new Bresenham(Eigen::Vector2i(a[1], a[2]), Eigen::Vector2i(a[3], a[4])) : new Bresenham(P(a[1], a[2]), P(a[3], a[4]));
            }
        }
        else if (n == "next")
        {
            if (a[0]) { P p; if (b->getNextPoint(p)) r << 1 << p.x << p.y; else r << 0; }
            else { Eigen::Vector2i p(-77, -77); if (b->getNextPoint(p)) r << 1 << p.x() << p.y(); else r << 0; }
        }
        else if (n == "rest") { std::vector<P> v; b->getLine(v); list(v, r); }
        else if (n == "line") { std::vector<P> v; lineBresenham(P(a[0], a[1]), P(a[2], a[3]), v); list(v, r); }
        else
        {
            GridBase::Ptr g = new Grid<float>(a[0], a[1], a[2] / 10.0, a[3] / 10.0, a[4] / 10.0, a[5] / 10.0);
            base::Pose2D p(Eigen::Vector2d(a[6] / 10.0, a[7] / 10.0), atan2((double)a[9], (double)a[8]));
            J in, out;
            bool ok;
            if (n == "rect") ok = g->forEachInRectangle(p, a[11] / 10.0, a[12] / 10.0, boost::bind(&add, &in, boost::placeholders::_1, boost::placeholders::_2));
            else ok = g->forEachInRectangles(p, a[11] / 10.0, a[12] / 10.0, boost::bind(&add, &in, boost::placeholders::_1, boost::placeholders::_2),
                                             a[13] / 10.0, a[14] / 10.0, boost::bind(&add, &out, boost::placeholders::_1, boost::placeholders::_2));
            r << (int)ok << in;
            if (n == "rects") r << out;
        }
    }
};
Component* make_component() { return new LinesC; }
