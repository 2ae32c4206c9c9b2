#include <cmath>
#include <envire/tools/BoxLookUpTable.hpp>
#include <envire/tools/RadialLookUpTable.hpp>
#include "comp.hpp"
using namespace envire;
#ifdef BOX
struct C : public Component
{
    BoxLookUpTable* t;
    C() : t(new BoxLookUpTable) {}
    void reset() { delete t; t = new BoxLookUpTable; }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "recompute") t->recompute(a[0] / 64.0, a[1] / 64.0, a[2] / 64.0, a[3] / 64.0);
        else r << fx(t->getDistanceToBox(a[0] / 64.0, a[1] / 64.0), 1024);
    }
};
#else
struct C : public Component
{
    RadialLookUpTable* t;
    C() : t(new RadialLookUpTable) {}
    void reset() { delete t; t = new RadialLookUpTable; }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "recompute") t->recompute(a[0] / 64.0, a[1] / 64.0);
        else
        {
            double d = t->getDistance(a[0], a[1]), g = t->getAngle(a[0], a[1]);
            r << fx(d, 1024) << fx(d * cos(g), 1024) << fx(d * sin(g), 1024) << fx(g, 1000);
        }
    }
};
#endif
Component* make_component() { return new C; }
