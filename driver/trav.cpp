#include <limits>
#include <memory>
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <boost/filesystem.hpp>
#include <boost/bind.hpp>
#include "comp.hpp"
using namespace envire;
typedef TraversabilityGrid G;
static const std::string BAND[] = {G::TRAVERSABILITY, G::PROBABILITY};
struct TravC : public Component
{
    G::Ptr g[2];
    TraversabilityStatistic st[2];
    TravC() { reset(); }
    void reset()
    {
        for (int k = 0; k < 2; k++) { g[k] = new G(2, 2, 1, 1); st[k] = TraversabilityStatistic(); }
    }
    static TraversabilityClass cls(long d) { return d == -1 ? TraversabilityClass() : TraversabilityClass(d / 100.0); }
    static void show(const TraversabilityClass& c, J& r) { r << fx(c.getDrivability(), 100) << (int)c.isTraversable() << (int)c.isSet(); }
    static void put(std::vector<std::pair<size_t, size_t> >& l, size_t x, size_t y) { l.push_back(std::make_pair(x, y)); }
    static J list(const std::vector<std::pair<size_t, size_t> >& l)
    {
        J j;
        for (size_t i = 0; i < l.size(); i++) { J e; e << l[i].first << l[i].second; j << e; }
        return j;
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "snew") { st[a[0] - 1] = TraversabilityStatistic(); return; }
        if (n == "meas") { st[a[0] - 1].addMeasurement(a[1], a[2] / 100.0); return; }
        const int k = a[0] - 1;
        G& m = *g[k];
        const G& c = m;
        if (n == "new") g[k] = new G(a[1], a[2], a[3] / 10.0, a[3] / 10.0, a[4] / 10.0, a[5] / 10.0);
        else if (n == "class") m.setTraversabilityClass(a[1], cls(a[2]));
        else if (n == "reg") { uint8_t id = 0; bool ok = m.registerNewTraversabilityClass(id, cls(a[1])); r << (int)ok; if (ok) r << (int)id; }
        else if (n == "cls") show(c.getTraversabilityClass(a[1]), r);
        else if (n == "set") m.setTraversability(a[1], a[2], a[3]);
        else if (n == "setp") m.setProbability(a[1] / 1000.0, a[2], a[3]);
        else if (n == "both") m.setTraversabilityAndProbability(a[1], a[2] / 1000.0, a[3], a[4]);
        else if (n == "same") m.setProbability(c.getProbability(a[1], a[2]), a[1], a[2]);
        else if (n == "raw") m.getGridData(BAND[a[1]])[a[3]][a[2]] = a[4];
        else if (n == "get") show(c.getTraversability(a[1], a[2]), r);
        else if (n == "getp") r << fx(c.getProbability(a[1], a[2]), 2550);
        else if (n == "copyb") m.copyBandFrom(*g[a[2] - 1], BAND[a[1]]);
        else if (n == "clone") g[a[1] - 1] = c.clone();
        else if (n == "copy") g[a[1] - 1] = new G(c);
        else if (n == "assign") *g[a[1] - 1] = c;
        else if (n == "setto") g[a[1] - 1]->set(&m);
        else if (n == "ser")
        {
            G::Ptr cl = c.clone(), res;
            cl->setUniqueId(Environment::ITEM_NOT_ATTACHED);
            Environment e;
            e.attachItem(cl.get());
            if (a[2] == 0)
            {
                const std::string d = scratch + "/env";
                boost::filesystem::remove_all(d);
                boost::filesystem::create_directory(d);
                e.serialize(d);
                std::unique_ptr<Environment> o(Environment::unserialize(d));
                std::vector<G*> l = o->getItems<G>();
                if (l.size() == 1) { res = l[0]; o->detachItem(l[0]); }
            }
            else
            {
                EnvireBinaryEvent ev;
                ev.type = event::ITEM; ev.operation = event::ADD; ev.id_a = cl->getUniqueId();
                BinarySerialization s, s2;
                s.serializeBinaryEvent(cl.get(), ev);
                res = dynamic_cast<G*>(s2.unserializeBinaryEvent(ev));
            }
            e.detachItem(cl.get());
            r << (int)!!res;
            if (!res) return;
            g[a[1] - 1] = res;
            J j;
            const std::vector<TraversabilityClass>& l = res->getTraversabilityClasses();
            for (size_t i = 0; i < l.size(); i++) j << (l[i].isSet() ? fx(l[i].getDrivability(), 100) : -1L);
            r << j;
        }
        else
        {
            base::Pose2D p;
            p.position = Eigen::Vector2d(a[1], a[2]) / 10.0;
            p.orientation = std::atan2((double)a[4], (double)a[3]);
            const double sx = a[6] / 10.0, sy = a[7] / 10.0;
            std::vector<std::pair<size_t, size_t> > in, out;
            if (n == "stat2")
            {
                const double b = a[8] / 10.0;
                c.forEachInRectangles(p, sx, sy, boost::bind(&put, boost::ref(in), _1, _2), sx + b, sy + b, boost::bind(&put, boost::ref(out), _1, _2));
                r << list(in) << list(out);
                c.computeStatistic(p, sx, sy, b, st[0], st[1]);
                return;
            }
            c.forEachInRectangle(p, sx, sy, boost::bind(&put, boost::ref(in), _1, _2));
            r << list(in);
            if (n == "stat") c.computeStatistic(p, sx, sy, st[0]);
            else if (n == "worst") show(c.getWorstTraversabilityClassInRectangle(p, sx, sy), r);
            else if (n == "worstp") r << fx(c.getWorstProbabilityInRectangle(p, sx, sy), 2550);
        }
    }
    std::string obs()
    {
        J o;
        for (int k = 0; k < 2; k++)
        {
            const G& c = *g[k];
            J j, jc;
            j << c.getCellSizeX() << c.getCellSizeY() << fx(c.getScaleX(), 10) << fx(c.getScaleY(), 10) << fx(c.getOffsetX(), 10) << fx(c.getOffsetY(), 10);
            const std::vector<TraversabilityClass>& l = c.getTraversabilityClasses();
            for (size_t i = 0; i < l.size(); i++) { jc << (l[i].isSet() ? fx(l[i].getDrivability(), 100) : -1L); }
            j << jc;
            for (int b = 0; b < 2; b++)
            {
                J v;
                if (c.hasBand(BAND[b]))
                    for (size_t y = 0; y < c.getCellSizeY(); y++) for (size_t x = 0; x < c.getCellSizeX(); x++) v << (int)c.getGridData(BAND[b])[y][x];
                j << v;
            }
            o << j;
        }
        for (int k = 0; k < 2; k++)
        {
            J j, l;
            int bad = 0;
            for (int i = 0; i < 256; i++)
            {
                double d;
                size_t n;
                st[k].getStatisticForClass(i, d, n);
                if (n != st[k].getClassCount(i)) bad = 1;
                if (n) { J e; e << i << n << fx(d, 1000); l << e; }
                else if (d != std::numeric_limits<double>::max()) bad = 2;
            }
            j << st[k].getTotalCount() << (int)st[k].getHighestTraversabilityClass() << l << bad;
            o << j;
        }
        return o.str();
    }
};
Component* make_component() { return new TravC; }
