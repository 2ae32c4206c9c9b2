#include <limits>
#include <memory>
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/operators/TraversabilityGrowClasses.hpp>
#include <envire/operators/ObjectGrowing.hpp>
#include <envire/operators/ClassGridProjection.hpp>
#include <boost/filesystem.hpp>
#include "comp.hpp"
using namespace envire;
typedef TraversabilityGrid T;
namespace envire
{
    struct Proj : public ClassGridProjection<uint8_t, float> { ENVIRONMENT_ITEM(Proj) };
    ENVIRONMENT_ITEM_DEF(Proj)
}
static const char* const IN[] = {"slope", "step"};
struct TravOps : public Component
{
    std::unique_ptr<Environment> e;
    Grid<float>* in;
    T *out, *out2;
    SimpleTraversability* op;
    TravOps() { reset(); }
    ~TravOps() { drop(); }
    void drop() { e.reset(); }
    void reset() { drop(); make(2, 2, 4, 4); }
    void make(long w, long h, long sx, long sy)
    {
        e.reset(new Environment);
        in = new Grid<float>(w, h, sx / 4.0, sy / 4.0, 0, 0, "in");
        out = new T(w, h, sx / 4.0, sy / 4.0, 0, 0, "out");
        out2 = new T(w, h, sx / 4.0, sy / 4.0, 0, 0, "out2");
        e->attachItem(in);
        e->attachItem(out);
        e->attachItem(out2);
        for (int b = 0; b < 2; b++) in->getGridData(IN[b]);
        op = 0;
        conf(1, 1, 0, 0, 0, 0, 0, 0);
    }
    void conf(long m, long n, long w, long c, long o, long us, long ut, long band)
    {
        if (op) e->detachItem(op);
        SimpleTraversabilityConfig k;
        k.maximum_slope = m / 8.0;
        k.class_count = n;
        k.min_width = w / 4.0;
        k.ground_clearance = c / 8.0;
        k.obstacle_clearance = o / 4.0;
        op = o == 0 && band == 1 ? new SimpleTraversability(m / 8.0, n, w / 4.0, c / 8.0) : new SimpleTraversability(k);
        e->attachItem(op);
        if (us) op->setSlope(in, "slope");
        if (ut) op->setMaxStep(in, "step");
        op->setOutput(out, band ? T::TRAVERSABILITY : std::string());
    }
    static float val(long v) { return v == -INF_MARK ? -std::numeric_limits<float>::infinity() : v / 8.0; }
    static J cells(T* g, const std::string& b)
    {
        J j;
        if (g->hasBand(b))
            for (size_t y = 0; y < g->getCellSizeY(); y++) for (size_t x = 0; x < g->getCellSizeX(); x++) j << (int)g->getGridData(b)[y][x];
        return j;
    }
    static J table(T* g)
    {
        J j;
        const std::vector<TraversabilityClass>& l = g->getTraversabilityClasses();
        for (size_t i = 0; i < l.size(); i++) j << (l[i].isSet() ? fx(l[i].getDrivability(), 1000) : -1L);
        return j;
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "new") make(a[0], a[1], a[2], a[3]);
        else if (n == "conf") conf(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
        else if (n == "cell") in->getGridData(IN[a[0]])[a[2]][a[1]] = val(a[3]);
        else if (n == "fill")
        {
            size_t i = 1;
            for (size_t y = 0; y < in->getCellSizeY(); y++) for (size_t x = 0; x < in->getCellSizeX(); x++) in->getGridData(IN[a[0]])[y][x] = val(a[i++]);
        }
        else if (n == "nod") in->setNoData(IN[a[0]], val(a[1]));
        else if (n == "put") { out->getGridData(T::TRAVERSABILITY)[a[1]][a[0]] = a[2]; out->getGridData(T::PROBABILITY)[a[1]][a[0]] = a[3]; }
        else if (n == "run")
        {
            if (a[0]) e->updateOperators(); else op->updateAll();
            r << cells(out, T::TRAVERSABILITY) << cells(out, T::PROBABILITY);
        }
        else if (n == "reload")
        {
            const std::string d = scratch + "/env";
            boost::filesystem::remove_all(d);
            boost::filesystem::create_directory(d);
            e->serialize(d);
            const std::string i1 = in->getUniqueId(), i2 = out->getUniqueId(), i3 = out2->getUniqueId(), i4 = op->getUniqueId();
            e.reset(Environment::unserialize(d));
            in = e->getItem<Grid<float> >(i1).get();
            out = e->getItem<T>(i2).get();
            out2 = e->getItem<T>(i3).get();
            op = e->getItem<SimpleTraversability>(i4).get();
            r << (int)(in && out && out2 && op && op->getSlopeBand() != "step");
        }
        else if (n == "grow")
        {
            boost::intrusive_ptr<TraversabilityGrowClasses> g = new TraversabilityGrowClasses;
            e->attachItem(g.get());
            g->addInput(out);
            g->addOutput(out2);
            g->setRadius(a[0] / 4.0);
            g->updateAll();
            e->detachItem(g.get());
            r << cells(out2, T::TRAVERSABILITY) << cells(out2, T::PROBABILITY);
        }
        else if (n == "objects")
        {
            // w h sx sy radius n ranks[n] cells[w*h]
            Grid<uint8_t>::Ptr s = new Grid<uint8_t>(a[0], a[1], a[2] / 4.0, a[3] / 4.0), t = new Grid<uint8_t>(a[0], a[1], a[2] / 4.0, a[3] / 4.0);
            GrowthPolicy<uint8_t> p(a[5]);
            for (long i = 0; i < a[5]; i++) for (long j = 0; j < a[5]; j++) p.setBigger(i, j, a[6 + i] > a[6 + j]);
            size_t i = 6 + a[5];
            for (long y = 0; y < a[1]; y++) for (long x = 0; x < a[0]; x++) s->getGridData("b")[y][x] = a[i++];
            ObjectGrowing<uint8_t> g;
            g.growObjects(p, *s, *t, "b", a[4] / 4.0);
            for (long y = 0; y < a[1]; y++) for (long x = 0; x < a[0]; x++) r << (int)t->getGridData("b")[y][x] << (int)s->getGridData("b")[y][x];
        }
        else if (n == "project")
        {
            // w h dx dw n values[n] (-1: not mapped) cells[w*h]
            Environment f;
            Grid<uint8_t>* s = new Grid<uint8_t>(a[0], a[1], 1, 1);
            Grid<float>* t = new Grid<float>(a[0] + a[3], a[1], 1, 1, a[2], 0);
            std::vector<std::string> bands;
            f.attachItem(s);
            f.attachItem(t);
            f.setFrameNode(s, f.getRootNode());
            f.setFrameNode(t, f.getRootNode());
            Proj* p = new Proj;
            f.attachItem(p);
            p->addInput(s);
            p->addOutput(t);
            for (long i = 0; i < a[4]; i++) if (a[5 + i] >= 0) p->class_map[i] = a[5 + i] / 8.0;
            size_t i = 5 + a[4];
            for (long y = 0; y < a[1]; y++) for (long x = 0; x < a[0]; x++) s->getGridData()[y][x] = a[i++];
            p->updateAll();
            for (long y = 0; y < a[1]; y++) for (long x = 0; x < a[0]; x++) r << fx(t->getGridData()[y][x], 8);
        }
    }
    std::string obs()
    {
        J j;
        j << cells(out, T::TRAVERSABILITY) << cells(out, T::PROBABILITY) << table(out) << cells(out2, T::TRAVERSABILITY) << cells(out2, T::PROBABILITY) << table(out2);
        for (int b = 0; b < 2; b++)
        {
            J v;
            for (size_t y = 0; y < in->getCellSizeY(); y++) for (size_t x = 0; x < in->getCellSizeX(); x++) v << fx(in->getGridData(IN[b])[y][x], 8);
            j << v;
        }
        return j.str();
    }
};
Component* make_component() { return new TravOps; }
