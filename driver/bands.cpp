#include <limits>
#include <memory>
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/Grid.hpp>
#include <envire/maps/Grids.hpp>
#include <boost/filesystem.hpp>
#include "comp.hpp"
using namespace envire;
static const char* const BAND[] = {"grid_data", "aux", "r", "g", "b", "distance", "confidence", "occupancy"};
static const int NB = 8;
static std::string classOf(int t)
{
    switch (t)
    {
    case 0: return Grid<float>::className;
    case 1: return Grid<double>::className;
    case 2: return Grid<uint8_t>::className;
    case 3: return Grid<int16_t>::className;
    case 4: return Grid<uint16_t>::className;
    case 5: return Grid<int32_t>::className;
    case 6: return Grid<uint32_t>::className;
    case 7: return ImageRGB24::className;
    case 8: return DistanceGrid::className;
    case 9: return OccupancyGrid::className;
    default: return ConfidenceGrid::className;
    }
}
static GridBase* make(int t, size_t w, size_t h, double cx, double cy, double ox, double oy)
{
    switch (t)
    {
    case 0: return new Grid<float>(w, h, cx, cy, ox, oy);
    case 1: return new Grid<double>(w, h, cx, cy, ox, oy);
    case 2: return new Grid<uint8_t>(w, h, cx, cy, ox, oy);
    case 3: return new Grid<int16_t>(w, h, cx, cy, ox, oy);
    case 4: return new Grid<uint16_t>(w, h, cx, cy, ox, oy);
    case 5: return new Grid<int32_t>(w, h, cx, cy, ox, oy);
    case 6: return new Grid<uint32_t>(w, h, cx, cy, ox, oy);
    case 7: return new ImageRGB24(w, h, cx, cy, ox, oy);
    case 8: return new DistanceGrid(w, h, cx, cy, ox, oy);
    case 9: return new OccupancyGrid(w, h, cx, cy);
    default: return new ConfidenceGrid(w, h, cx, cy);
    }
}
static GridBase* empty(int t)
{
    switch (t)
    {
    case 0: return new Grid<float>;
    case 1: return new Grid<double>;
    case 2: return new Grid<uint8_t>;
    case 3: return new Grid<int16_t>;
    case 4: return new Grid<uint16_t>;
    case 5: return new Grid<int32_t>;
    case 6: return new Grid<uint32_t>;
    case 7: return new ImageRGB24;
    case 8: return new DistanceGrid;
    case 9: return new OccupancyGrid;
    default: return new ConfidenceGrid;
    }
}
// the operations that depend on the type of the cells
struct Typed
{
    virtual ~Typed() {}
    virtual std::string content() = 0;
    virtual void call(const std::string& n, const Args& a, J& r, const std::string& scratch, Typed* other) = 0;
    virtual std::vector<char> raw(int b) = 0;
    virtual void nodata(J& r) = 0;
};
template <class T> struct TypedT : public Typed
{
    boost::intrusive_ptr<Grid<T> > g;
    TypedT(Grid<T>* g) : g(g) {}
    static bool real() { return !std::numeric_limits<T>::is_integer; }
    static T in(long v) { return real() ? T(v / 2.0) : T(v); }
    static long out(T v) { if (real()) return fx(v, 2); double d = v; return d > 2147483647.0 || d < -2147483647.0 ? (d > 0 ? BIG_MARK : -BIG_MARK) : (long)v; }
    std::string content()
    {
        J j;
        const Grid<T>& c = *g;
        int t = -1;
        for (int i = 0; i <= 10; i++) if (c.getClassName() == classOf(i)) t = i;
        j << t << c.getCellSizeX() << c.getCellSizeY() << fx(c.getScaleX()) << fx(c.getScaleY()) << fx(c.getOffsetX()) << fx(c.getOffsetY());
        J jb, jn, jd;
        for (int b = 0; b < NB; b++)
        {
            std::pair<T, bool> n = c.getNoData(BAND[b]);
            if (n.second) { J e; e << b << out(n.first); jn << e; }
            if (!c.hasBand(BAND[b])) continue;
            const typename Grid<T>::ArrayType& d = c.getGridData(BAND[b]);
            J v;
            for (size_t y = 0; y < d.shape()[0]; y++) for (size_t x = 0; x < d.shape()[1]; x++) v << out(d[y][x]);
            J e;
            e << b << d.shape()[1] << d.shape()[0] << v;
            jb << e;
        }
        j << jb << jn;
        for (size_t i = 0; i < c.getBands().size(); i++)
        {
            int k = -1;
            for (int b = 0; b < NB; b++) if (c.getBands()[i] == BAND[b]) k = b;
            jd << k;
        }
        std::pair<T, bool> n = c.getNoData();
        J e;
        e << (int)n.second;
        if (n.second) e << out(n.first);
        j << jd << e << (long)g->getGridDepth();
        return j.str();
    }
    std::vector<char> raw(int b)
    {
        std::ostringstream os;
        g->writeGridData(BAND[b], os);
        std::string s = os.str();
        return std::vector<char>(s.begin(), s.end());
    }
    void nodata(J& r)
    {
        for (int b = 0; b < NB; b++)
        {
            std::pair<T, bool> n = g->getNoData(BAND[b]);
            if (n.second) { J e; e << b << out(n.first); r << e; }
        }
    }
    double wx(long i) { return g->getOffsetX() + (i + 0.5) * g->getScaleX(); }
    double wy(long i) { return g->getOffsetY() + (i + 0.5) * g->getScaleY(); }
    void call(const std::string& n, const Args& a, J& r, const std::string& scratch, Typed* other)
    {
        const Grid<T>& c = *g;
        if (n == "band") g->createBand(BAND[a[1]]);
        else if (n == "set") g->getFromRaster(BAND[a[1]], a[2], a[3]) = in(a[4]);
        else if (n == "setw") g->get(BAND[a[1]], wx(a[2]), wy(a[3])) = in(a[4]);
        else if (n == "get") r << out(c.get(BAND[a[1]], wx(a[2]), wy(a[3]))) << out(c.getFromRaster(BAND[a[1]], a[2], a[3])) << out(c.getGridData(BAND[a[1]])[a[3]][a[2]]);
        else if (n == "getm") r << out(g->get(BAND[a[1]], wx(a[2]), wy(a[3]))) << out(g->getFromRaster(BAND[a[1]], a[2], a[3])) << out(g->getGridData(BAND[a[1]])[a[3]][a[2]]);
        else if (n == "def") r << out(g->getGridData()[a[2]][a[1]]);
        else if (n == "cdef") r << out(c.getGridData()[a[2]][a[1]]);
        else if (n == "fill") { typename Grid<T>::ArrayType& d = g->getGridData(BAND[a[1]]); for (size_t i = 0; i < a.size() - 2; i++) d.data()[i] = in(a[2 + i]); }
        else if (n == "in") r << (int)g->inGrid(a[1] / 2.0, a[2] / 2.0);
        else if (n == "nod") g->setNoData(BAND[a[1]], in(a[2]));
        else if (n == "nodall") g->setNoData(in(a[1]));
        else if (n == "minmax") { T lo, hi; g->getMinMaxValues(BAND[a[1]], lo, hi); r << out(lo) << out(hi); }
        else if (n == "frame")
        {
            base::samples::frame::Frame f;
            g->convertToFrame(BAND[a[1]], f);
            r << (long)f.getWidth() << (long)f.getHeight() << (long)f.data_depth << (int)f.frame_mode << (int)(f.frame_status == base::samples::frame::STATUS_VALID) << (int)(f.attrs["key"] == BAND[a[1]]);
            J v;
            for (size_t i = 0; i + sizeof(T) <= f.image.size(); i += sizeof(T)) { T e; memcpy(&e, &f.image[i], sizeof(T)); v << out(e); }
            r << v;
        }
        else if (n == "fromf")
        {
            base::samples::frame::Frame f;
            f.init(c.getWidth(), c.getHeight(), 8, base::samples::frame::MODE_RGB);
            for (size_t i = 0; i < f.image.size(); i++) f.image[i] = a[1 + i];
            dynamic_cast<ImageRGB24&>(*(GridBase*)g.get()).copyFromFrame(f);
        }
        else if (n == "fromd")
        {
            base::samples::DistanceImage d;
            d.width = c.getWidth(); d.height = c.getHeight();
            for (size_t i = 0; i < size_t(d.width) * d.height; i++) d.data.push_back(a[1 + i] / 2.0);
            dynamic_cast<DistanceGrid&>(*(GridBase*)g.get()).copyFromDistanceImage(d);
        }
        else if (n == "str")     // k b k2 b2: band b2 of k2 into band b of this one
        {
            std::vector<char> d = other->raw(a[3]);
            std::istringstream is(std::string(d.begin(), d.end()));
            g->readGridData(BAND[a[1]], is);
            r << d.size();
        }
        else if (n == "wr")      // k f bands...
        {
            std::vector<std::string> b;
            for (size_t i = 2; i < a.size(); i++) b.push_back(BAND[a[i]]);
            std::string p = scratch + "/f" + std::to_string(a[1]);
            if (b.size() == 1) g->writeGridData(b[0], p); else g->writeGridData(b, p);
        }
        else if (n == "rd")      // k f base bands...
        {
            std::vector<std::string> b;
            for (size_t i = 3; i < a.size(); i++) b.push_back(BAND[a[i]]);
            std::string p = scratch + "/f" + std::to_string(a[1]);
            if (b.size() == 1) g->readGridData(b[0], p, a[2]); else g->readGridData(b, p, a[2]);
        }
    }
};
static Typed* typed(GridBase* g)
{
    if (dynamic_cast<Grid<float>*>(g)) return new TypedT<float>(dynamic_cast<Grid<float>*>(g));
    if (dynamic_cast<Grid<double>*>(g)) return new TypedT<double>(dynamic_cast<Grid<double>*>(g));
    if (dynamic_cast<Grid<uint8_t>*>(g)) return new TypedT<uint8_t>(dynamic_cast<Grid<uint8_t>*>(g));
    if (dynamic_cast<Grid<int16_t>*>(g)) return new TypedT<int16_t>(dynamic_cast<Grid<int16_t>*>(g));
    if (dynamic_cast<Grid<uint16_t>*>(g)) return new TypedT<uint16_t>(dynamic_cast<Grid<uint16_t>*>(g));
    if (dynamic_cast<Grid<int32_t>*>(g)) return new TypedT<int32_t>(dynamic_cast<Grid<int32_t>*>(g));
    return new TypedT<uint32_t>(dynamic_cast<Grid<uint32_t>*>(g));
}
struct BandsC : public Component
{
    Environment* env;
    GridBase::Ptr g[2];
    BandsC() : env(0) { reset(); }
    ~BandsC() { clear(); }
    void clear() { for (int k = 0; k < 2; k++) g[k] = 0; delete env; env = 0; }
    void reset()
    {
        clear();
        if (!scratch.empty()) for (int f = 0; f < 3; f++) boost::filesystem::remove(scratch + "/f" + std::to_string(f));
        env = new Environment;
        for (int k = 0; k < 2; k++) g[k] = new Grid<float>(2, 2, 1, 1);
    }
    void put(int k, GridBase::Ptr n)
    {
        if (g[k]->isAttached()) env->detachItem(g[k].get());
        if (!n->isAttached()) n->setUniqueId(Environment::ITEM_NOT_ATTACHED);
        g[k] = n;
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        const int k = a[0] - 1;
        if (n == "new")
        {
            if (a[2]) put(k, GridBase::create(classOf(a[1]), a[3], a[4], a[5], a[6], a[7], a[8]));
            else put(k, make(a[1], a[3], a[4], a[5], a[6], a[7], a[8]));
        }
        else if (n == "clone") put(a[1] - 1, dynamic_cast<GridBase*>(g[k]->clone()));
        else if (n == "assign") g[a[1] - 1]->set(g[k].get());
        else if (n == "put")
        {
            Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
            switch (a[1])
            {
            case 1: m << 0, -1, 0, 1, 0, 0, 0, 0, 1; break;
            case 2: m << -1, 0, 0, 0, -1, 0, 0, 0, 1; break;
            case 3: m << 0, 1, 0, -1, 0, 0, 0, 0, 1; break;
            case 4: m << 1, 0, 0, 0, -1, 0, 0, 0, -1; break;
            case 5: m << -1, 0, 0, 0, 1, 0, 0, 0, -1; break;
            }
            Transform t = Transform::Identity();
            t.linear() = m;
            t.translation() = Eigen::Vector3d(a[2], a[3], 7);
            FrameNode* f = new FrameNode(t);
            env->getRootNode()->addChild(f);
            if (!g[k]->isAttached()) env->attachItem(g[k].get());
            env->setFrameNode(g[k].get(), f);
        }
        else if (n == "copyb")
        {
            if (a[3] < 0) g[k]->copyBandFrom(*g[a[2] - 1], BAND[a[1]]);
            else g[k]->copyBandFrom(*g[a[2] - 1], BAND[a[3]], BAND[a[1]]);
        }
        else if (n == "rde")     // k t f base bands...: into a grid that has no size yet
        {
            GridBase::Ptr e = empty(a[1]);
            std::unique_ptr<Typed> t(typed(e.get()));
            Args b(a.begin() + 2, a.end());
            b.insert(b.begin(), a[0]);
            t->call("rd", b, r, scratch, 0);
            put(k, e);
        }
        else if (n == "gdal")    // k f band b
        {
            std::pair<GridBase::Ptr, Transform> p = GridBase::readGridFromGdal(scratch + "/f" + std::to_string(a[1]), BAND[a[3]], a[2]);
            put(k, p.first);
            r << fx(p.second.translation().x()) << fx(p.second.translation().y()) << fx(p.second.translation().z()) << (int)p.second.linear().isIdentity();
        }
        else if (n == "ser")     // k k2 how
        {
            GridBase::Ptr res;
            GridBase::Ptr c = dynamic_cast<GridBase*>(g[k]->clone());
            Environment e;
            e.attachItem(c.get());
            if (a[2] == 0)
            {
                const std::string d = scratch + "/env";
                boost::filesystem::remove_all(d);
                boost::filesystem::create_directory(d);
                e.serialize(d);
                std::unique_ptr<Environment> o(Environment::unserialize(d));
                std::vector<GridBase*> l = o->getItems<GridBase>();
                if (l.size() == 1) { res = l[0]; o->detachItem(l[0]); }
            }
            else
            {
                EnvireBinaryEvent ev; ev.type = event::ITEM; ev.operation = event::ADD; ev.id_a = c->getUniqueId();
                BinarySerialization s;
                s.serializeBinaryEvent(c.get(), ev);
                BinarySerialization s2;
                res = dynamic_cast<GridBase*>(s2.unserializeBinaryEvent(ev));
            }
            r << (int)(res && res->getUniqueId() == c->getUniqueId());
            if (!res) return;
            e.detachItem(c.get());
            put(a[1] - 1, res);
            std::unique_ptr<Typed> t(typed(res.get()));
            J j;
            t->nodata(j);
            r << j;
        }
        else
        {
            std::unique_ptr<Typed> t(typed(g[k].get())), o;
            if (n == "str") o.reset(typed(g[a[2] - 1].get()));
            t->call(n, a, r, scratch, o.get());
        }
    }
    std::string obs()
    {
        J j;
        std::unique_ptr<Typed> a(typed(g[0].get())), b(typed(g[1].get()));
        return "[" + a->content() + "," + b->content() + "]";
    }
};
Component* make_component() { return new BandsC; }
