#include <envire/Core.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MergeMLS.hpp>
#include "plystub.hpp"
#include "comp.hpp"
using namespace envire;

struct ConvC : public Component
{
    Environment* env;
    std::vector<FrameNode::Ptr> fr;
    MLSGrid::Ptr m[3];
    Grid<double>::Ptr e;
    GridBase::Ptr f;
    bool dbl;
    Pointcloud::Ptr p;
    ConvC() : env(NULL) { reset(); }
    static Transform tf(const Args& a, int i)
    {
        const int c[] = {1, 0, -1, 0}, s[] = {0, 1, 0, -1};
        Eigen::Affine3d t = Eigen::Affine3d::Identity();
        Eigen::Matrix3d q;
        q << c[a[i]], -s[a[i]], 0, s[a[i]], c[a[i]], 0, 0, 0, 1;
        t.linear() = q;
        t.translation() = Eigen::Vector3d(a[i + 1] / 8.0, a[i + 2] / 8.0, a[i + 3] * 10.0);
        return t;
    }
    void drop()
    {
        m[0] = m[1] = m[2] = NULL;
        e = NULL; f = NULL; p = NULL;
        fr.clear();
        delete env;
        env = NULL;
    }
    template <class P> void put(P& slot, typename P::element_type* n, FrameNode* at)
    {
        P old = slot;
        slot = n;
        env->setFrameNode(n, at);
        if (old) env->detachItem(old.get());
    }
    void fgrid(bool d, long w, long h, double sx, double sy, double ox, double oy, FrameNode* at)
    {
        dbl = d;
        put(f, dbl ? (GridBase*)new Grid<double>(w, h, sx, sy, ox, oy) : (GridBase*)new Grid<float>(w, h, sx, sy, ox, oy), at);
        fill0();
    }
    void fill0()
    {
        if (dbl) { boost::multi_array<double, 2>& v = static_cast<Grid<double>*>(f.get())->getGridData("height"); std::fill(v.data(), v.data() + v.num_elements(), 0); boost::multi_array<double, 2>& u = static_cast<Grid<double>*>(f.get())->getGridData(); std::fill(u.data(), u.data() + u.num_elements(), 0); }
        else { boost::multi_array<float, 2>& v = static_cast<Grid<float>*>(f.get())->getGridData("height"); std::fill(v.data(), v.data() + v.num_elements(), 0); boost::multi_array<float, 2>& u = static_cast<Grid<float>*>(f.get())->getGridData(); std::fill(u.data(), u.data() + u.num_elements(), 0); }
    }
    void egrid(long w, long h, double sx, double sy)
    {
        put(e, new Grid<double>(w, h, sx, sy), fr[0].get());
        boost::multi_array<double, 2>& v = e->getGridData("h");
        std::fill(v.data(), v.data() + v.num_elements(), 0);
    }
    void reset()
    {
        drop();
        env = new Environment;
        for (int i = 0; i < 3; i++)
        {
            fr.push_back(new FrameNode());
            env->addChild(i == 2 ? fr[0].get() : env->getRootNode(), fr[i].get());
        }
        for (int k = 0; k < 3; k++) put(m[k], new MLSGrid(2, 2, 1, 1), fr[0].get());
        fgrid(false, 2, 2, 1, 1, 0, 0, fr[0].get());
        egrid(2, 2, 1, 1);
        put(p, new Pointcloud, fr[0].get());
    }
    // runs an operator and removes it again
    void run(Operator* op)
    {
        Operator::Ptr keep(op);
        try { op->updateAll(); }
        catch (...) { env->detachItem(op); throw; }
        env->detachItem(op);
    }
    template <class O> O* attach(O* o) { env->attachItem(o); return o; }
    void call(const std::string& n, const Args& a, J& r)
    {
        const int k = a[0] - 1;
        if (n == "new") put(m[k], new MLSGrid(a[1], a[2], a[3] / 8.0, a[4] / 8.0, a[5] / 8.0, a[6] / 8.0), fr[a[7] - 1].get());
        else if (n == "fgrid") fgrid(a[0], a[1], a[2], a[3] / 8.0, a[4] / 8.0, a[5] / 8.0, a[6] / 8.0, fr[a[7] - 1].get());
        else if (n == "egrid") egrid(a[0], a[1], a[2] / 8.0, a[3] / 8.0);
        else if (n == "fset")
        {
            const char* b[] = {"", "height"};
            for (int i = 0; i < 2; i++)
                if (dbl) { Grid<double>* g = static_cast<Grid<double>*>(f.get()); (*b[i] ? g->getGridData(b[i]) : g->getGridData())[a[1]][a[0]] = a[2] * 10.0; }
                else { Grid<float>* g = static_cast<Grid<float>*>(f.get()); (*b[i] ? g->getGridData(b[i]) : g->getGridData())[a[1]][a[0]] = a[2] * 10.0; }
        }
        else if (n == "eset") e->getGridData("h")[a[1]][a[0]] = a[2] * 10.0;
        else if (n == "ins") m[k]->updateCell(a[1], a[2], a[3] * 10.0, 0.1);
        else if (n == "pts")
        {
            put(p, new Pointcloud, fr[k].get());
            for (size_t i = 1; i + 2 < a.size(); i += 3) p->vertices.push_back(Eigen::Vector3d(a[i] / 8.0, a[i + 1] / 8.0, a[i + 2] * 10.0));
        }
        else if (n == "pvar")
        {
            std::vector<double>& v = p->getVertexData<double>(Pointcloud::VERTEX_VARIANCE);
            v.clear();
            for (size_t j = 1; j <= p->vertices.size(); j++) v.push_back((1 + (j * a[0]) % 5) / 100.0);
        }
        else if (n == "pcol")
        {
            std::vector<Eigen::Vector3d>& v = p->getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR);
            v.clear();
            for (size_t j = 1; j <= p->vertices.size(); j++) { double c = ((j + a[0]) % 5) / 4.0; v.push_back(Eigen::Vector3d(c, 1 - c, 0.5)); }
        }
        else if (n == "unc")
        {
            TransformWithUncertainty::Covariance c = TransformWithUncertainty::Covariance::Zero();
            c(5, 5) = a[1] / 100.0;
            fr[k]->setTransform(TransformWithUncertainty(fr[k]->getTransform(), c));
        }
        else if (n == "move") fr[k]->setTransform(tf(a, 1));
        else if (n == "f2m")
        {
            GridFloatToMLS* o = attach(new GridFloatToMLS);
            if (a.size() < 2 || a[1]) o->setInput(f.get(), "height");
            else if (dbl) o->setInput(static_cast<Grid<double>*>(f.get()), "");
            else o->setInput(static_cast<Grid<float>*>(f.get()), "");
            o->setOutput(m[k].get());
            run(o);
        }
        else if (n == "m2g")
        {
            MLSToGrid* o = attach(new MLSToGrid);
            o->setInput(m[k].get());
            o->setOutput(e.get(), "h");
            run(o);
        }
        else if (n == "m2p")
        {
            MLSToPointCloud* o = attach(new MLSToPointCloud);
            o->setInput(m[k].get());
            o->setOutput(p.get());
            run(o);
        }
        else if (n == "proj")
        {
            MLSProjection* o = attach(new MLSProjection);
            o->addInput(p.get());
            o->addOutput(m[k].get());
            o->useUncertainty(a[1]);
            if (a.size() > 2) o->setAreaOfInterest(a[2] / 8.0, a[3] / 8.0, a[4] / 8.0, a[5] / 8.0, a[6] * 10.0, a[7] * 10.0);
            run(o);
        }
        else if (n == "merge")
        {
            MergeMLS* o = attach(new MergeMLS);
            MLSMap::Ptr mm;
            if (a[4])
            {
                mm = new MLSMap;
                env->setFrameNode(mm.get(), fr[1].get());
                mm->addGrid(m[k]);
                if (a[2]) mm->addGrid(m[a[2] - 1]);
                o->addInput(mm.get());
            }
            else
            {
                o->addInput(m[k].get());
                if (a[2]) o->addInput(m[a[2] - 1].get());
            }
            o->addOutput(m[a[1] - 1].get());
            o->setReverse(a[3]);
            run(o);
            if (mm) env->detachItem(mm.get());
        }
    }
    static long lv(double v) { double q = v / 10; return std::abs(q - std::floor(q + 0.5)) > 1e-4 ? BIG_MARK + 7 : fx(q); }
    std::string obs()
    {
        J j;
        for (int k = 0; k < 3; k++)
        {
            J o;
            for (size_t y = 0; y < m[k]->getCellSizeY(); y++)
                for (size_t x = 0; x < m[k]->getCellSizeX(); x++)
                {
                    J c;
                    for (MLSGrid::iterator it = m[k]->beginCell(x, y); it != m[k]->endCell(); it++) 
                    {
                        J q;
                        // a colour number, as it was put on the points
                        base::Vector3d col = it->getColor();
                        long k = fx(col[0], 4);
                        if (fx(col[1], 4) != 4 - k || col[2] < 0.49 || col[2] > 0.51) k = -9;
                        double v = it->stdev * it->stdev * 100.0;
                        q << (it->isHorizontal() ? lv(it->mean) : BIG_MARK) << (std::abs(v - std::floor(v + 0.5)) > 1e-2 ? BIG_MARK + 7 : fx(v)) << k;
                        c << q;
                    }
                    o << c;
                }
            j << o;
        }
        J h, q;
        boost::multi_array<double, 2>& v = e->getGridData("h");
        for (size_t i = 0; i < v.num_elements(); i++) h << lv(v.data()[i]);
        for (size_t i = 0; i < p->vertices.size(); i++)
        {
            J c;
            c << fx(p->vertices[i].x(), 8) << fx(p->vertices[i].y(), 8) << lv(p->vertices[i].z());
            q << c;
        }
        j << h << q;
        return j.str();
    }
    void finish() { drop(); }
};
Component* make_component() { return new ConvC; }
