#include <envire/Core.hpp>
#include <envire/maps/MLSMap.hpp>
#include "comp.hpp"
using namespace envire;

struct MLSMapC : public Component
{
    Environment* env;
    std::vector<FrameNode::Ptr> fr;
    std::vector<MLSGrid::Ptr> g;
    MLSMap::Ptr m[2];
    MLSMapC() : env(NULL) { reset(); }
    static Transform tf(const Args& a, int i)
    {
        const int c[] = {1, 0, -1, 0}, s[] = {0, 1, 0, -1};
        Eigen::Affine3d t = Eigen::Affine3d::Identity();
        Eigen::Matrix3d q;
        q << c[a[i]], -s[a[i]], 0, s[a[i]], c[a[i]], 0, 0, 0, 1;
        t.linear() = q;
        t.translation() = Eigen::Vector3d(a[i + 1] / 8.0, a[i + 2] / 8.0, a[i + 3] * 10.0);
        return t;
    }
    void drop()
    {
        m[0] = m[1] = NULL;
        g.clear();
        fr.clear();
        delete env;
        env = NULL;
    }
    void place(int k, MLSMap* n, FrameNode* f)
    {
        MLSMap::Ptr old = m[k];
        m[k] = n;
        env->setFrameNode(n, f);
        if (old) env->detachItem(old.get());
    }
    void reset()
    {
        drop();
        env = new Environment;
        for (int i = 0; i < 3; i++)
        {
            fr.push_back(new FrameNode());
            env->addChild(i == 2 ? fr[0].get() : env->getRootNode(), fr[i].get());
        }
        place(0, new MLSMap, fr[0].get());
    }
    // grids and frames the map made are numbered in the order they appear
    long gid(MLSGrid* p)
    {
        if (!p) return 0;
        for (size_t i = 0; i < g.size(); i++) if (g[i].get() == p) return i + 1;
        g.push_back(p);
        FrameNode* f = p->getFrameNode();
        bool known = false;
        for (size_t i = 0; i < fr.size(); i++) known = known || fr[i].get() == f;
        if (!known && f) fr.push_back(f);
        return g.size();
    }
    void scan()
    {
        for (int k = 0; k < 2; k++)
            if (m[k]) for (size_t i = 0; i < m[k]->getGrids().size(); i++) gid(m[k]->getGrids()[i].get());
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        const int k = a[0] - 1;
        if (n == "map") place(k, new MLSMap, fr[a[1] - 1].get());
        else if (n == "grid")
        {
            MLSGrid::Ptr p = new MLSGrid(3, 3, a[1] / 8.0, a[1] / 8.0, -1.5, -1.5);
            g.push_back(p);
            env->setFrameNode(p.get(), fr[k].get());
        }
        else if (n == "add") m[k]->addGrid(g[a[1] - 1]);
        else if (n == "create") m[k]->createGrid(tf(a, 3), a[1], a[2]);
        else if (n == "select")
        {
            m[k]->selectActiveGrid(fr[a[1] - 1].get(), a[2] / 8.0, a[3]);
            scan();
            r << gid(m[k]->getActiveGrid().get());
        }
        else if (n == "put")
        {
            SurfacePatch p(a[3] * 10.0, 0.1);
            p.update_idx = a[4];
            g[k]->insertTail(a[1], a[2], p);
        }
        else if (n == "move") fr[k]->setTransform(tf(a, 1));
        else if (n == "get")
        {
            SurfacePatch p(a[3] * 10.0, 0.1);
            bool f = m[k]->getPatch(Point(a[1] / 8.0, a[2] / 8.0, a.size() > 4 ? a[4] : 0), p);
            r << (int)f;
            if (f) r << fx(p.mean / 10.0) << p.update_idx;
            else if (p.mean != a[3] * 10.0) r << "changed";
        }
        else if (n == "ext")
        {
            Eigen::AlignedBox<double, 2> e = m[k]->getExtents();
            r << fx(e.min().x(), 8) << fx(e.min().y(), 8) << fx(e.max().x(), 8) << fx(e.max().y(), 8);
        }
        else if (n == "seal") m[k]->setImmutable();
        else if (n == "clone")
        {
            MLSMap* c = m[a[1] - 1]->clone();
            c->setUniqueId(Environment::ITEM_NOT_ATTACHED);
            place(k, c, m[a[1] - 1]->getFrameNode());
        }
        else if (n == "assign") *m[k] = *m[a[1] - 1];
        else if (n == "deep")
        {
            MLSMap* c = m[a[1] - 1]->cloneDeep();
            r << (int)(c->getActiveGrid() != m[a[1] - 1]->getActiveGrid());
            place(k, c, m[a[1] - 1]->getFrameNode());
        }
        scan();
    }
    static void flat(J& j, const Transform& t)
    {
        J x;
        x << fx(t.linear()(0, 0)) << fx(t.linear()(0, 1)) << fx(t.linear()(1, 0)) << fx(t.linear()(1, 1))
          << fx(t.translation().x(), 8) << fx(t.translation().y(), 8) << fx(t.translation().z(), 0.1);
        j << x;
    }
    std::string obs()
    {
        J j;
        for (int k = 0; k < 2; k++)
        {
            J o, gs, ch;
            long act = 0;
            if (m[k])
            {
                std::vector<MLSGrid::Ptr>& v = m[k]->getGrids();
                for (size_t i = 0; i < v.size(); i++) gs << gid(v[i].get());
                act = gid(m[k]->getActiveGrid().get());
                std::list<Layer*> c = env->getChildren(m[k].get());
                for (std::list<Layer*>::iterator it = c.begin(); it != c.end(); ++it) ch << gid(dynamic_cast<MLSGrid*>(*it));
            }
            o << gs << act << ch << (int)(m[k] && m[k]->isImmutable());
            j << o;
        }
        J all;
        for (size_t i = 0; i < g.size(); i++)
        {
            J o, pt;
            FrameNode* f = g[i]->getFrameNode();
            flat(o, f->relativeTransform(env->getRootNode()));
            flat(o, f->getTransform());
            o << fx(g[i]->getScaleX(), 8);
            for (size_t x = 0; x < g[i]->getCellSizeX(); x++)
                for (size_t y = 0; y < g[i]->getCellSizeY(); y++)
                    for (MLSGrid::iterator it = g[i]->beginCell(x, y); it != g[i]->endCell(); it++)
                    {
                        J p;
                        p << x << y << fx(it->mean / 10.0) << it->update_idx;
                        pt << p;
                    }
            o << pt;
            all << o;
        }
        j << all;
        return j.str();
    }
    void finish() { drop(); }
};
Component* make_component() { return new MLSMapC; }
