#include <sstream>
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/MLSGrid.hpp>
#include "comp.hpp"
using namespace envire;

struct MLSGridC : public Component
{
    MLSGrid::Ptr g[2];
    MLSGridC() { reset(); }
    static MLSGrid* mk(long w, long h, double sc, double ox, double oy) { return new MLSGrid(w, h, sc, sc, ox, oy); }
    void reset() { for (int k = 0; k < 2; k++) g[k] = mk(2, 2, 1, 0, 0); }
    // one level is ten metres
    static SurfacePatch patch(long b, long t, long u)
    {
        SurfacePatch p(t * 10.0, 0.1, (t - b) * 10.0, b == t ? SurfacePatch::HORIZONTAL : SurfacePatch::VERTICAL);
        p.update_idx = u;
        p.setColor(base::Vector3d(0.2, 0.4, 0.6));
        return p;
    }
    static long lv(double v) { double r = v / 10; return std::abs(r - std::floor(r + 0.5)) > 1e-4 ? BIG_MARK + 7 : fx(r); }
    static long bot(const SurfacePatch& p) { return p.isHorizontal() ? lv(p.mean) : lv(p.mean - p.height); }
    static Eigen::Affine3d trans(const Args& a)
    {
        Eigen::Affine3d t = Eigen::Affine3d::Identity();
        const int c[] = {1, 0, -1, 0}, s[] = {0, 1, 0, -1};
        Eigen::Matrix3d m;
        m << c[a[2]], -s[a[2]], 0, s[a[2]], c[a[2]], 0, 0, 0, 1;
        t.linear() = m;
        t.translation() = Eigen::Vector3d(a[3] / 10.0, a[4] / 10.0, a[5] * 10.0);
        return t;
    }
    static void found(J& r, SurfacePatch* p)
    {
        if (p) r << 1 << bot(*p) << lv(p->mean) << p->update_idx; else r << 0;
    }
    static MLSGrid::Ptr stored(MLSGrid::Ptr s)
    {
        BinarySerialization w, v;
        EnvireBinaryEvent ev;
        s->setUniqueId("/g");
        w.serializeBinaryEvent(s.get(), ev);
        s->setUniqueId(Environment::ITEM_NOT_ATTACHED);
        MLSGrid* t = dynamic_cast<MLSGrid*>(v.unserializeBinaryEvent(ev));
        t->setUniqueId(Environment::ITEM_NOT_ATTACHED);
        return t;
    }
    static bool same(const SurfacePatch& p, const SurfacePatch& q)
    {
        return p.mean == q.mean && p.stdev == q.stdev && p.height == q.height && p.n == q.n && p.normsq == q.normsq && p.min == q.min && p.max == q.max && p.update_idx == q.update_idx
            && std::equal(p.color, p.color + 3, q.color) && p.isHorizontal() == q.isHorizontal() && p.isNegative() == q.isNegative() && p.isVertical() == q.isVertical()
            && p.plane.getCoeffs() == q.plane.getCoeffs();
    }
    static bool same(MLSGrid& p, MLSGrid& q)
    {
        if (p.getConfig().useColor != q.getConfig().useColor || p.getConfig().updateModel != q.getConfig().updateModel) return false;
        if (p.getCellSizeX() != q.getCellSizeX() || p.getCellSizeY() != q.getCellSizeY() || p.getScaleX() != q.getScaleX() || p.getOffsetX() != q.getOffsetX()) return false;
        for (size_t x = 0; x < p.getCellSizeX(); x++)
            for (size_t y = 0; y < p.getCellSizeY(); y++)
            {
                MLSGrid::iterator i = p.beginCell(x, y), j = q.beginCell(x, y);
                for (; i != p.endCell() && j != q.endCell(); i++, j++) if (!same(*i, *j)) return false;
                if (i != p.endCell() || j != q.endCell()) return false;
            }
        return true;
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        const int k = a[0] - 1;
        MLSGrid& o = *g[k];
        if (n == "new") g[k] = mk(a[1], a[2], a[3] / 10.0, a[4] / 10.0, a[5] / 10.0);
        else if (n == "ihead") o.insertHead(a[1], a[2], patch(a[3], a[4], a[5]));
        else if (n == "itail") o.insertTail(a[1], a[2], patch(a[3], a[4], a[5]));
        else if (n == "upd")
        {
            if (a[5] == 1) o.updateCell(GridBase::Position(a[1], a[2]), patch(a[3], a[4], a[5]));
            else o.updateCell(a[1], a[2], patch(a[3], a[4], a[5]));
        }
        else if (n == "updp") r << (int)o.update(Eigen::Vector2d(a[1] / 10.0, a[2] / 10.0), patch(a[3], a[4], a[5]));
        else if (n == "erase")
        {
            MLSGrid::iterator it = o.beginCell(a[1], a[2]);
            for (int i = 1; i < a[3]; i++) it++;
            it = o.erase(it);
            if (it != o.endCell()) r << bot(*it) << lv(it->mean);
        }
        else if (n == "move") o.move(a[1], a[2]);
        else if (n == "clear") o.clear();
        else if (n == "init") o.initIndex();
        else if (n == "gap") o.setGapSize(a[1] ? 12.0 : 1.0);
        else if (n == "assign") o = *g[a[1] - 1];
        else if (n == "copy") g[k] = new MLSGrid(*g[a[1] - 1]);
        else if (n == "shallow") g[k] = g[a[1] - 1]->cloneShallow();
        else if (n == "stream")
        {
            MLSGrid::Ptr s = g[a[1] - 1];
            std::stringstream b;
            s->writeMap(b);
            MLSGrid::Ptr t = new MLSGrid(s->getCellSizeX(), s->getCellSizeY(), s->getScaleX(), s->getScaleY(), s->getOffsetX(), s->getOffsetY());
            t->readMap(b);
            g[k] = t;
        }
        else if (n == "file")
        {
            MLSGrid::Ptr s = g[a[1] - 1];
            // everything about patches and configuration, first with patches of all kinds
            MLSGrid::Ptr full = new MLSGrid(*s);
            full->setUniqueId(Environment::ITEM_NOT_ATTACHED);
            full->getConfig().useColor = a[2] & 1;
            full->getConfig().updateModel = (MLSConfiguration::update_model)((a[2] / 2) % 3);
            for (size_t x = 0; x < s->getCellSizeX(); x++)
                for (size_t y = 0; y < s->getCellSizeY(); y++)
                {
                    const double q = 1 + x + 3 * y + a[2];
                    SurfacePatch p(q, 0.25 + q / 16, q / 2, (x + y + a[2]) % 2 ? SurfacePatch::NEGATIVE : SurfacePatch::VERTICAL);
                    p.update_idx = 7 + x;
                    p.setColor(base::Vector3d(0.2, 0.4, x / 10.0));
                    p.n = 3 + y; p.normsq = 11 + x; p.min = -q; p.max = q + 1;
                    p.plane.update(Eigen::Vector3f(q, 1, x), 2);
                    full->insertTail(x, y, p);
                }
            r << (int)(same(*full, *stored(full))) << (int)(same(*s, *stored(s)));
            g[k] = stored(s);
        }
        else if (n == "merge" || n == "match")
        {
            SurfacePatch off(a[6] * 10.0, 0.0);
            off.update_idx = a[7];
            if (n == "merge") o.merge(*g[a[1] - 1], trans(a), off);
            else r << fx(o.match(*g[a[1] - 1], trans(a), off, a[7], 3.0f), 1000);
        }
        else if (n == "get")
        {
            found(r, o.get(GridBase::Position(a[1], a[2]), SurfacePatch(a[3] * 10.0, 0.1)));
        }
        else if (n == "getn")
        {
            // with free space in the cell, in front or behind
            MLSGrid::Ptr c = new MLSGrid(o);
            SurfacePatch p(a[5] * 10.0, 0.1, (a[5] - a[4]) * 10.0, SurfacePatch::NEGATIVE);
            p.update_idx = 77;
            if (a[6]) c->insertHead(a[1], a[2], p);
            else c->insertTail(a[1], a[2], p);
            const GridBase::Position at(a[1], a[2]);
            if (a[7] == 0) found(r, c->get(at, SurfacePatch(a[3] * 10.0, 0.1), 3.0, false));
            else if (a[7] == 1) found(r, c->get(at, SurfacePatch(a[3] * 10.0, 0.1)));
            else if (a[7] == 2) found(r, c->get(at, a[3] * 10.0, 0.1, 3.0, true));
            else found(r, c->get(at, a[3] * 10.0, 0.1, 3.0, false));
        }
        else if (n == "getp")
        {
            double z = a[3] * 10.0, dev = 0.1;
            SurfacePatch* p = o.get(Eigen::Vector2d(a[1] / 10.0, a[2] / 10.0), z, dev);
            found(r, p);
            if (p) r << fx(z, 10);
        }
        else if (n == "proj")
        {
            std::vector<GridBase::Position> v;
            for (size_t i = 3; i + 1 < a.size(); i += 2) v.push_back(GridBase::Position(a[i], a[i + 1]));
            std::vector<Eigen::Vector3d> q = o.projectPointsOnSurface(a[1] / 10.0, v, a[2] / 10.0);
            for (size_t i = 0; i < q.size(); i++) r << fx(q[i].x()) << fx(q[i].y()) << fx(q[i].z(), 10);
        }
    }
    std::string obs()
    {
        J j;
        for (int k = 0; k < 2; k++)
        {
            const MLSGrid& o = *g[k];
            J m, ix, ex, rows;
            if (o.getIndex())
                for (std::set<GridBase::Position>::const_iterator i = o.getIndex()->cells.begin(); i != o.getIndex()->cells.end(); ++i)
                {
                    J c;
                    c << i->x << i->y;
                    ix << c;
                }
            GridBase::CellExtents e = o.getCellExtents();
            ex << e.min().x() << e.min().y() << e.max().x() << e.max().y();
            for (size_t x = 0; x < o.getCellSizeX(); x++)
            {
                J row;
                for (size_t y = 0; y < o.getCellSizeY(); y++)
                {
                    J cell;
                    int guard = 0;
                    for (MLSGrid::const_iterator it = o.beginCell(x, y); it != o.endCell() && guard < 1000; it++, guard++)
                    {
                        J p;
                        p << bot(*it) << lv(it->mean) << it->update_idx << fx(it->getMeasurementCount())
                          << (int)(it->getStdev() > 0 && it->getStdev() <= 0.1001 && it->isHorizontal() == (bot(*it) == lv(it->mean)) && !it->isNegative());
                        cell << p;
                    }
                    row << cell;
                }
                rows << row;
            }
            m << o.getCellSizeX() << o.getCellSizeY() << o.getCellCount() << (int)o.empty() << (int)(o.getIndex() != NULL) << ix << ex << rows;
            j << m;
        }
        return j.str();
    }
};
Component* make_component() { return new MLSGridC; }
