#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/MLSGrid.hpp>
#include "comp.hpp"
using namespace envire;

struct MLSPatchC : public Component
{
    SurfacePatch p[3];
    MLSPatchC() { reset(); }
    static SurfacePatch mk(long ty, long m, long h, long w, long u, long c)
    {
        SurfacePatch q(m / 8.0, 1.0 / std::sqrt((double)w), ty == 1 ? 0 : h / 8.0, (SurfacePatch::TYPE)ty);
        q.update_idx = u;
        q.setColor(base::Vector3d(c / 255.0, c / 255.0, c / 255.0));
        return q;
    }
    void reset() { for (int k = 0; k < 3; k++) p[k] = mk(1, 0, 0, 1, 0, 0); }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "mk") p[a[0] - 1] = mk(a[1], a[2], a[3], a[4], a[5], a[6]);
        else if (n == "kal") r << (int)p[a[0] - 1].merge(p[a[1] - 1], a[2] / 8.0, a[3] / 8.0, MLSConfiguration::KALMAN);
        else if (n == "sum") r << (int)p[a[0] - 1].merge(p[a[1] - 1], 0, a[2] / 8.0, MLSConfiguration::SUM);
        else if (n == "scale") p[a[0] - 1].scaleWeight(a[1]);
        else if (n == "dist") r << fx(p[a[0] - 1].distance(p[a[1] - 1]), 1000) << (int)(p[a[0] - 1] < p[a[1] - 1]);
        else if (n == "z") r << fx(p[a[0] - 1].getMinZ(a[1]), 1000) << fx(p[a[0] - 1].getMaxZ(a[1]), 1000);
        else if (n == "slope")
        {
            SurfacePatch q;
            for (size_t i = 1; i + 2 < a.size(); i += 3)
            {
                SurfacePatch e(Eigen::Vector3f(a[i] / 8.0, a[i + 1] / 8.0, a[i + 2] / 8.0), 1.0 / std::sqrt((double)a[0]));
                e.setColor(base::Vector3d::Zero());
                if (i == 1) q = e;
                else if (!q.merge(e, 0, 100.0, MLSConfiguration::SLOPE)) { r << -1; return; }
            }
            Eigen::Vector3f v = q.getNormal();
            r << fx(q.getHeight(Eigen::Vector2f(0, 0)), 1000) << fx(q.getHeight(Eigen::Vector2f(1, 0)), 1000) << fx(q.getHeight(Eigen::Vector2f(0, 1)), 1000)
              << fx(q.getMean(), 1000) << fx(q.getMeasurementCount()) << fx(q.getWeight()) << fx(q.min, 1000) << fx(q.max, 1000) << fx(q.getStdev(), 1000)
              << fx(v.x(), 1000) << fx(v.y(), 1000) << fx(v.z(), 1000);
        }
        else if (n == "surf")
        {
            MLSGrid::Ptr g = new MLSGrid(2, 2, 1.0, 1.0, -0.5, 2.0);
            g->getConfig().updateModel = a[0] == 2 ? MLSConfiguration::SLOPE : MLSConfiguration::SUM;
            g->setGapSize(1000);
            // positions lie in the middle of an eighth
            for (size_t i = 4; i + 1 < a.size(); i += 2)
                g->update(Eigen::Vector2d((a[i] + 0.25) / 8.0 - 0.5, (a[i + 1] + 0.25) / 8.0 + 2.0), SurfacePatch((a[1] * a[i] + a[2] * a[i + 1] + a[3]) / 8.0, 0.5));
            for (size_t i = 4; i + 1 < a.size(); i += 2)
            {
                double z = 0, dev = 1000;
                SurfacePatch* q = g->get(Eigen::Vector2d((a[i] + 0.25) / 8.0 - 0.5, (a[i + 1] + 0.25) / 8.0 + 2.0), z, dev);
                if (q) r << fx(z, 1000); else r << BIG_MARK;
            }
        }
    }
    std::string obs()
    {
        J j;
        for (int k = 0; k < 3; k++)
        {
            J q;
            q << (p[k].isVertical() ? 0 : p[k].isHorizontal() ? 1 : p[k].isNegative() ? 2 : 9) << fx(p[k].getMean(), 1000) << fx(p[k].getHeight(), 1000) << fx(p[k].getStdev(), 1000)
              << fx(p[k].getMeasurementCount()) << p[k].update_idx << fx(p[k].min, 1000) << fx(p[k].max, 1000) << fx(p[k].getWeight(), 1) << fx(p[k].getColor().y() * 255);
            j << q;
        }
        return j.str();
    }
};
Component* make_component() { return new MLSPatchC; }
