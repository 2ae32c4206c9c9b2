#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/maps/LaserScan.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/operators/ScanMeshing.hpp>
#include <boost/filesystem.hpp>
#include <memory>
#include <set>
#include "plystub.hpp"
#include "comp.hpp"
using namespace envire;
typedef Eigen::Vector3d V;

struct ScanC : public Component
{
    std::unique_ptr<Environment> env;
    FrameNode::Ptr fr;
    LaserScan::Ptr sc;
    boost::intrusive_ptr<ScanMeshing> op;
    Args cf;
    ScanC() { reset(); }
    static double rad(long d) { return d * M_PI / 180; }
    void drop()
    {
        sc = NULL;
        op = NULL;
        fr = NULL;
        env.reset();
    }
    void conf()
    {
        op->setMaxEdgeLength((cf[0] + 0.5) / 1000);
        op->setMinRange((cf[1] + 0.5) / 1000);
        op->setMaxRange((cf[2] + 0.5) / 1000);
        op->setRemissionScaleFactor(cf[3]);
        op->useRemission(cf[4]);
    }
    // the scan in the same frame, connected with the operator
    void put(LaserScan* n)
    {
        LaserScan::Ptr old = sc;
        sc = n;
        env->setFrameNode(n, fr.get());
        if (old) env->detachItem(old.get());
        op->addInput(n);
    }
    void reset()
    {
        drop();
        env.reset(new Environment);
        fr = new FrameNode;
        env->addChild(env->getRootNode(), fr.get());
        op = new ScanMeshing;
        env->attachItem(op.get());
        put(new LaserScan);
        sc->delta_psi = sc->origin_psi = 0;
        const long c[] = {499, 99, 100000, 10000, 0};
        cf.assign(c, c + 5);
        conf();
    }
    static void values(std::vector<uint32_t>& v, const Args& a, size_t i, size_t n) { for (size_t j = 0; j < n; j++) v.push_back(a[i + j]); }
    std::string text() { std::ostringstream o; sc->writeScan(o); return o.str(); }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "new")
        {
            put(new LaserScan);
            sc->delta_psi = sc->origin_psi = 0;
        }
        else if (n == "set")
        {
            sc->delta_psi = rad(a[0]);
            sc->origin_psi = rad(a[1]);
            sc->origin_phi = rad(a[2]);
            sc->center_offset = V(a[3], a[4], a[5]) / 1000.0;
        }
        else if (n == "fwd") { if (a[0]) sc->setXForward(); else sc->setYForward(); }
        else if (n == "line")
        {
            base::samples::LaserScan s;
            s.start_angle = rad(a[0]);
            s.angular_resolution = rad(a[1]);
            const size_t k = a[4];
            values(s.ranges, a, 5, k);
            if (a[3]) for (size_t j = 0; j < k; j++) s.remission.push_back(a[5 + k + j]);
            sc->addScanLine(rad(a[2]), s);
        }
        else if (n == "conf") { cf = a; conf(); }
        else if (n == "text")
        {
            LaserScan::Ptr c = new LaserScan;
            if (a[0] >= 4)
            {
                BinarySerialization s;
                EnvireBinaryEvent ev;
                s.serializeBinaryEvent(sc.get(), ev);
                BinarySerialization t;
                c = dynamic_cast<LaserScan*>(t.unserializeBinaryEvent(ev));
                c->setUniqueId(Environment::ITEM_NOT_ATTACHED);
            }
            else
            {
                std::string t;
                std::istringstream rows(text());
                std::string row;
                for (size_t i = 0; std::getline(rows, row); i++)
                {
                    if (a[0] == 3 && i % 2) t += "\nremark 1 2 3\n";
                    t += row + (a[0] == 1 ? " " : "") + "\n";
                }
                if (a[0] == 2) t.erase(t.size() - 1);
                std::istringstream is(t);
                c->readScan(is);
            }
            put(c.get());
        }
        else if (n == "import")
        {
            const std::string f = scratch + "/a.scan";
            {
                Eigen::Matrix3d q = Eigen::Matrix3d::Zero();
                for (int j = 0; j < 3; j++) q(std::abs(a[j]) - 1, j) = a[j] < 0 ? -1 : 1;
                Eigen::Quaterniond u(q);
                std::ostringstream o, p;
                o << "orientation " << u.w() << " " << u.x() << " " << u.y() << " " << u.z() << "\n";
                p << "origin " << a[3] / 8.0 << " " << a[4] / 8.0 << " " << a[5] / 8.0 << "\n";
                std::ofstream w(f.c_str());
                w << (a[6] ? o.str() + p.str() : p.str() + o.str()) << text();
            }
            LaserScan::Ptr c = LaserScan::importScanFile(f, env->getRootNode());
            FrameNode::Ptr g = c->getFrameNode();
            Transform t = g->getTransform();
            for (int i = 0; i < 4; i++)
            {
                J v;
                for (int e = 0; e < 3; e++) v << (i < 3 ? near(t.linear()(i, e), 1) : near(t.translation()[e], 8));
                r << v;
            }
            env->detachItem(sc.get());
            if (g->getParent() != env->getRootNode() || c->getEnvironment() != env.get()) r << "elsewhere";
            sc = c;
            fr = g;
            op->addInput(c.get());
        }
        else if (n == "nofile") LaserScan::importScanFile(scratch + "/none.scan", env->getRootNode());
        else if (n == "bad")
        {
            LaserScan::Ptr c = new LaserScan;
            std::istringstream is(a[0] ? "line 0.5 1 2\nremission 0.25 1 2\n" : "remission 0.5 1 2\nline 0.5 1 2\n");
            c->readScan(is);
        }
        else if (n == "store")
        {
            const std::string d = scratch + "/env";
            boost::filesystem::remove_all(d);
            boost::filesystem::create_directory(d);
            env->serialize(d);
            const std::string i1 = sc->getUniqueId(), i2 = op->getUniqueId(), i3 = fr->getUniqueId();
            drop();
            env.reset(Environment::unserialize(d));
            sc = env->getItem<LaserScan>(i1);
            op = env->getItem<ScanMeshing>(i2);
            fr = env->getItem<FrameNode>(i3);
            // what the file does not tell
            op->setMaxRange((cf[2] + 0.5) / 1000);
            op->useRemission(cf[4]);
        }
        else if (n == "clone")
        {
            LaserScan* c = dynamic_cast<LaserScan*>(sc->clone());
            c->setUniqueId(Environment::ITEM_NOT_ATTACHED);
            put(c);
        }
        else if (n == "two")
        {
            TriMesh::Ptr x = new TriMesh, y = new TriMesh;
            env->setFrameNode(x.get(), fr.get());
            env->setFrameNode(y.get(), fr.get());
            op->addOutput(x.get());
            try { op->addOutput(y.get()); }
            catch (...)
            {
                env->detachItem(x.get());
                env->detachItem(y.get());
                throw;
            }
        }
        else if (n == "mesh")
        {
            boost::intrusive_ptr<TriMesh> m = new TriMesh;
            env->setFrameNode(m.get(), fr.get());
            // what a mesh had before is gone afterwards
            m->vertices.push_back(V(1, 2, 3));
            colors(*m).push_back(V(1, 1, 1));
            attrs(*m).push_back(3);
            vars(*m).push_back(3);
            m->faces.push_back(TriMesh::triangle_t(0, 0, 0));
            op->addOutput(m.get());
            op->updateAll();
            J j = show(*m);
            op->updateAll();
            const bool same = show(*m).str() == j.str();
            r = J();
            r.s << j.s.str();
            r.first = false;
            r << (int)same;
            env->detachItem(m.get());
        }
    }
    static long near(double v, double s) { double q = v * s; return std::abs(q - std::floor(q + 0.5)) > 1e-3 ? BIG_MARK + 7 : fx(q); }
    static std::vector<V>& colors(TriMesh& m) { return m.getVertexData<V>(Pointcloud::VERTEX_COLOR); }
    static std::vector<Pointcloud::vertex_attr>& attrs(TriMesh& m) { return m.getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); }
    static std::vector<double>& vars(TriMesh& m) { return m.getVertexData<double>(Pointcloud::VERTEX_VARIANCE); }
    static J vec(const V& v, double s) { J c; for (int e = 0; e < 3; e++) c << fx(v[e], s); return c; }
    static J show(TriMesh& m)
    {
        J j, p, v, c, a, f, n;
        for (size_t i = 0; i < m.vertices.size(); i++) p << vec(m.vertices[i], 10000);
        for (size_t i = 0; i < vars(m).size(); i++) v << fx(vars(m)[i], 1e9);
        if (m.hasData(Pointcloud::VERTEX_COLOR))
        {
            J q;
            for (size_t i = 0; i < colors(m).size(); i++) q << vec(colors(m)[i], 1000);
            c << q;
        }
        for (size_t i = 0; i < attrs(m).size(); i++) a << (attrs(m)[i] == 1 << TriMesh::SCAN_EDGE ? 1 : attrs(m)[i] == 0 ? 0 : 9);
        // a normal: 1 if it is that of an adjacent triangle (or of several), 0 if there is none
        std::vector<V>& ns = m.getVertexData<V>(Pointcloud::VERTEX_NORMAL);
        std::vector<int> kind(ns.size(), 9);
        for (size_t i = 0; i < ns.size(); i++) if (ns[i] == V::Zero()) kind[i] = 0;
        for (size_t i = 0; i < m.faces.size(); i++)
        {
            const int t[3] = {m.faces[i].get<0>(), m.faces[i].get<1>(), m.faces[i].get<2>()};
            J q;
            q << t[0] << t[1] << t[2];
            f << q;
            bool in = true;
            for (int e = 0; e < 3; e++) in = in && t[e] >= 0 && (size_t)t[e] < m.vertices.size() && (size_t)t[e] < ns.size();
            if (!in) continue;
            const V d = (m.vertices[t[0]] - m.vertices[t[1]]).cross(m.vertices[t[2]] - m.vertices[t[1]]);
            for (int e = 0; e < 3; e++) if (std::abs(ns[t[e]].norm() - 1) < 1e-6 && ns[t[e]].dot(d) > 0) kind[t[e]] = 1;
        }
        for (size_t i = 0; i < kind.size(); i++) n << kind[i];
        j << p << v << c << a << f << n;
        return j;
    }
    std::string obs()
    {
        J o, ls;
        const double deg = 100 * 180 / M_PI;
        o << fx(sc->delta_psi, deg) << fx(sc->origin_psi, deg) << fx(sc->origin_phi, deg) << vec(sc->center_offset, 1000) << (int)sc->x_forward;
        for (size_t i = 0; i < sc->lines.size(); i++)
        {
            J l, r, m;
            for (size_t k = 0; k < sc->lines[i].ranges.size(); k++) r << (long)sc->lines[i].ranges[k];
            for (size_t k = 0; k < sc->lines[i].remissions.size(); k++) m << (long)sc->lines[i].remissions[k];
            l << fx(sc->lines[i].delta_phi, deg) << r << m;
            ls << l;
        }
        o << ls << sc->points_per_line;
        return o.str();
    }
    void finish() { drop(); }
};
Component* make_component() { return new ScanC; }
