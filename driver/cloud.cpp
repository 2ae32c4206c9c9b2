#include <envire/Core.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/operators/CutPointcloud.hpp>
#include <envire/operators/DistanceGridToPointcloud.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <limits>
#include "plystub.hpp"
#include "comp.hpp"
using namespace envire;
typedef Eigen::Vector3d V;

struct CloudC : public Component
{
    Environment* env;
    std::vector<FrameNode::Ptr> fr;
    Pointcloud::Ptr cl[3];
    CloudC() : env(NULL) { reset(); }
    static V v3(const Args& a, int i, double s = 8) { return V(a[i] / s, a[i + 1] / s, a[i + 2] / s); }
    // rotation as a signed permutation and a translation
    static Transform tf(const Args& a, int i)
    {
        Eigen::Matrix3d q = Eigen::Matrix3d::Zero();
        for (int j = 0; j < 3; j++) q(std::abs(a[i + j]) - 1, j) = a[i + j] < 0 ? -1 : 1;
        Eigen::Affine3d t = Eigen::Affine3d::Identity();
        t.linear() = q;
        t.translation() = v3(a, i + 3);
        return t;
    }
    void drop()
    {
        for (int k = 0; k < 3; k++) cl[k] = NULL;
        fr.clear();
        delete env;
        env = NULL;
    }
    void place(int k, Pointcloud* n, FrameNode* f)
    {
        Pointcloud::Ptr old = cl[k];
        cl[k] = n;
        env->setFrameNode(n, f);
        if (old) env->detachItem(old.get());
    }
    static Pointcloud* make(int kind) { return kind ? new TriMesh : new Pointcloud; }
    void reset()
    {
        drop();
        env = new Environment;
        for (int i = 0; i < 3; i++)
        {
            fr.push_back(new FrameNode());
            env->addChild(i == 2 ? fr[0].get() : env->getRootNode(), fr[i].get());
        }
        for (int k = 0; k < 3; k++) place(k, make(k == 2), fr[k].get());
    }
    void run(Operator* op)
    {
        Operator::Ptr keep(op);
        try { op->updateAll(); }
        catch (...) { env->detachItem(op); throw; }
        env->detachItem(op);
    }
    template <class O> O* attach(O* o) { env->attachItem(o); return o; }
    static V normal(long i, long j)
    {
        const int n[4][3] = {{0, 0, 1}, {1, 0, 0}, {0, -1, 0}, {-1, 0, 0}};
        const int* p = n[(i + j) % 4];
        return V(p[0], p[1], p[2]);
    }
    static V color(long i, long j) { return V((i * 7 + j) % 256, (i * 11) % 256, j % 256) / 255.0; }
    std::vector<V>& normals(int k) { return cl[k]->getVertexData<V>(Pointcloud::VERTEX_NORMAL); }
    std::vector<V>& colors(int k) { return cl[k]->getVertexData<V>(Pointcloud::VERTEX_COLOR); }
    std::vector<Pointcloud::vertex_attr>& attrs(int k) { return cl[k]->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); }
    std::vector<double>& vars(int k) { return cl[k]->getVertexData<double>(Pointcloud::VERTEX_VARIANCE); }
    static const std::string& key(long w)
    {
        return w == 1 ? Pointcloud::VERTEX_NORMAL : w == 2 ? Pointcloud::VERTEX_COLOR : w == 3 ? Pointcloud::VERTEX_ATTRIBUTES : Pointcloud::VERTEX_VARIANCE;
    }
    void meta(int k, long w, long i, long j)
    {
        if (w == 1) normals(k).push_back(normal(i, j));
        else if (w == 2) colors(k).push_back(color(i, j));
        else if (w == 3) attrs(k).push_back((i + j) % 5);
        else vars(k).push_back((i + 10 * j) / 10.0);
    }
    int which(Layer* l) { for (int k = 0; k < 3; k++) if (cl[k].get() == l) return k + 1; return 0; }
    void call(const std::string& n, const Args& a, J& r)
    {
        const int k = a[0] - 1;
        if (n == "new") place(k, make(a[2]), fr[a[1] - 1].get());
        else if (n == "add")
        {
            cl[k]->vertices.push_back(v3(a, 1));
            for (int w = 1; w <= 4; w++) if (cl[k]->hasData(key(w))) meta(k, w, cl[k]->vertices.size(), a[4]);
        }
        else if (n == "meta")
        {
            if (a[1] == 1) normals(k).clear();
            else if (a[1] == 2) colors(k).clear();
            else if (a[1] == 3) attrs(k).clear();
            else vars(k).clear();
            for (long i = 1; i <= a[2]; i++) meta(k, a[1], i, a[3]);
        }
        else if (n == "drop") cl[k]->removeData(key(a[1]));
        else if (n == "clear") cl[k]->clear();
        else if (n == "pose") fr[k]->setTransform(tf(a, 1));
        else if (n == "frame") env->setFrameNode(cl[k].get(), fr[a[1] - 1].get());
        else if (n == "origin") cl[k]->setSensorOrigin(tf(a, 1));
        else if (n == "copy")
        {
            if (a[2]) cl[k]->copyFrom(cl[a[1] - 1].get());
            else cl[k]->copyFrom(cl[a[1] - 1].get(), false);
        }
        else if (n == "clone")
        {
            Pointcloud* c = dynamic_cast<Pointcloud*>(cl[a[1] - 1]->clone());
            c->setUniqueId(Environment::ITEM_NOT_ATTACHED);
            place(k, c, cl[a[1] - 1]->getFrameNode());
        }
        else if (n == "assign")
        {
            TriMesh* t = dynamic_cast<TriMesh*>(cl[k].get());
            if (t) *t = *dynamic_cast<TriMesh*>(cl[a[1] - 1].get());
            else *cl[k] = *cl[a[1] - 1];
        }
        else if (n == "sample")
        {
            base::samples::Pointcloud s;
            for (long i = 0; i < a[1]; i++) s.points.push_back(v3(a, 3 + 3 * i));
            for (long i = 1; i <= a[2]; i++) { V c = color(i, 3); s.colors.push_back(base::Vector4d(c[0], c[1], c[2], 0.5)); }
            cl[k]->copyFrom(s);
        }
        else if (n == "text")
        {
            std::ostringstream o;
            Pointcloud* s = cl[a[1] - 1].get();
            if (!a[2] && a[3] < 3) s->writeText(o);
            else for (size_t i = 0; i < s->vertices.size(); i++)
            {
                o << s->vertices[i].x() << " " << s->vertices[i].y() << "\t" << s->vertices[i].z();
                if (a[2]) o << " " << 5 * (i + 1);
                if (a[3] == 3) o << " 77 rest";
                o << "\n";
            }
            std::string t = o.str();
            if (a[3] == 1) t += "\n";
            if (a[3] == 2 && !t.empty()) t.erase(t.size() - 1);
            std::istringstream is(t);
            if (a[2]) cl[k]->readText(is);
            else cl[k]->readText(is, 1, Pointcloud::XYZ);
        }
        else if (n == "import")
        {
            const std::string f = scratch + "/cloud.txt";
            { std::ofstream o(f.c_str()); cl[a[1] - 1]->writeText(o); }
            Pointcloud::Ptr old = cl[k];
            cl[k] = Pointcloud::importCsv(f, fr[a[2] - 1].get(), 1, Pointcloud::XYZ);
            env->detachItem(old.get());
        }
        else if (n == "nofile") Pointcloud::importCsv(scratch + "/none.txt", fr[k].get());
        else if (n == "merge")
        {
            MergePointcloud* o = attach(new MergePointcloud);
            for (size_t i = 2; i < a.size(); i++) o->addInput(cl[a[i] - 1].get());
            o->addOutput(cl[k].get());
            if (!a[1]) o->setClearOutput(false);
            std::list<Layer*> in = env->getInputs(o);
            for (std::list<Layer*>::iterator it = in.begin(); it != in.end(); ++it) r << which(*it);
            try { run(o); }
            catch (...) { place(k, make(kind(k)), cl[k]->getFrameNode()); throw; }
        }
        else if (n == "cut")
        {
            CutPointcloud* o = attach(new CutPointcloud);
            std::vector<ExclusionBox> b(a[2]);
            for (long i = 0; i < a[2]; i++)
            {
                if (!a[4 + 7 * i]) b[i].exclude = false;
                b[i].box = Eigen::AlignedBox<double, 3>(v3(a, 5 + 7 * i), v3(a, 8 + 7 * i));
                o->addBox(&b[i]);
            }
            if (a[2]) o->addBox(&b[0]);
            if (a[3]) o->removeBox(&b[a[3] - 1]);
            o->addInput(cl[a[1] - 1].get());
            o->addOutput(cl[k].get());
            run(o);
        }
        else if (n == "d2p")
        {
            DistanceGridToPointcloud* o = attach(new DistanceGridToPointcloud);
            DistanceGrid::Ptr g = new DistanceGrid(a[2], a[3], 0.25, 0.25, a[4] / 8.0, a[5] / 8.0);
            env->setFrameNode(g.get(), fr[a[1] - 1].get());
            ImageRGB24::Ptr im;
            DistanceGrid::ArrayType& d = g->getGridData(DistanceGrid::DISTANCE);
            for (long x = 0; x < a[2]; x++)
                for (long y = 0; y < a[3]; y++)
                {
                    long v = a[9 + x * a[3] + y];
                    d[y][x] = v == -1 ? std::numeric_limits<float>::quiet_NaN() : v == -2 ? std::numeric_limits<float>::infinity() : v;
                }
            if (a[8])
            {
                im = new ImageRGB24(a[2], a[3], 0.25, 0.25, a[4] / 8.0, a[5] / 8.0);
                env->setFrameNode(im.get(), fr[a[1] - 1].get());
                for (long x = 0; x < a[2]; x++)
                    for (long y = 0; y < a[3]; y++)
                    {
                        im->getGridData(ImageRGB24::R)[y][x] = 10 * x + y;
                        im->getGridData(ImageRGB24::G)[y][x] = 100 + x;
                        im->getGridData(ImageRGB24::B)[y][x] = 200 + y;
                    }
                o->addInput(im.get());
            }
            o->addInput(g.get());
            o->addOutput(cl[k].get());
            o->setMaxDistance(a[6]);
            if (a[7] != 1) o->setUncertaintyFactor(a[7] / 10.0);
            run(o);
            if (im) env->detachItem(im.get());
            env->detachItem(g.get());
            sort(k, a[8]);
        }
        else if (n == "face") dynamic_cast<TriMesh*>(cl[k].get())->faces.push_back(TriMesh::triangle_t(a[1], a[2], a[3]));
        else if (n == "mesh")
        {
            TriMesh* m = new TriMesh;
            for (long i = 0; i < a[2]; i++) m->vertices.push_back(v3(a, 4 + 3 * i));
            for (long i = 0, q = 4 + 3 * a[2]; i < a[3]; i++, q += 3) m->faces.push_back(TriMesh::triangle_t(a[q], a[q + 1], a[q + 2]));
            place(k, m, fr[a[1] - 1].get());
        }
        else if (n == "unface") dynamic_cast<TriMesh*>(cl[k].get())->faces.clear();
        else if (n == "normals")
        {
            dynamic_cast<TriMesh*>(cl[k].get())->calcVertexNormals();
            vecs(r, normals(k), 1000, false);
            normals(k).clear();
        }
    }
    int kind(int k) { return dynamic_cast<TriMesh*>(cl[k].get()) ? 1 : 0; }
    // the order of the produced points is the operator's own: they are put in the order of their positions
    void sort(int k, bool image)
    {
        std::vector<V>& p = cl[k]->vertices;
        if (vars(k).size() != p.size() || (image && colors(k).size() != p.size())) return;
        for (size_t i = 0; i < p.size(); i++)
            for (size_t j = i + 1; j < p.size(); j++)
            {
                long x[3], y[3];
                for (int e = 0; e < 3; e++) { x[e] = fx(p[i][e], 8); y[e] = fx(p[j][e], 8); }
                if (std::lexicographical_compare(y, y + 3, x, x + 3))
                {
                    std::swap(p[i], p[j]);
                    std::swap(vars(k)[i], vars(k)[j]);
                    if (image) std::swap(colors(k)[i], colors(k)[j]);
                }
            }
    }
    // exact values only
    static long ex(double v, double s) { double q = v * s; return std::abs(q - std::floor(q + 0.5)) > 1e-3 ? BIG_MARK + 7 : fx(q); }
    static void vecs(J& j, const std::vector<V>& v, double s, bool exact = true)
    {
        for (size_t i = 0; i < v.size(); i++)
        {
            J c;
            for (int e = 0; e < 3; e++) c << (exact ? ex(v[i][e], s) : fx(v[i][e], s));
            j << c;
        }
    }
    std::string obs()
    {
        J all;
        for (int k = 0; k < 3; k++)
        {
            J o, p, d[4], e, so, fc;
            long f = 0;
            for (size_t i = 0; i < fr.size(); i++) if (fr[i].get() == cl[k]->getFrameNode()) f = i + 1;
            o << kind(k) << f;
            vecs(p, cl[k]->vertices, 8);
            o << p;
            for (int w = 1; w <= 4; w++)
            {
                if (cl[k]->hasData(key(w)))
                {
                    J q;
                    if (w == 1) vecs(q, normals(k), 1);
                    else if (w == 2) vecs(q, colors(k), 255);
                    else if (w == 3) for (size_t i = 0; i < attrs(k).size(); i++) q << attrs(k)[i];
                    else for (size_t i = 0; i < vars(k).size(); i++) q << ex(vars(k)[i], 10);
                    d[w - 1] << q;
                }
                o << d[w - 1];
            }
            Pointcloud::Extents x = cl[k]->getExtents();
            if (!x.isEmpty()) for (int i = 0; i < 6; i++) e << ex(i < 3 ? x.min()[i] : x.max()[i - 3], 8);
            o << e;
            const Transform& t = cl[k]->getSensorOrigin();
            for (int i = 0; i < 4; i++)
            {
                J c;
                for (int q = 0; q < 3; q++) c << (i < 3 ? ex(t.linear()(i, q), 1) : ex(t.translation()[q], 8));
                so << c;
            }
            o << so;
            TriMesh* m = dynamic_cast<TriMesh*>(cl[k].get());
            if (m) for (size_t i = 0; i < m->faces.size(); i++)
            {
                J c;
                c << m->faces[i].get<0>() << m->faces[i].get<1>() << m->faces[i].get<2>();
                fc << c;
            }
            o << fc;
            all << o;
        }
        return all.str();
    }
    void finish() { drop(); }
};
Component* make_component() { return new CloudC; }
