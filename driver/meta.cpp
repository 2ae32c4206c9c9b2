#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include "comp.hpp"
namespace {
template <int N> struct T
{
    static int live;
    long v; long pad[N];
    T() : v(0) { for (int i = 0; i < N; i++) pad[i] = 0; live++; }
    T(const T& o) : v(o.v) { for (int i = 0; i < N; i++) pad[i] = o.pad[i]; live++; }
    ~T() { live--; }
    void set(long x) { v = x; for (int i = 0; i < N; i++) pad[i] = x; }
    long get() const { for (int i = 0; i < N; i++) if (pad[i] != v) return -99; return v; }
};
template <int N> int T<N>::live = 0;
typedef T<1> T1; typedef T<2> T2;
struct T3 : public T<1> {};   // a different type, although derived from another one
int live3() { return 0; }
}
namespace envire {
class MLay : public Layer {
    ENVIRONMENT_ITEM(MLay)
public:
    MLay() : Layer("") {}
};
ENVIRONMENT_ITEM_DEF(MLay)
}
using namespace envire;
static const int NL = 3, NK = 3;
struct MetaC : public Component
{
    MLay* l[NL];
    T1* r1; T2* r2; std::vector<long>* r3; int rk, rkey;
    MetaC() { for (int i = 0; i < NL; i++) l[i] = new MLay; r1 = 0; r2 = 0; r3 = 0; }
    ~MetaC() { for (int i = 0; i < NL; i++) delete l[i]; }
    void reset() { for (int i = 0; i < NL; i++) { delete l[i]; l[i] = new MLay; } r1 = 0; r2 = 0; r3 = 0; }
    static std::string key(int k) { static const char* n[] = {"", "vertex_color", "a", "vertex_color_2"}; return n[k]; }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "poke")
        {
            if (r1) r1->set(a[0]); else if (r2) r2->set(a[0]); else r3->assign(1, a[0]);
            return;
        }
        MLay& o = *l[a[0] - 1];
        const MLay& co = o;
        if (n == "rem") { o.removeData(key(a[1])); return; }
        if (n == "clear") { o.removeData(); return; }
        if (n == "assign") { o = *l[a[1] - 1]; return; }
        if (n == "copy") { MLay* c = new MLay(*l[a[1] - 1]); delete l[a[0] - 1]; l[a[0] - 1] = c; return; }
        std::string k = key(a[1]);
        int ty = a[2];
        if (n == "put")
        {
            if (ty == 1) o.getData<T1>(k).set(a[3]);
            if (ty == 2) o.getData<T2>(k).set(a[3]);
            if (ty == 3) o.getData<std::vector<long> >(k).assign(1, a[3]);
        }
        else if (n == "get")
        {
            if (ty == 1) r << o.getData<T1>(k).get();
            if (ty == 2) r << o.getData<T2>(k).get();
            if (ty == 3) { std::vector<long>& v = o.getData<std::vector<long> >(k); r << (v.empty() ? 0L : v[0]); }
        }
        else if (n == "cget")
        {
            if (ty == 1) r << co.getData<T1>(k).get();
            if (ty == 2) r << co.getData<T2>(k).get();
            if (ty == 3) { const std::vector<long>& v = co.getData<std::vector<long> >(k); r << (v.empty() ? 0L : v[0]); }
        }
        else if (n == "keep")
        {
            T1* x1 = 0; T2* x2 = 0; std::vector<long>* x3 = 0;
            if (ty == 1) x1 = &o.getData<T1>(k);
            if (ty == 2) x2 = &o.getData<T2>(k);
            if (ty == 3) x3 = &o.getData<std::vector<long> >(k);
            r1 = x1; r2 = x2; r3 = x3;
        }
    }
    std::string obs()
    {
        J j;
        int n3 = 0;
        for (int i = 0; i < NL; i++)
        {
            J lay;
            const MLay& o = *l[i];
            for (int k = 1; k <= NK; k++)
            {
                J e, ty;
                bool t1 = o.hasData<T1>(key(k)), t2 = o.hasData<T2>(key(k)), t3 = o.hasData<std::vector<long> >(key(k));
                if (t3) n3++;
                ty << (int)t1 << (int)t2 << (int)t3;
                long v = 0;
                if (t1) v = o.getData<T1>(key(k)).get();
                else if (t2) v = o.getData<T2>(key(k)).get();
                else if (t3) { const std::vector<long>& x = o.getData<std::vector<long> >(key(k)); v = x.empty() ? 0 : x[0]; }
                if (o.hasData<T3>(key(k))) v = -98;
                e << (int)o.hasData(key(k)) << ty << v;
                lay << e;
            }
            j << lay;
        }
        J objs;
        objs << T1::live << T2::live << n3;
        j << objs;
        return j.str();
    }
};
Component* make_component() { return new MetaC; }
