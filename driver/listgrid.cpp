#include <envire/tools/ListGrid.hpp>
#include <cstring>
#include "comp.hpp"

struct V { int v; V() : v(-7) {} explicit V(int v) : v(v) {} };
typedef envire::ListGrid<V> G;
struct Open : public G { Open() {} Open(const Open& o) : G(o) {} size_t w() const { return cells.shape()[0]; } size_t h() const { return cells.shape()[1]; } };

struct ListGridC : public Component
{
    Open* g[2];
    ListGridC() { g[0] = new Open; g[1] = new Open; }
    ~ListGridC() { delete g[0]; delete g[1]; }
    void reset() { for (int i = 0; i < 2; i++) { delete g[i]; g[i] = new Open; } }
    void call(const std::string& n, const Args& a, J& r)
    {
        Open& o = *g[a[0] - 1];
        if (n == "resize") o.resize(a[1], a[2]);
        else if (n == "ihead") o.insertHead(a[1], a[2], V(a[3]));
        else if (n == "itail") o.insertTail(a[1], a[2], V(a[3]));
        else if (n == "erase")
        {
            G::iterator it = o.beginCell(a[1], a[2]);
            for (int i = 1; i < a[3]; i++) it++;
            it = o.erase(it);
            if (it != o.endCell()) r << it->v;
        }
        else if (n == "drain")
        {
            for (G::iterator it = o.beginCell(a[1], a[2]); it != o.endCell(); )
                if (it->v == a[3]) it = o.erase(it); else it++;
        }
        else if (n == "move") o.move(a[1], a[2]);
        else if (n == "clear") o.clear();
        else if (n == "assign") o = *g[a[1] - 1];
        else if (n == "copy") { Open* c = new Open(*g[a[1] - 1]); delete g[a[0] - 1]; g[a[0] - 1] = c; }
    }
    std::string obs()
    {
        J j;
        for (int i = 0; i < 2; i++) j << dump<G, G::iterator>(i);
        for (int i = 0; i < 2; i++) j << dump<const G, G::const_iterator>(i);
        return j.str();
    }
    template <class T, class I> J dump(int i) { return dumpx(*g[i], (T*)0, (I*)0); }
    template <class T, class I> J dumpx(Open& oo, T*, I*)
    {
        J rows;
        T& o = oo;
        for (size_t x = 0; x < oo.w(); x++)
        {
            J row;
            for (size_t y = 0; y < oo.h(); y++)
            {
                J cell;
                int guard = 0;
                for (I it = o.beginCell(x, y); it != o.endCell() && guard < 1000; it++, guard++) cell << it->v;
                row << cell;
            }
            rows << row;
        }
        return rows;
    }
};
Component* make_component() { return new ListGridC; }
