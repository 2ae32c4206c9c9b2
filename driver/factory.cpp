#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include "comp.hpp"
using namespace envire;
static int used = 0;
template <int N> EnvironmentItem* maker(Serialization&) { used = N; FrameNode* f = new FrameNode(); return f; }
struct FactoryC : public Component
{
    std::map<std::string, SerializationFactory::Factory> saved;
    FactoryC() { saved = SerializationFactory::getMap(); SerializationFactory::getMap().clear(); }
    ~FactoryC() { SerializationFactory::getMap() = saved; }
    void reset() { SerializationFactory::getMap().clear(); }
    static std::string name(int i)
    {
        static const char* n[] = {"", "Grid", "envire::Grid", "other::Grid", "a::envire::Grid", "MGrid", "envire::MGrid", "Gri", "grid", "", "::Grid", "envire::", "id"};
        return n[i];
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        static const SerializationFactory::Factory f[] = {0, maker<1>, maker<2>, maker<3>};
        if (n == "add") SerializationFactory::addClass(name(a[0]), f[a[1]]);
        else
        {
            BinarySerialization so;
            used = 0;
            EnvironmentItem* it = SerializationFactory::createObject(name(a[0]), so);
            r << (it && dynamic_cast<FrameNode*>(it) ? used : -1);
            delete it;
        }
    }
};
Component* make_component() { return new FactoryC; }
