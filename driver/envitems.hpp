// Item classes used by the environment drivers.  They are ordinary users of the
// library: everything goes through the public item macros and virtual functions.
#ifndef VERIF_ENVITEMS_HPP
#define VERIF_ENVITEMS_HPP
#include <envire/Core.hpp>
#include <envire/core/Event.hpp>
#include <envire/core/EventHandler.hpp>
#include <envire/core/Operator.hpp>
#include <envire/core/Serialization.hpp>
#include <map>
#include <set>
#include <string>

// handle -> live object.  A tag never travels with a copy of the object.
struct Live { static std::map<std::string, envire::EnvironmentItem*>& m() { static std::map<std::string, envire::EnvironmentItem*> x; return x; } };
struct Tag {
    std::string h;
    Tag() {}
    Tag(const Tag&) {}
    Tag& operator=(const Tag&) { return *this; }
    ~Tag() { if (!h.empty()) Live::m().erase(h); }
};

namespace envire {

class TFrame : public FrameNode {
    ENVIRONMENT_ITEM(TFrame)
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Tag tag;
    TFrame() {}
};

// content version v is spread over the yaml part, the binary part and the metadata-free state
struct Blob {
    int v;
    Blob() : v(0) {}
    void write(Serialization& so, const std::string& file) {
        so.write("val", v);
        std::ostream& os = so.getBinaryOutputStream(file);
        for (int i = 0; i < 7 + v; i++) os.put((char)((v * 31 + i * 10) & 0xff));
    }
    void read(Serialization& so, const std::string& file) {
        so.read("val", v);
        std::istream& is = so.getBinaryInputStream(file);
        int n = 0; char c; bool ok = true;
        while (is.get(c)) { if (c != (char)((v * 31 + n * 10) & 0xff)) ok = false; n++; }
        if (n != 7 + v || !ok) v = -1000 - v;
    }
};

class TLayer : public Layer {
    ENVIRONMENT_ITEM(TLayer)
public:
    Tag tag; Blob b;
    TLayer() : Layer("") {}
    void serialize(Serialization& so) { Layer::serialize(so); b.write(so, getMapFileName() + ".bin"); }
    void unserialize(Serialization& so) { Layer::unserialize(so); b.read(so, getMapFileName() + ".bin"); }
};

class TMap : public Map<2> {
    ENVIRONMENT_ITEM(TMap)
public:
    Tag tag; Blob b;
    TMap() : Map<2>("") {}
    Map<2>::Extents getExtents() const { return Map<2>::Extents(Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 1)); }
    void serialize(Serialization& so) { Map<2>::serialize(so); b.write(so, getMapFileName() + ".bin"); }
    void unserialize(Serialization& so) { Map<2>::unserialize(so); b.read(so, getMapFileName() + ".bin"); }
};

struct OpBase {
    virtual ~OpBase() {}
    Tag tag; int v; int updates;
    OpBase() : v(0), updates(0) {}
};
#define TOP(N, A, B) \
class N : public Operator, public OpBase { \
    ENVIRONMENT_ITEM(N) \
public: \
    N() : Operator(A, B) {} \
    bool updateAll(); \
    void serialize(Serialization& so) { Operator::serialize(so); so.write("val", v); } \
    void unserialize(Serialization& so) { Operator::unserialize(so); so.read("val", v); } \
};
TOP(TOp00, 0, 0)
TOP(TOp11, 1, 1)
TOP(TOp12, 2, 1)   // two inputs, one output
TOP(TOp21, 1, 2)   // one input, two outputs
#undef TOP
}
#endif
