// Drives the environment of slam-envire through its public interface.
//   envdrv <ops file> <trace file> <scratch dir> [all|last]
// One call per line: name env handle handle string number ("-" = empty).
// Output: one JSON object per call: the call, its result and (all, or last call of a
// sequence) everything observable afterwards.
#include "envitems.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cmath>
#include <cstdlib>
#include <unistd.h>

using namespace envire;
typedef EnvironmentItem Item;

static std::ofstream out;
static std::string scratch;
static bool dumpAll = true;

struct J {
    std::ostringstream o; bool first;
    J() : first(true) {}
    static std::string q(const std::string& s) {
        std::string r = "\"";
        for (size_t i = 0; i < s.size(); i++) {
            unsigned char c = s[i];
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
};
template <class C> std::string jarr(const C& v) {
    std::string r = "["; bool f = true;
    for (typename C::const_iterator it = v.begin(); it != v.end(); ++it) { if (!f) r += ","; f = false; r += *it; }
    return r + "]";
}

struct Op { std::string n; int e; std::string h, g, s; int i; };

// ---------------------------------------------------------------- world
struct Recorder;
struct Replica;
static Environment* envs[3] = {0, 0, 0};
static std::map<std::string, Item::Ptr> held;
static std::map<std::string, Recorder*> recorders;
static std::map<std::string, Replica*> replicas;
static std::set<std::string> idsSeen;
static bool pulled[3] = {false, false, false};   // changes have been fetched from this environment before

static std::string nameOf(const Item* p) {
    if (!p) return "";
    for (int e = 1; e <= 2; e++) if (envs[e] && envs[e]->getRootNode() == p) return e == 1 ? "r1" : "r2";
    for (std::map<std::string, Item*>::iterator it = Live::m().begin(); it != Live::m().end(); ++it) if (it->second == p) return it->first;
    return "?";
}
static int envNo(const Environment* e) { if (!e) return 0; return e == envs[1] ? 1 : e == envs[2] ? 2 : -1; }
static Item* item(const std::string& h) {
    if (h.empty()) return 0;
    if (h == "r1") return envs[1] ? envs[1]->getRootNode() : 0;
    if (h == "r2") return envs[2] ? envs[2]->getRootNode() : 0;
    std::map<std::string, Item*>::iterator it = Live::m().find(h);
    return it == Live::m().end() ? 0 : it->second;
}
template <class T> T* as(const std::string& h) {
    T* t = dynamic_cast<T*>(item(h));
    if (!t) { std::cerr << "driver: no such object " << h << std::endl; throw std::string("noobj " + h); }
    return t;
}

// ---------------------------------------------------------------- content
static Transform pose(int v) {
    Transform t(Eigen::Affine3d::Identity());
    Eigen::Matrix3d z; z << 0, -1, 0, 1, 0, 0, 0, 0, 1;
    Eigen::Matrix3d x; x << 1, 0, 0, 0, 0, -1, 0, 1, 0;
    Eigen::Matrix3d r = Eigen::Matrix3d::Identity();
    for (int k = 0; k < v % 4; k++) r = r * z;
    for (int k = 0; k < (v / 4) % 4; k++) r = r * x;
    t.linear() = r;
    t.translation() = Eigen::Vector3d(v % 7, v % 5, v % 3);
    return t;
}
// two of three poses are uncertain
static TransformWithUncertainty uncertainPose(int v) {
    if (v % 3 == 0) return TransformWithUncertainty(pose(v));
    TransformWithUncertainty::Covariance c;
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) c(i, j) = v + 10 * i + j + 0.5;
    return TransformWithUncertainty(pose(v), c);
}
static int poseNo(const TransformWithUncertainty& t) {
    for (int v = 0; v < 105; v++) if ((pose(v).matrix() - t.getTransform().matrix()).cwiseAbs().maxCoeff() < 1e-6) {
        TransformWithUncertainty u = uncertainPose(v);
        if (u.hasUncertainty() != t.hasUncertainty()) return -2;
        if (u.hasUncertainty() && (u.getCovariance() - t.getCovariance()).cwiseAbs().maxCoeff() > 1e-6) return -3;
        return v;
    }
    return -1;
}
static int valueOf(Item* p) {
    if (FrameNode* f = dynamic_cast<FrameNode*>(p)) return poseNo(f->getTransformWithUncertainty());
    if (TLayer* l = dynamic_cast<TLayer*>(p)) return l->b.v;
    if (TMap* m = dynamic_cast<TMap*>(p)) return m->b.v;
    if (OpBase* o = dynamic_cast<OpBase*>(p)) return o->v;
    return -1;
}
// labels of all kinds; reported as v<number> when they are what was set
static std::string lab(int v) {
    static const char* odd[] = {"", "a b ", ": #x", "line\nbreak", "'single' \"double\"", "~", "[1, {2", "\xc3\xa4\xe2\x82\xac", " - & * ! | > % @ `", "null", "0x1F", "\\n"};
    std::ostringstream s; s << odd[v % 12];
    if (v % 12) s << v;
    if (v % 17 == 3) s << std::string(12000, 'q');
    return s.str();
}
static std::string labOf(Item* p);
static std::string labOf(Item* p) {
    int v = valueOf(p); std::ostringstream s; s << "v" << v;
    if (p->getLabel().empty() && v == 0) return "";
    return v >= 0 && p->getLabel() == lab(v) ? s.str() : "?" + p->getLabel().substr(0, 40);
}
static void setValue(Item* p, int v) {
    p->setLabel(lab(v));
    if (FrameNode* f = dynamic_cast<FrameNode*>(p)) { if (v % 3 == 0) f->setTransform(pose(v)); else f->setTransform(uncertainPose(v)); return; }
    if (TLayer* l = dynamic_cast<TLayer*>(p)) l->b.v = v;
    if (TMap* m = dynamic_cast<TMap*>(p)) m->b.v = v;
    if (OpBase* o = dynamic_cast<OpBase*>(p)) o->v = v;
    p->itemModified();
}
static std::string classLetter(Item* p) {
    const std::string& c = p->getClassName();
    if (c == "envire::FrameNode") return "r";
    if (c == "envire::TFrame") return "f";
    if (c == "envire::TLayer") return "l";
    if (c == "envire::TMap") return "m";
    if (c == "envire::TOp00") return "o00";
    if (c == "envire::TOp11") return "o11";
    if (c == "envire::TOp12") return "o12";
    if (c == "envire::TOp21") return "o21";
    return c;
}
namespace envire {
bool TOp00::updateAll() { updates++; return true; }
bool TOp11::updateAll() { updates++; return true; }
bool TOp12::updateAll() { updates++; return true; }
bool TOp21::updateAll() { updates++; return true; }
}

// ---------------------------------------------------------------- event handlers
static const char* ETYPE[] = {"ITEM", "FTREE", "FNODE", "LTREE", "ROOT"};
static const char* EOP[] = {"ADD", "REMOVE", "UPDATE"};
static std::string evJson(const Event& m, int e) {
    std::string a = nameOf(m.a.get()), b = nameOf(m.b.get());
    bool att = m.a && m.a->getEnvironment() == envs[e] && (!m.b || m.b->getEnvironment() == envs[e]);
    return "[\"" + std::string(ETYPE[m.type]) + "\",\"" + EOP[m.operation] + "\"," + J::q(a) + "," + J::q(b) + (att ? ",1]" : ",0]");
}
struct TFilter : public EventFilter {
    int kind;
    TFilter(int k) : kind(k) {}
    bool filter(Event const& m) {
        if (kind == 1) return m.type == event::ITEM;
        if (kind == 2) return m.operation != event::UPDATE;
        if (kind == 3) return m.type != event::ITEM;
        return true;
    }
};
struct Recorder : public EventHandler {
    std::string k; int e; std::list<std::string> ev; TFilter* f;
    Recorder() : e(0), f(0) {}
    ~Recorder() { delete f; }
    void handle(const Event& m) { ev.push_back(evJson(m, e)); }
};
// the same, through the convenience class with one callback per kind of event
struct Listener : public EventListener {
    Recorder* r;
    std::string t(const char* a, const char* b, Item* x, Item* y) {
        bool att = x && x->getEnvironment() == envs[r->e] && (!y || y->getEnvironment() == envs[r->e]);
        return "[\"" + std::string(a) + "\",\"" + b + "\"," + J::q(nameOf(x)) + "," + J::q(nameOf(y)) + (att ? ",1]" : ",0]");
    }
    void itemAttached(Item* i) { r->ev.push_back(t("ITEM", "ADD", i, 0)); }
    void itemDetached(Item* i) { r->ev.push_back(t("ITEM", "REMOVE", i, 0)); }
    void itemModified(Item* i) { r->ev.push_back(t("ITEM", "UPDATE", i, 0)); }
    void childAdded(FrameNode* p, FrameNode* c) { r->ev.push_back(t("FTREE", "ADD", p, c)); }
    void childAdded(Layer* p, Layer* c) { r->ev.push_back(t("LTREE", "ADD", p, c)); }
    void childRemoved(FrameNode* p, FrameNode* c) { r->ev.push_back(t("FTREE", "REMOVE", p, c)); }
    void childRemoved(Layer* p, Layer* c) { r->ev.push_back(t("LTREE", "REMOVE", p, c)); }
    void frameNodeSet(CartesianMap* m, FrameNode* n) { r->ev.push_back(t("FNODE", "ADD", m, n)); }
    void frameNodeDetached(CartesianMap* m, FrameNode* n) { r->ev.push_back(t("FNODE", "REMOVE", m, n)); }
    void setRootNode(FrameNode* n) { r->ev.push_back(t("ROOT", "ADD", n, 0)); }
    void removeRootNode(FrameNode* n) { r->ev.push_back(t("ROOT", "REMOVE", n, 0)); }
};
static std::map<std::string, Listener*> listeners;

// ---------------------------------------------------------------- replicas
static std::string projection(Environment* env) {
    std::list<std::string> items, fr, la, ma;
    std::vector<Item*> v = env->getItems<Item>();
    for (size_t i = 0; i < v.size(); i++) {
        Item* p = v[i];
        std::ostringstream s;
        bool found = env->getItem(p->getUniqueId()).get() == p && p->getEnvironment() == env;
        Layer* l = dynamic_cast<Layer*>(p);
        s << "[" << J::q(p->getUniqueId()) << "," << J::q(classLetter(p)) << "," << valueOf(p) << "," << J::q(labOf(p))
          << "," << (l && l->isImmutable() ? 1 : 0) << "," << (found ? 1 : 0) << "]";
        items.push_back(s.str());
        if (FrameNode* f = dynamic_cast<FrameNode*>(p)) {
            std::list<FrameNode*> c = env->getChildren(f);
            for (std::list<FrameNode*>::iterator it = c.begin(); it != c.end(); ++it)
                fr.push_back("[" + J::q((*it)->getUniqueId()) + "," + J::q(f->getUniqueId()) + "]");
        }
        if (l) {
            std::list<Layer*> c = env->getChildren(l);
            for (std::list<Layer*>::iterator it = c.begin(); it != c.end(); ++it)
                la.push_back("[" + J::q((*it)->getUniqueId()) + "," + J::q(l->getUniqueId()) + "]");
        }
        if (CartesianMap* m = dynamic_cast<CartesianMap*>(p))
            if (FrameNode* f = env->getFrameNode(m))
                ma.push_back("[" + J::q(m->getUniqueId()) + "," + J::q(f->getUniqueId()) + "]");
    }
    return "{\"items\":" + jarr(items) + ",\"fr\":" + jarr(fr) + ",\"la\":" + jarr(la) + ",\"ma\":" + jarr(ma) + "}";
}
struct ApplyingSync : public SynchronizationEventHandler {
    Environment* rep;
    ApplyingSync() : rep(0) {}
    using SynchronizationEventHandler::handle;
    void handle(std::vector<BinaryEvent>& msgs) { rep->applyEvents(msgs); }
};
struct Replica {
    std::string kind; int e;
    Environment* rep;
    EventProcessor* proc; ApplyingSync* sync;
    // a replica of the replica, fed by the replica's own events
    Environment* rep2; EventProcessor* proc2;
    bool first;
    Replica(const std::string& k, int e) : kind(k), e(e), rep(new Environment), proc(0), sync(0), rep2(0), proc2(0), first(true) {
        if (k == "proc") { proc = new EventProcessor(rep); proc->allowMultithreading(true); envs[e]->addEventHandler(proc); }
        if (k == "synq" || k == "syni" || k == "ctx") {
            sync = new ApplyingSync; sync->rep = rep;
            sync->useEventQueue(k == "synq");
            if (k == "ctx") sync->useContextUpdates(envs[e]);
            envs[e]->addEventHandler(sync);
        }
        if (k == "pull" || k == "syni") {
            rep2 = new Environment; proc2 = new EventProcessor(rep2); proc2->allowMultithreading(true); rep->addEventHandler(proc2);
        }
    }
    void flush() {
        if (kind == "pull") { std::vector<BinaryEvent> ev; envs[e]->pullEvents(ev, first && pulled[e]); pulled[e] = true; first = false; rep->applyEvents(ev); }
        if (proc) proc->flush();
        if (sync) sync->flush();
        if (proc2) proc2->flush();
    }
    void unhook() {
        if (proc) envs[e]->removeEventHandler(proc);
        if (sync) envs[e]->removeEventHandler(sync);
        if (proc) proc->flush();
        if (sync) sync->flush();
        if (proc2) proc2->flush();
    }
    ~Replica() {
        delete rep; delete proc; delete sync; delete rep2; delete proc2;
    }
};

// ---------------------------------------------------------------- observation
template <class L> std::string names(const L& l) {
    std::list<std::string> v;
    for (typename L::const_iterator it = l.begin(); it != l.end(); ++it) v.push_back(J::q(nameOf(*it)));
    return jarr(v);
}
static std::string observe() {
    std::list<std::string> objs, finds, envl;
    std::map<std::string, Item*> all = Live::m();
    for (int e = 1; e <= 2; e++) if (envs[e]) all[e == 1 ? "r1" : "r2"] = envs[e]->getRootNode();
    for (std::map<std::string, Item*>::iterator it = all.begin(); it != all.end(); ++it) {
        Item* p = it->second; idsSeen.insert(p->getUniqueId());
        Environment* e = p->getEnvironment();
        std::ostringstream s;
        Layer* l = dynamic_cast<Layer*>(p); FrameNode* f = dynamic_cast<FrameNode*>(p);
        CartesianMap* m = dynamic_cast<CartesianMap*>(p); Operator* o = dynamic_cast<Operator*>(p);
        s << "{\"h\":" << J::q(it->first) << ",\"env\":" << envNo(e) << ",\"uid\":" << J::q(p->getUniqueId())
          << ",\"val\":" << valueOf(p) << ",\"lab\":" << J::q(labOf(p)) << ",\"att\":" << (p->isAttached() ? 1 : 0);
        if (l) s << ",\"dirty\":" << (l->isDirty() ? 1 : 0) << ",\"imm\":" << (l->isImmutable() ? 1 : 0);
        if (o) s << ",\"upd\":" << dynamic_cast<OpBase*>(p)->updates;
        if (e && f) {
            s << ",\"par\":" << J::q(nameOf(f->getParent())) << ",\"par2\":" << J::q(nameOf(e->getParent(f)))
              << ",\"kids\":" << names(f->getChildren()) << ",\"kids2\":" << names(e->getChildren(f))
              << ",\"maps\":" << names(f->getMaps()) << ",\"maps2\":" << names(e->getMaps(f))
              << ",\"root\":" << J::q(nameOf(f->getRoot())) << ",\"isroot\":" << (f->isRoot() ? 1 : 0);
        }
        if (e && l) {
            s << ",\"lpar\":" << names(l->getParents()) << ",\"lkids\":" << names(e->getChildren(l))
              << ",\"lkids2\":" << names(const_cast<const Environment*>(e)->getChildren(const_cast<const Layer*>(l)))
              << ",\"gen\":" << J::q(nameOf(l->getGenerator())) << ",\"gen2\":" << J::q(nameOf(e->getGenerator(l)))
              << ",\"isgen\":" << (l->isGenerated() ? 1 : 0) << ",\"from\":" << names(e->getLayersGeneratedFrom(l))
              << ",\"fromm\":" << names(e->getGeneratedFrom<TMap*>(l));
        }
        if (e && m) s << ",\"fn\":" << J::q(nameOf(m->getFrameNode())) << ",\"fn2\":" << J::q(nameOf(e->getFrameNode(m)));
        if (e && o) {
            s << ",\"ins\":" << names(e->getInputs(o)) << ",\"outs\":" << names(e->getOutputs(o));
            // typed access: the only map among the inputs / outputs, or a refusal
            std::string im, om;
            try { im = nameOf(o->getInput<TMap*>()); } catch (std::runtime_error&) { im = "!"; }
            try { om = nameOf(e->getOutput<TMap*>(o)); } catch (std::runtime_error&) { om = "!"; }
            s << ",\"im\":" << J::q(im) << ",\"om\":" << J::q(om);
        }
        s << "}";
        objs.push_back(s.str());
    }
    for (int e = 1; e <= 2; e++) {
        if (!envs[e]) continue;
        std::list<std::string> f;
        for (std::set<std::string>::iterator it = idsSeen.begin(); it != idsSeen.end(); ++it)
            f.push_back("[" + J::q(*it) + "," + J::q(nameOf(envs[e]->getItem(*it).get())) + ","
                        + J::q(nameOf(envs[e]->getItem<Layer>(*it).get())) + "]");
        std::string onlyMap;
        try { onlyMap = nameOf(envs[e]->getItem<TMap>().get()); } catch (std::runtime_error&) { onlyMap = "!"; }
        std::ostringstream s;
        s << "{\"e\":" << e << ",\"items\":" << names(envs[e]->getItems<Item>()) << ",\"frames\":" << names(envs[e]->getItems<FrameNode>())
          << ",\"layers\":" << names(envs[e]->getItems<Layer>()) << ",\"cmaps\":" << names(envs[e]->getItems<CartesianMap>())
          << ",\"ops\":" << names(envs[e]->getItems<Operator>()) << ",\"pre\":" << J::q(envs[e]->getEnvironmentPrefix())
          << ",\"only\":" << J::q(onlyMap) << ",\"find\":" << jarr(f) << "}";
        envl.push_back(s.str());
    }
    return "{\"objs\":" + jarr(objs) + ",\"envs\":" + jarr(envl) + "}";
}

// ---------------------------------------------------------------- operations
static void rmTree(const std::string& d);
#include <boost/filesystem.hpp>
static void rmTree(const std::string& d) { boost::system::error_code ec; boost::filesystem::remove_all(d, ec); }

static Item* make(const Op& o) {
    Item* p = 0; Tag* t = 0;
    switch (o.h[0]) {
        case 'f': { TFrame* x = new TFrame; p = x; t = &x->tag; break; }
        case 'm': { TMap* x = new TMap; p = x; t = &x->tag; break; }
        case 'l': { TLayer* x = new TLayer; p = x; t = &x->tag; break; }
        case 'o': {
            if (o.i == 11) { TOp11* x = new TOp11; p = x; t = &x->tag; }
            else if (o.i == 12) { TOp12* x = new TOp12; p = x; t = &x->tag; }
            else if (o.i == 21) { TOp21* x = new TOp21; p = x; t = &x->tag; }
            else { TOp00* x = new TOp00; p = x; t = &x->tag; }
            break; }
    }
    t->h = o.h; Live::m()[o.h] = p;
    held[o.h] = Item::Ptr(p);
    if (!o.s.empty()) p->setUniqueId(o.s);
    if (o.h[0] != 'o') setValue(p, o.i); else setValue(p, 0);
    return p;
}
static std::string extra;
static void dropEnv(int e) {
    for (std::map<std::string, Replica*>::iterator it = replicas.begin(); it != replicas.end();)
        if (it->second->e == e) { it->second->unhook(); delete it->second; replicas.erase(it++); } else ++it;
    delete envs[e]; envs[e] = 0; pulled[e] = false;
    for (std::map<std::string, Recorder*>::iterator it = recorders.begin(); it != recorders.end(); ++it)
        if (it->second->e == e) it->second->e = 0;
}
static void hardReset() {
    for (int e = 1; e <= 2; e++) if (envs[e]) dropEnv(e);
    held.clear();
    for (std::map<std::string, Recorder*>::iterator it = recorders.begin(); it != recorders.end(); ++it) delete it->second;
    recorders.clear();
    for (std::map<std::string, Listener*>::iterator it = listeners.begin(); it != listeners.end(); ++it) delete it->second;
    listeners.clear();
    idsSeen.clear();
    if (!Live::m().empty()) extra += ",\"leak\":" + J::q(Live::m().begin()->first);
    Live::m().clear();
    envs[1] = new Environment; envs[2] = new Environment;
}
static std::string run(const Op& o) {
    extra.clear();
    Environment* E = (o.e == 1 || o.e == 2) ? envs[o.e] : 0;
    const std::string& n = o.n;
    if (n == "reset") hardReset();
    else if (n == "new") make(o);
    else if (n == "setid") item(o.h)->setUniqueId(o.s);
    else if (n == "prefix") E->setEnvironmentPrefix(o.s);
    else if (n == "attach") E->attachItem(item(o.h));
    else if (n == "attachm") E->attachItem(as<CartesianMap>(o.h), o.g.empty() ? 0 : as<FrameNode>(o.g));
    else if (n == "detach" || n == "deep") {
        Item* p = item(o.h); Item::Ptr r;
        if (n == "deep") r = p->getEnvironment()->detachItem(p, true);
        else if (o.i >= 2) r = p->detach();
        else r = p->getEnvironment()->detachItem(p);
        if (o.i % 2 == 1) { if (nameOf(r.get()) != o.h) extra += ",\"badret\":1"; held[o.h] = r; }
    }
    else if (n == "drop") held.erase(o.h);
    else if (n == "hold") held[o.h] = Item::Ptr(item(o.h));
    else if (n == "addf") { FrameNode* p = as<FrameNode>(o.g); FrameNode* c = as<FrameNode>(o.h); if (o.i) p->addChild(c); else p->getEnvironment()->addChild(p, c); }
    else if (n == "remf") { FrameNode* p = as<FrameNode>(o.g); p->getEnvironment()->removeChild(p, as<FrameNode>(o.h)); }
    else if (n == "addl") { Layer* p = as<Layer>(o.g); Layer* c = as<Layer>(o.h); if (o.i) p->addChild(c); else p->getEnvironment()->addChild(p, c); }
    else if (n == "reml") { Layer* p = as<Layer>(o.g); p->getEnvironment()->removeChild(p, as<Layer>(o.h)); }
    else if (n == "setf") { CartesianMap* m = as<CartesianMap>(o.h); FrameNode* f = as<FrameNode>(o.g); if (o.i) m->setFrameNode(f); else E->setFrameNode(m, f); }
    else if (n == "detf") E->detachFrameNode(as<CartesianMap>(o.h), as<FrameNode>(o.g));
    else if (n == "addin") { if (o.i) as<Operator>(o.h)->addInput(as<Layer>(o.g)); else E->addInput(as<Operator>(o.h), as<Layer>(o.g)); }
    else if (n == "addout") { if (o.i) as<Operator>(o.h)->addOutput(as<Layer>(o.g)); else E->addOutput(as<Operator>(o.h), as<Layer>(o.g)); }
    else if (n == "setin") as<Operator>(o.h)->setInput(as<Layer>(o.g));
    else if (n == "setout") as<Operator>(o.h)->setOutput(as<Layer>(o.g));
    else if (n == "remin") { if (o.i) as<Operator>(o.h)->removeInput(as<Layer>(o.g)); else item(o.h)->getEnvironment()->removeInput(as<Operator>(o.h), as<Layer>(o.g)); }
    else if (n == "remout") { if (o.i) as<Operator>(o.h)->removeOutput(as<Layer>(o.g)); else item(o.h)->getEnvironment()->removeOutput(as<Operator>(o.h), as<Layer>(o.g)); }
    else if (n == "remins") { if (o.i) as<Operator>(o.h)->removeInputs(); else item(o.h)->getEnvironment()->removeInputs(as<Operator>(o.h)); }
    else if (n == "remouts") { if (o.i) as<Operator>(o.h)->removeOutputs(); else item(o.h)->getEnvironment()->removeOutputs(as<Operator>(o.h)); }
    else if (n == "detop") { if (as<Layer>(o.h)->detachFromOperator() && as<Layer>(o.h)->isGenerated()) extra += ",\"badret\":1"; }
    else if (n == "dirty") as<Layer>(o.h)->setDirty();
    else if (n == "clean") as<Layer>(o.h)->resetDirty();
    else if (n == "immut") { as<Layer>(o.h)->setImmutable(); item(o.h)->itemModified(); }
    else if (n == "upd") as<Layer>(o.h)->updateFromOperator();
    else if (n == "touch") setValue(item(o.h), o.i);
    else if (n == "updops") E->updateOperators();
    else if (n == "kill") dropEnv(o.e);
    else if (n == "reg") {
        Recorder* r = recorders[o.s];
        if (!r) { r = recorders[o.s] = new Recorder; r->k = o.s; if (o.i) { r->f = new TFilter(o.i); } }
        r->e = o.e;
        if (o.s == "k3") {
            Listener* l = listeners[o.s]; if (!l) { l = listeners[o.s] = new Listener; l->r = r; if (r->f) l->setFilter(r->f); }
            E->addEventHandler(l);
        } else { if (r->f) r->setFilter(r->f); E->addEventHandler(r); }
    }
    else if (n == "unreg") {
        Recorder* r = recorders[o.s];
        if (o.s == "k3") E->removeEventHandler(listeners[o.s]); else E->removeEventHandler(r);
    }
    else if (n == "mkrep") replicas[o.s] = new Replica(o.s, o.e);
    else if (n == "sync") {
        Replica* r = replicas[o.s]; r->flush();
        extra += ",\"rep\":[" + projection(r->rep) + (r->rep2 ? "," + projection(r->rep2) : std::string()) + "]";
    }
    else if (n == "all") {
        std::vector<BinaryEvent> ev; E->pullEvents(ev, true); pulled[o.e] = true;
        Environment fresh; fresh.applyEvents(ev);
        extra += ",\"rep\":[" + projection(&fresh);
        Replica* r = replicas.count("pull") ? replicas["pull"] : 0;
        if (r && r->e == o.e) { r->first = false; r->rep->applyEvents(ev); r->proc2->flush(); extra += "," + projection(r->rep) + "," + projection(r->rep2); }
        extra += "]";
    }
    else if (n == "unsync") {
        Replica* r = replicas[o.s]; r->unhook();
        extra += ",\"rep\":[" + projection(r->rep) + (r->rep2 ? "," + projection(r->rep2) : std::string()) + "]";
        replicas.erase(o.s); delete r;
    }
    else if (n == "reload") {
        std::string dir = scratch + "/scene";
        rmTree(dir);
        E->serialize(dir);
        std::map<std::string, std::string> ids;  // id -> handle
        std::vector<Item*> v = E->getItems<Item>();
        for (size_t k = 0; k < v.size(); k++) {
            std::string h = nameOf(v[k]);
            if (h[0] != 'r') { ids[v[k]->getUniqueId()] = h; held.erase(h); }
        }
        std::string pre = E->getEnvironmentPrefix();
        v.clear();
        dropEnv(o.e);
        envs[o.e] = Environment::unserialize(dir);
        E = envs[o.e];
        E->setEnvironmentPrefix(pre);
        v = E->getItems<Item>();
        for (size_t k = 0; k < v.size(); k++) {
            std::map<std::string, std::string>::iterator it = ids.find(v[k]->getUniqueId());
            if (it == ids.end()) continue;
            Tag* t = 0; Item* p = v[k];
            if (TFrame* x = dynamic_cast<TFrame*>(p)) t = &x->tag;
            else if (TLayer* x = dynamic_cast<TLayer*>(p)) t = &x->tag;
            else if (TMap* x = dynamic_cast<TMap*>(p)) t = &x->tag;
            else if (OpBase* x = dynamic_cast<OpBase*>(p)) t = &x->tag;
            if (t && classLetter(p)[0] == it->second[0] && !Live::m().count(it->second)) { t->h = it->second; Live::m()[it->second] = p; }
        }
        rmTree(dir);
    }
    else throw std::string("unknown op " + n);
    return "ok";
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    out.open(argv[2]);
    scratch = argv[3];
    dumpAll = !(argc > 4 && std::string(argv[4]) == "last");
    std::vector<Op> ops;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream s(line); Op o;
        if (!(s >> o.n >> o.e >> o.h >> o.g >> o.s >> o.i)) continue;
        if (o.h == "-") o.h.clear();
        if (o.g == "-") o.g.clear();
        if (o.s == "-") o.s.clear();
        ops.push_back(o);
    }
    envs[1] = new Environment; envs[2] = new Environment;
    for (size_t k = 0; k < ops.size(); k++) {
        const Op& o = ops[k];
        std::string res;
        for (std::map<std::string, Recorder*>::iterator it = recorders.begin(); it != recorders.end(); ++it) it->second->ev.clear();
        out << "{\"n\":" << J::q(o.n) << ",\"e\":" << o.e << ",\"h\":" << J::q(o.h) << ",\"g\":" << J::q(o.g)
            << ",\"s\":" << J::q(o.s) << ",\"i\":" << o.i << std::flush;
        try { res = run(o); }
        catch (std::logic_error&) { res = "throw"; }
        catch (std::runtime_error&) { res = "throw"; }
        out << ",\"res\":" << J::q(res);
        Item* ph = item(o.h); Item* pg = item(o.g);
        out << ",\"idh\":" << J::q(ph ? ph->getUniqueId() : "") << ",\"idg\":" << J::q(pg ? pg->getUniqueId() : "") << extra;
        if (!recorders.empty()) {
            out << ",\"ev\":["; bool f = true;
            for (std::map<std::string, Recorder*>::iterator it = recorders.begin(); it != recorders.end(); ++it) {
                if (!f) out << ","; f = false;
                out << "[" << J::q(it->first) << "," << jarr(it->second->ev) << "]";
            }
            out << "]";
        }
        bool last = k + 1 == ops.size() || ops[k + 1].n == "reset";
        if (dumpAll || last) out << ",\"obs\":" << observe();
        out << "}\n";
    }
    hardReset();
    for (int e = 1; e <= 2; e++) dropEnv(e);
    out << "{\"n\":\"end\",\"e\":0,\"h\":\"\",\"g\":\"\",\"s\":\"\",\"i\":0,\"res\":\"ok\",\"idh\":\"\",\"idg\":\"\"}\n";
    return 0;
}
