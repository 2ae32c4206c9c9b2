// Common frame of the component drivers: reads call sequences, writes one JSON record per call.
// usage: driver <ops> <trace> <scratch dir>
#ifndef VERIF_COMP_HPP
#define VERIF_COMP_HPP
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

typedef std::vector<long> Args;
// JSON helpers
struct J
{
    std::ostringstream s;
    bool first;
    J() : first(true) {}
    J& sep() { if (!first) s << ","; first = false; return *this; }
    J& operator<<(long v) { sep(); s << v; return *this; }
    J& operator<<(int v) { return *this << (long)v; }
    J& operator<<(size_t v) { return *this << (long)v; }
    J& operator<<(const char* v) { sep(); s << '"' << v << '"'; return *this; }
    J& operator<<(const std::string& v) { return *this << v.c_str(); }
    J& operator<<(const J& v) { sep(); s << "[" << v.s.str() << "]"; return *this; }
    std::string str() const { return "[" + s.str() + "]"; }
private:
};
// fixed point: values outside what the specification can express become a mark
static const long NAN_MARK = 2000000001L, INF_MARK = 2000000002L, BIG_MARK = 2000000003L;
inline long fx(double v, double scale = 1.0)
{
    if (v != v) return NAN_MARK;
    if (std::isinf(v)) return v > 0 ? INF_MARK : -INF_MARK;
    double r = std::floor(v * scale + 0.5);
    if (r > 1.9e9) return BIG_MARK;
    if (r < -1.9e9) return -BIG_MARK;
    return (long)r;
}

struct Component
{
    std::string scratch;
    virtual ~Component() {}
    virtual void reset() = 0;
    // performs the call; res is its result
    virtual void call(const std::string& n, const Args& a, J& res) = 0;
    virtual std::string obs() { return "[]"; }
    virtual void finish() {}
};
Component* make_component();

int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    Component* c = make_component();
    c->scratch = argc > 3 ? argv[3] : "";
    // the code under test may print
    std::ostringstream sink;
    std::streambuf* co = std::cout.rdbuf(sink.rdbuf());
    std::streambuf* ce = std::cerr.rdbuf(sink.rdbuf());
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream ls(line);
        std::string n;
        ls >> n;
        Args a;
        long v;
        while (ls >> v) a.push_back(v);
        J res;
        std::string ex = "ok", o = "[]";
        if (n == "reset") c->reset();
        else
        {
            try { c->call(n, a, res); }
            catch (std::exception& e) { ex = "throw"; }
            o = c->obs();
        }
        J ja;
        for (size_t i = 0; i < a.size(); i++) ja << a[i];
        fprintf(out, "{\"n\":\"%s\",\"a\":%s,\"x\":\"%s\",\"r\":%s,\"o\":%s}\n", n.c_str(), ja.str().c_str(), ex.c_str(), res.str().c_str(), o.c_str());
        fflush(out);
        sink.str("");
    }
    c->reset();
    c->finish();
    delete c;
    fprintf(out, "{\"n\":\"end\",\"a\":[],\"x\":\"ok\",\"r\":[],\"o\":[]}\n");
    fclose(out);
    std::cout.rdbuf(co);
    std::cerr.rdbuf(ce);
    return 0;
}
#endif
