#include <cassert>
#include <algorithm>
#include <envire/tools/ExpectationMaximization.hpp>
#include "comp.hpp"
using namespace envire;
typedef GaussianMixture<double, 2> GMM;
struct C : public Component
{
    KMeans<GMM>* km;
    C() : km(new KMeans<GMM>) {}
    void reset() { delete km; km = new KMeans<GMM>; }
    void call(const std::string& n, const Args& a, J& r)
    {
        std::vector<GMM::Vector> s;
        std::vector<double> w;
        for (size_t i = 2; i + 2 < a.size(); i += 3)
        {
            s.push_back(GMM::Vector(a[i], a[i + 1]));
            if (a[1]) w.push_back(a[i + 2]);
        }
        km->initialize(a[0], s, w);
        km->run();
        std::vector<Gaussian<double, 2, GMM::Adapter> > c = km->getClusters();
        for (size_t i = 0; i < c.size(); i++)
        {
            J j;
            j << fx(c[i].mean[0], 1024) << fx(c[i].mean[1], 1024) << fx(c[i].cov(0, 0), 1024) << fx(c[i].cov(0, 1), 1024)
              << fx(c[i].cov(1, 0), 1024) << fx(c[i].cov(1, 1), 1024);
            r << j;
        }
    }
};
Component* make_component() { return new C; }
