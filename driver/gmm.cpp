#include <cassert>
#include <algorithm>
#include <envire/tools/ExpectationMaximization.hpp>
#include "comp.hpp"
using namespace envire;
typedef GaussianMixture<double, 2> GMM;
typedef ExpectationMaximization<GMM> EM;
struct C : public Component
{
    EM* em;
    C() : em(new EM) {}
    void reset() { delete em; em = new EM; }
    static GMM::Matrix cov(double a, double b, double c) { GMM::Matrix m; m << a, b, b, c; return m; }
    static J comps(const GMM& g)
    {
        J l;
        for (size_t j = 0; j < g.params.size(); j++)
        {
            const GMM::Parameter& p = g.params[j];
            J c;
            c << fx(p.weight, 1024) << fx(p.dist.mean[0], 256) << fx(p.dist.mean[1], 256) << fx(p.dist.cov(0, 0), 64) << fx(p.dist.cov(0, 1), 64)
              << fx(p.dist.cov(1, 0), 64) << fx(p.dist.cov(1, 1), 64);
            l << c;
        }
        return l;
    }
    static bool same(const GMM& a, const GMM& b)
    {
        if (a.params.size() != b.params.size()) return false;
        for (size_t j = 0; j < a.params.size(); j++)
        {
            double d = std::fabs(a.params[j].weight - b.params[j].weight) + (a.params[j].dist.mean - b.params[j].dist.mean).norm() + (a.params[j].dist.cov - b.params[j].dist.cov).norm();
            if (!(d < 1e-6)) return false;
        }
        return true;
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "dens")
        {
            Gaussian<double, 2> g(GMM::Vector(a[3], a[4]), cov(a[0], a[1], a[2]));
            r << fx(log(g.eval(GMM::Vector(a[5], a[6]))), 1024);
        }
        else if (n == "dens1")
        {
            typedef Gaussian<double, 1> G;
            G::Vector m, x;
            G::Matrix c;
            m[0] = 3;
            x[0] = 3 + a[1];
            c(0, 0) = a[0];
            r << fx(log(G(m, c).eval(x)), 1024);
        }
        else if (n == "dens3")
        {
            typedef Gaussian<double, 3> G;
            G::Vector m(1, 2, 3), x(1 + a[3], 2 + a[4], 3 + a[5]);
            G::Matrix c = G::Matrix::Zero();
            for (int i = 0; i < 3; i++) c(i, i) = a[i];
            r << fx(log(G(m, c).eval(x)), 1024);
        }
        else if (n == "mix")
        {
            GMM g;
            for (size_t j = 0; j < a.size(); j++) g.params.push_back(GMM::Parameter(a[j] / 64.0, GMM::Vector(j, 1.0 - j), cov(1 + j, 0, 2)));
            GMM::Vector x(0.5, 0.25);
            r << fx(g.eval(x), 1e6);
            for (size_t j = 0; j < a.size(); j++) r << fx(g.params[j].dist.eval(x), 1e6);
        }
        else if (n == "norm")
        {
            GMM g;
            for (size_t j = 0; j < a.size(); j++) g.params.push_back(GMM::Parameter(a[j], GMM::Vector(0, 0), cov(1, 0, 1)));
            g.normalize();
            for (size_t j = 0; j < g.params.size(); j++) r << fx(g.params[j].weight, 1024);
        }
        else if (n == "draw")
        {
            GMM g;
            for (size_t j = 1; j < a.size(); j++) g.params.push_back(GMM::Parameter(a[j] / 64.0, GMM::Vector(10.0 * j, -5.0 * j), cov(1e-6, 0, 1e-6)));
            GaussianMixtureSampling<GMM> s(g, a[0]);
            std::vector<long> cnt(g.params.size(), 0);
            for (int i = 0; i < 800; i++)
            {
                GMM::Vector v = s.sample();
                for (size_t j = 0; j < cnt.size(); j++)
                    if ((v - g.params[j].dist.mean).norm() < 0.1) cnt[j]++;
            }
            for (size_t j = 0; j < cnt.size(); j++) r << cnt[j];
        }
        else if (n == "drawc")
        {
            GMM g;
            g.params.push_back(GMM::Parameter(1.0, GMM::Vector(a[4], a[5]), cov(a[1], a[2], a[3])));
            GaussianMixtureSampling<GMM> s(g, a[0]);
            Gaussian<double, 2>::Stats st;
            GMM::Vector sum(0, 0);
            double xx = 0, xy = 0, yy = 0;
            std::vector<GMM::Vector> vs;
            for (int i = 0; i < 3000; i++) { vs.push_back(s.sample()); sum += vs.back(); }
            sum /= 3000.0;
            for (size_t i = 0; i < vs.size(); i++)
            {
                GMM::Vector d = vs[i] - sum;
                xx += d[0] * d[0]; xy += d[0] * d[1]; yy += d[1] * d[1];
            }
            r << fx(sum[0], 64) << fx(sum[1], 64) << fx(xx / 3000, 64) << fx(xy / 3000, 64) << fx(yy / 3000, 64);
        }
        else if (n == "em")
        {
            size_t k = a[1], b = 2;
            em->gmm.params.clear();
            em->samples.clear();
            em->weights.clear();
            for (size_t j = 0; j < k; j++, b += 6)
                em->gmm.params.push_back(GMM::Parameter(a[b] / 64.0, GMM::Vector(a[b + 1], a[b + 2]), cov(a[b + 3], a[b + 4], a[b + 5])));
            for (; b + 2 < a.size(); b += 3)
            {
                em->samples.push_back(GMM::Vector(a[b], a[b + 1]));
                if (a[0]) em->weights.push_back(a[b + 2]);
            }
            r << comps(em->gmm);
        }
        else if (n == "step")
        {
            J e;
            for (size_t i = 0; i < em->samples.size(); i++)
            {
                std::vector<double> v;
                double mx = 0;
                for (size_t j = 0; j < em->gmm.params.size(); j++)
                {
                    v.push_back(em->gmm.params[j].dist.eval(em->samples[i]));
                    mx = std::max(mx, v.back());
                }
                J row;
                for (size_t j = 0; j < v.size(); j++) row << fx(mx > 0 ? v[j] / mx : 0.0, 4096);
                e << row;
            }
            double ll = em->step();
            r << fx(ll, 1024) << e << comps(em->gmm);
        }
        else if (n == "run")
        {
            double delta = a[0] / 1024.0;
            EM other(*em);
            em->run(delta, a[1]);
            double last = 0, diff = 1e5;
            for (long i = 0; i < a[1] && diff > delta; i++)
            {
                double ll = other.step();
                diff = std::fabs(ll - last);
                last = ll;
            }
            r << (same(em->gmm, other.gmm) ? 0 : 1) << comps(em->gmm);
        }
    }
};
Component* make_component() { return new C; }
