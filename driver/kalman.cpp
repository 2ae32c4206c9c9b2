#include <cmath>
#include <envire/tools/Numeric.hpp>
#include "comp.hpp"
struct KalmanC : public Component
{
    void reset() {}
    template <class T> void kal(const Args& a, J& r)
    {
        const double u = std::ldexp(1.0, a[5]);
        T m = u * a[1] / 16.0, d = u * a[2], n = u * a[3] / 16.0, e = u * a[4];
        T m1 = m, d1 = d, m2 = n, d2 = e;
        kalman_update(m1, d1, n, e);
        kalman_update(m2, d2, m, d);
        r << fx(m1 / u, 1024) << fx(d1 / u, 8) << fx(m2 / u, 1024) << fx(d2 / u, 8);
    }
    template <class T> void seq(const Args& a, J& r)
    {
        T m = a[2] / 16.0, d = a[3];
        for (int i = 1; i < a[1]; i++) kalman_update<T>(m, d, a[2] / 16.0, a[3]);
        r << fx(m, 1024) << fx(d, 8);
    }
    void call(const std::string& n, const Args& a, J& r)
    {
        if (n == "sq") r << fx(sq<double>(a[0])) << (long)sq<long>(a[0]);
        else if (n == "kal") { if (a[0] == 1) kal<double>(a, r); else kal<float>(a, r); }
        else { if (a[0] == 1) seq<double>(a, r); else seq<float>(a, r); }
    }
};
Component* make_component() { return new KalmanC; }
