// Stand-in for the external EHVI library (not installed): the same interface,
// and the exact expected hypervolume improvement of two maximised objectives
// with independent normal predictions.
#pragma once
#include <algorithm>
#include <cmath>
#include <deque>
#include <vector>

struct individual {
    double f[3];
};

namespace ehvi_stub {
    inline double cdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
    inline double pdf(double x) { return std::exp(-0.5 * x * x) / std::sqrt(2 * M_PI); }
    // E[(X - a)+], X normal
    inline double part(double a, double mu, double s)
    {
        if (!(s > 0))
            return std::max(mu - a, 0.0);
        double z = (mu - a) / s;
        return s * pdf(z) + (mu - a) * cdf(z);
    }
    inline double ehvi(std::vector<std::pair<double, double>> p, const double* r, const double* mu, const double* s)
    {
        // the staircase of the front, from left to right: strips [x_i, x_i+1) whose floor is y_i+1
        std::vector<std::pair<double, double>> q;
        std::sort(p.begin(), p.end());
        for (size_t i = 0; i < p.size(); i++)
            if (p[i].first > r[0] && p[i].second > r[1])
                q.push_back(p[i]);
        double v = 0, left = r[0];
        for (size_t i = 0; i <= q.size(); i++) {
            double floor = r[1];
            for (size_t k = i; k < q.size(); k++)
                floor = std::max(floor, q[k].second);
            // E[(min(X, right) - left)+] * E[(Y - floor)+]
            double w = part(left, mu[0], s[0]) - (i < q.size() ? part(q[i].first, mu[0], s[0]) : 0);
            v += w * part(floor, mu[1], s[1]);
            if (i < q.size())
                left = q[i].first;
        }
        return v;
    }
}
inline double ehvi2d(const std::deque<individual*>& pop, double r[], double mu[], double s[])
{
    std::vector<std::pair<double, double>> p;
    for (auto i : pop)
        p.push_back({i->f[0], i->f[1]});
    return ehvi_stub::ehvi(p, r, mu, s);
}
