// Reference models of shrinking and marginalising a binned distribution.
#pragma once
#include "gens.hpp"

typedef std::map<string, std::pair<unsigned, unsigned>> Buf;
struct Want
{
    RAxes ax;
    vector<double> v;
};
// model of the shrunk distribution
inline Want shrink(const RAxes &ax, const vector<double> &v, const Buf &b, bool over)
{
    Want w;
    vector<size_t> lo(ax.dims()), n(ax.dims());
    for (size_t d = 0; d < ax.dims(); d++)
    {
        RAxis a = ax.a[d];
        auto it = b.find(a.name);
        size_t l = it == b.end() ? 0 : it->second.first, u = it == b.end() ? 0 : it->second.second;
        lo[d] = l;
        n[d] = a.n() - l - u;
        a.e = vector<double>(a.e.begin() + l, a.e.end() - u);
        w.ax.a.push_back(a);
    }
    w.v.assign(w.ax.bins(), 0);
    for (auto &t : ax.tuples())
    {
        vector<size_t> u = t;
        bool in = true;
        for (size_t d = 0; d < t.size(); d++)
        {
            if (t[d] < lo[d])
            {
                in = false;
                u[d] = 0;
            }
            else if (t[d] >= lo[d] + n[d])
            {
                in = false;
                u[d] = n[d] - 1;
            }
            else
                u[d] = t[d] - lo[d];
        }
        if (in || over)
            w.v[w.ax.flat(u)] += v[ax.flat(t)];
    }
    return w;
}
inline bool possible(const RAxes &ax, const Buf &b)
{
    for (auto &a : ax.a)
    {
        auto it = b.find(a.name);
        if (it != b.end() && (it->second.first || it->second.second) && size_t(it->second.first) + it->second.second >= a.n())
            return false;
    }
    return true;
}
inline Want marginal(const Want &w, const vector<size_t> &dims)
{
    Want o;
    for (size_t d : dims)
        o.ax.a.push_back(w.ax.a[d]);
    o.v.assign(o.ax.bins(), 0);
    for (auto &t : w.ax.tuples())
    {
        vector<size_t> u;
        for (size_t d : dims)
            u.push_back(t[d]);
        o.v[o.ax.flat(u)] += w.v[w.ax.flat(t)];
    }
    return o;
}
