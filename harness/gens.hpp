// Generators and reference models shared by the harnesses.
#pragma once
#include "pbt.hpp"
#include <AxisCollection.h>
#include <BinAxis.h>
#include <Exceptions.h>
#include <Histogram.h>

using pbt::Ctx;
using pbt::Src;
using pbt::str;
using std::string;
using std::vector;

// Reference description of one axis: contiguous bins given by n+1 edges.
struct RAxis
{
    string name, latex;
    vector<double> e;
    bool uniform = false;
    size_t n() const { return e.size() - 1; }
    // linear scan: the bin whose [low, high) holds x; under/overflow go to the end bins
    size_t find(double x) const
    {
        for (size_t i = 0; i < n(); i++)
            if (x < e[i + 1])
                return i;
        return n() - 1;
    }
    double centre(size_t i) const { return 0.5 * (e[i] + e[i + 1]); }
    double width(size_t i) const { return e[i + 1] - e[i]; }
    BinAxis make() const
    {
        if (uniform)
            return BinAxis(name, e.front(), e.back(), n(), latex);
        return BinAxis(name, vector<double>(e.begin(), e.end() - 1), vector<double>(e.begin() + 1, e.end()), latex);
    }
};
inline string show(const RAxis &a)
{
    std::ostringstream o;
    o << a.name << (a.uniform ? "~" : "") << str(a.e);
    return o.str();
}
// Edges are multiples of 2^-32 and widths of uniform bins multiples of 1/4 so that uniform and variable construction are exact in binary floating point.
inline RAxis genAxis(Src &s, const string &name, size_t maxBins, size_t minBins = 1)
{
    RAxis a;
    a.name = name;
    if (s.chance(1, 4))
        a.latex = "$" + name + "$";
    size_t n = s.size(minBins, maxBins);
    double lo = s.fine(8, 3);
    a.uniform = !s.boolean();
    a.e.push_back(lo);
    double w = s.posdyadic(4, 2);
    for (size_t i = 0; i < n; i++)
    {
        if (!a.uniform)
            w = s.posfine(4, 3);
        a.e.push_back(a.e.back() + w);
    }
    return a;
}
struct RAxes
{
    vector<RAxis> a;
    size_t dims() const { return a.size(); }
    size_t bins() const
    {
        size_t n = a.empty() ? 0 : 1;
        for (auto &x : a)
            n *= x.n();
        return n;
    }
    AxisCollection make() const
    {
        AxisCollection c;
        for (auto &x : a)
            c.AddAxis(x.make());
        return c;
    }
    // row-major reference: enumerate all index tuples in lexicographic order
    vector<vector<size_t>> tuples() const
    {
        vector<vector<size_t>> out;
        vector<size_t> t(dims(), 0);
        if (!dims())
            return out;
        for (;;)
        {
            out.push_back(t);
            size_t d = dims();
            while (d > 0)
            {
                d--;
                if (++t[d] < a[d].n())
                    break;
                t[d] = 0;
                if (d == 0)
                    return out;
            }
        }
    }
    size_t flat(const vector<size_t> &t) const
    { // Horner
        size_t f = 0;
        for (size_t d = 0; d < dims(); d++)
            f = f * a[d].n() + t[d];
        return f;
    }
    vector<size_t> unflat(size_t f) const
    {
        vector<size_t> t(dims());
        for (size_t d = dims(); d-- > 0;)
        {
            t[d] = f % a[d].n();
            f /= a[d].n();
        }
        return t;
    }
    size_t find(const vector<double> &x) const
    {
        vector<size_t> t;
        for (size_t d = 0; d < dims(); d++)
            t.push_back(a[d].find(x[d]));
        return flat(t);
    }
    vector<string> names() const
    {
        vector<string> v;
        for (auto &x : a)
            v.push_back(x.name);
        return v;
    }
    size_t index(const string &n) const
    {
        for (size_t i = 0; i < a.size(); i++)
            if (a[i].name == n)
                return i;
        throw std::runtime_error("RAxes::index");
    }
};
inline string show(const RAxes &a)
{
    string o;
    for (auto &x : a.a)
        o += show(x) + " ";
    return o;
}
// the same number of distinct names of another style: sharing long beginnings, beginning with each other, differing in case, ...
inline vector<string> styled(Src &s, vector<string> pool)
{
    if (!s.chance(1, 6))
        return pool;
    unsigned k = s.below(7);
    bool longer = s.chance(1, 3);
    for (size_t i = 0; i < pool.size(); i++)
    {
        string &n = pool[i];
        switch (k)
        {
        case 0:
            n = string(longer ? 150 : 0, 'n') + "a_name_with_a_beginning_that_is_common_to_all_of_them_" + n;
            break;
        case 1:
            n += "_that_is_continued_by_what_is_common_to_all_of_the_names";
            break;
        case 2:
            n = string(pool.size() - i, 'x');
            break;
        case 3:
        {
            string t = "same";
            for (size_t b = 0; b < t.size(); b++)
                if (i >> b & 1)
                    t[b] = char(std::toupper(t[b]));
            n = t + (i > 15 ? std::to_string(i) : "");
            break;
        }
        case 4:
            n = std::to_string(12 - int(i)); // not ordered as numbers are
            break;
        case 5:
            n = string("obs ") + char('a' + i % 26) + ".(MeV)/" + std::to_string(i);
            break;
        default:
        { // rotations of the same letters
            string t = "abcdefghijklmnop";
            std::rotate(t.begin(), t.begin() + i % t.size(), t.end());
            n = t + (i > 15 ? std::to_string(i) : "");
        }
        }
    }
    return pool;
}
// axis names deliberately not in alphabetical order of position
inline RAxes genAxes(Src &s, size_t minDims, size_t maxDims, size_t maxBins = 5, size_t maxTotal = 300, size_t minBins = 1)
{
    const vector<string> pool = styled(s, {"energy", "radius", "time", "alpha", "z", "beta"});
    size_t d = s.size(minDims, maxDims);
    size_t rot = s.below(pool.size());
    RAxes r;
    size_t total = 1;
    for (size_t i = 0; i < d; i++)
    {
        size_t mb = std::max<size_t>(minBins, std::min(maxBins, maxTotal / total));
        const string &name = pool[(rot + i) % pool.size()];
        if (i && r.a.back().n() <= mb && s.chance(1, 10))
        { // a sibling of the axis before it: same number of bins and range, other or equal inner edges
            RAxis a = r.a.back();
            a.name = name;
            a.latex = "";
            if (a.n() > 1 && s.chance(2, 3))
            {
                a.uniform = false;
                for (size_t j = 1; j < a.n(); j++)
                    a.e[j] += (a.e[j] - a.e[j - 1] > 0.125 || j == 1 ? -0.0625 : 0.0625) * double(s.below(2));
                for (size_t j = 1; j < a.e.size(); j++)
                    if (!(a.e[j] > a.e[j - 1]))
                        a.e = r.a.back().e;
            }
            r.a.push_back(a);
        }
        else
            r.a.push_back(genAxis(s, name, mb, minBins));
        total *= r.a.back().n();
    }
    return r;
}
// a coordinate on an axis: edges, centres, inside, outside
inline double genCoord(Src &s, const RAxis &a)
{
    switch (s.below(6))
    {
    case 0:
        return a.centre(s.below(a.n()));
    case 1:
        return a.e[s.below(a.e.size())];
    case 2:
        return std::nextafter(a.e[s.below(a.e.size())], -1e9);
    case 3:
        return std::nextafter(a.e[s.below(a.e.size())], 1e9);
    case 4:
        return a.e.front() + (a.e.back() - a.e.front()) * s.real(-0.5, 1.5);
    default:
    {
        size_t b = s.below(a.n());
        return a.e[b] + a.width(b) * s.real(0, 1) * 0.999;
    }
    }
}
inline vector<double> genPoint(Src &s, const RAxes &a)
{
    vector<double> v;
    for (auto &x : a.a)
        v.push_back(genCoord(s, x));
    return v;
}
inline vector<double> genContents(Src &s, size_t n, bool nonneg = true, unsigned zeroPct = 15)
{
    vector<double> v(n);
    for (auto &x : v)
    {
        if (s.chance(zeroPct, 100))
            x = 0;
        else
        {
            x = s.posfine(16, 4);
            if (!nonneg && s.boolean())
                x = -x;
        }
    }
    return v;
}
// A change of units: a power of two, so that every quantity which is homogeneous in the changed one must scale exactly.
inline double genUnit(Src &s)
{
    static const int k[] = {20, -20, -34, 34, -50, 50};
    return std::ldexp(1.0, k[s.below(6)]);
}
inline RAxis inUnits(RAxis a, double u)
{
    for (auto &x : a.e)
        x *= u;
    return a;
}
inline vector<double> times(vector<double> v, double u)
{
    for (auto &x : v)
        x *= u;
    return v;
}
const double UREL = 1e-12, UABS = 1e-290; // tolerances for comparing quantities in two units
inline double roundable(double x) { return std::fabs(x) < 1e-200 ? 0 : x; } // keeps subnormal numbers out of a change of units
inline double sum(const vector<double> &v)
{
    double t = 0;
    for (double x : v)
        t += x;
    return t;
}
