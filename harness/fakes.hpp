// Stand-in functions with a known closed form, used where the real classes need ROOT.
#pragma once
#include "gens.hpp"
#include <PDF.h>

// f(x) = s + sum_i w_i x_i^2 ; position-dependent weights so that swapped observables are noticed
struct FakePDF : public PDF
{
    size_t n;
    string par, name;
    double scale;
    FakePDF(size_t n_, double s_, const string &par_ = "s") : n(n_), par(par_), name("fake"), scale(s_) {}
    static double value(size_t n, double s, const vector<double> &x)
    {
        double v = s;
        for (size_t i = 0; i < n; i++)
            v += double(2 * i + 1) * x[i] * x[i];
        return v;
    }
    Function *Clone() const { return new FakePDF(*this); }
    double operator()(const vector<double> &x) const
    {
        if (x.size() != n)
            throw DimensionError("FakePDF", int(n), int(x.size()));
        return value(n, scale, x);
    }
    size_t GetNDims() const { return n; }
    double Integral(const vector<double> &, const vector<double> &) const { return 1; }
    vector<double> Sample() const { return vector<double>(n, 0); }
    void check(const string &p) const
    {
        if (p != par)
            throw NotFoundError("FakePDF has no parameter " + p);
    }
    void SetParameter(const string &p, double v)
    {
        check(p);
        scale = v;
    }
    double GetParameter(const string &p) const
    {
        check(p);
        return scale;
    }
    void SetParameters(const ParameterDict &d)
    {
        auto it = d.find(par);
        if (it == d.end())
            throw ParameterError("FakePDF: missing " + par);
        scale = it->second;
    }
    ParameterDict GetParameters() const { return ParameterDict{{par, scale}}; }
    size_t GetParameterCount() const { return 1; }
    std::set<string> GetParameterNames() const { return {par}; }
    void RenameParameter(const string &o, const string &nn)
    {
        check(o);
        par = nn;
    }
    string GetName() const { return name; }
    void SetName(const string &s) { name = s; }
};
