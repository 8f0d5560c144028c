// Convolution kernels with a closed-form integral.
#pragma once
#include "gens.hpp"
#include <ConditionalPDF.h>
#include <PDF.h>

inline double cdf(double x, double m, double w) { return 1 / (1 + std::exp(-(x - m) / w)); }
// product of logistic densities; a different mean and width per dimension so that swapped axes are noticed
struct Kernel
{
    size_t n;
    double m, w, slope; // slope: dependence of the mean on the original position (conditional kernels)
    double integral(const vector<double> &lo, const vector<double> &hi, const vector<double> &x2, double shift) const
    {
        double v = 1;
        for (size_t i = 0; i < n; i++)
        {
            double mean = shift * x2[i] + m * double(i + 1) + slope * x2[i], width = w * (1 + 0.5 * double(i));
            v *= cdf(hi[i], mean, width) - cdf(lo[i], mean, width);
        }
        return v;
    }
};
template <class Base>
struct KernelParams : public Base
{
    Kernel k;
    string pm = "m", pw = "w", name = "kernel";
    double &at(const string &p)
    {
        if (p == pm)
            return k.m;
        if (p == pw)
            return k.w;
        throw NotFoundError("kernel: no parameter " + p);
    }
    void SetParameter(const string &p, double v) { at(p) = v; }
    double GetParameter(const string &p) const { return const_cast<KernelParams *>(this)->at(p); }
    void SetParameters(const ParameterDict &d)
    {
        if (!d.count(pm) || !d.count(pw))
            throw ParameterError("kernel: incomplete");
        k.m = d.at(pm);
        k.w = d.at(pw);
    }
    ParameterDict GetParameters() const { return ParameterDict{{pm, k.m}, {pw, k.w}}; }
    size_t GetParameterCount() const { return 2; }
    std::set<string> GetParameterNames() const { return {pm, pw}; }
    void RenameParameter(const string &o, const string &n)
    {
        at(o);
        (o == pm ? pm : pw) = n;
    }
    string GetName() const { return name; }
    void SetName(const string &s) { name = s; }
};
struct FakeJump : public KernelParams<PDF>
{
    Function *Clone() const { return new FakeJump(*this); }
    double operator()(const vector<double> &) const { return 0; }
    size_t GetNDims() const { return k.n; }
    double Integral(const vector<double> &lo, const vector<double> &hi) const
    {
        if (lo.size() != k.n || hi.size() != k.n)
            throw DimensionError("FakeJump", int(k.n), int(lo.size()));
        return k.integral(lo, hi, vector<double>(k.n, 0), 0);
    }
    vector<double> Sample() const { return vector<double>(k.n, 0); }
};
struct FakeConditional : public KernelParams<ConditionalPDF>
{
    ConditionalPDF *Clone() const { return new FakeConditional(*this); }
    double ConditionalProbability(const vector<double> &, const vector<double> &) { return 0; }
    double Integral(const vector<double> &lo, const vector<double> &hi, const vector<double> &x2) const
    {
        if (lo.size() != k.n || hi.size() != k.n || x2.size() != k.n)
            throw DimensionError("FakeConditional", int(k.n), int(lo.size()));
        return k.integral(lo, hi, x2, 1);
    }
    vector<double> Sample(const vector<double> &x) const { return x; }
};
