// Stand-in for Minuit2: records what it is handed and does a simple pattern search inside the limits.
#ifndef OXSX_VERIF_MINUIT2
#define OXSX_VERIF_MINUIT2
#include <algorithm>
#include <cmath>
#include <set>
#include <string>
#include <vector>
namespace ROOT
{
namespace Minuit2
{
struct FCNBase
{
    virtual ~FCNBase() {}
    virtual double Up() const = 0;
    virtual double operator()(const std::vector<double> &) const = 0;
};
struct MnUserParameters
{
    std::vector<double> v, e, lo, hi;
    std::vector<bool> limited;
    MnUserParameters(const std::vector<double> &v_, const std::vector<double> &e_) : v(v_), e(e_), lo(v_.size()), hi(v_.size()), limited(v_.size(), false) {}
    void SetLimits(unsigned i, double l, double h)
    {
        lo.at(i) = l;
        hi.at(i) = h;
        limited.at(i) = true;
    }
};
struct MnStrategy
{
    unsigned s;
    MnStrategy(unsigned s_) : s(s_) {}
};
struct MnUserCovariance
{
    std::vector<double> d;
    const std::vector<double> &Data() const { return d; }
};
struct FunctionMinimum
{
    bool valid;
    double f;
    MnUserCovariance c;
    bool IsValid() const { return valid; }
    double Fval() const { return f; }
    MnUserCovariance UserCovariance() const { return c; }
};
struct MnApplication
{
    struct Record
    {
        std::string method;
        MnUserParameters start{{}, {}};
        unsigned strategy = 0, maxCalls = 0;
        double tolerance = 0, up = 0, fval = 0;
        std::set<unsigned> fixed;
        std::vector<double> best;
        FunctionMinimum min{true, 0, {}};
    };
    static Record &Last()
    {
        static Record r;
        return r;
    }
    static bool &NextValid()
    {
        static bool b = true;
        return b;
    }
    const FCNBase &fF;
    MnUserParameters p;
    std::set<unsigned> fixed;
    std::string method;
    unsigned strategy;
    MnApplication(const FCNBase &f, const MnUserParameters &p_, const MnStrategy &s, const char *m) : fF(f), p(p_), method(m), strategy(s.s) {}
    virtual ~MnApplication() {}
    void Fix(unsigned i) { fixed.insert(i); }
    const std::vector<double> &Params() const { return Last().best; }
    FunctionMinimum operator()(unsigned maxfcn, double tol)
    {
        Record &r = Last();
        r = Record();
        r.method = method;
        r.start = p;
        r.strategy = strategy;
        r.maxCalls = maxfcn;
        r.tolerance = tol;
        r.up = fF.Up();
        r.fixed = fixed;
        std::vector<double> x = p.v;
        double best = fF(x);
        std::vector<double> step = p.e;
        for (int it = 0; it < 90; it++)
            for (size_t i = 0; i < x.size(); i++)
            {
                if (fixed.count(unsigned(i)))
                    continue;
                bool moved = false;
                for (int sg = -1; sg <= 1; sg += 2)
                {
                    std::vector<double> y = x;
                    y[i] += sg * step[i];
                    if (p.limited[i])
                        y[i] = std::min(p.hi[i], std::max(p.lo[i], y[i]));
                    double f = fF(y);
                    if (f < best)
                    {
                        best = f;
                        x = y;
                        moved = true;
                        break;
                    }
                }
                if (moved)
                    step[i] *= 2;
                else
                    step[i] /= 2;
            }
        r.best = x;
        r.fval = best;
        size_t n = x.size() - fixed.size();
        r.min.valid = NextValid();
        r.min.f = best;
        for (size_t k = 0; k < n * (n + 1) / 2; k++)
            r.min.c.d.push_back(1 + double(k) * 0.5);
        return r.min;
    }
};
struct MnMigrad : public MnApplication
{
    MnMigrad(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s) : MnApplication(f, p, s, "Migrad") {}
};
struct MnMinimize : public MnApplication
{
    MnMinimize(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s) : MnApplication(f, p, s, "Minimize") {}
};
struct MnSimplex : public MnApplication
{
    MnSimplex(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s) : MnApplication(f, p, s, "Simplex") {}
};
} // namespace Minuit2
} // namespace ROOT
#endif
