// Bayesian interval calculator.
// SRC: core data dist histogram function interval
#include "gens.hpp"
#include <BayesIntervalCalc.h>

const char *pbt::kRule =
    "random one-dimensional posteriors with empty, dominant and equal bins and random credibility levels including the exact "
    "cumulative sums, and random counting experiments; non-trivial: at least two bins with content, or a non-zero expectation and count";

namespace
{
// P(N <= n | mu), by summation
double poissonCdf(int n, double mu)
{
    double t = std::exp(-mu), r = 0;
    for (int k = 0; k <= n; k++)
    {
        r += t;
        t *= mu / (k + 1);
    }
    return r;
}
double coverage(double b, int n, double s)
{ // flat prior on s >= 0: 1 - P(<=n | b+s) / P(<=n | b)
    return 1 - poissonCdf(n, b + s) / poissonCdf(n, b);
}
} // namespace

FACET(posterior, 5)
{
    RAxes ax;
    ax.a.push_back(genAxis(s, "rate", 8));
    const RAxis &a = ax.a[0];
    size_t n = a.n();
    vector<double> v(n, 0);
    double total = 0;
    for (auto &x : v)
    {
        x = s.chance(1, 4) ? 0 : double(s.size(1, 16));
        if (s.chance(1, 12)) // all but negligible, or all but everything
            x *= std::exp2(s.boolean() ? 20 : -20);
        total += x;
    }
    if (total == 0)
    {
        Histogram h(ax.make());
        c.throws<ValueError>("empty", [&] { BayesIntervalCalc::UpperBound(h, 0.5); });
        return;
    }
    // a level that is exactly a cumulative probability, or in between
    double cl = s.real(0.001, 0.999);
    size_t at = s.below(n);
    double cum = 0;
    for (size_t i = 0; i <= at; i++)
        cum += v[i];
    bool exact = s.chance(1, 3) && cum > 0 && cum < total;
    if (exact && s.boolean())
    { // make it a sum without rounding errors: a total of a power of two, in a bin after the next, with nothing between
        double whole = std::exp2(std::ceil(std::log2(total + 1)));
        if (at + 2 < n)
        {
            total -= v[at + 1];
            v[at + 1] = 0;
            v[n - 1] += whole - total;
            total = whole;
        }
        c.tag("exact-then-empty", at + 2 < n);
    }
    if (exact)
        cl = cum / total;
    else if (s.chance(1, 4) && cum > 0 && cum < total)
    { // just beside it
        cl = cum / total + (s.boolean() ? 1 : -1) * std::exp2(-double(s.range(12, 28)));
        if (!(cl > 0 && cl < 1))
            cl = 0.5;
        c.tag("beside-cumulative");
    }
    // an unnormalised posterior is as good, be it far or nearly normalised
    double scale = s.chance(1, 3) ? (1 + std::ldexp(double(s.range(-64, 64)), -12)) / total : s.pick(vector<double>{1, 0.125, 64});
    Histogram h(ax.make());
    vector<double> sv = v;
    for (auto &x : sv)
        x *= scale;
    h.SetBinContents(sv);
    c.desc << show(ax) << str(v) << " cl " << cl;
    size_t filled = 0;
    for (double x : v)
        filled += x > 0;
    c.nontrivial = filled > 1;
    c.tag("exact-cumulative", exact);
    double lim = BayesIntervalCalc::UpperBound(h, cl);
    c.ok("finite", std::isfinite(lim));
    c.ok("in-range", lim >= a.e.front() - 1e-9 && lim <= a.e.back() + 1e-9, std::to_string(lim));
    // integral of the piecewise constant density up to the limit is the credibility level
    double got = 0;
    for (size_t i = 0; i < n; i++)
    {
        double f = (lim - a.e[i]) / a.width(i);
        got += v[i] / total * std::min(1., std::max(0., f));
    }
    c.near("coverage", got, cl, 1e-9, 1e-9, "limit " + std::to_string(lim));
    { // in other units
        double u = genUnit(s), w = genUnit(s);
        Histogram g(AxisCollection([&] {
            RAxes q = ax;
            q.a[0] = inUnits(a, u);
            return q.make();
        }()));
        g.SetBinContents(times(sv, w));
        c.near("units", BayesIntervalCalc::UpperBound(g, cl), lim * u, UREL, 1e-13 * (a.e.back() - a.e.front()) * u, "axis times " + std::to_string(u));
    }
    // monotonic in the level
    double cl2 = s.real(0.001, 0.999), lim2 = BayesIntervalCalc::UpperBound(h, cl2);
    c.ok("monotonic", cl2 >= cl ? lim2 >= lim - 1e-9 : lim2 <= lim + 1e-9, std::to_string(cl2) + " gives " + std::to_string(lim2));
    c.nearv("posterior-unchanged", h.GetBinContents(), sv, 0, 0);
}
// more bins than fit in 16 bits; content at both ends
ONCE(many_bins)
{
    c.nontrivial = true;
    for (size_t n : {300, 5000, 70000})
    {
        Histogram h(AxisCollection([&] {
            AxisCollection x;
            x.AddAxis(BinAxis("rate", 0, double(n), n));
            return x;
        }()));
        vector<double> v(n);
        double total = 0;
        for (size_t i = 0; i < n; i++)
            total += v[i] = double(i * 7 % 5) + (i == n - 1 ? double(n) : 0);
        h.SetBinContents(v);
        c.desc << n << " bins ";
        for (double cl : {1e-6, 0.05, 0.5, 0.61, 0.66, 0.9, 0.999999})
        {
            double lim = BayesIntervalCalc::UpperBound(h, cl), got = 0;
            for (size_t i = 0; i < n; i++)
                got += v[i] / total * std::min(1., std::max(0., lim - double(i)));
            c.near("coverage-many", got, cl, 1e-9, 1e-9, "limit " + std::to_string(lim));
        }
    }
}
FACET(posterior_refusals, 1)
{
    RAxes ax = genAxes(s, 1, 2, 4);
    Histogram h(ax.make());
    vector<double> v = genContents(s, ax.bins(), true, 0);
    h.SetBinContents(v);
    c.desc << show(ax);
    c.nontrivial = ax.bins() > 1;
    if (ax.dims() > 1)
    {
        c.throws<DimensionError>("dimensions", [&] { BayesIntervalCalc::UpperBound(h, 0.9); });
        return;
    }
    c.throws<ValueError>("cl-zero", [&] { BayesIntervalCalc::UpperBound(h, 0); });
    c.throws<ValueError>("cl-negative", [&] { BayesIntervalCalc::UpperBound(h, -s.posdyadic(1, 3)); });
    c.throws<ValueError>("cl-above-one", [&] { BayesIntervalCalc::UpperBound(h, 1 + s.posdyadic(1, 3)); });
}
FACET(counting, 4)
{
    double b = s.boolean() ? std::fabs(s.dyadic(12, 2)) : s.real(0, 40);
    int n = int(s.below(25));
    double tol = s.pick(vector<double>{0.02, 0.005, 0.05});
    double cl = s.real(0.05, 0.99);
    c.desc << "expected " << b << " observed " << n << " cl " << cl << " tolerance " << tol;
    c.nontrivial = b > 0 && n > 0;
    // the coverage formula, wherever the truncated probability is not lost to rounding in the reference sum
    double up = s.real(0, 30);
    c.near("coverage-formula", BayesIntervalCalc::OneSidedUpperInterval(b, n, up), coverage(b, n, up), 1e-6, 1e-6, "up to " + std::to_string(up));
    c.near("coverage-zero", BayesIntervalCalc::OneSidedUpperInterval(b, n, 0), 0, 0, 1e-9);
    c.near("coverage-all", BayesIntervalCalc::OneSidedUpperInterval(b, n, 400), 1, 0, 1e-9);
    double lim = BayesIntervalCalc::UpperBound(b, n, cl, tol);
    c.ok("limit-positive", lim >= 0);
    c.near("limit-covers", coverage(b, n, lim), cl, 0, tol * (1 + 1e-9));
    // first point of the scan that is close enough
    if (lim > 1.5 * tol)
        c.ok("limit-is-first", coverage(b, n, lim - tol) < cl - tol + 1e-9, "an earlier limit covers as well");
    double more = BayesIntervalCalc::UpperBound(b, n + 1, cl, tol);
    c.ok("monotonic-in-count", coverage(b, n, more) >= coverage(b, n, lim) - 2 * tol - 1e-9);
    if (cl + 2.5 * tol < 0.99)
        c.ok("monotonic-in-level", BayesIntervalCalc::UpperBound(b, n, cl + 2.5 * tol, tol) >= lim);
}
FACET(counting_refusals, 1)
{
    double b = std::fabs(s.dyadic(12, 2));
    int n = int(s.below(25));
    c.nontrivial = true;
    double bad = s.pick(vector<double>{0, -0.5, 1, 1.5});
    double pos = s.posdyadic(3, 2);
    c.desc << "expected " << b << " observed " << n << " bad level " << bad;
    c.throws<ValueError>("level", [&] { BayesIntervalCalc::UpperBound(b, n, bad, 0.01); });
    c.throws<ValueError>("tolerance", [&] { BayesIntervalCalc::UpperBound(b, n, 0.9, s.boolean() ? 0 : -0.01); });
    c.throws<ValueError>("count", [&] { BayesIntervalCalc::UpperBound(b, -1 - int(s.below(3)), 0.9, 0.01); });
    c.throws<ValueError>("expectation", [&] { BayesIntervalCalc::UpperBound(-pos, n, 0.9, 0.01); });
}
