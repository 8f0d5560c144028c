// Exhaustive grid search.
// SRC: core data cut eventSystematic fitutil systematic dist histogram function teststat constraint optimise
#include "gens.hpp"
#include <FitResult.h>
#include <GridSearch.h>
#include <TestStatistic.h>
#include <set>

const char *pbt::kRule =
    "random grids of 1-4 parameters with 1-7 points each (ranges that are and are not multiples of the step) and random tables of "
    "statistic values with ties, zeros and both signs, minimising and maximising, optimisers reused and re-configured; "
    "non-trivial: at least two parameters with two points";

namespace
{
// a statistic given by a table over the grid, recording where it was evaluated
struct TableStat : public TestStatistic
{
    std::map<vector<double>, double> table;
    vector<string> names;
    ParameterDict now;
    std::map<vector<double>, int> seen;
    int outside = 0;
    bool missing = false;
    double Evaluate()
    {
        vector<double> p;
        for (auto &n : names)
            p.push_back(now.at(n));
        seen[p]++;
        auto it = table.find(p);
        if (it == table.end())
        {
            outside++;
            return -1e6;
        }
        return it->second;
    }
    void SetParameters(const ParameterDict &d)
    {
        for (auto &n : names)
            if (!d.count(n))
                missing = true;
        now = d;
    }
    ParameterDict GetParameters() const
    {
        ParameterDict d;
        for (auto &n : names)
            d[n] = -77;
        return d;
    }
    std::set<string> GetParameterNames() const { return std::set<string>(names.begin(), names.end()); }
    size_t GetParameterCount() const { return names.size(); }
    void RegisterFitComponents() { registered++; }
    int registered = 0;
};
struct Grid
{
    vector<string> names;
    vector<vector<double>> pts;
    ParameterDict lo, hi, step;
    size_t size() const
    {
        size_t n = 1;
        for (auto &p : pts)
            n *= p.size();
        return n;
    }
};
Grid genGrid(Src &s, size_t maxTotal)
{
    const vector<string> pool = styled(s, {"a", "b", "zeta", "m", "alpha"});
    Grid g;
    auto perm = s.permutation(pool.size());
    size_t d = s.size(1, 4), total = 1;
    for (size_t i = 0; i < d; i++)
    {
        string n = pool[perm[i]];
        g.names.push_back(n);
        double lo = s.dyadic(6, 2), st = s.posdyadic(3, 2);
        size_t np = 1 + s.below(std::max<size_t>(1, std::min<size_t>(maxTotal > 1000 ? 30 : 7, maxTotal / total)));
        total *= np;
        double hi = lo + double(np - 1) * st;
        vector<double> p;
        for (size_t k = 0; k < np; k++)
            p.push_back(lo + double(k) * st);
        if (s.boolean())
            hi += st * (double(s.below(4)) / 4.); // the range need not be a multiple of the step
        if (s.chance(1, 6))
        { // in another unit
            double u = genUnit(s);
            lo *= u, hi *= u, st *= u;
            p = times(p, u);
        }
        g.lo[n] = lo;
        g.hi[n] = hi;
        g.step[n] = st;
        g.pts.push_back(p);
    }
    return g;
}
void fillTable(Src &s, const Grid &g, TableStat &t)
{
    t.names = g.names;
    t.table.clear();
    t.seen.clear();
    double offset = s.pick(vector<double>{0, -50, 50});
    bool single = s.boolean(); // one extreme point anywhere, all others equal; or random everywhere
    size_t n = g.size(), at = s.below(n);
    double spike = s.fine(20, 1), base = s.fine(3, 0);
    double unit = s.chance(1, 4) ? genUnit(s) : 1;
    for (size_t k = 0; k < n; k++)
    {
        vector<double> p;
        size_t r = k;
        for (auto &ax : g.pts)
        {
            p.push_back(ax[r % ax.size()]);
            r /= ax.size();
        }
        double v = single ? (k == at ? base + spike : base) : s.fine(9, 0);
        t.table[p] = (v + offset) * unit;
    }
}
} // namespace

FACET(search, 6)
{
    GridSearch gs;
    size_t rounds = s.size(1, 3);
    for (size_t round = 0; round < rounds; round++)
    {
        Grid g = genGrid(s, s.chance(1, 60) ? 20000 : 60);
        c.tag("over-1000-points", g.size() > 1000);
        c.tag("over-5000-points", g.size() > 5000);
        TableStat t;
        fillTable(s, g, t);
        bool maxi = s.boolean();
        gs.SetMinima(g.lo);
        gs.SetMaxima(g.hi);
        gs.SetStepSizes(g.step);
        gs.SetMaximising(maxi);
        c.desc << (maxi ? " maximise " : " minimise ") << "min " << str(g.lo) << " max " << str(g.hi) << " step " << str(g.step);
        size_t big = 0;
        for (auto &p : g.pts)
            big += p.size() > 1;
        c.nontrivial = c.nontrivial || big > 1;
        c.tag("maximising", maxi);
        c.tag("one-point", g.size() == 1);
        c.tag("reused", round > 0);
        c.ok("config", gs.GetMinima() == g.lo && gs.GetMaxima() == g.hi && gs.GetStepSizes() == g.step && gs.GetMaximising() == maxi);
        double best = 0;
        bool first = true;
        for (auto &e : t.table)
        {
            if (first || (maxi ? e.second > best : e.second < best))
                best = e.second;
            first = false;
        }
        const FitResult &r = gs.Optimise(&t);
        c.ok("registered", t.registered > 0, "fit components registered");
        c.ok("all-parameters-set", !t.missing);
        c.eq("inside-the-grid", t.outside, 0);
        for (auto &e : t.table)
            c.ok("every-point", t.seen.count(e.first), "point " + str(e.first) + " was not evaluated");
        c.ok("best-fit-parameters", r.GetBestFit().size() == g.names.size(), "best fit " + str(r.GetBestFit()));
        vector<double> p;
        for (auto &n : g.names)
        {
            c.ok("best-fit-names", r.GetBestFit().count(n));
            p.push_back(r.GetBestFit().at(n));
        }
        c.ok("best-fit-on-grid", t.table.count(p), str(p));
        c.near("best-fit-is-extreme", t.table[p], best, UREL, UABS, "at " + str(p));
        c.near("extreme-value", r.GetExtremeVal(), best, UREL, UABS);
        c.ok("valid", r.GetValid());
        FitResult again = gs.GetFitResult();
        c.ok("get-fit-result", again.GetBestFit() == r.GetBestFit() && again.GetExtremeVal() == r.GetExtremeVal());
    }
}
FACET(refusals, 2)
{
    Grid g = genGrid(s, 20);
    TableStat t;
    fillTable(s, g, t);
    string n = s.pick(g.names);
    ParameterDict lo = g.lo, hi = g.hi, st = g.step;
    int kind = s.below(6);
    c.nontrivial = true;
    c.desc << "kind " << kind << " parameter " << n << " of " << str(g.names);
    if (kind == 0)
        s.pick(vector<ParameterDict *>{&lo, &hi, &st})->erase(n);
    else if (kind == 1)
        (*s.pick(vector<ParameterDict *>{&lo, &hi, &st}))["other"] = 1;
    else if (kind == 2)
        st[n] = 0;
    else if (kind == 3)
        st[n] = -s.posdyadic(3, 2);
    else if (kind == 4)
        hi[n] = lo[n] - s.posdyadic(3, 2) * st[n];
    else
    {
        double v = lo[n];
        lo.erase(n);
        lo["other"] = v; // same number of parameters, different names
    }
    GridSearch gs;
    gs.SetMinima(lo);
    gs.SetMaxima(hi);
    gs.SetStepSizes(st);
    c.throws<OXSXException>("inconsistent-ranges", [&] { gs.Optimise(&t); });
    c.eq("nothing-evaluated", t.seen.size(), size_t(0));
    gs.SetMinima(g.lo);
    gs.SetMaxima(g.hi);
    gs.SetStepSizes(g.step);
    gs.Optimise(&t); // usable after a refusal
    c.eq("all-points", t.seen.size(), t.table.size());
}
