// Generated data sets and distributions: DataSetGenerator, BinnedEDGenerator, Rand, against the stand-in random source.
// SRC: core data dist histogram function cut
// EXTRA: Rand.cpp DataSetGenerator.cpp BinnedEDGenerator.cpp
#include "fakes.hpp"
#include <BinnedED.h>
#include <BinnedEDGenerator.h>
#include <DataSetGenerator.h>
#include <Event.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <Rand.h>
#include <memory>

const char *pbt::kRule =
    "random source sets of labelled entries, rates, bootstrap and sequential settings, cuts and random streams (fair ones, and ones "
    "which keep close to the ends of the unit interval), random histories of expected, fluctuated, remaining and reset draws; random "
    "binned distributions and rates; non-trivial: at least two entries drawn from a set with at least two";

namespace
{
struct Sets
{
    vector<OXSXDataSet> d;
    vector<vector<double>> v; // cut variable of each entry
    vector<DataSet *> ptr()
    {
        vector<DataSet *> p;
        for (auto &x : d)
            p.push_back(&x);
        return p;
    }
    size_t n(size_t i) const { return v[i].size(); }
};
void genSets(Src &s, Sets &r, size_t lo = 0, size_t k = 0)
{
    k = k ? k : s.size(1, 3);
    for (size_t i = 0; i < k; i++)
    {
        size_t n = s.chance(1, 6) ? s.size(30, 120) : s.size(lo, 9);
        OXSXDataSet d;
        d.SetObservableNames({"set", "index", "value"});
        r.v.emplace_back();
        for (size_t j = 0; j < n; j++)
        {
            r.v[i].push_back(s.fine(4, 1));
            d.AddEntry(Event(vector<double>{double(i), double(j), r.v[i][j]}));
        }
        r.d.push_back(d);
    }
}
// label of an entry of a generated set
std::pair<size_t, size_t> label(Ctx &c, const Sets &r, const Event &e)
{
    vector<double> x = e.GetData();
    c.eq("entry-size", x.size(), size_t(3));
    size_t i = size_t(x[0]), j = size_t(x[1]);
    c.ok("entry-is-of-a-source", i < r.d.size() && j < r.n(i) && x[2] == r.v[i][j], str(x));
    return {i, j};
}
vector<vector<size_t>> split(Ctx &c, const Sets &r, const OXSXDataSet &d)
{
    vector<vector<size_t>> o(r.d.size());
    for (size_t k = 0; k < d.GetNEntries(); k++)
    {
        auto l = label(c, r, d.GetEntry(k));
        o[l.first].push_back(l.second);
    }
    return o;
}
bool within(double got, double p, double n) { return std::fabs(got - n * p) <= 7 * std::sqrt(n * p * (1 - p)) + 1e-9; }
} // namespace

FACET(draws, 8)
{
    Sets r;
    genSets(s, r);
    size_t k = r.d.size();
    unsigned seed = unsigned(s.below(100000));
    bool extreme = s.chance(1, 3), withCut = s.chance(1, 3);
    double cutAt = s.fine(4, 1);
    auto passes = [&](size_t i, size_t j) { return !withCut || r.v[i][j] > cutAt; };
    vector<double> rate(k);
    vector<bool> boot(k), seq(k);
    DataSetGenerator g;
    bool added = s.boolean();
    if (added && s.boolean())
    { // the generator had other sets before
        Sets old;
        genSets(s, old, 1);
        for (size_t i = 0; i < old.d.size(); i++)
            g.AddDataSet(&old.d[i], double(s.below(old.n(i) + 1)), s.boolean());
        g.SetBootstrap(vector<bool>(old.d.size(), s.boolean()));
        g.ExpectedRatesDataSet();
        g.ClearDataSets();
        c.desc << "after " << old.d.size() << " others ";
    }
    else if (!added && s.boolean())
    { // the same number of other sets, which are then replaced
        Sets old;
        genSets(s, old, 1, k);
        vector<double> oldRate;
        vector<bool> oldSeq;
        for (size_t i = 0; i < k; i++)
        {
            oldRate.push_back(double(s.below(old.n(i) + 1)));
            oldSeq.push_back(s.boolean());
        }
        g.SetDataSets(old.ptr());
        g.SetExpectedRates(oldRate);
        g.SetSequentialFlags(oldSeq);
        g.SetBootstrap(vector<bool>(k, false));
        g.ExpectedRatesDataSet();
        c.desc << "replacing as many others ";
    }
    for (size_t i = 0; i < k; i++)
    {
        rate[i] = double(s.below(r.n(i) + 1)) + s.pick(vector<double>{0, 0.25, -0.25, 0.4, 0.5, -0.5});
        if (rate[i] < 0)
            rate[i] = 0;
        boot[i] = s.chance(1, 3);
        seq[i] = s.chance(1, 3);
        c.desc << "[" << r.n(i) << " entries, rate " << rate[i] << (boot[i] ? " bootstrap" : "") << (seq[i] ? " sequential" : "") << "] ";
    }
    if (added)
        for (size_t i = 0; i < k; i++)
            g.AddDataSet(&r.d[i], rate[i], seq[i]);
    else
    {
        g.SetDataSets(r.ptr());
        g.SetExpectedRates(rate);
        g.SetSequentialFlags(seq);
    }
    if (g.GetBootstrap().empty())
    {
        c.throws<NotFoundError>("bootstrap-unset", [&] { g.ExpectedRatesDataSet(); });
        g.Reset();
    }
    g.SetBootstrap(boot);
    c.ok("bootstrap-kept", g.GetBootstrap() == boot);
    c.ok("sequential-kept", g.GetSequentialFlags() == seq);
    if (withCut)
    {
        g.AddCut(LineCut("cut", "value", cutAt, "lower"));
        c.desc << "cut above " << cutAt << " ";
    }
    c.desc << "seed " << seed << (extreme ? " extreme" : "");
    TRandom3::extreme() = extreme;
    Rand::SetSeed(seed);
    // model: entries known to be drawn, number drawn, next sequential one
    vector<std::set<size_t>> drawn(k);
    vector<size_t> taken(k, 0);
    vector<bool> random(k, false);
    auto reset = [&] {
        drawn.assign(k, {});
        taken.assign(k, 0);
        random.assign(k, false);
    };
    size_t steps = s.size(1, 6), most = 0;
    for (size_t step = 0; step < steps; step++)
    {
        switch (s.below(6))
        {
        case 0:
        case 1:
        case 2:
        {
            bool fluct = s.chance(1, 3);
            c.desc << (fluct ? " | fluctuated" : " | expected");
            vector<int> ev(2, 77);
            bool want = s.chance(3, 4);
            OXSXDataSet out;
            bool refused = false;
            try
            {
                if (fluct)
                    out = g.PoissonFluctuatedDataSet(want ? &ev : nullptr);
                else
                    out = g.ExpectedRatesDataSet(want ? &ev : nullptr);
            }
            catch (const NotFoundError &)
            {
                refused = true;
            }
            bool must = false, may = fluct;
            for (size_t i = 0; i < k; i++)
            {
                size_t n = size_t(std::round(rate[i]));
                if (!fluct && (boot[i] ? r.n(i) == 0 && n > 0 : n > r.n(i) - taken[i]))
                    must = true;
                if (r.n(i) == 0 && (boot[i] || seq[i]))
                    may = true;
            }
            c.ok("refused-only-if-short", !refused || must || may, "refused although every set has enough entries left");
            c.ok("short-is-refused", refused || !must, "more entries than are left were given out");
            if (refused)
            { // which of the sets were drawn from before is open: start afresh
                c.tag("refused");
                g.Reset();
                reset();
                break;
            }
            c.ok("names", out.GetObservableNames() == r.d[0].GetObservableNames());
            auto o = split(c, r, out);
            for (size_t i = 0; i < k; i++)
            {
                size_t n = size_t(std::round(rate[i]));
                if (fluct)
                {
                    if (!want)
                        n = size_t(-1);
                    else
                        n = size_t(ev.at(i));
                }
                if (want)
                {
                    c.eq("taken-size", ev.size(), k);
                    c.eq("taken", size_t(ev[i]), n);
                }
                if (n != size_t(-1))
                {
                    if (!withCut)
                        c.eq("count", o[i].size(), n, "set " + std::to_string(i));
                    else
                        c.ok("count-cut", o[i].size() <= n);
                    if (n > 1 && r.n(i) > 1)
                        most = std::max(most, n);
                }
                for (size_t j : o[i])
                    c.ok("cut", passes(i, j), "an entry which fails the cut");
                if (boot[i])
                    continue;
                for (size_t j : o[i])
                    c.ok("drawn-twice", drawn[i].insert(j).second, "set " + std::to_string(i) + " entry " + std::to_string(j));
                if (n == size_t(-1))
                { // fluctuated without asking for the numbers
                    n = o[i].size();
                    if (withCut)
                    {
                        g.Reset();
                        reset();
                        break;
                    }
                }
                if (seq[i] && !random[i])
                { // in the order of the source
                    vector<size_t> w;
                    for (size_t j = taken[i]; j < taken[i] + n; j++)
                        if (passes(i, j))
                            w.push_back(j);
                    c.ok("sequential-order", o[i] == w, "got " + str(o[i]) + " want " + str(w));
                }
                taken[i] += n;
                if (n && !seq[i])
                    random[i] = true;
                c.ok("no-more-than-there-are", taken[i] <= r.n(i));
            }
            break;
        }
        case 3:
        {
            size_t i = s.below(k);
            c.desc << " | remaining " << i;
            int t = -5;
            std::unique_ptr<OXSXDataSet> d(g.AllRemainingEvents(i, &t));
            c.eq("remaining-count", size_t(t), r.n(i) - taken[i]);
            c.eq("remaining-size", size_t(d->GetNEntries()), r.n(i) - taken[i]);
            c.ok("remaining-names", d->GetObservableNames() == r.d[i].GetObservableNames());
            auto o = split(c, r, *d);
            std::set<size_t> seen;
            for (size_t j : o[i])
            {
                c.ok("remaining-is-undrawn", !drawn[i].count(j), "entry " + std::to_string(j) + " was drawn before");
                c.ok("remaining-twice", seen.insert(j).second, "entry " + std::to_string(j));
            }
            for (size_t j = 0; j < r.n(i); j++)
                if (passes(i, j))
                    c.ok("partition", seen.count(j) || drawn[i].count(j), "entry " + std::to_string(j) + " is lost");
            break;
        }
        case 4:
            c.desc << " | reset";
            g.Reset();
            reset();
            break;
        default:
        {
            c.desc << " | all";
            if (withCut)
                break;
            vector<int> ev(1, 3);
            OXSXDataSet d = g.AllValidEvents(&ev);
            auto o = split(c, r, d);
            c.eq("all-taken", ev.size(), k);
            for (size_t i = 0; i < k; i++)
            {
                c.eq("all-count", size_t(ev[i]), r.n(i));
                c.eq("all-size", o[i].size(), r.n(i));
                for (size_t j = 0; j < o[i].size(); j++)
                    c.eq("all-order", o[i][j], j);
            }
        }
        }
    }
    c.nontrivial = most > 0;
    TRandom3::extreme() = false;
}
FACET(repeatable, 2)
{
    Sets r;
    genSets(s, r, 1);
    size_t k = r.d.size();
    vector<double> rate;
    vector<bool> boot, seq;
    for (size_t i = 0; i < k; i++)
    {
        rate.push_back(double(s.below(r.n(i) + 1)));
        boot.push_back(s.boolean());
        seq.push_back(s.chance(1, 4));
        c.nontrivial = c.nontrivial || (r.n(i) > 1 && rate[i] > 1);
    }
    unsigned seed = unsigned(s.below(100000));
    c.desc << "rates " << str(rate) << " seed " << seed;
    vector<vector<double>> got[2];
    for (int rep = 0; rep < 2; rep++)
    {
        DataSetGenerator g;
        g.SetDataSets(r.ptr());
        g.SetExpectedRates(rate);
        g.SetBootstrap(boot);
        g.SetSequentialFlags(seq);
        Rand::SetSeed(seed);
        for (int t = 0; t < 2; t++)
        {
            OXSXDataSet d = g.ExpectedRatesDataSet();
            for (size_t q = 0; q < d.GetNEntries(); q++)
                got[rep].push_back(d.GetEntry(q).GetData());
            g.Reset();
        }
    }
    c.ok("equal-seeds-equal-draws", got[0] == got[1]);
    // sources untouched
    for (size_t i = 0; i < k; i++)
    {
        c.eq("source-size", size_t(r.d[i].GetNEntries()), r.n(i));
        for (size_t j = 0; j < r.n(i); j++)
            c.ok("source", r.d[i].GetEntry(j).GetData() == (vector<double>{double(i), double(j), r.v[i][j]}));
    }
    DataSetGenerator g;
    c.throws<LogicError>("no-sets", [&] { g.ExpectedRatesDataSet(); });
    c.throws<LogicError>("no-sets-poisson", [&] { g.PoissonFluctuatedDataSet(); });
    g.SetDataSets(r.ptr());
    g.SetBootstrap(boot);
    g.SetSequentialFlags(seq);
    c.throws<LogicError>("rates-missing", [&] { g.ExpectedRatesDataSet(); });
    c.throws<LogicError>("rates-missing-poisson", [&] { g.PoissonFluctuatedDataSet(); });
    rate.push_back(1);
    g.SetExpectedRates(rate);
    g.SetBootstrap(boot);
    g.SetSequentialFlags(seq);
    c.throws<LogicError>("rates", [&] { g.ExpectedRatesDataSet(); });
    c.throws<LogicError>("rates-poisson", [&] { g.PoissonFluctuatedDataSet(); });
    g.ClearDataSets();
    g.SetExpectedRates({});
    c.throws<LogicError>("cleared", [&] { g.ExpectedRatesDataSet(); });
    g.AddDataSet(&r.d[0], 1, false);
    g.SetBootstrap({true});
    c.eq("after-clear", size_t(g.ExpectedRatesDataSet().GetNEntries()), size_t(1));
}
FACET(fairness, 2)
{ // every entry is as likely as every other, for the first and the last draw, with and without replacement
    size_t n = s.chance(1, 10) ? s.size(20, 80) : s.size(2, 6), draws = s.size(1, n > 6 ? 3 : n);
    bool boot = s.boolean();
    unsigned seed = unsigned(s.below(100000));
    c.desc << n << " entries, " << draws << " drawn" << (boot ? ", bootstrap" : "") << ", seed " << seed;
    c.nontrivial = draws > 1;
    OXSXDataSet d;
    d.SetObservableNames({"index"});
    for (size_t i = 0; i < n; i++)
        d.AddEntry(Event(vector<double>{double(i)}));
    Rand::SetSeed(seed);
    vector<double> first(n, 0), last(n, 0);
    const int N = n > 6 ? int(150 * n) : 600;
    DataSetGenerator g;
    g.SetDataSets({&d});
    g.SetExpectedRates({double(draws)});
    g.SetBootstrap({boot});
    g.SetSequentialFlags({false});
    for (int t = 0; t < N; t++)
    {
        OXSXDataSet o = g.ExpectedRatesDataSet();
        c.eq("count", size_t(o.GetNEntries()), draws);
        first[size_t(o.GetEntry(0).GetDatum(0))]++;
        last[size_t(o.GetEntry(draws - 1).GetDatum(0))]++;
        g.Reset();
    }
    for (size_t i = 0; i < n; i++)
    {
        c.ok("first", within(first[i], 1. / double(n), N), str(first));
        c.ok("last", within(last[i], 1. / double(n), N), str(last));
    }
}
FACET(binned, 4)
{
    RAxes ax = genAxes(s, 1, 2, 4, 12);
    size_t B = ax.bins(), k = s.size(1, 3);
    vector<BinnedED> p;
    vector<vector<double>> v;
    vector<double> rate;
    double total = 0;
    bool fluct = s.boolean(), large = s.chance(1, 3);
    for (size_t i = 0; i < k; i++)
    {
        vector<double> x = genContents(s, B, true, 40);
        if (sum(x) == 0)
            x[s.below(B)] = 1;
        BinnedED b("p" + std::to_string(i), ax.make());
        b.SetObservables(ax.names());
        b.SetBinContents(x);
        p.push_back(b);
        v.push_back(x);
        rate.push_back(large ? double(s.below(800)) : s.pick(vector<double>{0, 1, 2.25, 4.5, 7}));
        total += fluct ? rate[i] : std::round(rate[i]);
    }
    unsigned seed = unsigned(s.below(100000));
    c.desc << show(ax) << " rates " << str(rate) << (fluct ? " fluctuated" : "") << " seed " << seed;
    for (auto &x : v)
        c.desc << str(x);
    c.nontrivial = B > 1 && total > 1;
    BinnedEDGenerator g;
    c.throws<LogicError>("none", [&] { g.ExpectedRatesED(); });
    g.SetPdfs(p);
    c.throws<LogicError>("rates-missing", [&] { g.ExpectedRatesED(); });
    c.throws<LogicError>("rates-missing-poisson", [&] { g.PoissonFluctuatedED(); });
    g.SetRates(rate);
    c.ok("rates-kept", g.GetRates() == rate);
    string name = s.boolean() ? "made" : "";
    bool extreme = !large && s.chance(1, 3);
    TRandom3::extreme() = extreme;
    auto make = [&] {
        Rand::SetSeed(seed);
        return fluct ? g.PoissonFluctuatedED(name) : g.ExpectedRatesED(name);
    };
    BinnedED out = make();
    BinnedED again = make();
    TRandom3::extreme() = false;
    c.nearv("repeatable", again.GetBinContents(), out.GetBinContents(), 0, 0);
    string want = name;
    if (want.empty())
    {
        want = fluct ? "Gen_Poi" : "Gen_Exp";
        for (size_t i = 0; i < k; i++)
            want += (i ? "_p" : "p") + std::to_string(i);
    }
    c.eq("name", out.GetName(), want);
    c.ok("axes", out.GetAxes() == p[0].GetAxes());
    c.ok("observables", out.GetObservables() == ax.names());
    double all = 0;
    for (size_t b = 0; b < B; b++)
    {
        double x = out.GetBinContent(b);
        c.ok("whole-number", x >= 0 && x == std::floor(x), std::to_string(x));
        all += x;
        double expect = 0;
        bool possible = false;
        for (size_t i = 0; i < k; i++)
        {
            expect += (fluct ? rate[i] : std::round(rate[i])) * v[i][b] / sum(v[i]);
            possible = possible || (v[i][b] > 0 && (fluct ? rate[i] > 0 : std::round(rate[i]) > 0));
        }
        c.ok("empty-bin-stays-empty", possible || x == 0, "bin " + std::to_string(b) + " has " + std::to_string(x));
        // tails of the binomial are no wider than those of the Poisson distribution with the same mean
        if (large && !extreme)
            c.ok("in-proportion", std::fabs(x - expect) <= 7 * std::sqrt(expect) + 12, "bin " + std::to_string(b) + " got " + std::to_string(x) + " expect " + std::to_string(expect));
    }
    if (!fluct)
        c.near("total", all, total, 0, 0);
    else if (!extreme)
        c.ok("total-fluctuated", std::fabs(all - total) <= 7 * std::sqrt(total) + 12);
    for (size_t i = 0; i < k; i++)
        c.nearv("source-unchanged", g.GetPdfs().at(i).GetBinContents(), v[i], 0, 0);
}
FACET(random_numbers, 3)
{
    unsigned seed = unsigned(s.below(100000));
    bool extreme = s.boolean();
    double lo = s.fine(8, 3), w = s.posfine(4, 3), mean = s.fine(4, 2), sd = s.posfine(4, 2);
    int n = int(s.size(1, 7));
    c.desc << "seed " << seed << " range " << lo << "+" << w << " among " << n << (extreme ? " extreme" : "");
    c.nontrivial = n > 1;
    TRandom3::extreme() = extreme;
    vector<double> a[2];
    vector<double> hits(size_t(n), 0);
    const int N = 400;
    for (int rep = 0; rep < 2; rep++)
    {
        Rand::SetSeed(seed);
        c.eq("seed", Rand::GetSeed(), seed);
        for (int i = 0; i < N; i++)
        {
            double u = Rand::Uniform(), um = Rand::Uniform(w), ur = Rand::UniformRange(lo, lo + w);
            int k = Rand::Shoot(n);
            c.ok("uniform", u > 0 && u < 1);
            c.ok("uniform-max", um > 0 && um < w);
            c.ok("uniform-range", ur > lo && ur < lo + w);
            c.ok("shoot", k >= 0 && k < n, std::to_string(k));
            if (!rep)
                hits[size_t(k)]++;
            int p = Rand::Poisson(sd);
            c.ok("poisson", p >= 0);
            for (double x : {u, um, ur, double(k), double(p), Rand::Gaus(mean, sd)})
                a[rep].push_back(x);
        }
    }
    c.ok("repeatable", a[0] == a[1]);
    TRandom3::extreme() = false;
    Rand::SetSeed(seed);
    double z = Rand::Gaus();
    Rand::SetSeed(seed);
    c.near("gaus", Rand::Gaus(mean, sd), mean + sd * z, 1e-9, 1e-9);
    if (!extreme)
        for (int i = 0; i < n; i++)
            c.ok("shoot-fair", n == 1 || within(hits[size_t(i)], 1. / n, N), str(hits));
}
FACET(von_neumann, 2)
{ // density c + x^2 on [lo, hi]
    double off = s.boolean() ? 0 : s.posfine(2, 2), lo = s.fine(s.boolean() ? 2 : 64, 2), w = s.posfine(3, 2);
    double hi = lo + w, top = off + std::max(lo * lo, hi * hi);
    FakePDF f(1, off);
    unsigned seed = unsigned(s.below(100000));
    c.desc << off << " + x^2 on " << lo << " to " << hi << " seed " << seed;
    c.nontrivial = true;
    Rand::SetSeed(seed);
    auto F = [&](double x) { return off * x + x * x * x / 3; };
    const int N = 300;
    double third[3] = {0, 0, 0};
    for (int i = 0; i < N; i++)
    {
        double x = Rand::VonNeumannSample(&f, lo, hi, top);
        c.ok("in-range", x >= lo && x <= hi, std::to_string(x));
        third[std::min(2, int(3 * (x - lo) / w))]++;
    }
    for (int i = 0; i < 3; i++)
    {
        double p = (F(lo + w * (i + 1) / 3) - F(lo + w * i / 3)) / (F(hi) - F(lo));
        c.ok("distribution", std::fabs(third[i] - N * p) <= 7 * std::sqrt(N * p) + 12, std::to_string(third[i]) + " of " + std::to_string(N) + " want " + std::to_string(p));
    }
    FakePDF two(2, 1);
    c.throws<ValueError>("range", [&] { Rand::VonNeumannSample(&f, hi, lo, top); });
    c.throws<ValueError>("maximum", [&] { Rand::VonNeumannSample(&f, lo, hi, -top); });
    c.throws<ValueError>("dimensions", [&] { Rand::VonNeumannSample(&two, lo, hi, top); });
}
FACET(fluctuations, 1)
{ // numbers of entries: Poisson distributed about the rate, whatever the rate
    double rate = s.boolean() ? s.posfine(20, 2) : s.real(20, 1500);
    unsigned seed = unsigned(s.below(100000)), which = unsigned(s.below(3));
    c.desc << "rate " << rate << " seed " << seed << " by " << (which == 0 ? "Rand" : which == 1 ? "BinnedEDGenerator" : "DataSetGenerator");
    c.nontrivial = rate > 1;
    OXSXDataSet d;
    d.SetObservableNames({"index"});
    for (size_t i = 0; i < 3; i++)
        d.AddEntry(Event(vector<double>{double(i)}));
    DataSetGenerator g;
    g.AddDataSet(&d, rate, false);
    g.SetBootstrap({true});
    AxisCollection ax;
    ax.AddAxis(BinAxis("x", 0, 1, 1));
    BinnedED e("e", ax);
    e.SetObservables(vector<string>{"x"});
    e.SetBinContent(0, 1);
    BinnedEDGenerator h;
    h.SetPdfs({e});
    h.SetRates({rate});
    Rand::SetSeed(seed);
    const int N = 200;
    double m = 0, q = 0;
    for (int i = 0; i < N; i++)
    {
        double x = 0;
        if (which == 0)
            x = Rand::Poisson(rate);
        else if (which == 1)
            x = h.PoissonFluctuatedED("f").Integral();
        else
        {
            vector<int> ev;
            OXSXDataSet o = g.PoissonFluctuatedDataSet(&ev);
            x = double(o.GetNEntries());
            c.eq("taken", size_t(ev.at(0)), size_t(o.GetNEntries()));
        }
        m += x;
        q += (x - rate) * (x - rate);
    }
    m /= N;
    q /= N;
    c.ok("mean", std::fabs(m - rate) <= 7 * std::sqrt(rate / N) + 12. / N, "mean " + std::to_string(m) + " rate " + std::to_string(rate));
    c.ok("variance", std::fabs(q - rate) <= 7 * std::sqrt((2 * rate * rate + rate) / N) + 100. / N, "variance " + std::to_string(q) + " rate " + std::to_string(rate));
}

FACET(many, 1)
{ // more entries than a small counter holds
    size_t B = s.size(1, 3), k = s.size(1, 2);
    AxisCollection ax;
    ax.AddAxis(BinAxis("x", 0, double(B), B));
    vector<BinnedED> p;
    vector<double> rate;
    vector<vector<double>> v;
    double total = 0;
    for (size_t i = 0; i < k; i++)
    {
        BinnedED e("p" + std::to_string(i), ax);
        e.SetObservables(vector<string>{"x"});
        vector<double> x(B);
        for (double &y : x)
            y = double(1 + s.below(4));
        e.SetBinContents(x);
        p.push_back(e);
        v.push_back(x);
        rate.push_back(i ? 10. : double(66000 + s.below(80000)));
        total += rate[i];
    }
    unsigned seed = unsigned(s.below(100000)), which = unsigned(s.below(4));
    c.desc << "rates " << str(rate) << " by " << which << " seed " << seed;
    c.nontrivial = true;
    Rand::SetSeed(seed);
    double slack = which == 0 || which == 2 ? 0 : 7 * std::sqrt(total) + 12;
    if (which < 2)
    {
        BinnedEDGenerator g;
        g.SetPdfs(p);
        g.SetRates(rate);
        BinnedED o = which ? g.PoissonFluctuatedED("o") : g.ExpectedRatesED("o");
        c.near("many-counts", o.Integral(), total, 0, slack);
        for (size_t b = 0; b < B; b++)
        {
            double e = 0;
            for (size_t i = 0; i < k; i++)
                e += rate[i] * v[i][b] / sum(v[i]);
            c.near("many-in-bin", o.GetBinContent(b), e, 0, 7 * std::sqrt(e) + 12);
        }
        return;
    }
    OXSXDataSet d;
    d.SetObservableNames({"index"});
    for (size_t i = 0; i < 3; i++)
        d.AddEntry(Event(vector<double>{double(i)}));
    DataSetGenerator g;
    g.AddDataSet(&d, rate[0], false);
    g.SetBootstrap({true});
    vector<int> ev;
    OXSXDataSet o = which == 2 ? g.ExpectedRatesDataSet(&ev) : g.PoissonFluctuatedDataSet(&ev);
    c.near("many-entries", double(o.GetNEntries()), rate[0], 0, which == 2 ? 0 : slack);
    c.eq("many-taken", size_t(ev.at(0)), size_t(o.GetNEntries()));
    vector<double> n(3);
    for (size_t i = 0; i < o.GetNEntries(); i++)
        n.at(size_t(o.GetEntry(i).GetData().at(0)))++;
    for (size_t i = 0; i < 3; i++)
        c.near("many-each", n[i], double(o.GetNEntries()) / 3, 0, 7 * std::sqrt(rate[0] / 3) + 12);
}
