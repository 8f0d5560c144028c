// Markov chains: MCMC, MCMCSamples, MetropolisSampler, AutoCorrelationCalc, against the stand-ins for ROOT.
// SRC: core data dist histogram function teststat constraint systematic optimise cut eventSystematic
// EXTRA: Rand.cpp MCMC.cpp MCMCSamples.cpp MetropolisSampler.cpp
#include "gens.hpp"
#include <AutoCorrelationCalc.h>
#include <FitResult.h>
#include <MCMC.h>
#include <MCMCSamples.h>
#include <MetropolisSampler.h>
#include <Rand.h>
#include <TTree.h>
#include <TestStatistic.h>
#include <memory>

const char *pbt::kRule =
    "random statistics over 1-3 parameters, boxes, starting points, scripted and Metropolis proposals inside and outside of the box, "
    "burn-in, thinning, binning and random streams; random value sequences for the autocorrelation; non-trivial: at least five steps "
    "with at least one accepted and one refused, or at least three values";

namespace
{
const vector<string> kNames = {"a", "norm-x", "z"};
struct Stat : public TestStatistic
{
    vector<string> names;
    vector<double> centre, width;
    double base = 0;
    bool positive = false; // exponential of the quadratic: a likelihood instead of its logarithm
    ParameterDict at;
    vector<ParameterDict> evaluated;
    double value(const ParameterDict &p) const
    {
        double r = base;
        for (size_t i = 0; i < names.size(); i++)
            r -= std::pow((p.at(names[i]) - centre[i]) / width[i], 2) / 2;
        return positive ? std::exp(r / 4) : r;
    }
    double sign = 1;
    double Evaluate()
    {
        evaluated.push_back(at);
        return sign * value(at);
    }
    size_t GetParameterCount() const { return names.size(); }
    void SetParameters(const ParameterDict &p) { at = p; }
    ParameterDict GetParameters() const { return at; }
    std::set<string> GetParameterNames() const { return std::set<string>(names.begin(), names.end()); }
    void RegisterFitComponents() {}
};
Stat genStat(Src &s)
{
    Stat t;
    size_t n = s.size(1, 3);
    for (size_t i = 0; i < n; i++)
    {
        t.names.push_back(kNames[i]);
        t.centre.push_back(s.fine(4, 2));
        t.width.push_back(s.posfine(4, 2));
    }
    t.base = s.fine(2, 1);
    return t;
}
// proposals from a script, remembering from where they were asked
struct Script : public MCSampler
{
    vector<ParameterDict> p, from;
    vector<double> corr;
    size_t at = 0;
    ParameterDict Draw(const ParameterDict &c)
    {
        from.push_back(c);
        return p.at(at++);
    }
    double CorrectAccParam() { return corr.at(at - 1); }
};
} // namespace

FACET(chain, 6)
{
    Stat t = genStat(s);
    size_t n = t.names.size(), steps = s.size(1, 14);
    bool logged = s.chance(3, 4), flip = s.boolean();
    t.positive = !logged;
    t.sign = flip && logged ? -1 : 1;
    if (!logged)
        flip = false;
    ParameterDict lo, hi, start;
    for (size_t i = 0; i < n; i++)
    {
        lo[t.names[i]] = s.fine(4, 2);
        hi[t.names[i]] = lo[t.names[i]] + (n > 1 && s.chance(1, 8) ? 0 : s.posfine(6, 2)); // a range of no width holds the parameter
        start[t.names[i]] = lo[t.names[i]] + (hi[t.names[i]] - lo[t.names[i]]) * s.pick(vector<double>{0, 0.5, 1, 0.25});
    }
    Script q;
    for (size_t k = 0; k < steps; k++)
    {
        ParameterDict p;
        for (size_t i = 0; i < n; i++)
        {
            double w = hi[t.names[i]] - lo[t.names[i]];
            p[t.names[i]] = lo[t.names[i]] + w * (s.chance(1, 8) ? s.pick(vector<double>{-0.5, 1.25, -1e-9, 1 + 1e-9}) : double(s.below(9)) / 8);
        }
        q.p.push_back(p);
        q.corr.push_back(logged && s.chance(1, 4) ? s.fine(2, 2) : 0);
    }
    unsigned seed = unsigned(s.below(100000)), burn = unsigned(s.below(4)), thin = unsigned(s.size(1, 3));
    bool given = s.chance(3, 4), full = s.boolean(), chain = s.chance(1, 4);
    c.desc << n << " parameters, " << steps << " steps from " << (given ? str(start) : "anywhere") << " in " << str(lo) << str(hi)
           << (logged ? " logged" : "") << (flip ? " flipped" : "") << " burn-in " << burn << " thin " << thin << " seed " << seed;
    MCMC m(q);
    m.SetMaxIter(unsigned(steps));
    m.SetMinima(lo);
    m.SetMaxima(hi);
    m.SetBurnIn(burn);
    m.SetThinFactor(thin);
    m.SetTestStatLogged(logged);
    m.SetFlipSign(flip);
    m.SetSaveFullHistogram(full);
    c.eq("chain-default", m.GetSaveChain(), false);
    if (chain)
        m.SetSaveChain(true);
    if (given)
        m.SetInitialTrial(start);
    c.eq("max-iter", m.GetMaxIter(), unsigned(steps));
    c.eq("burn-in", m.GetBurnIn(), burn);
    c.eq("thin", m.GetThinFactor(), thin);
    c.eq("flip", m.GetFlipSign(), flip);
    c.eq("logged", m.GetTestStatLogged(), logged);
    c.eq("full", m.GetSaveFullHistogram(), full);
    c.ok("minima", m.GetMinima() == lo);
    c.ok("maxima", m.GetMaxima() == hi);
    // every axis of the histogram covers the box with enough bins to tell the points apart
    AxisCollection ax;
    for (size_t i = 0; i < n; i++)
    {
        double w = hi[t.names[i]] - lo[t.names[i]];
        double edge = w > 0 ? w / 16 : 0.25;
        ax.AddAxis(BinAxis(t.names[i], lo[t.names[i]] - edge, hi[t.names[i]] + edge, 9));
    }
    bool own = s.chance(3, 4);
    if (own)
        m.SetHistogramAxes(ax);
    Rand::SetSeed(seed);
    const FitResult &res = m.Optimise(&t);
    c.eq("proposals", q.at, steps);
    // replay: where was the chain before each proposal
    vector<ParameterDict> pos;
    pos = q.from;
    auto inside = [&](const ParameterDict &p) {
        for (auto &x : p)
            if (x.second < lo.at(x.first) || x.second > hi.at(x.first))
                return false;
        return true;
    };
    if (given)
        c.ok("starts-where-told", pos[0] == start);
    c.ok("starts-inside", inside(pos[0]));
    // the point after the last step: from the samples' acceptance count and the best fit only; so recompute by rule below
    size_t accepted = 0, refused = 0;
    vector<int> did(steps, -1);
    for (size_t k = 0; k + 1 < steps; k++)
    {
        bool moved = pos[k + 1] == q.p[k], stayed = pos[k + 1] == pos[k];
        c.ok("moves-to-the-proposal-or-stays", moved || stayed, "step " + std::to_string(k));
        double a = t.value(pos[k]), b = t.value(q.p[k]);
        double up = logged ? b - a + q.corr[k] : std::log(b / a);
        if (!inside(q.p[k]))
            c.ok("stays-inside", stayed, "step " + std::to_string(k) + " to " + str(q.p[k]));
        else if (up > 1e-9)
            c.ok("better-is-accepted", moved, "step " + std::to_string(k));
        else if (up < -25) // less likely than any number of the stream
            c.ok("hopeless-is-refused", stayed, "step " + std::to_string(k));
        did[k] = moved && !stayed ? 1 : !moved ? 0 : -1;
        accepted += did[k] == 1;
        refused += did[k] == 0;
    }
    // only points inside the box are evaluated
    for (auto &p : t.evaluated)
        c.ok("evaluates-inside", inside(p), str(p));
    // the reported acceptance rate decides the last step
    const MCMCSamples &S = m.GetSamples();
    double rate = S.GetAcceptanceRate();
    double counts = rate * double(steps);
    c.near("rate-is-a-count", counts, std::round(counts), 0, 1e-9);
    c.near("rejection-rate", S.GetRejectionRate(), 1 - rate, 1e-12, 1e-12);
    // a step whose proposal equals the point counts as accepted (it is at least as good)
    size_t known = 0;
    bool ambiguous = false;
    for (size_t k = 0; k + 1 < steps; k++)
    {
        if (did[k] == 1)
            known++;
        else if (did[k] < 0)
        {
            if (inside(q.p[k]) && (!logged || q.corr[k] >= 0))
                known++;
            else if (inside(q.p[k]))
                ambiguous = true;
        }
    }
    bool last = std::round(counts) > double(known);
    if (!ambiguous)
        c.ok("acceptance-count", std::round(counts) == double(known) || std::round(counts) == double(known + 1),
             std::to_string(counts) + " of " + std::to_string(known));
    ParameterDict end = last ? q.p.back() : pos.back();
    if (!ambiguous)
    {
        double a = t.value(pos.back()), b = t.value(q.p.back());
        double up = logged ? b - a + q.corr.back() : std::log(b / a);
        if (!inside(q.p.back()))
            c.ok("last-stays-inside", !last);
        else if (up > 1e-9)
            c.ok("last-better", last);
        // best of all the points the chain was at
        double best = t.value(pos[0]);
        for (auto &p : pos)
            best = std::max(best, t.value(p));
        best = std::max(best, t.value(end));
        ParameterDict bf = res.GetBestFit();
        c.eq("best-fit-size", bf.size(), n);
        c.near("best-fit-is-the-best-point-visited", t.value(bf), best, 1e-12, 1e-12);
        c.ok("best-fit-inside", inside(bf));
        c.near("extreme-value", res.GetExtremeVal(), best, 1e-12, 1e-12);
        c.ok("valid", res.GetValid());
        // histogram: one entry for each step kept, at the point the chain was at after the step
        vector<ParameterDict> after(pos.begin() + 1, pos.end());
        after.push_back(end);
        vector<ParameterDict> kept;
        for (size_t k = 0; k < steps; k++)
            if (k >= burn && k % thin == 0)
                kept.push_back(after[k]);
        if (own && full)
        {
            Histogram want(ax);
            for (auto &p : kept)
                want.Fill(p);
            c.nearv("histogram", S.GetHistogram().GetBinContents(), want.GetBinContents(), 0, 0);
        }
        if (!full)
        {
            auto &one = S.Get1DProjections();
            c.eq("projections", one.size(), n);
            for (auto &h : one)
            {
                c.near("projection-entries", h.second.Integral(), double(kept.size()), 0, 0, h.first);
                const BinAxis a = h.second.GetAxes().GetAxis(0);
                c.ok("projection-range", a.GetMin() < a.GetMax() && a.GetMin() <= lo.at(h.first) && a.GetMax() >= hi.at(h.first), h.first);
                if (own)
                {
                    AxisCollection alone;
                    alone.AddAxis(ax.GetAxis(h.first));
                    Histogram want(alone);
                    for (auto &p : kept)
                        want.Fill(vector<double>{p.at(h.first)});
                    c.nearv("projection", h.second.GetBinContents(), want.GetBinContents(), 0, 0, h.first);
                }
            }
            auto &two = S.Get2DProjections();
            c.eq("projections-2d", two.size(), n * (n - 1) / 2);
            for (auto &h : two)
                c.near("projection-2d-entries", h.second.Integral(), double(kept.size()), 0, 0, h.first);
        }
        if (chain)
        {
            TTree *tr = S.GetChain();
            c.ok("chain", tr != nullptr);
            c.eq("chain-length", size_t(tr->GetEntries()), steps);
            for (size_t k = 0; k < steps; k++)
            {
                vector<double> r = tr->Rows()[k];
                c.eq("chain-columns", r.size(), 4 + n);
                c.near("chain-value", r[0], t.value(after[k]), 1e-12, 1e-12);
                if (k + 1 < steps ? after[k] != pos[k] : end != pos[k]) // it moved: the step was accepted
                    c.near("chain-accepted", r[1], 1, 0, 0);
                else if (q.p[k] != pos[k])
                    c.near("chain-refused", r[1], 0, 0, 0);
                c.near("chain-step", r[2], double(k), 0, 0);
                size_t i = 4;
                for (auto &p : after[k])
                    c.near("chain-parameter", r[i++], p.second, 0, 0, p.first);
            }
        }
    }
    if (!chain && s.chance(1, 3))
    { // another statistic of the same parameters with the same object: the earlier one is forgotten
        Stat u = genStat(s);
        while (u.names.size() < n)
        {
            u.names.push_back(kNames[u.names.size()]);
            u.centre.push_back(s.fine(4, 2));
            u.width.push_back(s.posfine(4, 2));
        }
        u.names.resize(n);
        u.centre.resize(n);
        u.width.resize(n);
        u.positive = t.positive;
        u.sign = t.sign;
        q.at = 0;
        q.from.clear();
        m.SetInitialTrial(start);
        c.desc << " and then for another statistic";
        FitResult r2 = m.Optimise(&u);
        c.eq("again-proposals", q.at, steps);
        c.ok("again-start", q.from[0] == start, str(q.from[0]));
        double best = u.value(q.from[0]);
        for (auto &p : q.from)
            best = std::max(best, u.value(p));
        double lastVal = inside(q.p.back()) ? u.value(q.p.back()) : best;
        double got = u.value(r2.GetBestFit());
        double tol = 1e-12 * (1 + std::fabs(best));
        c.ok("again-best-fit", std::fabs(got - best) <= tol || (lastVal > best && std::fabs(got - lastVal) <= tol),
             str(r2.GetBestFit()) + " has " + std::to_string(got) + " want " + std::to_string(best));
        c.near("again-extreme-value", r2.GetExtremeVal(), got, 1e-12, 1e-12);
    }
    c.nontrivial = steps > 4 && accepted && refused;
    c.tag("own-axes", own);
    c.tag("chain-saved", chain);
}
FACET(acceptance, 3)
{ // two points, proposals go to the other one: the chance of the step down is the ratio
    double down = s.pick(vector<double>{0.25, 0.5, 1, 2, 3}), corr = s.boolean() ? 0 : s.pick(vector<double>{0.5, -0.5, 0.125});
    bool logged = s.chance(3, 4);
    unsigned seed = unsigned(s.below(100000));
    if (!logged)
        corr = 0;
    struct Flip : public MCSampler
    {
        size_t up = 0, dn = 0;
        double corr = 0;
        ParameterDict Draw(const ParameterDict &c)
        {
            double x = c.at("a");
            if (x > 0.5)
                dn++;
            else
                up++;
            return ParameterDict{{"a", x > 0.5 ? 0. : 1.}};
        }
        double CorrectAccParam() { return corr; }
    } f;
    f.corr = corr;
    struct Two : public Stat
    {
        double down;
        bool logged;
        double Evaluate() { return at.at("a") > 0.5 ? (logged ? 0 : 1) : (logged ? -down : std::exp(-down)); }
    } t;
    t.names = {"a"};
    t.down = down;
    t.logged = logged;
    c.desc << "down by " << down << " correction " << corr << (logged ? " logged" : "") << " seed " << seed;
    c.nontrivial = true;
    MCMC m(f);
    const unsigned N = 1500;
    m.SetMaxIter(N);
    m.SetMinima(ParameterDict{{"a", -1}});
    m.SetMaxima(ParameterDict{{"a", 2}});
    m.SetInitialTrial(ParameterDict{{"a", 1}});
    m.SetTestStatLogged(logged);
    Rand::SetSeed(seed);
    m.Optimise(&t);
    double acc = m.GetSamples().GetAcceptanceRate() * N;
    // steps up and down are accepted with these chances
    double pd = std::min(1., std::exp(-down + corr)), pu = std::min(1., std::exp(down + corr));
    double want = double(f.dn) * pd + double(f.up) * pu;
    double sd = std::sqrt(double(f.dn) * pd * (1 - pd) + double(f.up) * pu * (1 - pu));
    c.ok("rate", std::fabs(acc - want) <= 7 * sd + 3, std::to_string(acc) + " accepted, expected " + std::to_string(want) + " +- " + std::to_string(sd));
}
FACET(refusals, 1)
{
    Stat t = genStat(s);
    Script q;
    ParameterDict lo, hi, in;
    for (auto &n : t.names)
    {
        lo[n] = 0;
        hi[n] = 1;
        in[n] = 0.5;
    }
    size_t which = s.below(6);
    ParameterDict &d = which == 0 ? lo : which == 1 ? hi : in;
    if (which < 3 && s.boolean())
        d["other"] = 0.5;
    else if (which < 3)
    {
        d.erase(t.names[0]);
        if (which == 2 && d.empty())
            d["other"] = d["another"] = 0;
    }
    else
    { // the right number under another name
        ParameterDict &e = which == 3 ? lo : which == 4 ? hi : in;
        e.erase(t.names[0]);
        e["other"] = which == 3 ? 0 : 1;
    }
    c.desc << which << " minima " << str(lo) << " maxima " << str(hi) << " start " << str(in);
    c.nontrivial = true;
    MCMC m(q);
    m.SetMaxIter(0);
    m.SetMinima(lo);
    m.SetMaxima(hi);
    if (which == 2 || which == 5)
        m.SetInitialTrial(in);
    c.throws<LogicError>("refused", [&] { m.Optimise(&t); });
}
FACET(metropolis, 3)
{
    size_t n = s.size(1, 4);
    ParameterDict at, sig;
    std::set<string> fixed;
    for (size_t i = 0; i < n; i++)
    {
        string p = "p" + std::to_string(i);
        at[p] = s.fine(8, 2);
        sig[p] = s.posfine(4, 2);
    }
    MetropolisSampler m;
    m.SetSigmas(sig);
    c.ok("sigmas", m.GetSigmas() == sig);
    unsigned seed = unsigned(s.below(100000));
    c.desc << str(at) << " widths " << str(sig) << " seed " << seed;
    for (int k = 0; k < 4; k++)
    {
        string p = "p" + std::to_string(s.below(n));
        if (s.boolean())
        {
            m.Fix(p);
            fixed.insert(p);
        }
        else
        {
            m.Release(p);
            fixed.erase(p);
        }
        Rand::SetSeed(seed);
        ParameterDict x = m.Draw(at);
        Rand::SetSeed(seed);
        c.ok("repeatable", m.Draw(at) == x);
        c.eq("size", x.size(), n);
        bool same = true;
        for (auto &y : at)
        {
            c.ok("names", x.count(y.first));
            if (fixed.count(y.first))
                c.near("fixed", x[y.first], y.second, 0, 0, y.first);
            else
                same = same && x[y.first] == y.second;
        }
        c.ok("moves", fixed.size() == n || !same);
        // proposals are shifted with the point and scale with the widths
        ParameterDict at2, sig2;
        for (auto &y : at)
            at2[y.first] = y.second + 16;
        for (auto &y : sig)
            sig2[y.first] = y.second * 2;
        Rand::SetSeed(seed);
        ParameterDict x2 = m.Draw(at2);
        m.SetSigmas(sig2);
        Rand::SetSeed(seed);
        ParameterDict x3 = m.Draw(at);
        m.SetSigmas(sig);
        for (auto &y : at)
        {
            c.near("shift", x2[y.first] - 16, x[y.first], 1e-9, 1e-9);
            c.near("scale", x3[y.first] - y.second, 2 * (x[y.first] - y.second), 1e-9, 1e-9);
        }
    }
    c.nontrivial = n > 1;
    c.near("no-correction", m.CorrectAccParam(), 0, 0, 0);
    // spread of the proposals
    string p = "p0";
    m.Release(p);
    Rand::SetSeed(seed);
    double sum = 0, sq = 0;
    const int N = 300;
    for (int i = 0; i < N; i++)
    {
        double z = (m.Draw(at)[p] - at[p]) / sig[p];
        sum += z;
        sq += z * z;
    }
    c.ok("mean", std::fabs(sum) < 7 * std::sqrt(double(N)), std::to_string(sum));
    c.ok("variance", std::fabs(sq - N) < 7 * std::sqrt(2. * N), std::to_string(sq));
}
FACET(autocorrelation, 4)
{
    size_t Q = s.size(1, 8), n = s.size(1, 20);
    AutoCorrelationCalc a(Q), b(Q), z(Q);
    double unit = genUnit(s); // another unit changes nothing
    c.desc << "length " << Q << ":";
    vector<double> x;
    size_t from = 0;
    double scale = s.pick(vector<double>{1, -2, 0.5}), shift = s.fine(8, 2);
    for (size_t k = 0; k < n; k++)
    {
        if (s.chance(1, 16))
        {
            a.Clear();
            b.Clear();
            z.Clear();
            x.clear();
            c.desc << " clear";
            continue;
        }
        double v = s.fine(4, 2);
        x.push_back(v);
        c.desc << " " << v;
        a.Fill(v);
        b.Fill(v * scale + shift);
        z.Fill(v * unit);
        c.near("mean-units", z.Mean(), a.Mean() * unit, UREL, UABS);
        c.near("variance-units", z.Var(), a.Var() * unit * unit, UREL, UABS);
        c.nearv("value-units", z.Get(), a.Get(), UREL, UABS);
        // running window of the last Q values
        size_t w = std::min(Q, x.size());
        double mean = 0, sq = 0;
        for (size_t i = x.size() - w; i < x.size(); i++)
        {
            mean += x[i] / double(w);
            sq += x[i] * x[i] / double(w);
        }
        c.near("mean", a.Mean(), mean, 1e-12, 1e-12);
        c.near("variance", a.Var(), sq - mean * mean, 1e-9, 1e-9);
        // sums over all values since the start, each with the mean of the window at that time
        vector<double> d(Q, 0), nn(Q, 0);
        for (size_t t = from; t < x.size(); t++)
        {
            size_t ww = std::min(Q, t + 1);
            double mm = 0;
            for (size_t i = t + 1 - ww; i <= t; i++)
                mm += x[i] / double(ww);
            for (size_t lag = 0; lag < ww; lag++)
            {
                d[lag] += (x[t] - mm) * (x[t - lag] - mm);
                nn[lag] += (x[t] - mm) * (x[t] - mm);
            }
        }
        vector<double> g = a.Get(), gs = b.Get();
        c.eq("size", g.size(), Q);
        for (size_t lag = 0; lag < Q; lag++)
            if (nn[lag] > 1e-6)
            {
                c.near("value", g[lag], d[lag] / nn[lag], 1e-7, 1e-7, "lag " + std::to_string(lag));
                c.near("shift-and-scale", gs[lag], g[lag], 1e-6, 1e-6, "lag " + std::to_string(lag));
            }
        if (nn[0] > 1e-6)
            c.near("lag-zero", g[0], 1, 1e-12, 1e-12);
    }
    c.nontrivial = x.size() > 2;
}
