// The Minuit optimiser and its function wrapper, against a stand-in for Minuit2 which records what it is handed and minimises by
// pattern search.
// SRC: core data dist histogram function teststat constraint systematic optimise cut eventSystematic
// EXTRA: Rand.cpp Minuit.cpp MinuitFCN.cpp
#include "gens.hpp"
#include <FitResult.h>
#include <memory>
#include <Minuit.h>
#include <MinuitFCN.h>
#include <TestStatistic.h>

const char *pbt::kRule =
    "random separable statistics over 1-4 parameters named in random order, random initial values, errors, limits on all or none of the "
    "parameters, fixed parameters, methods, strategies and histories of repeated fits; non-trivial: at least two parameters";

namespace
{
const vector<string> kPool = {"zeta", "alpha", "norm", "Beta", "x1", "x10", "x2", "Eta", "omega", "_"};
typedef ROOT::Minuit2::MnApplication App;
struct Stat : public TestStatistic
{
    std::map<string, double> centre, weight;
    double sign = 1;
    ParameterDict at;
    vector<ParameterDict> seen;
    double value(const ParameterDict &p) const
    {
        double r = 1;
        for (auto &x : centre)
            r += weight.at(x.first) * std::pow(p.at(x.first) - x.second, 2);
        return sign * r;
    }
    double Evaluate()
    {
        seen.push_back(at);
        return value(at);
    }
    size_t GetParameterCount() const { return centre.size(); }
    void SetParameters(const ParameterDict &p) { at = p; }
    ParameterDict GetParameters() const { return at; }
    std::set<string> GetParameterNames() const
    {
        std::set<string> n;
        for (auto &x : centre)
            n.insert(x.first);
        return n;
    }
    void RegisterFitComponents() {}
};
Stat genStat(Src &s)
{
    Stat t;
    size_t n = s.chance(1, 4) ? s.size(5, 10) : s.size(1, 4);
    auto perm = s.permutation(kPool.size());
    for (size_t i = 0; i < n; i++)
    {
        t.centre[kPool[perm[i]]] = s.fine(4, 2);
        t.weight[kPool[perm[i]]] = s.posfine(4, 2);
    }
    return t;
}
} // namespace

FACET(wrapper, 3)
{
    Stat t = genStat(s);
    std::set<string> names = t.GetParameterNames();
    MinuitFCN f(&t, names), e;
    vector<double> x;
    ParameterDict p;
    for (auto &n : names)
    { // Minuit's order is that of the names
        x.push_back(s.fine(8, 3));
        p[n] = x.back();
    }
    c.desc << str(p);
    c.nontrivial = names.size() > 1;
    c.near("value", f(x), t.value(p), 1e-12, 1e-12);
    c.ok("by-name", t.seen.back() == p);
    c.near("default-up", f.Up(), 0.5, 0, 0);
    bool flip = s.boolean();
    double up = s.posfine(4, 2);
    f.SetSignFlip(flip);
    f.SetUp(up);
    MinuitFCN g(f);
    e = f;
    f.SetSignFlip(!flip);
    f.SetUp(99);
    for (MinuitFCN *q : {&g, &e})
    {
        c.eq("copy-flip", q->GetSignFlip(), flip);
        c.near("copy-up", q->Up(), up, 0, 0);
        c.near("copy-get-up", q->GetUp(), up, 0, 0);
        c.near("copy-value", (*q)(x), (flip ? -1 : 1) * t.value(p), 1e-12, 1e-12);
        c.ok("copy-by-name", t.seen.back() == p);
    }
    MinuitFCN none;
    c.throws<NULLPointerAccessError>("null", [&] { none(x); });
}
FACET(fit, 6)
{
    Minuit m;
    size_t rounds = s.size(1, 3);
    std::set<string> fixed;
    bool maxim = false;
    double up = 0.5, tol = 0.1;
    unsigned calls = 0;
    int strat = 2;
    string method = "Migrad";
    c.near("default-tolerance", m.GetTolerance(), tol, 0, 0);
    c.eq("default-method", m.GetMethod(), method);
    Stat t = genStat(s);
    auto names = t.GetParameterNames();
    vector<string> order(names.begin(), names.end());
    c.nontrivial = names.size() > 1;
    std::unique_ptr<Minuit> kept;
    string keptMethod;
    double keptTol = 0;
    ParameterDict keptBest;
    for (size_t r = 0; r < rounds; r++)
    {
        if (r && s.chance(1, 3))
        { // a copy goes on with the same settings, and the original is independent of it
            kept.reset(new Minuit(m));
            if (s.boolean())
            {
                Minuit other;
                other = *kept;
                Minuit &self = other;
                other = self;
                m = other;
            }
            keptMethod = method, keptTol = tol, keptBest = m.GetFitResult().GetBestFit();
            c.ok("copied-result", kept->GetFitResult().GetBestFit() == keptBest, str(keptBest));
            c.desc << " copied";
        }
        if (s.boolean())
            m.SetUpperContourEdge(up = s.posfine(4, 2));
        if (s.boolean())
            m.SetTolerance(tol = s.posfine(1, 4));
        if (s.boolean())
            m.SetMaxCalls(calls = unsigned(s.below(5000)));
        if (s.boolean())
            m.SetStrategy(strat = int(s.below(3)));
        if (s.boolean())
            m.SetMethod(method = s.pick(vector<string>{"Migrad", "Minimize", "Simplex"}));
        if (s.boolean())
            m.SetMaximising(maxim = s.boolean());
        t.sign = maxim ? -1 : 1;
        ParameterDict v, e, lo, hi;
        bool limits = s.boolean();
        for (auto &n : names)
        {
            v[n] = s.fine(4, 2);
            e[n] = s.posfine(1, 3);
            if (limits)
            {
                lo[n] = v[n] - s.posfine(2, 2);
                hi[n] = v[n] + s.posfine(2, 2);
            }
            if (s.chance(1, 4))
            {
                m.Fix(n);
                fixed.insert(n);
            }
            else if (s.chance(1, 2))
            {
                m.Release(n);
                fixed.erase(n);
            }
        }
        m.SetInitialValues(v);
        m.SetInitialErrors(e);
        m.SetMinima(lo);
        m.SetMaxima(hi);
        App::NextValid() = s.chance(3, 4);
        c.desc << " | " << method << " from " << str(v) << " errors " << str(e) << (limits ? " limits " + str(lo) + str(hi) : "") << (maxim ? " maximising" : "")
               << " fixed " << fixed.size() << " up " << up;
        t.seen.clear();
        FitResult res = m.Optimise(&t);
        const auto &L = App::Last();
        // everything the user set reached the minimiser
        c.eq("method", L.method, method);
        c.eq("strategy", L.strategy, unsigned(strat));
        c.eq("max-calls", L.maxCalls, calls);
        c.near("tolerance", L.tolerance, tol, 0, 0);
        c.near("up", L.up, up, 0, 0);
        c.near("get-up", m.GetUpperContourEdge(), up, 0, 0);
        c.eq("get-strategy", m.GetStrategy(), strat);
        c.eq("get-calls", m.GetMaxCalls(), calls);
        c.eq("get-maximising", m.GetMaximising(), maxim);
        c.ok("get-minima", m.GetMinima() == lo);
        c.ok("get-maxima", m.GetMaxima() == hi);
        c.eq("parameters", L.start.v.size(), order.size());
        for (size_t i = 0; i < order.size(); i++)
        {
            c.near("start", L.start.v[i], v[order[i]], 0, 0, order[i]);
            c.near("error", L.start.e[i], e[order[i]], 0, 0, order[i]);
            c.eq("limited", bool(L.start.limited[i]), limits);
            if (limits)
            {
                c.near("lower", L.start.lo[i], lo[order[i]], 0, 0, order[i]);
                c.near("upper", L.start.hi[i], hi[order[i]], 0, 0, order[i]);
            }
            c.eq("fixed", L.fixed.count(unsigned(i)), fixed.count(order[i]), order[i]);
        }
        // the result is the minimiser's, under the right names, in the statistic's own sign
        ParameterDict b = res.GetBestFit();
        c.eq("best-size", b.size(), order.size());
        for (size_t i = 0; i < order.size(); i++)
        {
            c.near("best", b[order[i]], L.best[i], 0, 0, order[i]);
            if (fixed.count(order[i]))
                c.near("fixed-stays", b[order[i]], v[order[i]], 0, 0, order[i]);
            else if (!limits)
                c.near("finds-the-extremum", b[order[i]], t.centre[order[i]], 1e-3, 1e-3, order[i]);
            else
                c.near("finds-the-extremum-in-range", b[order[i]], std::min(hi[order[i]], std::max(lo[order[i]], t.centre[order[i]])), 1e-3, 1e-3, order[i]);
        }
        c.near("extreme-value", res.GetExtremeVal(), t.value(b), 1e-12, 1e-12);
        c.eq("valid", res.GetValid(), App::NextValid());
        DenseMatrix cov = res.GetCovarianceMatrix();
        size_t n = order.size() - fixed.size();
        c.eq("covariance-rows", cov(vector<double>(n, 0.)).size(), n);
        for (size_t i = 0; i < n; i++)
            for (size_t j = i; j < n; j++)
            {
                double w = L.min.c.d[i + j * (j + 1) / 2];
                c.near("covariance", cov.GetComponent(i, j), w, 0, 0);
                c.near("covariance-symmetric", cov.GetComponent(j, i), w, 0, 0);
            }
        FitResult again = m.GetFitResult();
        c.ok("kept", again.GetBestFit() == b);
        c.near("kept-value", again.GetExtremeVal(), res.GetExtremeVal(), 0, 0);
        if (kept)
        {
            c.eq("copy-method", kept->GetMethod(), keptMethod);
            c.near("copy-tolerance", kept->GetTolerance(), keptTol, 0, 0);
            c.ok("copy-result", kept->GetFitResult().GetBestFit() == keptBest);
            if (s.boolean())
            { // it fits on its own, with the settings it was copied with
                kept->SetInitialValues(v);
                kept->SetInitialErrors(e);
                kept->SetMaximising(maxim);
                auto seen = t.seen;
                FitResult own = kept->Optimise(&t);
                t.seen = seen;
                keptBest = own.GetBestFit();
                c.near("copy-fit", own.GetExtremeVal(), t.value(own.GetBestFit()), 1e-12, 1e-12);
                c.eq("copy-fit-method", App::Last().method, keptMethod);
                c.near("copy-fit-tolerance", App::Last().tolerance, keptTol, 0, 0);
                c.ok("original-result", m.GetFitResult().GetBestFit() == b);
            }
        }
        for (auto &p : t.seen)
            for (size_t i = 0; i < order.size() && limits; i++)
                c.ok("in-range", p[order[i]] >= lo[order[i]] && p[order[i]] <= hi[order[i]]);
    }
    App::NextValid() = true;
}
FACET(refusals, 2)
{
    Stat t = genStat(s);
    Minuit m;
    ParameterDict v, e, lo, hi;
    for (auto &n : t.GetParameterNames())
    {
        v[n] = 0;
        e[n] = 1;
        lo[n] = -1;
        hi[n] = 1;
    }
    string n = v.begin()->first;
    c.nontrivial = true;
    bool value = false;
    size_t which = s.below(8);
    c.desc << which << " " << str(v);
    switch (which)
    {
    case 0:
        lo.erase(n);
        break;
    case 1:
        e["other"] = 1;
        break;
    case 2:
        lo[n] = 1 + std::fabs(s.fine(2, 2));
        break;
    case 3:
        v["other"] = e["other"] = 1;
        break;
    case 4:
        v.erase(n);
        e.erase(n);
        break;
    case 5:
        m.Fix("other");
        break;
    case 6:
        m.SetMethod("Simple");
        value = true;
        break;
    default: // limits for some of the parameters only, or for others
        lo.erase(n);
        hi.erase(n);
        lo["other"] = -1;
        hi["other"] = 1;
        break;
    }
    m.SetInitialValues(v);
    m.SetInitialErrors(e);
    m.SetMinima(lo);
    m.SetMaxima(hi);
    if (value)
        c.throws<ValueError>("refused", [&] { m.Optimise(&t); });
    else
        c.throws<LogicError>("refused", [&] { m.Optimise(&t); });
}
FACET(partial_limits, 2)
{ // limits for some of the parameters: those have them, the others have none
    Stat t = genStat(s);
    Minuit m;
    ParameterDict v, e, lo, hi;
    auto names = t.GetParameterNames();
    size_t k = 0;
    for (auto &n : names)
    {
        v[n] = s.fine(2, 2);
        e[n] = 0.5;
        if (s.boolean())
        {
            lo[n] = v[n] - 1;
            hi[n] = v[n] + 1;
        }
        k++;
    }
    c.desc << str(v) << " limits " << str(lo) << str(hi);
    c.nontrivial = names.size() > 1 && lo.size() && lo.size() < names.size();
    m.SetInitialValues(v);
    m.SetInitialErrors(e);
    m.SetMinima(lo);
    m.SetMaxima(hi);
    m.Optimise(&t);
    size_t i = 0;
    for (auto &n : names)
    {
        c.eq("limited", bool(App::Last().start.limited[i]), lo.count(n) == 1, n);
        i++;
    }
}
