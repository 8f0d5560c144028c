// BinnedEDManager and EDManager: norm-weighted sums of distributions over histories of parameter changes.
// SRC: core histogram data dist function systematic fitutil
#include "edmodel.hpp"
#include "sysgen.hpp"
#include "fakes.hpp"
#include <AnalyticED.h>
#include <BinnedEDManager.h>
#include <BinnedEDShrinker.h>
#include <CompositeED.h>
#include <EDManager.h>
#include <SystematicManager.h>
#include <memory>

const char *pbt::kRule =
    "random histories over 1-5 distributions with mixed norm statuses, arbitrary systematics in groups, marginalisation and "
    "buffers: parameter changes by every route, systematics and shrinks applied repeatedly, copies; non-trivial: at least two "
    "distributions with different statuses or values and at least two parameter or systematic changes";

namespace
{
struct Pdf
{
    string name;
    NormFittingStatus st;
    Want orig;
    Want work;
    double par = 0;      // fitted norm
    double norm = 0;     // what GetNormalisations should say; valid if normKnown
    vector<FakeSys *> sys;
    string pname;        // current parameter name
};
struct Model
{
    vector<Pdf> p;
    bool normsKnown = true;
    double expect(size_t bin) const
    {
        double t = 0;
        for (auto &x : p)
            t += (x.st == FALSE ? 1. : x.par) * x.work.v[bin];
        return t;
    }
    ParameterDict params() const
    {
        ParameterDict d;
        for (auto &x : p)
            if (x.st != FALSE)
                d[x.pname] = x.par;
        return d;
    }
};
void checkParams(Ctx &c, const string &id, BinnedEDManager &m, const Model &k)
{
    ParameterDict d = k.params();
    ParameterDict got = m.GetParameters();
    c.ok(id + "-params", got == d, "got " + str(got) + " want " + str(d));
    c.eq(id + "-count", m.GetParameterCount(), d.size());
    std::set<string> names;
    for (auto &q : d)
    {
        names.insert(q.first);
        c.eq(id + "-param", m.GetParameter(q.first), q.second, q.first);
    }
    c.ok(id + "-names", m.GetParameterNames() == names);
    c.eq(id + "-npdfs", size_t(m.GetNPdfs()), k.p.size());
}
void checkExpect(Ctx &c, const string &id, BinnedEDManager &m, const Model &k)
{
    if (k.p.empty())
        return;
    for (size_t b = 0; b < k.p[0].work.v.size(); b++)
        c.near(id, m.BinProbability(b), k.expect(b), 1e-9, 1e-9, "bin " + std::to_string(b));
}
} // namespace

FACET(history, 8)
{
    RAxes ax = genAxes(s, 1, 2, 5, 15, 2);
    size_t n = ax.bins();
    vector<string> obs = ax.names();
    c.desc << show(ax);
    // systematics
    bool useSys = s.boolean();
    vector<std::unique_ptr<FakeSys>> sys;
    std::unique_ptr<SystematicManager> sm(new SystematicManager);
    vector<vector<string>> groupsOf; // candidates
    if (useSys)
    {
        size_t ns = s.size(1, 3);
        for (size_t i = 0; i < ns; i++)
        {
            sys.emplace_back(new FakeSys("sys" + std::to_string(i)));
            sys[i]->SetAxes(ax.make());
            genFakeSys(s, *sys[i], n, s.size(0, 1));
        }
        // 0: global, 1, 2: own group
        sm->Add(sys[0].get());
        for (size_t i = 1; i < ns; i++)
            sm->Add(sys[i].get(), "g" + std::to_string(i));
    }
    // buffers and dimensions
    vector<size_t> keep(ax.dims());
    for (size_t d = 0; d < ax.dims(); d++)
        keep[d] = d;
    if (ax.dims() == 2)
        switch (s.below(4))
        {
        case 0:
            keep = {0};
            break;
        case 1:
            keep = {1};
            break;
        case 2:
            keep = {1, 0};
            break;
        default:
            break;
        }
    vector<string> dobs;
    RAxes dax;
    for (size_t d : keep)
    {
        dobs.push_back(obs[d]);
        dax.a.push_back(ax.a[d]);
    }
    Buf buf;
    bool over = s.boolean();
    BinnedEDShrinker sh;
    sh.SetUsingOverflows(over);
    if (s.boolean())
        for (auto &a : dax.a)
        {
            unsigned l = s.below(a.n()), u = s.below(a.n() - l);
            if ((l || u))
            {
                buf[a.name] = {l, u};
                sh.SetBuffer(a.name, l, u);
            }
        }
    BinnedED data("data", dax.make());
    data.SetObservables(dobs);
    if (!buf.empty())
        sh.SetBinMap(data);
    c.desc << " data on " << str(dobs) << " buffers " << buf.size() << " over " << over << " sys " << sys.size();

    BinnedEDManager m;
    if (s.chance(1, 4))
        m.SetName("the norms");
    Model k;
    static const vector<string> names = {"sig", "bg", "acc", "zeta", "ar39"};
    unsigned mode = s.below(4); // all INDIRECT, all DIRECT, mixed, mixed
    size_t changes = 0;
    bool renamed = false;

    auto genPdf = [&](size_t i) {
        Pdf p;
        p.name = p.pname = names[i];
        p.st = mode == 0 ? INDIRECT : mode == 1 ? DIRECT : NormFittingStatus(s.below(3));
        p.orig.ax = ax;
        bool none = p.st != DIRECT && s.chance(1, 8); // a distribution without entries
        for (size_t b = 0; b < n; b++)
            p.orig.v.push_back(none ? 0 : s.posfine(4, 3));
        if (p.st != FALSE && !none)
        {
            double t = sum(p.orig.v);
            for (auto &x : p.orig.v)
                x /= t;
        }
        p.work = p.orig;
        return p;
    };
    auto build = [&](const Pdf &p) {
        BinnedED b(p.name, ax.make());
        b.SetObservables(obs);
        b.SetBinContents(p.orig.v);
        return b;
    };
    auto reg = [&](Pdf &p, const BinnedED &b) {
        if (!useSys || s.chance(1, 5))
            return; // no systematics act on it
        vector<string> l;
        p.sys.push_back(sys[0].get());
        for (size_t i = 1; i < sys.size(); i++)
            if (s.boolean())
            {
                l.push_back("g" + std::to_string(i));
                p.sys.push_back(sys[i].get());
            }
        if (l.empty())
            l.push_back("");
        sm->AddDist(b, l);
    };
    auto fresh = [&] { // all work in a common state: after adding, evaluate before comparing
        m.ReassertNorms();
        sm->Construct();
        m.ApplySystematics(*sm);
        m.AssertDimensions(dobs);
        m.ApplyShrink(sh);
        for (auto &p : k.p)
        {
            p.work = p.orig;
            for (auto *y : p.sys)
                p.work.v = ::apply(y->ref(), p.work.v);
            double t = sum(p.work.v);
            p.norm = p.st == INDIRECT ? p.par * (useSys ? t : 1.) : p.st == DIRECT ? p.par : t;
            p.work = marginal(p.work, keep);
            if (!buf.empty())
            {
                double before = sum(p.work.v);
                p.work = shrink(p.work.ax, p.work.v, buf, over);
                double after = sum(p.work.v);
                if (p.st == DIRECT)
                    for (auto &x : p.work.v)
                        x /= after;
                else if (p.st == INDIRECT)
                    p.norm *= before == 0 && after == 0 ? 0 : after / before;
                else
                    p.norm = after;
            }
        }
        k.normsKnown = true;
    };
    size_t first = s.size(1, 4);
    bool group = s.boolean();
    {
        vector<BinnedED> eds;
        vector<NormFittingStatus> sts;
        for (size_t i = 0; i < first; i++)
        {
            Pdf p = genPdf(i);
            BinnedED b = build(p);
            reg(p, b);
            eds.push_back(b);
            sts.push_back(p.st);
            k.p.push_back(p);
            c.desc << " " << p.name << "/" << p.st << "/" << p.sys.size();
        }
        if (group && mode == 0 && s.boolean())
            m.AddPdfs(eds);
        else if (group)
            m.AddPdfs(eds, &sts);
        else
            for (size_t i = 0; i < first; i++)
                m.AddPdf(eds[i], sts[i]);
        sts.push_back(DIRECT);
        BinnedEDManager m2;
        c.eq("ndims-empty", m2.GetNDims(), size_t(0));
        c.throws<DimensionError>("status-mismatch", [&] { m2.AddPdfs(eds, &sts); });
        c.eq("nothing-added", size_t(m2.GetNPdfs()), size_t(0));
    }
    c.eq("ndims", m.GetNDims(), ax.dims());
    checkParams(c, "start", m, k);
    std::set<int> kinds;
    for (auto &p : k.p)
        kinds.insert(p.st);
    // the expectation at events
    auto events = [&] {
        for (int e = 0; e < 3; e++)
        {
            const RAxes &wax = k.p[0].work.ax;
            vector<double> x = genPoint(s, wax);
            vector<string> on = wax.names();
            vector<double> ev = x;
            if (s.boolean())
            { // the event carries more
                on.insert(on.begin(), "unrelated");
                ev.insert(ev.begin(), 5.5);
            }
            Event evt(ev);
            evt.SetObservableNames(&on);
            double want = 0; // a distribution's probability is normalised
            for (auto &p : k.p)
                want += (p.st == FALSE ? 1. : p.par) * p.work.v[wax.find(x)] / sum(p.work.v);
            c.near("probability", m.Probability(evt), want, 1e-9, 1e-9);
        }
    };
    size_t steps = s.size(3, 14);
    for (size_t st = 0; st < steps; st++)
    {
        switch (s.below(9))
        {
        case 0:
        { // one parameter
            ParameterDict d = k.params();
            if (d.empty())
            {
                c.throws<std::exception>("set-unknown", [&] { m.SetParameter("sig", 1); });
                break;
            }
            auto it = d.begin();
            std::advance(it, s.below(d.size()));
            double v = s.fine(16, 3);
            c.desc << " set(" << it->first << "," << v << ")";
            m.SetParameter(it->first, v);
            for (auto &p : k.p)
                if (p.st != FALSE && p.pname == it->first)
                    p.par = v;
            changes++;
            k.normsKnown = false;
            break;
        }
        case 1:
        { // all parameters, perhaps with some of others' mixed in
            ParameterDict d = k.params();
            for (auto &p : k.p)
                if (p.st != FALSE)
                    d[p.pname] = p.par = s.posfine(16, 3);
            if (s.boolean())
                d["of_something_else"] = 3;
            for (auto &p : k.p)
                if (p.st == FALSE && s.boolean())
                    d[p.name] = 77;
            c.desc << " setall" << str(d);
            m.SetParameters(d);
            changes++;
            k.normsKnown = false;
            break;
        }
        case 2:
        { // norms
            vector<double> v;
            for (auto &p : k.p)
            {
                v.push_back(s.chance(1, 6) ? 0 : s.posfine(16, 3));
                p.par = v.back();
                p.norm = v.back();
            }
            c.desc << " norms" << str(v);
            m.SetNormalisations(v);
            c.nearv("norms-set", m.GetNormalisations(), v);
            v.push_back(1);
            c.throws<LogicError>("norms-size", [&] { m.SetNormalisations(v); });
            k.normsKnown = true;
            changes++;
            break;
        }
        case 3:
            if (!sys.empty())
            {
                FakeSys &y = *sys[s.below(sys.size())];
                if (!y.pv.empty())
                {
                    y.pv[0] = s.posfine(2, 2);
                    changes++;
                    c.desc << " " << y.name << "=" << y.pv[0];
                }
            }
            break;
        case 4:
            if (k.p.size() < names.size() && !renamed)
            {
                Pdf p = genPdf(k.p.size());
                BinnedED b = build(p);
                reg(p, b);
                c.desc << " add " << p.name << "/" << p.st;
                m.AddPdf(b, p.st);
                k.p.push_back(p);
                kinds.insert(p.st);
                checkParams(c, "added", m, k);
                fresh();
            }
            break;
        case 5:
        { // copy; the original goes away or is changed
            c.desc << " copy";
            BinnedEDManager other;
            if (renamed)
                break;
            bool assign = s.boolean();
            BinnedEDManager cp(m);
            if (assign)
            {
                BinnedED junk("junk", ax.make());
                junk.SetObservables(obs);
                other.AddPdf(junk, DIRECT);
                other = m;
            }
            BinnedEDManager &x = assign ? other : cp;
            checkParams(c, "copy", x, k);
            c.eq("copy-name", x.GetName(), m.GetName());
            if (s.chance(1, 4))
            { // new norms for both
                vector<double> v;
                for (auto &p : k.p)
                {
                    v.push_back(s.chance(1, 6) ? 0 : s.posfine(16, 3));
                    p.par = p.norm = v.back();
                }
                x.SetNormalisations(v);
                m.SetNormalisations(v);
                k.normsKnown = true;
                checkParams(c, "copy-norms", x, k);
            }
            checkExpect(c, "copy-expect", x, k);
            // changes to the copy stay in the copy
            ParameterDict d = k.params(), d2 = d;
            for (auto &q : d2)
                q.second = 1000;
            if (!d2.empty())
                x.SetParameters(d2);
            c.ok("copy-set", x.GetParameters() == d2);
            checkParams(c, "copied-from", m, k);
            checkExpect(c, "copied-from-expect", m, k);
            if (!d.empty())
                x.SetParameters(d);
            m = x;
            break;
        }
        case 6:
        {
            ParameterDict d = k.params();
            if (!d.empty() && s.chance(1, 2))
            {
                auto it = d.begin();
                std::advance(it, s.below(d.size()));
                string to = "new_" + std::to_string(st);
                c.desc << " rename " << it->first;
                m.RenameParameter(it->first, to);
                for (auto &p : k.p)
                    if (p.st != FALSE && p.pname == it->first)
                        p.pname = to;
                c.throws<std::exception>("renamed-away", [&] { m.GetParameter(it->first); });
                renamed = true;
            }
            else if (d.size())
            {
                ParameterDict bad = d;
                bad.erase(bad.begin());
                c.throws<ParameterError>("missing", [&] { m.SetParameters(bad); });
                c.throws<ParameterError>("unknown", [&] { m.SetParameter("nothing", 1); });
                c.throws<ParameterError>("unknown-get", [&] { m.GetParameter("nothing"); });
            }
            break;
        }
        default:
        {
            size_t times = s.size(1, 2);
            c.desc << " apply*" << times;
            for (size_t i = 0; i < times; i++)
                fresh();
            if (s.boolean())
                m.ApplyShrink(sh); // again: already done
            if (s.boolean())
                m.AssertDimensions(dobs);
            checkExpect(c, "expect", m, k);
            if (k.normsKnown)
                for (size_t i = 0; i < k.p.size(); i++)
                    c.near("norms", m.GetNormalisations().at(i), k.p[i].norm, 1e-9, 1e-9, k.p[i].name);
            events();
            break;
        }
        }
        // in any order, or not at all before the next change
        int how = s.below(4);
        if (how == 1)
            events();
        if (how != 3)
            checkParams(c, "step", m, k);
        if (how != 2)
            checkExpect(c, "step-expect", m, k);
        for (size_t i = 0; i < k.p.size(); i++)
            c.nearv("original", m.GetOriginalPdf(i).GetBinContents(), k.p[i].orig.v);
    }
    c.throws<std::exception>("no-such-pdf", [&] { m.GetOriginalPdf(k.p.size()); });
    c.nontrivial = k.p.size() >= 2 && changes >= 2;
    c.tag("mixed", kinds.size() >= 2);
    c.tag("systematics", useSys);
    c.tag("shrunk", !buf.empty());
    c.tag("marginal", keep.size() < ax.dims());
}

// distributions of different dimensionality are reduced to the data's observables
FACET(dimensions, 2)
{
    RAxes ax = genAxes(s, 2, 3, 4, 40, 1);
    vector<string> obs = ax.names();
    vector<size_t> keep = s.permutation(ax.dims());
    keep.resize(s.size(1, ax.dims()));
    vector<string> dobs;
    for (size_t d : keep)
        dobs.push_back(obs[d]);
    c.desc << show(ax) << " to " << str(dobs);
    BinnedEDManager m;
    vector<Want> w;
    size_t np = s.size(1, 3);
    vector<double> norms;
    for (size_t i = 0; i < np; i++)
    {
        vector<size_t> dims = keep;
        for (size_t d = 0; d < ax.dims(); d++)
            if (!std::count(dims.begin(), dims.end(), d) && s.boolean())
                dims.insert(dims.begin() + s.below(dims.size() + 1), d);
        Want p;
        vector<string> o;
        for (size_t d : dims)
        {
            p.ax.a.push_back(ax.a[d]);
            o.push_back(obs[d]);
        }
        p.v = genContents(s, p.ax.bins());
        BinnedED b("p" + std::to_string(i), p.ax.make());
        b.SetObservables(o);
        b.SetBinContents(p.v);
        m.AddPdf(b, s.boolean() ? DIRECT : INDIRECT);
        vector<size_t> idx;
        for (size_t d : keep)
            for (size_t j = 0; j < dims.size(); j++)
                if (dims[j] == d)
                    idx.push_back(j);
        c.nontrivial |= dims.size() > keep.size();
        w.push_back(marginal(p, idx));
        norms.push_back(s.posfine(8, 2));
    }
    m.SetNormalisations(norms);
    m.ReassertNorms();
    SystematicManager sm;
    m.ApplySystematics(sm);
    for (int r = 0; r < 2; r++)
    {
        m.AssertDimensions(dobs);
        for (size_t b = 0; b < w[0].v.size(); b++)
        {
            double t = 0;
            for (size_t i = 0; i < np; i++)
                t += norms[i] * w[i].v[b];
            c.near("reduced", m.BinProbability(b), t, 1e-9, 1e-9);
        }
    }
    c.throws<std::exception>("bin-out-of-range", [&] { m.BinProbability(w[0].v.size() + 1000); });
}

// norms in another unit: expectations and norms scale exactly
FACET(units, 2)
{
    RAxes ax = genAxes(s, 1, 2, 5, 15, 2);
    size_t n = ax.bins(), np = s.size(1, 4);
    double u = genUnit(s);
    c.desc << show(ax) << " norms times " << u;
    BinnedEDManager m, l;
    BinnedEDShrinker sh;
    sh.SetUsingOverflows(s.boolean());
    bool shrinks = s.boolean();
    if (shrinks)
        for (auto &a : ax.a)
        {
            unsigned lo = s.below(a.n()), up = s.below(a.n() - lo);
            sh.SetBuffer(a.name, lo, up);
        }
    FakeSys y("y");
    y.SetAxes(ax.make());
    genFakeSys(s, y, n, 0);
    FakeSys z("y");
    z.SetAxes(ax.make());
    z.A = y.A;
    SystematicManager sm, sl;
    bool distorted = s.boolean(), direct = false;
    double strength = distorted && s.boolean() ? genUnit(s) : 1; // of the systematic
    vector<NormFittingStatus> stats;
    for (size_t i = 0; i < np; i++)
    {
        stats.push_back(NormFittingStatus(s.below(3)));
        direct |= stats.back() == DIRECT;
    }
    if (shrinks && direct)
        strength = 1; // shrunk distributions of this kind are normalised
    for (auto &row : z.A)
        for (auto &x : row)
            x *= strength;
    if (distorted)
    {
        sm.Add(&y);
        sl.Add(&z);
        c.desc << " systematic times " << strength;
    }
    ParameterDict p, q;
    for (size_t i = 0; i < np; i++)
    {
        NormFittingStatus st = stats[i];
        string name = "p" + std::to_string(i);
        vector<double> v = genContents(s, n, true, 0);
        BinnedED b(name, ax.make()), d(name, ax.make());
        b.SetObservables(ax.names());
        d.SetObservables(ax.names());
        b.SetBinContents(v);
        d.SetBinContents(st == FALSE ? times(v, u) : v);
        c.desc << " " << st;
        if (st != FALSE && s.boolean())
        {
            b.Normalise();
            d.Normalise();
        }
        m.AddPdf(b, st);
        l.AddPdf(d, st);
        sm.AddDist(b, "");
        sl.AddDist(d, "");
        if (st != FALSE)
        {
            p[name] = s.posfine(16, 3);
            if (s.chance(1, 3)) // large beside small
                p[name] *= genUnit(s);
            q[name] = p[name] * u;
        }
    }
    c.nontrivial = np > 1;
    if (shrinks)
    {
        BinnedED b("data", ax.make());
        b.SetObservables(ax.names());
        sh.SetBinMap(b);
    }
    for (int round = 0; round < 2; round++)
    {
        m.SetParameters(p);
        l.SetParameters(q);
        m.ReassertNorms();
        l.ReassertNorms();
        sm.Construct();
        sl.Construct();
        m.ApplySystematics(sm);
        l.ApplySystematics(sl);
        m.AssertDimensions(ax.names());
        l.AssertDimensions(ax.names());
        m.ApplyShrink(sh);
        l.ApplyShrink(sh);
        size_t bins = n;
        if (shrinks)
        {
            bins = 1;
            for (auto &a : ax.a)
                bins *= a.n() - sh.GetBuffer(a.name).first - sh.GetBuffer(a.name).second;
        }
        for (size_t b = 0; b < bins; b++)
            c.near("expectation", l.BinProbability(b), m.BinProbability(b) * u * strength, UREL, UABS);
        for (size_t i = 0; i < np; i++)
            c.near("norms", l.GetNormalisations()[i], m.GetNormalisations()[i] * u * (stats[i] == DIRECT ? 1 : strength), UREL, UABS);
        vector<double> x = genPoint(s, ax);
        vector<string> on = ax.names();
        Event e(x);
        e.SetObservableNames(&on);
        bool hasFalse = p.size() < np;
        if (!hasFalse)
            c.near("probability", l.Probability(e), m.Probability(e) * u, UREL, UABS);
        for (auto &z : p)
        {
            z.second = s.posfine(16, 3);
            q[z.first] = z.second * u;
        }
    }
}
// EDManager: any kind of distributions
FACET(edmanager, 3)
{
    const vector<string> pool = styled(s, {"energy", "radius", "time", "alpha"});
    size_t nd = s.size(1, 2);
    auto perm = s.permutation(pool.size());
    vector<string> evObs;
    vector<double> evVal;
    for (size_t i : perm)
        evObs.push_back(pool[i]);
    size_t np = s.size(1, 4);
    EDManager m;
    struct D
    {
        string name;
        std::function<double(const Event &)> f;
        double par = 0;
    };
    vector<D> k;
    vector<std::unique_ptr<EventDistribution>> keepAlive;
    vector<EventDistribution *> all;
    for (size_t i = 0; i < np; i++)
    {
        auto p = s.permutation(pool.size());
        vector<string> o;
        for (size_t j = 0; j < nd; j++)
            o.push_back(pool[p[j]]);
        D d;
        d.name = "d" + std::to_string((i * 3) % 5);
        if (s.boolean())
        {
            RAxes ax;
            for (auto &x : o)
                ax.a.push_back(genAxis(s, x, 4));
            vector<double> v = genContents(s, ax.bins());
            if (sum(v) == 0)
                v[0] = 2;
            std::unique_ptr<BinnedED> b(new BinnedED(d.name, ax.make()));
            b->SetObservables(o);
            b->SetBinContents(v);
            d.f = [=](const Event &e) {
                vector<double> x;
                for (auto &q : o)
                    x.push_back(e.GetDatum(q));
                return v[ax.find(x)] / sum(v);
            };
            keepAlive.push_back(std::move(b));
        }
        else
        {
            double sc = s.posfine(4, 2);
            FakePDF f(nd, sc);
            std::unique_ptr<AnalyticED> b(new AnalyticED(d.name, &f));
            b->SetObservables(o);
            d.f = [=](const Event &e) {
                vector<double> x;
                for (auto &q : o)
                    x.push_back(e.GetDatum(q));
                return FakePDF::value(nd, sc, x);
            };
            keepAlive.push_back(std::move(b));
        }
        all.push_back(keepAlive.back().get());
        k.push_back(d);
    }
    if (s.boolean())
        m.AddDists(all);
    else
        for (size_t i = 0; i < np; i++)
        {
            m.AddDist(all[i]);
            if (s.chance(1, 3)) // norms that are set stay when more are added
            {
                size_t j = s.below(i + 1);
                k[j].par = s.fine(8, 2);
                m.SetParameter(k[j].name, k[j].par);
            }
        }
    keepAlive.clear(); // the manager has copies
    c.eq("ed-ndims", m.GetNDims(), nd);
    c.eq("ed-ndists", m.GetNDists(), np);
    c.desc << "EDManager of " << np << " dists on " << nd << " of " << str(evObs);
    auto check = [&](const string &id, const EDManager &x) {
        ParameterDict d;
        std::set<string> names;
        vector<double> norms;
        for (auto &q : k)
        {
            d[q.name] = q.par;
            names.insert(q.name);
            norms.push_back(q.par);
        }
        c.ok(id + "-params", x.GetParameters() == d, str(x.GetParameters()));
        c.ok(id + "-names", x.GetParameterNames() == names);
        c.eq(id + "-count", x.GetParameterCount(), np);
        c.nearv(id + "-norms", x.GetNormalisations(), norms);
        vector<double> v;
        for (size_t i = 0; i < evObs.size(); i++)
            v.push_back(s.fine(8, 3));
        Event e(v);
        e.SetObservableNames(&evObs);
        double want = 0;
        for (auto &q : k)
            want += q.par * q.f(e);
        c.near(id + "-prob", x.Probability(e), want, 1e-9, 1e-9);
    };
    check("ed-start", m);
    size_t steps = s.size(1, 6);
    for (size_t st = 0; st < steps; st++)
    {
        switch (s.below(6))
        {
        case 4:
        { // copies are independent
            bool anyRenamed = false;
            for (auto &q : k)
                anyRenamed |= q.name.back() == '\'';
            if (anyRenamed)
                break;
            EDManager cp(m), as;
            FakePDF f(1, 1);
            AnalyticED junk("junk", &f);
            junk.SetObservables(vector<string>(1, "energy"));
            as.AddDist(&junk);
            as = m;
            check("ed-copy", cp);
            check("ed-assigned", as);
            cp.SetParameter(k[0].name, 555);
            as.SetNormalisations(vector<double>(np, 7));
            check("ed-original", m);
            c.eq("ed-copy-set", cp.GetParameter(k[0].name), 555.);
            c.eq("ed-assigned-set", as.GetParameter(k[0].name), 7.);
            as = as;
            c.eq("ed-self", as.GetParameter(k[0].name), 7.);
            break;
        }
        case 0:
        {
            size_t i = s.below(np);
            k[i].par = s.fine(8, 2);
            m.SetParameter(k[i].name, k[i].par);
            break;
        }
        case 1:
        {
            ParameterDict d;
            for (auto &q : k)
                d[q.name] = q.par = s.fine(8, 2);
            d["foreign"] = 3;
            m.SetParameters(d);
            break;
        }
        case 2:
        {
            vector<double> v;
            for (auto &q : k)
                v.push_back(q.par = s.fine(8, 2));
            m.SetNormalisations(v);
            v.push_back(0);
            c.throws<DimensionError>("ed-norms-size", [&] { m.SetNormalisations(v); });
            break;
        }
        case 3:
        {
            size_t i = s.below(np);
            string to = k[i].name + "'";
            m.RenameParameter(k[i].name, to);
            k[i].name = to;
            break;
        }
        default:
        {
            FakePDF f(nd + 1, 1);
            AnalyticED bad("bad", &f);
            vector<string> o(pool.begin(), pool.begin() + nd + 1);
            bad.SetObservables(o);
            c.throws<DimensionError>("ed-dims", [&] { m.AddDist(&bad); });
            c.throws<ParameterError>("ed-unknown", [&] { m.SetParameter("nope", 2); });
        }
        }
        check("ed-step", m);
    }
    c.nontrivial = np >= 2;
}
