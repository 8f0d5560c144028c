// A complete configuration of a binned likelihood, a reference evaluation of it, and a builder of the real thing.
#pragma once
#include "edmodel.hpp"
#include "sysgen.hpp"
#include <BinnedNLLH.h>
#include <BoxCut.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <memory>

struct NPdf
{
    string name;
    NormFittingStatus st = INDIRECT;
    vector<double> v;
    vector<string> groups; // of systematics; empty: added without
    int rate = 1;
};
struct NSys
{
    string name, group;
    RMat A;
    vector<RMat> B;
    vector<string> pn;
    double p0 = 1;
    bool real = false;   // a real Scale or Shift instead of an arbitrary matrix
};
struct NCon
{
    int kind = 0; // 0 symmetric, 1 asymmetric, 2 pair, 3 ratio, 4 histogram, 5 function
    string a, b;
    double m1 = 0, s1 = 1, m2 = 0, s2 = 1, corr = 0;
    RAxes hax;
    vector<double> hv;
    double eval(const ParameterDict &p) const
    {
        double x = p.at(a);
        auto sq = [](double z) { return z * z; };
        switch (kind)
        {
        case 0:
            return sq((x - m1) / s1) / 2;
        case 1:
            return sq((x - m1) / (x >= m1 ? s2 : s1)) / 2; // s1 below, s2 above
        case 2:
        {
            double u = (x - m1) / s1, w = (p.at(b) - m2) / s2;
            return (u * u - 2 * corr * u * w + w * w) / (2 * (1 - corr * corr));
        }
        case 3:
            return sq((x / p.at(b) - m1) / s1) / 2;
        case 4:
        {
            const RAxis &ax = hax.a[0];
            size_t i = 0;
            while (i + 2 < ax.n() && x >= ax.centre(i + 1))
                i++;
            double f = (x - ax.centre(i)) / (ax.centre(i + 1) - ax.centre(i));
            return hv[i] * (1 - f) + hv[i + 1] * f;
        }
        default:
            return sq((x * x + 1 - m1) / s1) / 2;
        }
    }
};
struct NConf
{
    RAxes ax;
    vector<string> obs;
    vector<NPdf> pdf;
    vector<NSys> sys;
    Buf buf;
    bool over = false;
    vector<NCon> con;
    bool bb = false;
    // data: a distribution over the observables `keep`, or events
    vector<size_t> keep;
    vector<double> data; // bin contents over keep
    bool useEvents = false;
    vector<vector<double>> ev; // values of evObs
    vector<string> evObs;
    vector<std::pair<double, double>> boxes; // cuts on evObs[0] (exclusive bounds)
    ParameterDict par;

    bool passes(const vector<double> &e) const
    {
        for (auto &b : boxes)
            if (!(e[0] > b.first && e[0] < b.second))
                return false;
        return true;
    }
    Want dataWant() const
    {
        Want w;
        if (!useEvents)
        {
            for (size_t d : keep)
                w.ax.a.push_back(ax.a[d]);
            w.v = data;
            return w;
        }
        w.ax = ax;
        w.v.assign(ax.bins(), 0);
        for (auto &e : ev)
            if (passes(e))
            {
                vector<double> x;
                for (auto &o : obs)
                    x.push_back(e[std::find(evObs.begin(), evObs.end(), o) - evObs.begin()]);
                w.v[ax.find(x)] += 1;
            }
        return w;
    }
    vector<size_t> dims() const
    {
        if (!useEvents)
            return keep;
        vector<size_t> d;
        for (size_t i = 0; i < ax.dims(); i++)
            d.push_back(i);
        return d;
    }
    std::set<string> parNames() const
    {
        std::set<string> s;
        for (auto &p : pdf)
            if (p.st != FALSE)
                s.insert(p.name);
        for (auto &y : sys)
            s.insert(y.pn.begin(), y.pn.end());
        return s;
    }
};
struct NResult
{
    bool zero = false; // a bin without probability: refused
    bool unsure = false; // numerically undecided
    double nll = 0, scale = 1;
    vector<double> norms;
};
// the systematics acting on a distribution, in order
inline vector<const NSys *> acting(const NConf &k, const NPdf &p)
{
    vector<const NSys *> o;
    for (auto &y : k.sys)
        if (y.group == "")
            o.push_back(&y);
    for (auto &g : p.groups)
        if (g != "")
            for (auto &y : k.sys)
                if (y.group == g)
                    o.push_back(&y);
    return o;
}
inline NResult evalRef(const NConf &k)
{
    NResult r;
    Want data = k.dataWant();
    Buf buf;
    for (auto &b : k.buf)
        if (b.second.first || b.second.second)
            buf[b.first] = b.second;
    bool shrinks = false;
    for (auto &a : data.ax.a)
        shrinks |= buf.count(a.name) > 0;
    if (shrinks)
        data = shrink(data.ax, data.v, buf, k.over);
    vector<Want> work;
    for (auto &p : k.pdf)
    {
        Want w;
        w.ax = k.ax;
        w.v = p.v;
        for (auto *y : acting(k, p))
        {
            RMat m = y->A;
            for (size_t q = 0; q < y->B.size(); q++)
                for (size_t i = 0; i < m.size(); i++)
                    for (size_t j = 0; j < m.size(); j++)
                        m[i][j] += k.par.at(y->pn[q]) * y->B[q][i][j];
            w.v = ::apply(m, w.v);
        }
        double t = sum(w.v);
        double norm = p.st == FALSE ? t : p.st == DIRECT ? k.par.at(p.name) : k.par.at(p.name) * (k.sys.empty() ? 1. : t);
        w = marginal(w, k.dims());
        if (shrinks)
        {
            double before = sum(w.v);
            w = shrink(w.ax, w.v, buf, k.over);
            double after = sum(w.v);
            if (p.st == DIRECT)
                for (auto &x : w.v)
                    x /= after;
            else if (p.st == FALSE)
                norm = after;
            else
                norm *= before == 0 && after == 0 ? 0 : after / before;
        }
        work.push_back(w);
        r.norms.push_back(norm);
    }
    for (size_t b = 0; b < data.v.size(); b++)
    {
        double mu = 0, n = data.v[b];
        for (size_t i = 0; i < k.pdf.size(); i++)
            mu += (k.pdf[i].st == FALSE ? 1. : k.par.at(k.pdf[i].name)) * work[i].v[b];
        if (mu == 0)
        {
            r.zero = true;
            return r;
        }
        if (mu < 1e-7)
            r.unsure = true;
        double use = mu, pen = 0;
        if (k.bb)
        {
            double s2 = 0;
            for (size_t i = 0; i < k.pdf.size(); i++)
                s2 += r.norms[i] / k.pdf[i].rate / (mu * mu);
            // the positive solution of beta^2 + (mu s2 - 1) beta - n s2 = 0
            long double B = (long double)mu * s2 - 1, C = -(long double)n * s2;
            long double D = std::sqrt(B * B - 4 * C);
            long double beta = B < 0 ? (-B + D) / 2 : (C == 0 ? 0 : -2 * C / (B + D));
            use = double(beta * mu);
            pen = double((beta - 1) * (beta - 1) / (2 * s2));
            if (std::fabs(double(B)) < 1e-6)
                r.unsure = true;
        }
        double term = use + pen - (n ? n * std::log(use) : 0);
        r.scale += std::fabs(use) + pen + std::fabs(n * std::log(use > 0 ? use : 1));
        r.nll += term;
    }
    for (auto &q : k.con)
    {
        double e = q.eval(k.par);
        r.nll += e;
        r.scale += std::fabs(e);
    }
    return r;
}
// The real likelihood; owns its systematics and data set. `how` varies the routes by which it is built.
struct Built
{
    BinnedNLLH lh;
    vector<std::unique_ptr<Systematic>> sys;
    std::unique_ptr<OXSXDataSet> ds;
    void data(const NConf &k)
    {
        if (k.useEvents)
        {
            ds.reset(new OXSXDataSet);
            ds->SetObservableNames(k.evObs);
            for (auto &e : k.ev)
                ds->AddEntry(Event(e));
            lh.SetDataSet(ds.get());
        }
        else
        {
            Want w = k.dataWant();
            BinnedED b("data", w.ax.make());
            vector<string> o;
            for (size_t d : k.keep)
                o.push_back(k.obs[d]);
            b.SetObservables(o);
            b.SetBinContents(w.v);
            lh.SetDataDist(b);
        }
    }
    static void setCon(BinnedNLLH &lh, const NCon &q)
    {
        switch (q.kind)
        {
        case 0:
            lh.SetConstraint(q.a, q.m1, q.s1);
            break;
        case 1:
            lh.SetConstraint(q.a, q.m1, q.s1, q.s2);
            break;
        case 2:
            lh.SetConstraint(q.a, q.m1, q.s1, q.b, q.m2, q.s2, q.corr);
            break;
        case 3:
            lh.SetConstraint(q.a, q.b, q.m1, q.s1);
            break;
        case 4:
        {
            Histogram h(q.hax.make());
            h.SetBinContents(q.hv);
            lh.SetConstraint(q.a, h);
            break;
        }
        default:
        {
            string a = q.a;
            lh.SetConstraint(ParameterDict{{a, 0}}, [a](const ParameterDict &p) { return p.at(a) * p.at(a) + 1; }, q.m1, q.s1);
        }
        }
    }
    BinnedED ed(const NConf &k, const NPdf &p)
    {
        BinnedED b(p.name, k.ax.make());
        b.SetObservables(k.obs);
        b.SetBinContents(p.v);
        return b;
    }
    Built(const NConf &k, Src *s = nullptr, bool setData = true)
    {
        auto flip = [&] { return s && s->boolean(); };
        for (auto &y : k.sys)
        {
            FakeSys *f = new FakeSys(y.name);
            f->SetAxes(k.ax.make());
            f->A = y.A;
            f->B = y.B;
            f->pn = y.pn;
            f->pv.assign(y.pn.size(), y.p0);
            sys.emplace_back(f);
        }
        // the parts of the likelihood may be made on their own and handed over
        unsigned how = s ? s->below(6) : 0;
        bool debug = s && s->chance(1, 12);
        if (debug)
        {
            static std::ostringstream sink; // what it prints is not examined
            sink.str("");
            std::cout.rdbuf(sink.rdbuf());
            lh.SetDebugMode(true);
        }
        bool conFirst = flip();
        if (conFirst)
        {
            if (how == 4)
            {
                BinnedNLLH other;
                for (auto &q : k.con)
                    setCon(other, q);
                lh.SetConstraintManager(other.GetConstraintManager());
                if (debug)
                    lh.SetDebugMode(true);
            }
            else
                for (auto &q : k.con)
                    setCon(lh, q);
        }
        bool allGlobal = true;
        for (auto &y : k.sys)
            allGlobal &= y.group == "";
        if (how == 5)
        {
            SystematicManager sm;
            for (size_t i = 0; i < sys.size(); i++)
                k.sys[i].group == "" ? sm.Add(sys[i].get()) : sm.Add(sys[i].get(), k.sys[i].group);
            lh.SetSystematicManager(sm);
        }
        else if (allGlobal && flip())
        {
            vector<Systematic *> v;
            for (auto &y : sys)
                v.push_back(y.get());
            lh.AddSystematics(v);
        }
        else if (flip())
        {
            vector<Systematic *> v;
            vector<string> g;
            for (size_t i = 0; i < sys.size(); i++)
            {
                v.push_back(sys[i].get());
                g.push_back(k.sys[i].group);
            }
            if (s && s->chance(1, 6))
            { // refused, and nothing is added
                vector<string> g2 = g;
                g2.push_back("one more");
                bool thrown = false;
                try
                {
                    lh.AddSystematics(v, g2);
                }
                catch (const DimensionError &)
                {
                    thrown = true;
                }
                if (!thrown)
                    throw pbt::Failure{"groups-mismatch", "AddSystematics accepted the wrong number of groups"};
            }
            lh.AddSystematics(v, g);
        }
        else
            for (size_t i = 0; i < sys.size(); i++)
                k.sys[i].group == "" ? lh.AddSystematic(sys[i].get()) : lh.AddSystematic(sys[i].get(), k.sys[i].group);
        if (k.bb && flip())
            lh.SetBarlowBeeston(true);
        if (!k.bb && how == 3)
        { // a manager filled by the user
            BinnedEDManager m;
            for (auto &p : k.pdf)
            {
                BinnedED b = ed(k, p);
                p.st == INDIRECT && flip() ? m.AddPdf(b) : m.AddPdf(b, p.st);
                vector<string> g = p.groups;
                if (g.empty())
                    flip() ? lh.GetSystematicManager().AddDist(b, "") : lh.GetSystematicManager().AddDist(b, vector<string>(1, ""));
                else
                    lh.GetSystematicManager().AddDist(b, g);
            }
            lh.SetPdfManager(m);
        }
        else if (flip()) // all at once
        {
            vector<BinnedED> v;
            vector<vector<string>> g;
            vector<int> rates;
            vector<NormFittingStatus> st;
            bool allIndirect = true, noGroups = true;
            for (auto &p : k.pdf)
            {
                v.push_back(ed(k, p));
                vector<string> gg = p.groups;
                if (gg.empty())
                    gg.push_back("");
                else
                    noGroups = false;
                g.push_back(gg);
                rates.push_back(p.rate);
                st.push_back(p.st);
                allIndirect &= p.st == INDIRECT;
            }
            const vector<NormFittingStatus> *ps = allIndirect && flip() ? nullptr : &st;
            bool useGroups = !noGroups || flip();
            if (k.bb)
                useGroups ? lh.AddPdfs(v, g, rates, ps) : lh.AddPdfs(v, rates, ps);
            else
                useGroups ? lh.AddPdfs(v, g, ps) : lh.AddPdfs(v, ps);
        }
        else
            for (auto &p : k.pdf)
                addPdf(k, p, flip());
        if (k.bb)
            lh.SetBarlowBeeston(true);
        for (auto &b : k.buf)
            lh.SetBuffer(b.first, b.second.first, b.second.second);
        lh.SetBufferAsOverflow(k.over);
        CutCollection cc;
        bool together = !k.boxes.empty() && flip();
        for (size_t i = 0; together && i < k.boxes.size(); i++)
            cc.AddCut(BoxCut("cut" + std::to_string(i), k.evObs[0], k.boxes[i].first, k.boxes[i].second));
        if (!k.boxes.empty() && flip())
        { // others first, which are then removed
            CutCollection other;
            other.AddCut(BoxCut("other", k.evObs[0], 1e9, 2e9));
            lh.SetCuts(other);
            lh.SetCuts(CutCollection());
        }
        if (together)
            lh.SetCuts(cc);
        for (size_t i = 0; !together && i < k.boxes.size(); i++)
            lh.AddCut(BoxCut("cut" + std::to_string(i), k.evObs[0], k.boxes[i].first, k.boxes[i].second));
        if (!conFirst)
            for (auto &q : k.con)
                setCon(lh, q);
        lh.RegisterFitComponents();
        if (setData)
            data(k);
        if (!k.par.empty())
            lh.SetParameters(k.par);
    }
    void addPdf(const NConf &k, const NPdf &p, bool groups)
    {
        vector<string> g = p.groups;
        bool none = g.empty();
        if (none)
            g.push_back("");
        if (!none || groups)
            k.bb ? lh.AddPdf(ed(k, p), g, p.rate, p.st) : lh.AddPdf(ed(k, p), g, p.st);
        else
            k.bb ? lh.AddPdf(ed(k, p), p.rate, p.st) : lh.AddPdf(ed(k, p), p.st);
    }
};
inline NPdf genNPdf(Src &s, const NConf &k, const string &name, unsigned mode)
{
    NPdf p;
    p.name = name;
    p.st = mode == 0 ? INDIRECT : mode == 1 ? DIRECT : NormFittingStatus(s.below(3));
    bool none = p.st != DIRECT && !k.pdf.empty() && s.chance(1, 12); // without entries
    for (size_t b = 0; b < k.ax.bins(); b++)
        p.v.push_back(none ? 0 : s.chance(1, 12) ? 0.125 : s.posfine(4, 3));
    if (p.st != FALSE && !none)
    {
        double t = sum(p.v);
        for (auto &x : p.v)
            x /= t;
    }
    p.rate = s.chance(1, 3) ? s.range(1, 3) : s.chance(1, 10) ? s.range(2000, 2000000000) : s.range(1, 2000);
    std::set<string> gs;
    for (auto &y : k.sys)
        if (y.group != "")
            gs.insert(y.group);
    vector<string> gv(gs.begin(), gs.end());
    if (!gv.empty())
        for (size_t i : s.permutation(gv.size()))
            if (s.boolean())
                p.groups.push_back(gv[i]);
    return p;
}
inline void genData(Src &s, NConf &k, bool mayMarginal)
{
    k.useEvents = s.chance(1, 3);
    k.keep.clear();
    k.ev.clear();
    k.boxes.clear();
    if (k.useEvents)
    {
        k.evObs = k.obs;
        if (s.boolean())
            k.evObs.insert(k.evObs.begin(), "extra");
        if (s.boolean())
            std::swap(k.evObs[0], k.evObs.back());
        size_t n = s.size(0, 30);
        for (size_t i = 0; i < n; i++)
        {
            vector<double> e;
            for (auto &o : k.evObs)
            {
                auto it = std::find(k.obs.begin(), k.obs.end(), o);
                e.push_back(it == k.obs.end() ? s.fine(4, 2) : genCoord(s, k.ax.a[it - k.obs.begin()]));
            }
            k.ev.push_back(e);
        }
        return;
    }
    for (size_t d = 0; d < k.ax.dims(); d++)
        k.keep.push_back(d);
    if (mayMarginal && k.ax.dims() > 1 && s.chance(1, 2))
    {
        if (s.boolean())
            std::swap(k.keep[0], k.keep[1]);
        if (s.boolean())
            k.keep.resize(1);
    }
    size_t n = 1;
    for (size_t d : k.keep)
        n *= k.ax.a[d].n();
    k.data.clear();
    for (size_t i = 0; i < n; i++)
        k.data.push_back(s.chance(1, 5) ? 0 : s.boolean() ? double(s.range(1, 50)) : s.posfine(8, 3));
}
inline NCon genCon(Src &s, const string &a, const string &b, double near)
{
    NCon q;
    q.kind = s.below(b.empty() || b == a ? 4 : 6);
    if (b.empty() || b == a)
    {
        static const int m[] = {0, 1, 4, 5};
        q.kind = m[q.kind];
    }
    q.a = a;
    q.b = b;
    q.m1 = s.chance(1, 3) ? near : s.fine(8, 2);
    q.s1 = s.posfine(4, 2);
    q.m2 = s.fine(8, 2);
    q.s2 = s.posfine(4, 2);
    q.corr = s.real(-0.95, 0.95);
    if (q.kind == 4)
    {
        RAxis x; // wide enough for every value a parameter is given
        x.name = a;
        x.e = {-64, -32, 0, 3, 4, 16, 64, 200};
        q.hax.a = {x};
        q.hv = genContents(s, x.n());
    }
    return q;
}
inline NConf genConf(Src &s, bool mayMarginal = true, size_t maxBins = 12)
{
    NConf k;
    bool big = s.chance(1, 8); // more of everything
    k.ax = big ? genAxes(s, 1, 3, 12, 3 * maxBins, 2) : genAxes(s, 1, 2, 5, maxBins, 2);
    k.obs = k.ax.names();
    size_t ns = s.boolean() ? 0 : s.size(1, s.chance(1, 5) ? (s.boolean() ? 9 : 5) : 3);
    const vector<string> sysNames = styled(s, {"scale", "shift", "conv", "zeta", "alpha", "resolution", "b", "quench", "t0"});
    for (size_t i = 0; i < ns; i++)
    {
        FakeSys f(sysNames[i]);
        genFakeSys(s, f, k.ax.bins(), s.size(0, 2));
        NSys y;
        y.name = sysNames[i];
        y.group = s.boolean() ? "" : s.boolean() ? "gB" : s.boolean() ? "gA" : ns > 3 && s.boolean() ? "" : "a group";
        y.A = f.A;
        y.B = f.B;
        y.pn = f.pn;
        k.sys.push_back(y);
    }
    const vector<string> names = styled(s, {"sig", "bg", "acc", "u238", "B8", "th232", "a", "C14", "zz", "k40", "Rn", "po210"});
    unsigned mode = s.below(4);
    size_t np = s.size(1, s.chance(1, 6) ? (s.chance(1, 3) ? 12 : 5) : 3);
    for (size_t i = 0; i < np; i++)
        k.pdf.push_back(genNPdf(s, k, names[i], mode));
    genData(s, k, mayMarginal);
    if (s.boolean())
        for (size_t d : k.dims())
        {
            const RAxis &a = k.ax.a[d];
            if (s.chance(2, 3))
            {
                unsigned l = s.below(a.n()), u = s.below(a.n() - l);
                if (l || u || s.chance(1, 4))
                    k.buf[a.name] = {l, u};
            }
        }
    if (s.chance(1, 5))
        k.buf["elsewhere"] = {1, 2};
    bool any = false;
    for (auto &b : k.buf)
        any |= b.first != "elsewhere" && (b.second.first || b.second.second);
    if (!any) // see edmodel: nothing is removed, DIRECT ones are not normalised again
        k.buf.clear();
    k.over = s.boolean();
    k.bb = s.chance(1, 3);
    if (!k.bb && !k.useEvents && s.chance(1, 10))
        for (auto &x : k.data) // say, with a background subtracted
            if (s.chance(1, 4))
                x = -x;
    if (k.useEvents)
        for (size_t i = 0, n = s.below(3); i < n; i++)
        {
            double a = s.fine(16, 2), b = s.fine(16, 2);
            k.boxes.push_back({std::min(a, b), std::max(a, b)});
        }
    for (auto &n : k.parNames())
        k.par[n] = s.posfine(std::count(names.begin(), names.end(), n) ? 40 : 2, 2);
    vector<string> pn;
    for (auto &p : k.par)
        pn.push_back(p.first);
    std::set<string> used;
    if (!pn.empty())
        for (size_t i = 0, n = s.below(4); i < n; i++)
        {
            string a = s.pick(pn), b = s.pick(pn);
            NCon q = genCon(s, a, b, k.par[a]);
            // at most one individual or pair constraint per parameter, one per kind otherwise
            string key = q.kind <= 2 ? a : std::to_string(q.kind) + a + (q.kind == 3 ? b : "");
            if (used.count(key) || (q.kind == 2 && used.count(b)))
                continue;
            used.insert(key);
            if (q.kind == 2)
                used.insert(b);
            k.con.push_back(q);
        }
    return k;
}
inline void describe(Ctx &c, const NConf &k)
{
    c.desc << show(k.ax) << "pdfs:";
    for (auto &p : k.pdf)
        c.desc << " " << p.name << "/" << p.st << str(p.v) << "g" << str(p.groups) << "r" << p.rate;
    c.desc << " sys:";
    for (auto &y : k.sys)
        c.desc << " " << y.name << "@" << y.group << str(y.pn);
    c.desc << " buf:";
    for (auto &b : k.buf)
        c.desc << " " << b.first << "-" << b.second.first << "," << b.second.second;
    c.desc << " over=" << k.over << " bb=" << k.bb << " cons:";
    for (auto &q : k.con)
        c.desc << " " << q.kind << q.a;
    if (k.useEvents)
        c.desc << " events=" << k.ev.size() << " cuts=" << k.boxes.size();
    else
        c.desc << " data" << str(k.data);
    c.desc << " par" << str(k.par) << "\n";
}
