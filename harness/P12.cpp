// BinnedNLLH over histories: every evaluation equals that of a freshly built likelihood and the reference.
// SRC: core histogram data dist function systematic fitutil teststat constraint cut eventSystematic
#include "kernels.hpp"
#include "nllhmodel.hpp"
#include <Convolution.h>
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Shift.h>

const char *pbt::kRule =
    "random histories (4-20 steps) of one likelihood: parameters set, evaluated repeatedly or in any order, data replaced by "
    "events or distributions of the same or fewer observables, pdfs and constraints added, components registered again, "
    "refused calls in between; non-trivial: at least three evaluations with at least two kinds of change between them";

namespace
{
struct Outcome
{
    bool refused = false;
    double v = 0;
    string what;
};
Outcome eval(BinnedNLLH &lh)
{
    Outcome o;
    try
    {
        o.v = lh.Evaluate();
    }
    catch (const std::runtime_error &e)
    {
        o.refused = true;
        o.what = e.what();
    }
    return o;
}
void same(Ctx &c, const string &id, const Outcome &got, const Outcome &want, double scale)
{
    if (got.refused != want.refused)
        c.fail(id, got.refused ? "refused: " + got.what : "not refused as it should be");
    if (!got.refused)
        c.near(id, got.v, want.v, 1e-8, 1e-9 * scale);
}
void newPars(Src &s, NConf &k)
{
    bool all = s.boolean();
    for (auto &p : k.par)
        if (all || s.chance(1, 3))
            p.second = s.posfine(p.first.find('_') == string::npos ? 40 : 2, 2);
}
} // namespace

FACET(history, 8)
{
    NConf k = genConf(s);
    describe(c, k);
    std::unique_ptr<Built> live(new Built(k, &s));
    vector<std::pair<ParameterDict, Outcome>> seen; // since the configuration last changed
    size_t steps = s.size(4, 20), evals = 0;
    std::set<string> kinds;
    vector<std::unique_ptr<OXSXDataSet>> old; // data sets replaced stay alive
    const bool rates = k.bb;                  // the pdfs were given with their rates
    for (size_t st = 0; st < steps; st++)
    {
        size_t op = s.below(16);
        if (op == 10)
        { // the normalisations themselves: the fitted ones are the parameters
            vector<double> v;
            for (auto &p : k.pdf)
            {
                v.push_back(s.posfine(40, 2));
                if (p.st != FALSE)
                    k.par[p.name] = v.back();
            }
            c.desc << " norms" << str(v);
            live->lh.SetNormalisations(v);
            c.ok("norms-set-parameters", live->lh.GetParameters() == k.par, str(live->lh.GetParameters()) + " want " + str(k.par));
            vector<double> more = v;
            s.boolean() ? more.push_back(1) : more.pop_back();
            c.throws<LogicError>("norms-mismatch", [&] { live->lh.SetNormalisations(more); });
            kinds.insert("norms");
        }
        else if (op == 11 && !k.sys.empty())
        { // systematics and norms changed directly, not through the fit parameters
            bool bare = k.con.empty() && s.boolean();
            if (bare) // as if never registered
                live->lh.GetComponentManager().Clear();
            for (size_t round = 0, n = s.size(1, 3); round < n; round++)
            {
                for (size_t i = 0; i < k.sys.size(); i++)
                {
                    NSys &y = k.sys[i];
                    FakeSys *f = static_cast<FakeSys *>(live->sys[i].get());
                    if (s.boolean())
                    {
                        size_t a = s.below(y.A.size()), b = s.below(y.A.size());
                        y.A[a][b] += s.posfine(1, 3);
                        f->A = y.A;
                    }
                    for (auto &q : y.pn)
                        if (s.boolean())
                        {
                            double v = s.posfine(2, 2);
                            for (size_t o = 0; o < k.sys.size(); o++) // shared ones are set everywhere
                                if (std::count(k.sys[o].pn.begin(), k.sys[o].pn.end(), q))
                                    live->sys[o]->SetParameter(q, v);
                            k.par[q] = v;
                        }
                }
                if (s.boolean())
                {
                    vector<double> v;
                    for (auto &p : k.pdf)
                    {
                        v.push_back(s.posfine(40, 2));
                        if (p.st != FALSE)
                            k.par[p.name] = v.back();
                    }
                    live->lh.SetNormalisations(v);
                }
                NResult r = evalRef(k);
                Outcome o = eval(live->lh);
                if (r.zero)
                    c.ok("direct-zero", o.refused);
                else if (!r.unsure)
                {
                    c.ok("direct-refused", !o.refused, o.what);
                    c.near("direct", o.v, r.nll, 1e-7, 1e-8 * r.scale);
                }
                evals++;
            }
            if (bare)
                live->lh.RegisterFitComponents();
            c.ok("direct-parameters", live->lh.GetParameters() == k.par, str(live->lh.GetParameters()) + " want " + str(k.par));
            c.desc << " direct" << bare << str(k.par);
            seen.clear();
            kinds.insert("direct");
        }
        else if (op == 12 && k.sys.size() < 6)
        { // one more systematic
            FakeSys f("late" + std::to_string(k.sys.size()));
            genFakeSys(s, f, k.ax.bins(), s.size(0, 2));
            NSys y;
            y.name = f.name;
            std::set<string> gs = {"", "new group"};
            for (auto &q : k.sys)
                gs.insert(q.group);
            y.group = s.pick(vector<string>(gs.begin(), gs.end()));
            y.A = f.A;
            y.B = f.B;
            y.pn = f.pn;
            k.sys.push_back(y);
            FakeSys *g = new FakeSys(f);
            g->SetAxes(k.ax.make());
            live->sys.emplace_back(g);
            y.group == "" ? live->lh.AddSystematic(g) : live->lh.AddSystematic(g, y.group);
            live->lh.RegisterFitComponents();
            for (auto &q : y.pn)
                if (!k.par.count(q))
                    k.par[q] = s.posfine(2, 2);
            if (!k.par.empty())
                live->lh.SetParameters(k.par);
            c.desc << " addsys " << y.name << "@" << y.group << str(y.pn);
            seen.clear();
            kinds.insert("systematic");
        }
        else if (op == 13 && !k.buf.empty())
        { // other buffers, and the data again
            NConf t = k;
            bool any = false;
            for (size_t d : t.dims())
            {
                const RAxis &a = t.ax.a[d];
                if (s.boolean() || t.buf.count(a.name))
                {
                    unsigned l = s.below(a.n()), u = s.below(a.n() - l);
                    t.buf[a.name] = {l, u};
                }
                any |= t.buf.count(a.name) && (t.buf[a.name].first || t.buf[a.name].second);
            }
            if (!any)
                continue;
            t.over = s.boolean();
            k = t;
            for (auto &b : k.buf)
                live->lh.SetBuffer(b.first, b.second.first, b.second.second);
            live->lh.SetBufferAsOverflow(k.over);
            old.push_back(std::move(live->ds));
            live->data(k);
            c.desc << " buffers";
            for (auto &b : k.buf)
                c.desc << " " << b.first << "-" << b.second.first << "," << b.second.second;
            seen.clear();
            kinds.insert("buffers");
        }
        else if (op == 15)
        { // settings made again as they are
            for (auto &b : k.buf)
                live->lh.SetBuffer(b.first, b.second.first, b.second.second);
            live->lh.SetBufferAsOverflow(k.over);
            if (!rates || k.bb)
                live->lh.SetBarlowBeeston(k.bb);
            c.desc << " again";
            kinds.insert("again");
        }
        else if (op == 14 && rates)
        {
            k.bb = !k.bb;
            live->lh.SetBarlowBeeston(k.bb);
            c.desc << " bb=" << k.bb;
            seen.clear();
            kinds.insert("bb");
        }
        else if (op == 0)
        {
            newPars(s, k);
            c.desc << " set" << str(k.par);
            ParameterDict p = k.par;
            if (s.boolean())
                p["of_another_likelihood"] = 5;
            if (!p.empty())
                live->lh.SetParameters(p);
            kinds.insert("set");
        }
        else if (op == 1)
        { // data
            auto boxes = k.boxes;
            auto evObs = k.evObs;
            NConf t = k;
            genData(s, t, true);
            if (t.useEvents && evObs.empty())
                evObs = t.evObs;
            if (t.useEvents && t.evObs != evObs)
            { // cuts refer to the first one
                vector<vector<double>> ev;
                for (auto &e : t.ev)
                {
                    vector<double> x;
                    for (auto &o : evObs)
                    {
                        auto it = std::find(t.evObs.begin(), t.evObs.end(), o);
                        x.push_back(it == t.evObs.end() ? 0.5 : e[it - t.evObs.begin()]);
                    }
                    ev.push_back(x);
                }
                t.ev = ev;
            }
            t.evObs = evObs;
            t.boxes = boxes;
            bool any = t.buf.empty();
            for (size_t d : t.dims())
            {
                auto it = t.buf.find(t.ax.a[d].name);
                any |= it != t.buf.end() && (it->second.first || it->second.second);
            }
            if (!any)
                continue; // only buffers of other observables: see nllhmodel
            k = t;
            c.desc << " data(" << (k.useEvents ? "events " + std::to_string(k.ev.size()) : str(k.keep) + str(k.data)) << ")";
            old.push_back(std::move(live->ds));
            live->data(k);
            if (k.useEvents && s.boolean())
            { // the same data set has more entries when it is set again
                Outcome o = eval(live->lh);
                (void)o;
                for (size_t n = s.size(1, 5); n-- > 0;)
                {
                    vector<double> x = k.ev.empty() ? vector<double>(k.evObs.size(), 0.5) : s.pick(k.ev);
                    k.ev.push_back(x);
                    live->ds->AddEntry(Event(x));
                }
                live->lh.SetDataSet(live->ds.get());
                c.desc << " more" << k.ev.size();
            }
            seen.clear();
            kinds.insert("data");
        }
        else if (op == 2)
        {
            c.desc << " register";
            live->lh.RegisterFitComponents();
            c.ok("registered-again", live->lh.GetParameters() == k.par, str(live->lh.GetParameters()));
            kinds.insert("register");
        }
        else if (op == 3 && k.pdf.size() < 5)
        {
            NPdf p = genNPdf(s, k, "late" + std::to_string(k.pdf.size()), s.below(4));
            c.desc << " addpdf " << p.name << "/" << p.st;
            k.pdf.push_back(p);
            NConf kr = k;
            kr.bb = rates;
            if (rates && !k.bb)
                live->lh.SetBarlowBeeston(false);
            live->addPdf(kr, p, s.boolean());
            live->lh.RegisterFitComponents();
            if (p.st != FALSE)
                k.par[p.name] = s.posfine(20, 2);
            if (!k.par.empty())
                live->lh.SetParameters(k.par);
            seen.clear();
            kinds.insert("pdf");
        }
        else if (op == 4 && !k.par.empty())
        {
            vector<string> pn;
            for (auto &p : k.par)
                pn.push_back(p.first);
            string a = s.pick(pn);
            NCon q = genCon(s, a, "", k.par[a]);
            bool pair = false;
            for (auto &x : k.con)
                if (x.kind == 2 && (x.a == a || x.b == a) && q.kind <= 2)
                    pair = true;
            if (pair)
            {
                c.throws<LogicError>("pair-constraint-exists", [&] { Built::setCon(live->lh, q); });
            }
            else
            { // replaces one of the same kind
                vector<NCon> left;
                for (auto &x : k.con)
                {
                    bool rep = x.a == a && (q.kind <= 1 ? x.kind <= 1 : x.kind == q.kind);
                    if (!rep)
                        left.push_back(x);
                }
                left.push_back(q);
                k.con = left;
                Built::setCon(live->lh, q);
                c.desc << " constrain " << q.kind << a;
                seen.clear();
                kinds.insert("constraint");
            }
        }
        else if (op == 5 && !k.par.empty())
        { // calls that are refused leave no trace
            ParameterDict p = k.par;
            for (auto &q : p)
                q.second += 3;
            p.erase(p.begin());
            if (!p.empty())
                c.throws<ParameterError>("incomplete", [&] { live->lh.SetParameters(p); });
            p = k.par;
            bool fit = false;
            for (auto &q : k.pdf)
            {
                fit |= q.st == FALSE;
                if (q.st != FALSE)
                    p[q.name] = 0;
            }
            bool ratio = false;
            for (auto &q : k.con)
                ratio |= q.kind == 3;
            if (!fit && !ratio)
            {
                live->lh.SetParameters(p);
                c.throws<std::runtime_error>("zero", [&] { live->lh.Evaluate(); });
            }
            live->lh.SetParameters(k.par);
            c.desc << " refused";
            kinds.insert("refused");
        }
        else if (op == 6 && !seen.empty())
        { // back to points seen before, in any order
            for (size_t i : s.permutation(seen.size()))
            {
                live->lh.SetParameters(seen[i].first);
                same(c, "same-as-before", eval(live->lh), seen[i].second, evalRef(k).scale + 1);
            }
            if (!k.par.empty())
                live->lh.SetParameters(k.par);
            c.desc << " revisit";
            kinds.insert("revisit");
        }
        else
        {
            NResult r = evalRef(k);
            size_t times = s.size(1, 3);
            c.desc << " eval*" << times;
            Built fresh(k);
            Outcome want = eval(fresh.lh), first;
            for (size_t i = 0; i < times; i++)
            {
                Outcome o = eval(live->lh);
                if (i == 0)
                    first = o;
                else if (o.refused != first.refused || (!o.refused && o.v != first.v))
                    c.near("repeatable", o.v, first.v, 1e-12, 1e-12 * r.scale);
                same(c, "fresh", o, want, r.scale);
                if (r.zero)
                    c.ok("zero-refused", o.refused);
                else if (!r.unsure)
                    c.near("reference", o.v, r.nll, 1e-7, 1e-8 * r.scale);
                evals++;
            }
            c.ok("parameters-kept", live->lh.GetParameters() == k.par, str(live->lh.GetParameters()));
            if (!want.refused)
                c.nearv("norms", live->lh.GetNormalisations(), fresh.lh.GetNormalisations(), 1e-9, 1e-9);
            if (!k.par.empty() && !r.unsure)
                seen.push_back({k.par, want});
        }
    }
    c.nontrivial = evals >= 3 && kinds.size() >= 2;
    c.tag("zero-or-more-data-changes", kinds.count("data"));
}

// the library's own systematics, which keep bin mappings and responses
namespace
{
void same(Ctx &c, const string &id, BinnedNLLH &lh, const NConf &k)
{
    c.ok(id + "-parameters", lh.GetParameters() == k.par, str(lh.GetParameters()));
    NResult r = evalRef(k);
    if (r.zero)
    {
        c.throws<std::runtime_error>(id + "-zero-probability", [&] { lh.Evaluate(); });
        return;
    }
    double got = lh.Evaluate();
    if (!r.unsure)
        c.near(id, got, r.nll, 1e-7, 1e-8 * r.scale);
}
} // namespace
// copies have their own norms, whatever happens to the original
FACET(copies, 3)
{
    NConf k = genConf(s);
    describe(c, k);
    Built b(k, &s);
    if (s.boolean())
        same(c, "before", b.lh, k);
    auto other = [&](const NConf &from) {
        NConf to = from;
        for (auto &p : to.pdf)
            if (p.st != FALSE && to.par.count(p.name) && s.boolean())
            {
                to.par[p.name] = s.posfine(40, 2);
                c.nontrivial = true;
            }
        return to;
    };
    std::unique_ptr<BinnedNLLH> x(new BinnedNLLH(b.lh));
    if (s.boolean())
    {
        x.reset(new BinnedNLLH);
        *x = b.lh;
        BinnedNLLH &self = *x;
        *x = self;
        c.desc << " assigned";
    }
    NConf kx = other(k);
    if (s.boolean())
        same(c, "copy", *x, k);
    x->SetParameters(kx.par);
    c.desc << " copy " << str(kx.par);
    c.ok("original-unchanged", b.lh.GetParameters() == k.par, str(b.lh.GetParameters()));
    bool first = s.boolean();
    if (first)
        same(c, "original", b.lh, k);
    same(c, "copy-set", *x, kx);
    if (!first)
        same(c, "original", b.lh, k);
    NConf kb = other(k);
    b.lh.SetParameters(kb.par);
    same(c, "copy-unchanged", *x, kx);
    same(c, "original-set", b.lh, kb);
    std::unique_ptr<BinnedNLLH> y(new BinnedNLLH(*x));
    x.reset();
    same(c, "copy-of-copy", *y, kx);
    NConf ky = other(kx);
    y->SetParameters(ky.par);
    same(c, "copy-of-copy-set", *y, ky);
}
FACET(realsystematics, 4)
{
    RAxes ax = genAxes(s, 1, 2, 6, 24, 2);
    vector<string> obs = ax.names();
    size_t np = s.size(1, 2), ns = s.size(1, 2);
    vector<vector<double>> pdf(np);
    vector<NormFittingStatus> st;
    for (auto &v : pdf)
    {
        for (size_t i = 0; i < ax.bins(); i++)
            v.push_back(s.posfine(4, 3));
        double t = sum(v);
        for (auto &x : v)
            x /= t;
        st.push_back(NormFittingStatus(s.size(1, 2)));
    }
    vector<size_t> dim, kind;
    vector<string> group;
    for (size_t i = 0; i < ns; i++)
    {
        dim.push_back(s.below(ax.dims()));
        kind.push_back(s.chance(1, 3) ? s.size(2, 4) : s.below(2));
        group.push_back(s.boolean() ? "" : "g");
    }
    bool useGroup = std::count(group.begin(), group.end(), "g") > 0;
    Buf buf;
    for (auto &a : ax.a)
        if (a.n() >= 3 && s.boolean())
            buf[a.name] = {s.size(0, 1), 1};
    vector<double> dataV = genContents(s, ax.bins());
    auto build = [&](vector<std::unique_ptr<Systematic>> &own) {
        std::unique_ptr<BinnedNLLH> lh(new BinnedNLLH);
        for (size_t i = 0; i < ns; i++)
        {
            string n = "sys" + std::to_string(i);
            Systematic *y;
            if (kind[i] == 2)
            {
                FakeJump j;
                j.k = Kernel{1, 0, 0.5 * ax.a[dim[i]].width(0), 0};
                j.pw = n + "_width";
                j.pm = "m";
                Convolution *cv = new Convolution(n);
                cv->SetFunction(&j);
                y = cv;
                y->RenameParameter("m", n + "_par");
            }
            else if (kind[i] == 3)
            {
                Shape *sh = new Shape(n);
                string q = n + "_par";
                sh->SetShapeFunction([q](const ParameterDict &d, const vector<double> &x) { return 1 + d.at(q) * d.at(q) * (1 + x[0] * x[0]); }, {q});
                y = sh;
            }
            else if (kind[i] == 4)
            {
                ScaleFunction *sf = new ScaleFunction(n);
                string q = n + "_par";
                sf->SetScaleFunction([q](const ParameterDict &d, const double &x) { return x * d.at(q) + 0.125 * d.at(q); }, {q});
                y = sf;
            }
            else
            {
                y = kind[i] ? (Systematic *)new Scale(n) : (Systematic *)new Shift(n);
                y->RenameParameter(*y->GetParameterNames().begin(), n + "_par");
            }
            y->SetAxes(ax.make());
            y->SetDistributionObs(ObsSet(obs));
            y->SetTransformationObs(ObsSet(obs[dim[i]]));
            own.emplace_back(y);
            group[i] == "" ? lh->AddSystematic(y) : lh->AddSystematic(y, group[i]);
        }
        for (size_t i = 0; i < np; i++)
        {
            BinnedED b(i ? "bg" : "sig", ax.make());
            b.SetObservables(obs);
            b.SetBinContents(pdf[i]);
            useGroup ? lh->AddPdf(b, vector<string>(1, "g"), st[i]) : lh->AddPdf(b, st[i]);
        }
        for (auto &b : buf)
            lh->SetBuffer(b.first, b.second.first, b.second.second);
        BinnedED d("data", ax.make());
        d.SetObservables(obs);
        d.SetBinContents(dataV);
        lh->SetDataDist(d);
        lh->RegisterFitComponents();
        return lh;
    };
    c.desc << show(ax) << " pdfs " << np << " sys " << str(kind) << " on " << str(dim);
    vector<std::unique_ptr<Systematic>> own;
    auto live = build(own);
    size_t steps = s.size(2, 8);
    for (size_t q = 0; q < steps; q++)
    {
        ParameterDict p;
        for (auto &n : live->GetParameterNames())
        {
            bool isSys = n.find("_par") != string::npos;
            if (n.find("_width") != string::npos)
                p[n] = s.real(0.2, 1.5) * ax.a[dim[n[3] - '0']].width(0);
            else if (!isSys)
                p[n] = s.posfine(30, 2);
            else
            {
                size_t i = n[3] - '0';
                p[n] = kind[i] == 1 || kind[i] == 4 ? s.real(0.8, 1.25) : s.real(-0.5, 0.5) * ax.a[dim[i]].width(0);
            }
        }
        c.desc << " " << str(p);
        live->SetParameters(p);
        vector<std::unique_ptr<Systematic>> own2;
        auto fresh = build(own2);
        fresh->SetParameters(p);
        Outcome want = eval(*fresh);
        for (size_t i = 0, n = s.size(1, 2); i < n; i++)
            same(c, "real-fresh", eval(*live), want, std::fabs(want.v) + 10);
    }
    c.nontrivial = steps >= 3;
}
