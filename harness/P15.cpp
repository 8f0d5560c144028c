// Fit parameters: ParameterManager, ComponentManager, SpectralFitDist and every component's own handling of names and values.
// SRC: core histogram data dist function systematic eventSystematic teststat constraint cut fitutil
#include "fakes.hpp"
#include <ComponentManager.h>
#include <Convolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <ParameterManager.h>
#include <Renorm.h>
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Shift.h>
#include <SpectralFitDist.h>
#include <SquareRootScale.h>
#include <TestStatistic.h>
#include <deque>
#include <list>
#include <memory>

const char *pbt::kRule =
    "random histories of registering, renaming, setting, getting and clearing parameters on managers over plain doubles and "
    "containers, on component managers over overlapping components, and on each real component; non-trivial: at least two "
    "parameters and two kinds of operation";

namespace
{
typedef std::map<string, double> Dict;
Dict asDict(const ParameterDict &d) { return Dict(d.begin(), d.end()); }
string freshName(Src &s, const Dict &have)
{
    static const vector<string> pool = {"p", "p_1", "p_10", "p_2", "P", "mean", "mean ", "", "a long name", "shift", "x_bin_1", "0"};
    for (size_t i = 0; i < 40; i++)
    {
        string n = i < 20 ? s.pick(pool) : "n" + std::to_string(i);
        if (!have.count(n))
            return n;
    }
    return "other";
}
// what holds of every fit component whose parameters are `m`
void consistent(Ctx &c, const string &id, const FitComponent &f, const Dict &m)
{
    std::set<string> names;
    for (auto &p : m)
        names.insert(p.first);
    c.ok(id + "-names", f.GetParameterNames() == names);
    c.eq(id + "-count", f.GetParameterCount(), m.size());
    c.ok(id + "-dict", asDict(f.GetParameters()) == m, str(asDict(f.GetParameters())) + " want " + str(m));
    for (auto &p : m)
        c.eq(id + "-get", f.GetParameter(p.first), p.second, p.first);
}
struct FakeComp : public FitComponent
{
    Dict m;
    string name;
    int sets = 0;
    void need(const string &n) const
    {
        if (!m.count(n))
            throw ParameterError("no " + n);
    }
    void SetParameter(const string &n, double v)
    {
        need(n);
        m[n] = v;
    }
    double GetParameter(const string &n) const
    {
        need(n);
        return m.at(n);
    }
    void SetParameters(const ParameterDict &d)
    {
        for (auto &p : m)
            if (!d.count(p.first))
                throw ParameterError("missing " + p.first);
        for (auto &p : m)
            p.second = d.at(p.first);
        sets++;
    }
    ParameterDict GetParameters() const { return ParameterDict(m.begin(), m.end()); }
    size_t GetParameterCount() const { return m.size(); }
    std::set<string> GetParameterNames() const
    {
        std::set<string> r;
        for (auto &p : m)
            r.insert(p.first);
        return r;
    }
    void RenameParameter(const string &o, const string &n)
    {
        need(o);
        double v = m[o];
        m.erase(o);
        m[n] = v;
    }
    string GetName() const { return name; }
    void SetName(const string &n) { name = n; }
};
struct PlainStat : public TestStatistic // everything about parameters is inherited
{
    double Evaluate() { return 0; }
    void RegisterFitComponents() {}
};
} // namespace

FACET(manager, 4)
{
    ParameterManager pm;
    std::deque<double> dbl; // stable addresses
    std::deque<vector<double>> vec;
    std::deque<std::list<double>> lst;
    std::deque<std::deque<double>> deq;
    std::map<string, std::function<double &()>> at;
    auto model = [&]
    {
        Dict m;
        for (auto &p : at)
            m[p.first] = p.second();
        return m;
    };
    auto check = [&](const string &id)
    {
        Dict m = model();
        std::set<string> names;
        for (auto &p : m)
            names.insert(p.first);
        c.ok(id + "-names", pm.GetParameterNames() == names);
        c.eq(id + "-count", pm.GetParameterCount(), m.size());
        c.ok(id + "-dict", asDict(pm.GetParameters()) == m, str(asDict(pm.GetParameters())) + " want " + str(m));
        for (auto &p : m)
            c.eq(id + "-get", pm.GetParameter(p.first), p.second, p.first);
    };
    check("empty");
    size_t steps = s.size(2, 14), big = 0;
    std::set<size_t> kinds;
    for (size_t st = 0; st < steps; st++)
    {
        Dict m = model();
        size_t op = s.below(9);
        kinds.insert(op);
        if (op == 0)
        {
            dbl.push_back(s.fine(8, 2));
            string n = freshName(s, m);
            double &d = dbl.back();
            pm.AddDouble(d, n);
            at[n] = [&d]() -> double & { return d; };
            c.desc << " double " << n;
        }
        else if (op <= 2)
        { // a container, by base name or by names
            size_t n = s.size(0, s.chance(1, 8) ? 300 : 12);
            bool base = s.boolean();
            vector<string> names;
            string bn = freshName(s, m);
            for (size_t i = 0; i < n; i++)
                names.push_back(base ? bn + "_" + std::to_string(i) : "k" + std::to_string(st) + char('a' + (n - i) % 26) + std::to_string((n - i) / 26));
            bool clash = false;
            for (auto &x : names)
                clash |= m.count(x) > 0;
            if (clash)
                continue;
            vector<double> v = genContents(s, n, false);
            c.desc << " container " << n << (base ? bn : "-named");
            auto reg = [&](auto &C)
            {
                if (!base && s.chance(1, 4))
                {
                    vector<string> bad = names;
                    bad.push_back("one_more");
                    c.throws<DimensionError>("wrong-number-of-names", [&] { pm.AddContainer(C, bad); });
                    check("refused-names");
                }
                if (base)
                    pm.AddContainer(C, bn);
                else
                    pm.AddContainer(C, names);
                for (size_t i = 0; i < n; i++)
                    at[names[i]] = [&C, i]() -> double & { return *std::next(C.begin(), i); };
            };
            switch (s.below(3))
            {
            case 0:
                vec.emplace_back(v.begin(), v.end());
                reg(vec.back());
                break;
            case 1:
                lst.emplace_back(v.begin(), v.end());
                reg(lst.back());
                break;
            default:
                deq.emplace_back(v.begin(), v.end());
                reg(deq.back());
            }
        }
        else if (op == 3 && !m.empty())
        {
            string n = std::next(m.begin(), s.below(m.size()))->first;
            double v = s.fine(20, 2);
            pm.SetParameter(n, v);
            m[n] = v;
            c.desc << " set " << n;
            c.ok("exactly-that-one", model() == m, str(model()) + " want " + str(m));
        }
        else if (op == 4)
        {
            ParameterDict d;
            for (auto &p : m)
                d[p.first] = s.fine(20, 2);
            Dict want(d.begin(), d.end());
            if (!d.empty() && s.chance(1, 3))
            {
                d.erase(std::next(d.begin(), s.below(d.size())));
                if (s.boolean())
                    d["not a parameter"] = 1;
                c.throws<ParameterError>("missing", [&] { pm.SetParameters(d); });
                c.ok("no-partial-update", model() == m, str(model()) + " want " + str(m));
            }
            else
            {
                if (s.boolean())
                    d["not a parameter"] = 1;
                pm.SetParameters(d);
                c.ok("all-set", model() == want, str(model()) + " want " + str(want));
            }
            c.desc << " setall";
        }
        else if (op == 5 && !m.empty())
        {
            string o = std::next(m.begin(), s.below(m.size()))->first, n = freshName(s, m);
            pm.RenameParameter(o, n);
            auto f = at[o];
            at.erase(o);
            at[n] = f;
            c.desc << " rename " << o << "->" << n;
        }
        else if (op == 6)
        { // refusals
            string u = freshName(s, m);
            c.throws<ParameterError>("get-unknown", [&] { pm.GetParameter(u); });
            c.throws<ParameterError>("set-unknown", [&] { pm.SetParameter(u, 1); });
            c.throws<ParameterError>("rename-unknown", [&] { pm.RenameParameter(u, "new"); });
            if (!m.empty())
            {
                string a = std::next(m.begin(), s.below(m.size()))->first, b = std::next(m.begin(), s.below(m.size()))->first;
                if (a != b)
                    c.throws<ParameterError>("rename-taken", [&] { pm.RenameParameter(a, b); });
                else
                    try
                    { // its own name: refused or not, nothing changes
                        pm.RenameParameter(a, a);
                    }
                    catch (const ParameterError &)
                    {
                    }
            }
        }
        else if (op == 7)
        { // values changed from outside are seen
            if (!m.empty())
            {
                string n = std::next(m.begin(), s.below(m.size()))->first;
                at[n]() = s.fine(9, 2);
            }
        }
        else if (op == 8 && s.chance(1, 3))
        {
            pm.Clear();
            at.clear();
            c.desc << " clear";
        }
        check("after-" + std::to_string(op));
        big = std::max(big, at.size());
    }
    // a copy has no parameters of its own, and a container that lost its element is refused
    ParameterManager copy(pm);
    c.eq("copy-empty", copy.GetParameterCount(), size_t(0));
    vector<double> shrunk(3, 1.);
    ParameterManager q;
    q.AddContainer(shrunk, string("v"));
    shrunk.resize(2);
    c.throws<ParameterError>("gone-get", [&] { q.GetParameter("v_2"); });
    c.throws<ParameterError>("gone-set", [&] { q.SetParameter("v_2", 1); });
    c.nontrivial = big >= 2 && kinds.size() > 2;
}

FACET(components, 4)
{
    const vector<string> pool = styled(s, {"alpha", "zeta", "mass", "b", "norm", "shift"});
    PlainStat stat; // the same through a test statistic
    bool via = s.chance(1, 3);
    ComponentManager own;
    ComponentManager &m = via ? stat.GetComponentManager() : own;
    const PlainStat &cstat = stat;
    std::deque<FakeComp> f;
    vector<FakeComp *> in;
    size_t nf = s.size(0, 5);
    for (size_t i = 0; i < nf; i++)
    {
        f.emplace_back();
        auto p = s.permutation(pool.size());
        for (size_t k = s.size(0, 4); k-- > 0;)
            f.back().m[pool[p[k]]] = s.fine(8, 2);
        if (s.chance(1, 20))
            for (size_t k = s.size(20, 80); k-- > 0;)
                f.back().m["many" + std::to_string(k)] = s.fine(8, 2);
        c.desc << str(f.back().m);
    }
    size_t steps = s.size(1, 8), maxp = 0;
    bool shared = false;
    for (size_t st = 0; st < steps; st++)
    {
        size_t op = s.below(via ? 9 : 8);
        if (op == 8)
        { // handed over whole
            ComponentManager other;
            in.clear();
            for (size_t k = nf ? s.size(0, 3) : 0; k-- > 0;)
            {
                in.push_back(&f[s.below(nf)]);
                other.AddComponent(in.back());
            }
            stat.SetComponentManager(other);
            c.desc << " replace" << in.size();
        }
        Dict all;
        for (auto *x : in)
            for (auto &p : x->m)
            {
                shared |= all.count(p.first) > 0;
                all.insert(p);
            }
        if (op <= 2 && nf)
        {
            in.push_back(&f[s.below(nf)]);
            m.AddComponent(in.back());
            c.desc << " add" << (in.back() - &f[0]);
        }
        else if (op <= 4)
        {
            ParameterDict d;
            bool asIs = s.chance(1, 4); // those of components that share a parameter may differ still
            for (auto &p : all)
                d[p.first] = asIs ? p.second : s.fine(20, 2);
            vector<Dict> before;
            for (auto &x : f)
                before.push_back(x.m);
            if (d.size() > 1 && s.chance(1, 3))
            {
                d.erase(std::next(d.begin(), s.below(d.size())));
                c.throws<ParameterError>("missing", [&] { via ? stat.SetParameters(d) : m.SetParameters(d); });
                for (size_t i = 0; i < nf; i++)
                    c.ok("no-partial-update", f[i].m == before[i], str(f[i].m) + " want " + str(before[i]));
            }
            else
            {
                if (!d.empty() && s.boolean())
                    d["elsewhere"] = 4;
                via && s.boolean() ? stat.SetParameters(d) : m.SetParameters(d);
                for (size_t i = 0; i < nf; i++)
                {
                    Dict w = before[i];
                    if (std::find(in.begin(), in.end(), &f[i]) != in.end())
                        for (auto &p : w)
                            p.second = d.at(p.first);
                    c.ok("set", f[i].m == w, str(f[i].m) + " want " + str(w));
                }
            }
            c.desc << " set";
        }
        else if (op == 5 && nf)
        { // a component changes by itself
            FakeComp &x = f[s.below(nf)];
            if (!x.m.empty())
            {
                string o = std::next(x.m.begin(), s.below(x.m.size()))->first;
                if (s.boolean())
                    x.m[o] = s.fine(9, 2);
                else
                {
                    string n = freshName(s, x.m);
                    double v = x.m[o];
                    x.m.erase(o);
                    x.m[n] = v;
                }
                c.desc << " own";
            }
        }
        else if (op == 6)
            c.throws<ParameterError>("unknown", [&] { m.GetParameter("never used"); });
        else if (op == 7 && s.chance(1, 3))
        {
            m.Clear();
            in.clear();
            c.desc << " clear";
        }
        all.clear();
        std::set<string> names;
        for (auto *x : in)
            for (auto &p : x->m)
            {
                all.insert(p);
                names.insert(p.first);
            }
        c.eq("components", m.GetComponentCount(), in.size());
        c.eq("count", size_t(m.GetTotalParameterCount()), all.size());
        c.ok("names", m.GetParameterNames() == names);
        c.ok("dict", asDict(m.GetParameters()) == all, str(asDict(m.GetParameters())) + " want " + str(all));
        for (auto &p : all)
            c.eq("get", m.GetParameter(p.first), p.second, p.first);
        if (via)
        {
            c.ok("statistic-names", cstat.GetParameterNames() == names);
            c.eq("statistic-count", cstat.GetParameterCount(), all.size());
            c.ok("statistic-dict", asDict(cstat.GetParameters()) == all);
            c.eq("statistic-components", cstat.GetComponentManager().GetComponentCount(), in.size());
        }
        maxp = std::max(maxp, all.size());
    }
    c.tag("shared", shared);
    c.nontrivial = maxp >= 2 && in.size() >= 2;
}

FACET(spectral, 2)
{
    RAxes ax = s.chance(1, 10) ? genAxes(s, 1, 2, 60, 400) : genAxes(s, 1, 2, 5, 14);
    string base = s.pick(vector<string>{"d", "spec", "p_bin"});
    SpectralFitDist d(base, ax.make());
    d.SetObservables(ax.names());
    vector<string> names;
    vector<double> v(ax.bins(), 0);
    for (size_t i = 0; i < ax.bins(); i++)
        names.push_back(base + "_bin_" + std::to_string(i));
    c.desc << show(ax);
    auto check = [&](const string &id)
    {
        Dict m;
        for (size_t i = 0; i < v.size(); i++)
            m[names[i]] = v[i];
        consistent(c, id, d, m);
        c.nearv(id + "-contents", d.GetBinContents(), v);
    };
    check("new");
    c.eq("name", d.GetName(), base);
    for (size_t st = s.size(1, 8); st-- > 0;)
    {
        size_t i = s.below(v.size()), op = s.below(6);
        c.desc << " " << op;
        if (op == 0)
            d.SetParameter(names[i], v[i] = s.fine(9, 2));
        else if (op == 1)
        {
            string n = s.chance(1, 4) ? names[i] : "renamed" + std::to_string(st);
            d.RenameParameter(names[i], n);
            names[i] = n;
        }
        else if (op == 2)
        {
            ParameterDict p;
            for (size_t k = 0; k < v.size(); k++)
                p[names[k]] = v[k] = s.fine(9, 2);
            p["more"] = 1;
            d.SetParameters(p);
        }
        else if (op == 3)
        {
            ParameterDict p;
            for (size_t k = 0; k < v.size(); k++)
                if (k != i)
                    p[names[k]] = 77;
            c.throws<ParameterError>("missing", [&] { d.SetParameters(p); });
            c.throws<ParameterError>("set-unknown", [&] { d.SetParameter("nope", 3); });
            c.throws<ParameterError>("get-unknown", [&] { d.GetParameter("nope"); });
            c.throws<ParameterError>("rename-unknown", [&] { d.RenameParameter("nope", "x"); });
            if (v.size() > 1)
                c.throws<ParameterError>("rename-taken", [&] { d.RenameParameter(names[i], names[(i + 1) % v.size()]); });
        }
        else if (op == 4)
        {
            v = genContents(s, v.size());
            d.SetBinContents(v);
        }
        else
        { // a filled event goes to the parameter of its bin
            vector<double> x = genPoint(s, ax);
            Event e(x);
            vector<string> on = ax.names();
            e.SetObservableNames(&on);
            d.Fill(e);
            v[ax.find(x)] += 1;
        }
        check("op" + std::to_string(op));
    }
    d.SetName("another");
    c.eq("renamed", d.GetName(), string("another"));
    check("after-rename");
    c.nontrivial = v.size() > 1;
}

// every component keeps the same promises about its parameters
FACET(contract, 5)
{
    std::unique_ptr<FitComponent> f;
    std::function<vector<double>()> direct = [] { return vector<double>(); }; // what its own getters say
    vector<string> order;                                                    // names in the order of `direct`
    size_t kind = s.below(11);
    string nm = s.pick(vector<string>{"sys", "x", ""});
    vector<string> pn;
    for (size_t i = s.size(0, 4); i-- > 0;)
        pn.push_back(s.pick(vector<string>{"a", "b", "p_1", "p_10", "zz", "c"}));
    FakePDF kernel(1, 2.5, "width");
    switch (kind)
    {
    case 0:
    {
        Shift *x = new Shift(nm);
        f.reset(x);
        direct = [x] { return vector<double>{x->GetShift()}; };
        order = {"shift"};
        break;
    }
    case 1:
    {
        Scale *x = new Scale(nm);
        f.reset(x);
        direct = [x] { return vector<double>{x->GetScaleFactor()}; };
        order = {"scaleFactor"};
        break;
    }
    case 2:
    {
        ScaleFunction *x = new ScaleFunction(nm);
        x->SetScaleFunction([](const ParameterDict &, const double &v) { return v; }, pn);
        f.reset(x);
        break;
    }
    case 3:
    {
        Shape *x = new Shape(nm);
        x->SetShapeFunction([](const ParameterDict &, const vector<double> &) { return 1.; }, pn);
        f.reset(x);
        break;
    }
    case 4:
    {
        Convolution *x = new Convolution(nm);
        c.throws<NULLPointerAccessError>("no-kernel", [&] { x->GetParameters(); });
        c.throws<NULLPointerAccessError>("no-kernel-set", [&] { x->SetParameter("width", 1); });
        x->SetFunction(&kernel);
        f.reset(x);
        break;
    }
    case 5:
    {
        EventShift *x = new EventShift(nm);
        f.reset(x);
        direct = [x] { return vector<double>{x->GetShift()}; };
        order = {"shift"};
        break;
    }
    case 6:
    {
        EventScale *x = new EventScale(nm);
        f.reset(x);
        direct = [x] { return vector<double>{x->GetScale()}; };
        order = {"scale"};
        break;
    }
    case 7:
    {
        EventReconvolution *x = new EventReconvolution(nm);
        f.reset(x);
        direct = [x] { return vector<double>{x->GetCorrection()}; };
        order = {"correction"};
        break;
    }
    case 8:
    {
        SquareRootScale *x = new SquareRootScale(nm);
        f.reset(x);
        direct = [x] { return vector<double>{x->GetGradient()}; };
        order = {"grad"};
        break;
    }
    case 9:
        f.reset(new Renorm(nm));
        break;
    default:
        f.reset(new FakePDF(1, 2.5, "width"));
        f->SetName(nm);
    }
    c.desc << "component " << kind << " '" << nm << "' " << str(pn);
    if (kind < 10)
        c.eq("name", f->GetName(), nm);
    f->SetName("renamed");
    c.eq("set-name", f->GetName(), string("renamed"));
    Dict m = asDict(f->GetParameters());
    if (!order.empty())
        c.eq("one-parameter", m.size(), size_t(1));
    if (kind == 2 || kind == 3)
    {
        std::set<string> want(pn.begin(), pn.end());
        c.ok("declared-names", f->GetParameterNames() == want);
    }
    if (!m.empty() && !order.empty())
        order[0] = m.begin()->first;
    consistent(c, "new", *f, m);
    size_t steps = s.size(1, 8);
    std::set<size_t> kinds;
    for (size_t st = 0; st < steps; st++)
    {
        size_t op = s.below(5);
        kinds.insert(op);
        string some = m.empty() ? "" : std::next(m.begin(), s.below(m.size()))->first;
        double val = s.posfine(20, 3);
        if (op == 0 && !m.empty())
        {
            f->SetParameter(some, val);
            m[some] = val;
            c.desc << " set " << some << "=" << val;
        }
        else if (op == 1)
        {
            ParameterDict d;
            for (auto &p : m)
                d[p.first] = p.second = s.posfine(20, 3);
            if (s.boolean())
                d["of another component"] = 1;
            f->SetParameters(d);
            c.desc << " setall";
        }
        else if (op == 2 && !m.empty())
        {
            string n = s.chance(1, 6) ? some : freshName(s, m);
            f->RenameParameter(some, n);
            double v = m[some];
            m.erase(some);
            m[n] = v;
            if (!order.empty())
                order[0] = n;
            c.desc << " rename " << some << "->" << n;
        }
        else if (op == 3)
        {
            string u = freshName(s, m);
            c.throws<OXSXException>("get-unknown", [&] { f->GetParameter(u); });
            c.throws<OXSXException>("set-unknown", [&] { f->SetParameter(u, val); });
            c.throws<OXSXException>("rename-unknown", [&] { f->RenameParameter(u, "n"); });
            if (m.size() > 1)
            {
                string o = m.begin()->first == some ? m.rbegin()->first : m.begin()->first;
                c.throws<OXSXException>("rename-taken", [&] { f->RenameParameter(some, o); });
            }
        }
        else if (op == 4 && !m.empty())
        {
            ParameterDict d;
            for (auto &p : m)
                if (p.first != some)
                    d[p.first] = 99;
            d["of another component"] = 98;
            c.throws<ParameterError>("missing", [&] { f->SetParameters(d); });
        }
        consistent(c, "after-" + std::to_string(op), *f, m);
        if (!order.empty())
            c.eq("own-getter", direct().at(0), m.at(order[0]));
    }
    c.nontrivial = !m.empty() && kinds.size() > 1;
}

// real components behind one manager, with names in common
FACET(real, 3)
{
    Shift sh("sh");
    Scale sc("sc");
    Scale sc2("sc2");
    EventShift es("es");
    Shape shp("shape");
    shp.SetShapeFunction([](const ParameterDict &, const vector<double> &) { return 1.; }, {"a", "b"});
    FakePDF k(1, 2, "width");
    Convolution cv("cv");
    cv.SetFunction(&k);
    RAxes ax = genAxes(s, 1, 1, 3);
    SpectralFitDist sp("sp", ax.make());
    vector<FitComponent *> f = {&sh, &sc, &sc2, &es, &shp, &cv, &sp};
    const vector<string> pool = styled(s, {"shared", "alpha", "width", "a", "scale", "x"});
    for (auto *x : f)
        for (auto &n : x->GetParameterNames())
            if (s.boolean())
            {
                string t = s.pick(pool);
                if (!x->GetParameterNames().count(t))
                    x->RenameParameter(n, t);
            }
    ComponentManager m;
    vector<FitComponent *> in;
    for (size_t i : s.permutation(f.size()))
        if (s.boolean())
        {
            in.push_back(f[i]);
            m.AddComponent(f[i]);
        }
    Dict want;
    size_t tot = 0;
    ParameterDict d;
    for (auto *x : in)
    {
        tot += x->GetParameterCount();
        for (auto &n : x->GetParameterNames())
            d[n] = want[n] = s.posfine(20, 2);
    }
    c.desc << in.size() << " components " << str(want);
    vector<Dict> others;
    for (auto *x : f)
        others.push_back(asDict(x->GetParameters()));
    if (d.size() > 1 && s.chance(1, 3))
    {
        ParameterDict bad = d;
        bad.erase(std::next(bad.begin(), s.below(bad.size())));
        c.throws<ParameterError>("missing", [&] { m.SetParameters(bad); });
        for (size_t i = 0; i < f.size(); i++)
            c.ok("no-partial-update", asDict(f[i]->GetParameters()) == others[i]);
    }
    m.SetParameters(d);
    for (size_t i = 0; i < f.size(); i++)
    {
        Dict w = others[i];
        if (std::find(in.begin(), in.end(), f[i]) != in.end())
            for (auto &p : w)
                p.second = want.at(p.first);
        consistent(c, "component", *f[i], w);
    }
    c.ok("dict", asDict(m.GetParameters()) == want, str(asDict(m.GetParameters())));
    c.eq("count", size_t(m.GetTotalParameterCount()), want.size());
    c.nontrivial = want.size() > 1 && in.size() > 1;
    c.tag("shared", tot > want.size());
}
