// SystematicManager: groups of systematics applied to distributions in the declared order.
// SRC: core histogram data dist function systematic fitutil
#include "sysgen.hpp"
#include <SystematicManager.h>
#include <Shift.h>
#include <memory>

const char *pbt::kRule =
    "random histories of adding non-commuting systematics to the global and up to 4 named groups, registering up to 5 "
    "distributions with lists of groups, changing parameters, constructing and distorting; non-trivial: a distribution that "
    "at least two systematics act on was distorted";

namespace
{
struct Model
{
    std::map<string, vector<FakeSys *>> g;     // groups, "" always
    std::map<string, vector<string>> dist;     // registered distributions
    std::map<string, RMat> built;              // response per group at the last Construct
    Model() { g[""]; }
    size_t nsys() const
    {
        size_t n = 0;
        for (auto &p : g)
            n += p.second.size();
        return n;
    }
    bool inAny(const string &n) const
    {
        for (auto &p : g)
            for (auto *y : p.second)
                if (y->name == n)
                    return true;
        return false;
    }
    void construct(size_t n)
    {
        if (!nsys())
            return;
        for (auto &p : g)
        {
            if (p.second.empty())
                continue;
            RMat r = rident(n);
            for (auto *y : p.second)
                r = mul(y->ref(), r);
            built[p.first] = r;
        }
    }
    // group names applied to a registered distribution, in order
    vector<string> order(const string &d) const
    {
        vector<string> o;
        const vector<string> &l = dist.at(d);
        bool listed = false;
        for (auto &x : l)
            if (x == "")
                listed = true;
        if (!listed && !g.at("").empty())
            o.push_back("");
        for (auto &x : l)
            if (!(x == "" && g.at("").empty()))
                o.push_back(x);
        return o;
    }
    // may d be registered with these groups?
    bool valid(const vector<string> &l) const
    {
        std::set<string> names;
        for (auto &x : l)
        {
            if (!g.count(x))
                return false;
            for (auto *y : g.at(x))
                if (!names.insert(y->name).second)
                    return false;
        }
        if (l != vector<string>(1, ""))
            for (auto *y : g.at(""))
                if (!names.insert(y->name).second)
                    return false;
        return true;
    }
};
void checkNames(Ctx &c, const SystematicManager &m, const Model &k)
{
    std::set<string> gn;
    for (auto &p : k.g)
        gn.insert(p.first);
    c.ok("group-names", m.GetGroupNames() == gn);
    c.eq("n-groups", m.GetNGroups(), gn.size());
    c.eq("n-systematics", m.GetNSystematics(), k.nsys());
    c.ok("group-map", m.GetSystematicsGroup().size() == k.g.size());
    for (auto &p : k.g)
    {
        vector<string> names;
        vector<Systematic *> ptrs;
        for (auto *y : p.second)
        {
            names.push_back(y->name);
            ptrs.push_back(y);
        }
        c.eq("n-in-group", m.GetNSystematicsInGroup(p.first), names.size());
        c.ok("names-in-group", m.GetSystematicsNamesInGroup(p.first) == names, str(m.GetSystematicsNamesInGroup(p.first)));
        c.ok("group", m.GetGroup(p.first) == names);
        c.ok("systematics-in-group", m.GetSystematicsInGroup(p.first) == ptrs);
    }
    c.eq("n-global", m.GetGlobalSystematics().size(), k.g.at("").size());
}
} // namespace

FACET(history, 8)
{
    RAxes ax = genAxes(s, 1, 2, 4, 9, 2);
    size_t n = ax.bins();
    c.desc << show(ax);
    vector<string> groups = styled(s, {"gb", "ga", "gc", "g with space"});
    groups.insert(groups.begin(), "");
    const vector<string> distNames = styled(s, {"sig", "bg", "a", "z", "other"});
    size_t nSys = s.size(1, 5);
    const vector<string> names = styled(s, {"shift", "scale", "conv", "zeta", "alpha"});
    vector<std::unique_ptr<FakeSys>> sys;
    for (size_t i = 0; i < nSys; i++)
    {
        sys.emplace_back(new FakeSys(names[i]));
        genFakeSys(s, *sys.back(), n, s.size(0, 2), s.boolean());
        sys.back()->SetAxes(ax.make());
    }
    size_t nD = s.size(1, 5);
    vector<BinnedED> orig;
    for (size_t i = 0; i < nD; i++)
    {
        BinnedED b(s.chance(1, 8) ? distNames[s.below(i + 1)] : distNames[i], ax.make()); // several may share a name
        b.SetObservables(ax.names());
        vector<double> v = genContents(s, n, s.boolean());
        if (n > 1 && s.chance(1, 8))
            v[s.below(n)] -= sum(v); // an integral of zero
        b.SetBinContents(v);
        orig.push_back(b);
    }
    SystematicManager m;
    Model k;
    bool dirty = true; // groups changed since the last Construct
    size_t steps = s.size(4, 25);
    for (size_t st = 0; st < steps; st++)
    {
        size_t op = s.below(7);
        if (op == 0 || op == 1)
        {
            FakeSys *y = sys[s.below(nSys)].get();
            string g = s.pick(groups);
            c.desc << " add(" << y->name << "," << g << ")";
            if (g == "")
            {
                bool ok = !k.inAny(y->name);
                // the check also refuses when names are repeated among the groups already
                std::set<string> seen;
                for (auto &p : k.g)
                    for (auto *z : p.second)
                        if (!seen.insert(z->name).second)
                            ok = false;
                bool viaName = s.boolean();
                if (ok)
                {
                    viaName ? m.Add(y, g) : m.Add(y);
                    k.g[""].push_back(y);
                    dirty = true;
                }
                else
                    c.throws<NotFoundError>("add-duplicate-global", [&] { viaName ? m.Add(y, g) : m.Add(y); });
            }
            else
            {
                bool already = false;
                for (auto *z : k.g[g])
                    already |= z == y;
                if (k.g[g].empty())
                    k.g.erase(g);
                if (already && !s.chance(1, 4))
                    continue;
                m.Add(y, g);
                k.g[g].push_back(y);
                dirty = true;
            }
        }
        else if (op == 2)
        {
            const BinnedED &d = orig[s.below(nD)];
            vector<string> l;
            size_t nl = s.size(0, s.chance(1, 4) ? 5 : 3);
            for (size_t i = 0; i < nl; i++)
                l.push_back(s.chance(1, 15) ? "unknown" : s.pick(groups));
            c.desc << " dist(" << d.GetName() << "," << str(l) << ")";
            bool single = l.size() == 1 && s.boolean();
            if (k.valid(l))
            {
                single ? m.AddDist(d, l[0]) : m.AddDist(d, l);
                k.dist[d.GetName()] = l;
            }
            else
                c.throws<NotFoundError>("bad-groups", [&] { single ? m.AddDist(d, l[0]) : m.AddDist(d, l); });
        }
        else if (op == 3)
        {
            FakeSys *y = sys[s.below(nSys)].get();
            if (s.chance(1, 4))
            { // the response changes with something that is no parameter: a new function, other axes
                size_t i = s.below(n);
                y->A[i][s.boolean() ? i : s.below(n)] = s.posdyadic(2, 2);
                c.desc << " function(" << y->name << ")";
                continue;
            }
            if (s.chance(1, 4))
            { // the distribution itself has new contents
                BinnedED &b = orig[s.below(nD)];
                b.SetBinContents(genContents(s, n, s.boolean()));
                c.desc << " contents(" << b.GetName() << ")";
                continue;
            }
            if (y->pv.empty())
                continue;
            y->pv[s.below(y->pv.size())] = s.fine(2, 2);
            c.desc << " par(" << y->name << ")=" << str(y->pv);
        }
        else
        {
            // construct (perhaps more than once) and distort
            size_t times = op == 4 ? 1 : s.size(0, 2);
            if (dirty)
                times = std::max<size_t>(times, 1);
            c.desc << " construct*" << times;
            for (size_t i = 0; i < times; i++)
                m.Construct();
            if (times)
                k.construct(n);
            dirty = false;
            for (auto &b : k.built)
            {
                const SparseMatrix &r = m.GetTotalResponse(b.first);
                for (size_t i = 0; i < n; i++)
                    for (size_t j = 0; j < n; j++)
                        c.near("total-response", r.GetComponent(i, j), b.second[i][j], 1e-9, 1e-9, "group '" + b.first + "'");
            }
            c.throws<NotFoundError>("unknown-response", [&] { m.GetTotalResponse("no such group"); });
            // working distributions hold whatever they held before
            vector<BinnedED> work = orig;
            for (auto &w : work)
                if (s.boolean())
                    w.SetBinContents(vector<double>(n, 99));
            for (auto &w : work)
                if (s.chance(1, 4)) // whatever was there before
                    w = s.boolean() ? BinnedED("before", AxisCollection()) : s.pick(orig);
            vector<double> norms(nD, -7);
            bool giveNorms = !s.chance(1, 4);
            size_t rep = s.size(1, 2);
            for (size_t i = 0; i < rep; i++)
                m.DistortEDs(orig, work, giveNorms ? &norms : nullptr);
            for (size_t i = 0; i < nD; i++)
            {
                vector<double> want = orig[i].GetBinContents();
                size_t acting = 0;
                double scale = 1;
                if (k.dist.count(orig[i].GetName()))
                    for (auto &g : k.order(orig[i].GetName()))
                    {
                        want = ::apply(k.built.at(g), want);
                        acting += k.g.at(g).size();
                        for (double x : want)
                            scale = std::max(scale, std::fabs(x));
                    }
                c.nontrivial |= acting >= 2;
                c.nearv("distorted", work[i].GetBinContents(), want, 1e-9, 1e-9 * scale, orig[i].GetName());
                if (giveNorms)
                    c.near("norm", norms[i], sum(want), 1e-9, 1e-8 * scale, orig[i].GetName());
                c.eq("name-kept", work[i].GetName(), orig[i].GetName());
                c.ok("observables-kept", work[i].GetObservables() == orig[i].GetObservables());
            }
        }
        checkNames(c, m, k);
    }
    string u = "missing";
    c.throws<NotFoundError>("unknown-n", [&] { m.GetNSystematicsInGroup(u); });
    c.throws<NotFoundError>("unknown-names", [&] { m.GetSystematicsNamesInGroup(u); });
    c.throws<NotFoundError>("unknown-group", [&] { m.GetGroup(u); });
    c.throws<NotFoundError>("unknown-systematics", [&] { m.GetSystematicsInGroup(u); });
    checkNames(c, m, k);
}

// long groups, many of them, and many distributions: exact in integers
FACET(many, 2)
{
    RAxes ax = genAxes(s, 1, 1, 4, 4, 2);
    size_t n = ax.bins(), nSys = s.size(5, 14), nG = s.size(1, 10), nD = s.size(1, 12);
    vector<std::unique_ptr<FakeSys>> sys;
    SystematicManager m;
    Model k;
    for (size_t i = 0; i < nSys; i++)
    {
        sys.emplace_back(new FakeSys("y" + std::to_string(i * 7 % 23)));
        FakeSys &y = *sys.back();
        y.A = rident(n);
        size_t a = s.below(n), b = s.below(n - 1);
        y.A[a][b < a ? b : b + 1] = s.boolean() ? 1 : 2;
        y.SetAxes(ax.make());
    }
    vector<string> gn(1, "");
    for (size_t i = 1; i < nG; i++)
        gn.push_back("g" + std::to_string(i * 5 % 11));
    vector<size_t> in(nSys);
    for (auto &x : in)
        x = s.chance(1, 3) ? nG - 1 : s.below(nG);
    for (size_t i = 0; i < nSys; i++)
    {
        in[i] == 0 ? m.Add(sys[i].get()) : m.Add(sys[i].get(), gn[in[i]]);
        k.g[gn[in[i]]].push_back(sys[i].get());
        c.desc << gn[in[i]] << "/" << sys[i]->name << str(sys[i]->A[0]) << " ";
    }
    vector<BinnedED> orig;
    for (size_t i = 0; i < nD; i++)
    {
        BinnedED b("d" + std::to_string(i * 5 % 13), ax.make());
        b.SetObservables(ax.names());
        vector<double> v;
        for (size_t j = 0; j < n; j++)
            v.push_back(double(s.range(-3, 9)));
        b.SetBinContents(v);
        orig.push_back(b);
        if (s.chance(1, 8))
            continue;
        vector<string> l;
        for (size_t j : s.permutation(nG))
            if (gn[j] != "" && s.chance(2, 3) && !k.g[gn[j]].empty())
                l.push_back(gn[j]);
        for (auto &x : gn)
            if (k.g[x].empty() && x != "")
                k.g.erase(x);
        if (l.empty())
            l.push_back("");
        m.AddDist(b, l);
        k.dist[b.GetName()] = l;
        c.desc << b.GetName() << str(v) << str(l) << " ";
    }
    for (auto &x : gn)
        if (k.g.count(x) && k.g[x].empty() && x != "")
            k.g.erase(x);
    checkNames(c, m, k);
    m.Construct();
    k.construct(n);
    for (auto &b : k.built)
    {
        const SparseMatrix &r = m.GetTotalResponse(b.first);
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                c.eq("total-response", r.GetComponent(i, j), b.second[i][j], "group '" + b.first + "'");
    }
    vector<BinnedED> work = orig;
    vector<double> norms(nD, -1);
    m.DistortEDs(orig, work, &norms);
    for (size_t i = 0; i < nD; i++)
    {
        vector<double> want = orig[i].GetBinContents();
        if (k.dist.count(orig[i].GetName()))
            for (auto &g : k.order(orig[i].GetName()))
                want = ::apply(k.built.at(g), want);
        c.nearv("distorted", work[i].GetBinContents(), want, 1e-12, 1e-12, orig[i].GetName());
        c.near("norm", norms[i], sum(want), 1e-12, 1e-6, orig[i].GetName());
    }
    c.nontrivial = nSys > 5;
}

// real systematics: applying a manager is the same as applying them one by one
FACET(differential, 2)
{
    RAxes ax = genAxes(s, 1, 2, 6, 24, 2);
    size_t n = ax.bins(), nSys = s.size(1, 4);
    c.desc << show(ax);
    vector<std::unique_ptr<Shift>> sys;
    for (size_t i = 0; i < nSys; i++)
    {
        sys.emplace_back(new Shift("shift" + std::to_string(i)));
        sys[i]->SetAxes(ax.make());
        sys[i]->SetDistributionObs(ObsSet(ax.names()));
        sys[i]->SetTransformationObs(ObsSet(s.pick(ax.names())));
        sys[i]->SetShift(s.fine(2, 3));
        c.desc << " " << sys[i]->GetShift();
    }
    SystematicManager m;
    size_t glob = s.below(nSys + 1);
    for (size_t i = 0; i < nSys; i++)
        i < glob ? m.Add(sys[i].get()) : m.Add(sys[i].get(), "grp");
    BinnedED b("b", ax.make());
    b.SetObservables(ax.names());
    b.SetBinContents(genContents(s, n));
    vector<string> l(1, glob < nSys ? "grp" : "");
    m.AddDist(b, l);
    for (int round = 0; round < 2; round++)
    {
        m.Construct();
        vector<BinnedED> work(1, b);
        vector<double> norms(1, 0);
        m.DistortEDs({b}, work, &norms);
        BinnedED want = b;
        double norm = 0;
        for (size_t i = 0; i < nSys; i++)
        {
            sys[i]->Construct();
            want = (*sys[i])(want, &norm);
        }
        c.nearv("sequential", work[0].GetBinContents(), want.GetBinContents(), 1e-9, 1e-9);
        c.near("sequential-norm", norms[0], norm);
        sys[s.below(nSys)]->SetShift(s.fine(2, 3));
    }
    c.nontrivial = nSys >= 2;
}

// contents and responses in other units
FACET(units, 1)
{
    RAxes ax = genAxes(s, 1, 2, 4, 9, 2);
    size_t n = ax.bins(), nSys = s.size(1, 3);
    c.desc << show(ax);
    vector<std::unique_ptr<FakeSys>> sys;
    SystematicManager m, l;
    double u = genUnit(s), t = 1;
    for (size_t i = 0; i < nSys; i++)
    {
        FakeSys *y = new FakeSys("s" + std::to_string(i));
        sys.emplace_back(y);
        genFakeSys(s, *y, n, 0, s.boolean());
        y->SetAxes(ax.make());
        FakeSys *z = new FakeSys(*y);
        sys.emplace_back(z);
        double f = s.boolean() ? 1 : genUnit(s);
        t *= f;
        for (auto &r : z->A)
            for (auto &x : r)
                x *= f;
        c.desc << " response times " << f;
        bool glob = s.boolean();
        glob ? m.Add(y) : m.Add(y, "g");
        glob ? l.Add(z) : l.Add(z, "g");
    }
    BinnedED b("b", ax.make());
    b.SetObservables(ax.names());
    vector<double> v = genContents(s, n, s.boolean());
    b.SetBinContents(v);
    BinnedED d = b;
    d.SetBinContents(times(v, u));
    string g = m.GetGroupNames().count("g") ? "g" : "";
    m.AddDist(b, g);
    l.AddDist(d, g);
    m.Construct();
    l.Construct();
    vector<BinnedED> x(1, b), y(1, d);
    vector<double> nx(1, 0), ny(1, 0);
    m.DistortEDs({b}, x, &nx);
    l.DistortEDs({d}, y, &ny);
    c.nontrivial = true;
    double big = 1e-12;
    for (double z : x[0].GetBinContents())
        big = std::max(big, std::fabs(z));
    c.nearv("contents", y[0].GetBinContents(), times(x[0].GetBinContents(), t * u), 1e-9, 1e-11 * big * t * u);
    c.near("norm", ny[0], nx[0] * t * u, 1e-9, 1e-11 * big * t * u * double(n));
}
// without systematics nothing happens, and a group without systematics is not silently applied
FACET(empty, 1)
{
    RAxes ax = genAxes(s, 1, 2, 4, 9);
    SystematicManager m;
    m.Construct();
    checkNames(c, m, Model());
    size_t nD = s.size(0, 3);
    vector<BinnedED> o, w;
    for (size_t i = 0; i < nD; i++)
    {
        BinnedED b("b" + std::to_string(i), ax.make());
        b.SetObservables(ax.names());
        b.SetBinContents(genContents(s, ax.bins()));
        o.push_back(b);
        b.SetBinContents(vector<double>(ax.bins(), 3));
        w.push_back(b);
        if (s.boolean())
            m.AddDist(b, "");
    }
    vector<double> norms(nD, -1);
    m.DistortEDs(o, w, &norms);
    for (size_t i = 0; i < nD; i++)
    {
        c.nearv("unchanged", w[i].GetBinContents(), o[i].GetBinContents());
        c.near("integral", norms[i], sum(o[i].GetBinContents()));
    }
    c.nontrivial = nD > 0;
    if (nD)
        c.throws<NotFoundError>("unknown-group-dist", [&] { m.AddDist(o[0], "nope"); });
}
