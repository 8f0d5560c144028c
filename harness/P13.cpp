// StatisticSum: the sum of its parts, their shared parameters and its own constraints.
// SRC: core histogram data dist function systematic fitutil teststat constraint cut eventSystematic
#include "nllhmodel.hpp"
#include <StatisticSum.h>

const char *pbt::kRule =
    "random trees of sums over 1-5 statistics with overlapping parameters, built by every route (constructor, operators, Sum, "
    "AddStat, nesting, repetition), with constraints on sums, and histories of setting parameters through sums or parts; real "
    "binned likelihoods as parts; non-trivial: at least two parts sharing a parameter";

namespace
{
// v = c + sum_i w_i (p_i - i)^2
struct FakeStat : public TestStatistic
{
    double c = 0;
    ParameterDict par;
    std::map<string, double> w;
    int evals = 0, regs = 0;
    double ref() const
    {
        double v = c, i = 0;
        for (auto &p : par)
        {
            v += w.at(p.first) * (p.second - i) * (p.second - i);
            i++;
        }
        return v;
    }
    double Evaluate()
    {
        evals++;
        return ref();
    }
    void SetParameters(const ParameterDict &d)
    {
        for (auto &p : par)
            if (!d.count(p.first))
                throw ParameterError("FakeStat: missing " + p.first);
        for (auto &p : par)
            p.second = d.at(p.first);
    }
    ParameterDict GetParameters() const { return par; }
    std::set<string> GetParameterNames() const
    {
        std::set<string> s;
        for (auto &p : par)
            s.insert(p.first);
        return s;
    }
    size_t GetParameterCount() const { return par.size(); }
    void RegisterFitComponents() { regs++; }
};
struct Node
{
    std::unique_ptr<TestStatistic> own;
    vector<size_t> kids; // other nodes; empty for a leaf
    bool leaf = false;
    vector<NCon> con;
    TestStatistic &ref() { return *own; }
    StatisticSum &sum() { return dynamic_cast<StatisticSum &>(*own); }
};
struct Tree
{
    vector<Node> n;
    ParameterDict pars(size_t i) const
    {
        if (n[i].leaf)
            return dynamic_cast<FakeStat &>(*n[i].own).par;
        ParameterDict d;
        for (size_t k : n[i].kids)
            for (auto &p : pars(k))
                if (!d.count(p.first))
                    d[p.first] = p.second;
        return d;
    }
    double value(size_t i) const
    {
        if (n[i].leaf)
            return dynamic_cast<FakeStat &>(*n[i].own).ref();
        double v = 0;
        for (size_t k : n[i].kids)
            v += value(k);
        ParameterDict d = pars(i);
        for (auto &q : n[i].con)
            v += q.eval(d);
        return v;
    }
    void leaves(size_t i, std::multiset<size_t> &o) const
    {
        if (n[i].leaf)
            o.insert(i);
        for (size_t k : n[i].kids)
            leaves(k, o);
    }
    string show(size_t i) const
    {
        if (n[i].leaf)
            return std::to_string(i);
        string o = "(";
        for (size_t k : n[i].kids)
            o += show(k) + " ";
        return o + "c" + std::to_string(n[i].con.size()) + ")";
    }
};
void setCon(TestStatistic &t, const NCon &q)
{
    if (q.kind == 0)
        t.SetConstraint(q.a, q.m1, q.s1);
    else if (q.kind == 1)
        t.SetConstraint(q.a, q.m1, q.s1, q.s2);
    else
        t.SetConstraint(q.a, q.m1, q.s1, q.b, q.m2, q.s2, q.corr);
}
} // namespace

FACET(tree, 6)
{
    const vector<string> pool = styled(s, {"alpha", "zeta", "mass", "b", "norm"});
    Tree t;
    t.n.reserve(32);
    size_t nl = s.size(1, 5);
    std::map<string, int> shared;
    for (size_t i = 0; i < nl; i++)
    {
        std::unique_ptr<FakeStat> f(new FakeStat);
        f->c = s.chance(1, 12) ? s.pick(vector<double>{INFINITY, -INFINITY, NAN, 1e300}) : s.fine(16, 2);
        auto p = s.permutation(pool.size());
        size_t np = s.size(0, 4);
        for (size_t k = 0; k < np; k++)
        {
            f->par[pool[p[k]]] = s.fine(4, 2);
            f->w[pool[p[k]]] = s.fine(4, 2);
            shared[pool[p[k]]]++;
        }
        c.desc << "leaf" << i << " c=" << f->c << str(f->par) << str(f->w) << " ";
        t.n.emplace_back();
        t.n.back().leaf = true;
        t.n.back().own = std::move(f);
    }
    size_t ops = s.size(1, 6);
    for (size_t o = 0; o < ops; o++)
    {
        vector<size_t> sums;
        for (size_t i = 0; i < t.n.size(); i++)
            if (!t.n[i].leaf)
                sums.push_back(i);
        Node r;
        size_t a = s.below(t.n.size()), b = s.below(t.n.size());
        std::unique_ptr<StatisticSum> q;
        switch (s.below(6))
        {
        case 0: // constructor: nests sums
            q.reset(new StatisticSum(t.n[a].ref(), t.n[b].ref()));
            r.kids = {a, b};
            break;
        case 1: // of anything
            q.reset(new StatisticSum(t.n[a].ref() + t.n[b].ref()));
            r.kids = {a, b};
            break;
        case 2: // sum + anything: the left one is copied
            if (sums.empty())
                continue;
            a = s.pick(sums);
            q.reset(new StatisticSum(t.n[a].sum() + t.n[b].ref()));
            r.kids = t.n[a].kids;
            r.kids.push_back(b);
            r.con = t.n[a].con;
            break;
        case 3: // Sum
        {
            vector<TestStatistic *> v;
            for (size_t i = s.below(5); i-- > 0;)
            {
                r.kids.push_back(s.below(t.n.size()));
                v.push_back(t.n[r.kids.back()].own.get());
            }
            q.reset(new StatisticSum(Sum(v)));
            break;
        }
        case 4: // one by one
            q.reset(new StatisticSum);
            for (size_t i = s.below(5); i-- > 0;)
            {
                r.kids.push_back(s.below(t.n.size()));
                q->AddStat(t.n[r.kids.back()].ref());
            }
            break;
        default: // copy
            if (sums.empty())
                continue;
            a = s.pick(sums);
            q.reset(new StatisticSum(t.n[a].sum()));
            r.kids = t.n[a].kids;
            r.con = t.n[a].con;
        }
        r.own = std::move(q);
        t.n.push_back(std::move(r));
        size_t me = t.n.size() - 1;
        ParameterDict d = t.pars(me);
        if (!d.empty() && t.n[me].con.empty() && s.boolean())
        {
            vector<string> pn;
            for (auto &p : d)
                pn.push_back(p.first);
            NCon k;
            k.a = s.pick(pn);
            k.b = s.pick(pn);
            k.kind = s.below(k.a == k.b ? 2 : 3);
            k.m1 = s.fine(4, 2);
            k.m2 = s.fine(4, 2);
            k.s1 = s.posfine(2, 2);
            k.s2 = s.posfine(2, 2);
            k.corr = s.fine(1, 3) * 0.75;
            setCon(t.n[me].ref(), k);
            t.n[me].con.push_back(k);
        }
    }
    for (size_t i = 0; i < t.n.size(); i++)
        if (!t.n[i].leaf)
            c.desc << " " << i << "=" << t.show(i);
    bool sh = false;
    auto check = [&](const string &when)
    {
        for (size_t i = 0; i < t.n.size(); i++)
        {
            TestStatistic &x = t.n[i].ref();
            c.near("value" + when, x.Evaluate(), t.value(i), 1e-9, 1e-9, t.show(i));
            ParameterDict d = t.pars(i);
            c.ok("parameters" + when, x.GetParameters() == d, t.show(i) + " " + str(x.GetParameters()) + " want " + str(d));
            c.eq("count" + when, x.GetParameterCount(), d.size(), t.show(i));
            std::set<string> nm;
            for (auto &p : d)
                nm.insert(p.first);
            c.ok("names" + when, x.GetParameterNames() == nm, t.show(i));
        }
    };
    check("");
    size_t steps = s.size(0, 4);
    for (size_t st = 0; st < steps; st++)
    {
        size_t i = s.below(t.n.size());
        std::multiset<size_t> ls;
        t.leaves(i, ls);
        ParameterDict d;
        for (auto &p : t.pars(i))
            d[p.first] = s.fine(8, 2);
        if (s.boolean())
            d["somewhere_else"] = 3;
        c.desc << " set" << i << str(d);
        vector<ParameterDict> want;
        for (size_t k = 0; k < nl; k++)
        {
            ParameterDict w = t.pars(k);
            if (ls.count(k))
                for (auto &p : w)
                    p.second = d.at(p.first);
            want.push_back(w);
        }
        t.n[i].ref().SetParameters(d);
        for (size_t k = 0; k < nl; k++)
            c.ok("reaches-exactly-its-parts", t.pars(k) == want[k], str(t.pars(k)) + " want " + str(want[k]));
        check("-after-set");
        if (!t.pars(i).empty() && s.boolean())
        { // something missing is refused
            ParameterDict m = t.pars(i);
            m.erase(std::next(m.begin(), s.below(m.size())));
            c.throws<ParameterError>("missing", [&] { t.n[i].ref().SetParameters(m); });
        }
    }
    for (auto &p : shared)
        sh |= p.second > 1;
    // a sum keeps its own list: adding to the one it was made from doesn't change it
    for (size_t i = 0; i < t.n.size(); i++)
        if (!t.n[i].leaf)
        {
            std::unique_ptr<StatisticSum> src(new StatisticSum(t.n[i].sum()));
            StatisticSum made = *src + t.n[0].ref();
            double want = made.Evaluate();
            FakeStat more;
            more.c = 1000;
            src->AddStat(more);
            c.near("independent-of-source", made.Evaluate(), want, 1e-12, 0);
            src.reset();
            c.near("outlives-source", made.Evaluate(), want, 1e-12, 0);
        }
    // evaluated and registered once per occurrence
    size_t i = s.below(t.n.size());
    std::multiset<size_t> ls;
    t.leaves(i, ls);
    for (size_t k = 0; k < nl; k++)
    {
        FakeStat &f = dynamic_cast<FakeStat &>(t.n[k].ref());
        f.evals = f.regs = 0;
    }
    t.n[i].ref().Evaluate();
    t.n[i].ref().RegisterFitComponents();
    for (size_t k = 0; k < nl; k++)
    {
        FakeStat &f = dynamic_cast<FakeStat &>(t.n[k].ref());
        c.ok("registered", (f.regs > 0) == (ls.count(k) > 0), t.show(i) + " leaf " + std::to_string(k));
    }
    c.nontrivial = sh && t.n.size() > nl;
    c.tag("nested", t.n.size() > nl + 1);
}

// real likelihoods as parts
FACET(likelihoods, 2)
{
    size_t n = s.size(1, 3);
    vector<NConf> k;
    vector<std::unique_ptr<Built>> b;
    for (size_t i = 0; i < n; i++)
    {
        k.push_back(genConf(s, false, 6));
        describe(c, k.back());
        b.emplace_back(new Built(k.back()));
    }
    ParameterDict all;
    size_t total = 0;
    for (auto &x : k)
    {
        total += x.par.size();
        for (auto &p : x.par)
            all[p.first] = s.posfine(p.first.find('_') == string::npos ? 40 : 2, 2);
    }
    vector<TestStatistic *> v;
    for (auto &x : b)
        v.push_back(&x->lh);
    StatisticSum sum = Sum(v);
    if (s.boolean())
        sum.RegisterFitComponents();
    vector<NCon> con;
    if (!all.empty() && s.boolean())
    {
        NCon q = genCon(s, all.begin()->first, "", 3);
        q.kind = q.kind == 1;
        setCon(sum, q);
        con.push_back(q);
    }
    if (!all.empty())
        sum.SetParameters(all);
    c.desc << " all" << str(all);
    double want = 0, scale = 1;
    bool skip = false;
    for (size_t i = 0; i < n; i++)
    {
        for (auto &p : k[i].par)
            p.second = all.at(p.first);
        c.ok("part-parameters", b[i]->lh.GetParameters() == k[i].par, str(b[i]->lh.GetParameters()));
        NResult r = evalRef(k[i]);
        skip |= r.zero || r.unsure;
        want += r.nll;
        scale += r.scale;
    }
    c.ok("parameters", sum.GetParameters() == all, str(sum.GetParameters()) + " want " + str(all));
    c.nontrivial = n > 1 && total > all.size() && !skip;
    if (skip)
        return;
    for (auto &q : con)
        want += q.eval(all);
    c.near("value", sum.Evaluate(), want, 1e-8, 1e-9 * scale);
    c.near("again", sum.Evaluate(), want, 1e-8, 1e-9 * scale);
    double parts = 0;
    for (auto &x : b)
        parts += x->lh.Evaluate();
    for (auto &q : con)
        parts += q.eval(all);
    c.near("sum-of-parts", sum.Evaluate(), parts, 1e-9, 1e-10 * scale);
}
