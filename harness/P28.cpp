// Container, combination and histogram-collection helpers.
// SRC: core data dist histogram function
#include "gens.hpp"
#include <BinnedED.h>
#include <Combinations.hpp>
#include <ContainerTools.hpp>
#include <HistTools.h>
#include <list>
#include <sys/wait.h>
#include <unistd.h>

using namespace ContainerTools;
const char *pbt::kRule =
    "random maps, vectors, sets and lists of up to eight elements, strings to split, index ranges and histograms of 1-4 dimensions, "
    "against direct definitions; non-trivial: at least two elements or dimensions";

namespace
{
vector<string> genKeys(Src &s, size_t lo, size_t hi)
{
    static const vector<string> pool = {"energy", "radius", "time", "alpha", "z", "beta", "", "x y"};
    auto p = s.permutation(pool.size());
    vector<string> v;
    if (s.chance(1, 12))
        hi = 40; // many
    for (size_t n = s.size(lo, hi), i = 0; i < n; i++)
        v.push_back(i < pool.size() ? pool[p[i]] : "key" + std::to_string(i));
    return v;
}
// true if f ends in an exception or an abort, false if it returns; run in a child because an abort is a legitimate refusal
template <class F>
bool refused(F f)
{
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        if (!freopen("/dev/null", "w", stderr))
            _exit(3);
        signal(SIGABRT, SIG_DFL);
        try
        {
            f();
        }
        catch (...)
        {
            _exit(7);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return (WIFEXITED(st) && WEXITSTATUS(st) == 7) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
}
} // namespace

FACET(maps, 4)
{
    vector<string> keys = genKeys(s, 0, 6);
    vector<double> vals;
    std::map<string, double> want;
    if (!keys.empty() && s.chance(1, 4))
        keys.push_back(keys[0]); // a repeated key takes its last value
    for (auto &k : keys)
    {
        vals.push_back(s.fine(9, 1));
        want[k] = vals.back();
    }
    c.desc << str(keys) << str(vals);
    c.nontrivial = keys.size() > 1;
    c.ok("create", CreateMap(keys, vals) == want);
    c.ok("create-list", CreateMap(std::list<string>(keys.begin(), keys.end()), vals) == want);
    c.ok("keys", GetKeys(want) == std::set<string>(keys.begin(), keys.end()));
    vector<double> all;
    for (auto &p : want)
        all.push_back(p.second);
    c.ok("values", GetValues(want) == all);
    // any selection, in any order, repeats allowed
    vector<string> sel;
    vector<double> selv;
    if (!keys.empty())
        for (size_t n = s.size(0, 6); n-- > 0;)
        {
            sel.push_back(s.pick(keys));
            selv.push_back(want[sel.back()]);
        }
    c.ok("selected", GetValues(want, sel) == selv);
    vector<string> miss = sel;
    miss.insert(miss.begin() + s.below(miss.size() + 1), "missing");
    c.throws<std::exception>("selected-missing", [&] { GetValues(want, miss); });
    for (auto &k : keys)
        c.ok("has-key", HasKey(want, k));
    c.ok("has-not-key", !HasKey(want, string("missing")));
    // SetValues overwrites and inserts, nothing else
    std::map<string, double> m = want, w = want;
    vector<string> set = genKeys(s, 0, 4);
    vector<double> setv;
    for (auto &k : set)
    {
        setv.push_back(s.fine(9, 1));
        w[k] = setv.back();
    }
    SetValues(m, set, setv);
    c.ok("set", m == w);
    SetValues(m, keys, vals);
    for (auto &k : keys)
        w[k] = want[k];
    c.ok("set-again", m == w);
    if (s.chance(1, 12))
    {
        vector<double> wrong = vals;
        if (s.boolean() || wrong.empty())
            wrong.push_back(1);
        else
            wrong.pop_back();
        c.tag("size-mismatch");
        c.ok("create-mismatch", refused([&] { CreateMap(keys, wrong); }), "sizes differ");
        c.ok("set-mismatch", refused([&] { SetValues(m, keys, wrong); }), "sizes differ");
    }
}
FACET(key_sets, 3)
{
    vector<string> k1 = genKeys(s, 0, 5), k2 = s.boolean() ? genKeys(s, 0, 5) : k1;
    if (s.chance(1, 10)) // many
    {
        k1.clear();
        size_t n = s.range(60, 300);
        for (size_t i = 0; i < n; i++)
            k1.push_back("key" + std::to_string(1000 + i));
        k2 = k1;
        if (s.boolean())
            k2[s.below(n)] += "x";
    }
    if (!k2.empty() && s.chance(1, 3))
        k2.erase(k2.begin() + s.below(k2.size()));
    std::map<string, double> a;
    std::map<string, int> b;
    for (auto &k : k1)
        a[k] = s.fine(3, 1);
    std::map<string, double> b2;
    for (auto &k : k2)
    {
        b[k] = int(s.below(9));
        b2[k] = 5;
    }
    c.desc << str(k1) << " / " << str(k2);
    c.nontrivial = a.size() > 1 && b.size() > 1;
    bool eq = std::set<string>(k1.begin(), k1.end()) == std::set<string>(k2.begin(), k2.end());
    c.eq("same-keys", HasSameKeys(a, b), eq);
    c.eq("same-keys-swapped", HasSameKeys(b, a), eq);
    string msg = CompareKeys(a, b2, "first", "second");
    c.ok("names", msg.find("first") != string::npos && msg.find("second") != string::npos);
    if (!eq)
    {
        string want = "";
        for (auto &p : a)
            if (!b2.count(p.first))
                want += p.first + ",";
        c.ok("missing-keys", msg.find(want) != string::npos, msg + " want " + want);
        for (auto &p : a)
            if (b2.count(p.first) && p.first.size() > 3)
                c.ok("present-key", msg.find(p.first) == string::npos, msg);
    }
    string joined;
    for (auto &k : k1)
        joined += k + "|";
    c.eq("to-string", ToString(k1, "|"), joined);
    string dflt;
    for (auto &k : k1)
        dflt += k + ", ";
    c.eq("to-string-default", ToString(k1), dflt);
}
FACET(split, 2)
{
    string text;
    for (size_t n = s.size(0, 14); n-- > 0;)
        text += s.pick(vector<char>{'a', ' ', ',', 'b', '\t', ':'});
    char d = s.pick(vector<char>{' ', ',', ':', 'a'});
    vector<string> want;
    string cur;
    for (char ch : text)
        if (ch == d)
        {
            if (!cur.empty())
                want.push_back(cur);
            cur.clear();
        }
        else
            cur += ch;
    if (!cur.empty())
        want.push_back(cur);
    c.desc << "'" << text << "' at '" << d << "'";
    c.nontrivial = want.size() > 1;
    c.ok("split", Split(text, d) == want, str(Split(text, d)) + " want " + str(want));
    if (d == ' ')
        c.ok("split-default", Split(text) == want);
}
FACET(combinations, 2)
{
    vector<string> v = genKeys(s, 0, 6);
    std::set<std::pair<string, string>> want;
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < i; j++)
            want.insert({v[i], v[j]});
    c.ok("pairs", Combinations::AllCombsNoDiag(v) == want);
    c.eq("pair-count", want.size(), v.size() * (v.size() - (v.empty() ? 0 : 1)) / 2);
    std::set<string> vs(v.begin(), v.end());
    c.eq("pairs-of-a-set", Combinations::AllCombsNoDiag(vs).size(), want.size());
    vector<size_t> mx;
    size_t total = 1;
    for (size_t n = s.chance(1, 10) ? s.size(5, 7) : s.size(0, 4); n-- > 0;)
    {
        mx.push_back(s.chance(1, 10) && total < 100 ? s.size(5, 20) : s.size(0, 4));
        total *= mx.back();
    }
    c.desc << str(v) << " ranges " << str(mx);
    c.nontrivial = mx.size() > 1 && total > 1;
    vector<vector<size_t>> combs;
    Combinations::RecursiveCombinations(mx.size(), combs, vector<size_t>(mx.size()), mx);
    c.eq("n-combinations", combs.size(), total);
    for (size_t k = 0; k < total; k++)
    { // first index runs fastest
        size_t r = k;
        for (size_t d = 0; d < mx.size(); d++)
        {
            c.eq("combination", combs[k][d], r % mx[d]);
            r /= mx[d];
        }
    }
    size_t lo = s.below(6), n = 1 + s.below(6);
    vector<size_t> r = Combinations::Range<size_t>(lo + n, lo);
    c.eq("range-n", r.size(), n);
    for (size_t i = 0; i < n; i++)
        c.eq("range", r[i], lo + i);
    c.eq("range-zero", Combinations::Range<size_t>(n).front(), size_t(0));
    c.eq("range-zero-n", Combinations::Range<size_t>(n).size(), n);
}
FACET(histograms, 4)
{
    RAxes ax = genAxes(s, 1, 4, 4, 60);
    vector<string> names = ax.names();
    c.desc << show(ax);
    c.nontrivial = ax.dims() > 1;
    AxisCollection axes = ax.make();
    // one-dimensional and two-dimensional collections, for any selection of axes
    vector<string> sel;
    for (size_t i : s.permutation(names.size()))
        if (s.chance(3, 4))
            sel.push_back(names[i]);
    std::map<string, Histogram> h1 = HistTools::MakeAllHists(axes, sel);
    c.eq("n-1d", h1.size(), sel.size());
    for (auto &n : sel)
    {
        c.ok("1d-name", h1.count(n));
        c.ok("1d-axes", h1[n].GetAxes().GetAxisNames() == vector<string>{n} && h1[n].GetAxes().GetAxis(n) == axes.GetAxis(n));
    }
    std::set<std::pair<string, string>> pairs;
    for (size_t i = 0; i < sel.size(); i++)
        for (size_t j = 0; j < i; j++)
        {
            pairs.insert(s.boolean() ? std::make_pair(sel[i], sel[j]) : std::make_pair(sel[j], sel[i]));
            if (s.chance(1, 4)) // both ways round
                pairs.insert(s.boolean() ? std::make_pair(sel[i], sel[j]) : std::make_pair(sel[j], sel[i]));
        }
    std::map<string, Histogram> h2 = HistTools::MakeAllHists(axes, pairs);
    c.eq("n-2d", h2.size(), pairs.size());
    for (auto &p : pairs)
    {
        string n = p.first + "_" + p.second;
        c.ok("2d-name", h2.count(n), n);
        c.ok("2d-axes", h2[n].GetAxes().GetAxisNames() == vector<string>({p.first, p.second}));
        c.ok("2d-axis", h2[n].GetAxes().GetAxis(p.first) == axes.GetAxis(p.first) && h2[n].GetAxes().GetAxis(p.second) == axes.GetAxis(p.second));
    }
    c.throws<NotFoundError>("1d-unknown", [&] { HistTools::MakeAllHists(axes, vector<string>{"unknown"}); });
    c.throws<NotFoundError>("2d-unknown", [&] { HistTools::MakeAllHists(axes, std::set<std::pair<string, string>>{{names[0], "unknown"}}); });
    // filling them all with points
    std::map<string, vector<double>> w1, w2;
    for (auto &n : sel)
        w1[n] = vector<double>(ax.a[ax.index(n)].n(), 0);
    for (auto &p : pairs)
        w2[p.first + "_" + p.second] = vector<double>(ax.a[ax.index(p.first)].n() * ax.a[ax.index(p.second)].n(), 0);
    for (size_t k = s.size(0, 5); k-- > 0;)
    {
        std::map<string, double> x;
        for (auto &a : ax.a)
            x[a.name] = genCoord(s, a);
        if (s.boolean())
            x["unrelated"] = 3;
        HistTools::FillAllHists(h1, x);
        HistTools::FillAllHists(h2, x);
        for (auto &n : sel)
            w1[n][ax.a[ax.index(n)].find(x[n])]++;
        for (auto &p : pairs)
            w2[p.first + "_" + p.second][ax.a[ax.index(p.first)].find(x[p.first]) * ax.a[ax.index(p.second)].n() + ax.a[ax.index(p.second)].find(x[p.second])]++;
    }
    for (auto &w : w1)
        c.nearv("filled-1d", h1[w.first].GetBinContents(), w.second, 0, 0, w.first);
    for (auto &w : w2)
        c.nearv("filled-2d", h2[w.first].GetBinContents(), w.second, 0, 0, w.first);
    if (!sel.empty())
    {
        std::map<string, double> x;
        for (auto &n : sel)
            x[n] = 0;
        x.erase(s.pick(sel));
        c.throws<std::exception>("fill-missing", [&] { HistTools::FillAllHists(h1, x); });
    }
}
template <class T>
static void project(Ctx &c, Src &s, const T &h, const RAxes &ax, const vector<double> &v)
{
    auto tuples = ax.tuples();
    vector<string> names = ax.names();
    vector<T> ps = HistTools::GetVisualisableProjections(h);
    // every axis once; every pair of axes once if there are more than two
    size_t d = ax.dims();
    c.eq("n-projections", ps.size(), d + (d > 2 ? d * (d - 1) / 2 : 0));
    std::set<std::set<string>> seen;
    for (auto &p : ps)
    {
        vector<string> pn = p.GetAxes().GetAxisNames();
        seen.insert(std::set<string>(pn.begin(), pn.end()));
        RAxes pa;
        for (auto &n : pn)
            pa.a.push_back(ax.a[ax.index(n)]);
        vector<double> w(pa.bins(), 0);
        for (auto &t : tuples)
        {
            vector<size_t> q;
            for (auto &n : pn)
                q.push_back(t[ax.index(n)]);
            w[pa.flat(q)] += v[ax.flat(t)];
        }
        c.ok("projection-axes", p.GetAxes() == pa.make());
        c.nearv("projection", p.GetBinContents(), w, 1e-12, 1e-12, str(pn));
    }
    c.eq("distinct-projections", seen.size(), ps.size());
    if (d < 2)
        return;
    size_t k = s.below(d);
    vector<T> sl = HistTools::Get1DSlices(h, names[k]);
    c.eq("n-slices", sl.size(), ax.bins() / ax.a[k].n());
    vector<size_t> rest;
    for (size_t i = 0; i < d; i++)
        if (i != k)
            rest.push_back(i);
    for (size_t q = 0; q < sl.size(); q++)
    {
        vector<size_t> t(d, 0);
        size_t r = q;
        for (size_t i : rest)
        {
            t[i] = r % ax.a[i].n();
            r /= ax.a[i].n();
        }
        vector<double> w;
        for (size_t b = 0; b < ax.a[k].n(); b++)
        {
            t[k] = b;
            w.push_back(v[ax.flat(t)]);
        }
        c.ok("slice-axis", sl[q].GetAxes().GetAxisNames() == vector<string>{names[k]});
        c.nearv("slice", sl[q].GetBinContents(), w, 1e-12, 1e-12, "slice " + std::to_string(q) + " along " + names[k]);
    }
}
FACET(projections, 4)
{
    RAxes ax = s.chance(1, 8) ? genAxes(s, 5, 6, 3, 150) : s.chance(1, 8) ? genAxes(s, 1, 3, 16, 300) : genAxes(s, 1, 4, 4, 60);
    vector<double> v = genContents(s, ax.bins());
    c.desc << show(ax) << str(v);
    c.nontrivial = ax.dims() > 1;
    Histogram h(ax.make());
    h.SetBinContents(v);
    if (s.boolean())
        project(c, s, h, ax, v);
    else
    {
        BinnedED b("ed", h);
        b.SetObservables(ax.names());
        project(c, s, b, ax, v);
    }
}
