// Events, observable sets and data sets.
// SRC: core data
#include "gens.hpp"
#include <Event.h>
#include <OXSXDataSet.h>
#include <ObsSet.h>
#include <memory>

const char *pbt::kRule =
    "random events over 1-6 named observables in random order, random subsets, and data sets built, copied, assigned and "
    "concatenated in random histories with the originals destroyed at random; non-trivial: at least 2 observables";

static vector<string> genNames(Src &s, size_t lo, size_t hi)
{
    const vector<string> pool = styled(s, {"energy", "radius", "time", "alpha", "z", "beta", "x", "y"});
    size_t n = s.size(lo, hi);
    auto p = s.permutation(pool.size());
    vector<string> v;
    for (size_t i = 0; i < n; i++)
        v.push_back(pool[p[i]]);
    return v;
}
static vector<double> genData(Src &s, size_t n)
{
    vector<double> v;
    for (size_t i = 0; i < n; i++)
        v.push_back(s.fine(100, 3));
    return v;
}
FACET(event, 4)
{
    vector<string> names = genNames(s, 1, 6);
    vector<double> data = genData(s, names.size());
    Event e(data);
    c.desc << str(names) << str(data);
    c.nontrivial = names.size() > 1;
    c.eq("n", e.GetNObservables(), names.size());
    size_t over = names.size() + s.below(5);
    c.throws<OXSXException>("names-unset", [&] { e.GetObservableNames(); });
    c.throws<OXSXException>("get-by-name-unset", [&] { e.GetDatum(names[0]); });
    c.throws<OXSXException>("set-by-name-unset", [&] { e.SetDatum(names[0], 1); });
    e.SetObservableNames(&names);
    c.ok("names", e.GetObservableNames() == names);
    for (size_t k = s.below(4); k-- > 0;)
    {
        size_t i = s.below(names.size());
        double x = s.fine(50, 2);
        if (s.chance(1, 8))
            x = s.pick(vector<double>{INFINITY, -INFINITY, 1e300, 5e-324, -0.0});
        if (s.boolean())
            e.SetDatum(i, x);
        else
            e.SetDatum(names[i], x);
        data[i] = x;
        c.desc << " " << names[i] << "=" << x;
    }
    c.nearv("data", e.GetData(), data);
    std::map<string, double> want;
    for (size_t i = 0; i < names.size(); i++)
    {
        want[names[i]] = data[i];
        c.eq("by-index", e.GetDatum(i), data[i]);
        c.eq("by-name", e.GetDatum(names[i]), data[i]);
    }
    c.ok("map", e.GetDataMap() == want, "GetDataMap");
    c.throws<NotFoundError>("get-oob", [&] { e.GetDatum(over); });
    c.throws<NotFoundError>("set-oob", [&] { e.SetDatum(over, 1); });
    c.throws<NotFoundError>("get-unknown", [&] { e.GetDatum("unknown"); });
    c.throws<NotFoundError>("set-unknown", [&] { e.SetDatum("unknown", 1); });
    c.nearv("refusals-change-nothing", e.GetData(), data);
    { // not a number is kept as well
        Event nan(e);
        size_t i = s.below(names.size());
        if (s.boolean())
            nan.SetDatum(names[i], NAN);
        else
            nan.SetDatum(i, NAN);
        for (size_t j = 0; j < names.size(); j++)
            c.near("not-a-number", nan.GetDatum(names[j]), i == j ? NAN : data[j], 0, 0);
    }
    { // names for another number of observables
        vector<string> more = names;
        more.push_back("one more");
        Event w(e);
        w.SetObservableNames(&more);
        c.throws<NotFoundError>("name-without-datum", [&] { w.GetDatum("one more"); });
        c.throws<NotFoundError>("set-name-without-datum", [&] { w.SetDatum("one more", 1); });
    }
    // any subset, in any order
    auto p = s.permutation(names.size());
    size_t k = s.size(0, names.size());
    vector<string> sub;
    vector<double> wv;
    for (size_t i = 0; i < k; i++)
    {
        sub.push_back(names[p[i]]);
        wv.push_back(data[p[i]]);
    }
    c.desc << " subset" << str(sub);
    c.nearv("subset", e.ToObsSet(ObsSet(sub)), wv);
    sub.insert(sub.begin() + s.below(sub.size() + 1), "unknown");
    c.throws<NotFoundError>("subset-unknown", [&] { e.ToObsSet(ObsSet(sub)); });
    Event cp(e);
    cp.SetDatum(size_t(0), data[0] + 1);
    c.eq("copy-independent", e.GetDatum(size_t(0)), data[0]);
}
FACET(obs_set, 2)
{
    vector<string> big = genNames(s, 1, 8);
    ObsSet b = (big.size() == 1 && s.boolean()) ? ObsSet(big[0]) : ObsSet(big);
    auto p = s.permutation(big.size());
    size_t k = s.size(0, big.size());
    vector<string> small;
    vector<size_t> want;
    for (size_t i = 0; i < k; i++)
    {
        small.push_back(big[p[i]]);
        want.push_back(p[i]);
    }
    ObsSet sm(small);
    c.desc << str(small) << " in " << str(big);
    c.nontrivial = big.size() > 1;
    c.eq("n", b.GetNObservables(), big.size());
    c.ok("names", b.GetNames() == big && sm.GetNames() == small);
    for (size_t i = 0; i < big.size(); i++)
        c.eq("index", b.GetIndex(big[i]), i);
    c.ok("relative", sm.GetRelativeIndices(b) == want, "relative indices");
    c.ok("equality", (sm == b) == (small == big) && (sm != b) == (small != big));
    c.throws<std::exception>("unknown", [&] { b.GetIndex("unknown"); });
    if (small.size() < big.size())
        c.throws<std::exception>("relative-incompatible", [&] { b.GetRelativeIndices(sm); });
    { // compared by order, not only by content
        vector<string> twice = big;
        twice.push_back(big[s.below(big.size())]);
        vector<string> q = twice;
        q[s.below(q.size())] = twice[s.below(twice.size())];
        c.ok("equality-repeated", (ObsSet(twice) == ObsSet(q)) == (twice == q) && (ObsSet(twice) != ObsSet(q)) == (twice != q));
    }
    // re-setting the names forgets the old ones
    b.SetNames(small);
    c.ok("reset", b == sm && b.GetNObservables() == k);
    for (auto &nm : big)
        if (std::find(small.begin(), small.end(), nm) == small.end())
            c.throws<std::exception>("forgotten", [&] { b.GetIndex(nm); });
    for (size_t i = 0; i < k; i++)
        c.eq("reset-index", b.GetIndex(small[i]), i);
}
struct RSet
{
    vector<string> names;
    size_t nobs = 0;
    vector<vector<double>> rows;
};
static void same(Ctx &c, const string &id, const OXSXDataSet &d, const RSet &r)
{
    c.eq(id + "-n", size_t(d.GetNEntries()), r.rows.size());
    c.eq(id + "-nobs", size_t(d.GetNObservables()), r.nobs);
    c.ok(id + "-names", d.GetObservableNames() == r.names, "observable names");
    for (size_t i = 0; i < r.rows.size(); i++)
    {
        Event e = d.GetEntry(i);
        c.ok(id + "-all-names", e.GetObservableNames() == r.names, "names of entry " + std::to_string(i));
        c.nearv(id + "-row", e.GetData(), r.rows[i], 1e-12, 1e-12, "entry " + std::to_string(i));
        if (r.names.size() == r.nobs)
        {
            c.ok(id + "-entry-names", e.GetObservableNames() == r.names);
            for (size_t j = 0; j < r.names.size(); j++)
                c.eq(id + "-entry-by-name", e.GetDatum(r.names[j]), r.rows[i][j]);
        }
    }
    c.throws<NotFoundError>(id + "-oob", [&] { d.GetEntry(r.rows.size()); });
}
FACET(data_set_history, 5)
{
    vector<string> names = genNames(s, 1, 5);
    vector<std::unique_ptr<OXSXDataSet>> sets;
    vector<RSet> ref;
    sets.emplace_back(new OXSXDataSet);
    ref.emplace_back();
    sets[0]->SetObservableNames(names);
    ref[0].names = names;
    c.desc << str(names);
    c.nontrivial = names.size() > 1;
    for (size_t k = s.size(1, 14); k-- > 0;)
    {
        size_t i = s.below(sets.size());
        switch (s.below(8))
        {
        case 0:
        case 1:
        {
            vector<double> v = genData(s, names.size());
            sets[i]->AddEntry(Event(v));
            ref[i].rows.push_back(v);
            ref[i].nobs = names.size();
            c.desc << " add#" << i;
            break;
        }
        case 2:
            if (sets.size() < 5)
            {
                sets.emplace_back(new OXSXDataSet(*sets[i]));
                RSet r = ref[i];
                ref.push_back(r);
                c.desc << " copy#" << i;
            }
            break;
        case 3:
        {
            size_t j = s.below(sets.size());
            *sets[i] = *sets[j];
            RSet r = ref[j];
            ref[i] = r;
            c.desc << " assign#" << i << "=#" << j;
            break;
        }
        case 4:
            if (sets.size() < 5 && (ref[i].nobs || true))
            {
                size_t j = s.below(sets.size());
                sets.emplace_back(new OXSXDataSet(*sets[i] + *sets[j]));
                RSet r = ref[i];
                r.rows.insert(r.rows.end(), ref[j].rows.begin(), ref[j].rows.end());
                r.nobs = std::max(ref[i].nobs, ref[j].nobs);
                ref.push_back(r);
                c.desc << " concat#" << i << "+#" << j;
            }
            break;
        case 5:
            if (sets.size() > 1)
            {
                sets.erase(sets.begin() + long(i));
                ref.erase(ref.begin() + long(i));
                c.desc << " destroy#" << i;
            }
            break;
        case 6:
        {
            vector<string> nn = names;
            auto p = s.permutation(nn.size());
            for (size_t q = 0; q < nn.size(); q++)
                nn[q] = names[p[q]];
            if (s.chance(1, 4)) // fewer or more names than observables
                s.boolean() ? nn.resize(s.below(nn.size() + 1)) : nn.push_back("another");
            sets[i]->SetObservableNames(nn);
            ref[i].names = nn;
            c.desc << " rename#" << i << str(nn);
            break;
        }
        default:
            if (ref[i].nobs)
            {
                vector<double> v = genData(s, names.size() + 1);
                c.throws<DimensionError>("wrong-size", [&] { sets[i]->AddEntry(Event(v)); });
            }
            else
                c.throws<DimensionError>("empty-event", [&] { sets[i]->AddEntry(Event(vector<double>())); });
            sets[i]->Reserve(int(s.below(10)));
        }
        for (size_t q = 0; q < sets.size(); q++)
            same(c, "set", *sets[q], ref[q]);
    }
}
// more entries and observables than fit in 16 bits; extreme values
ONCE(many_entries)
{
    vector<string> names = {"energy", "radius", "z"};
    OXSXDataSet a, b;
    a.SetObservableNames(names);
    b.SetObservableNames(names);
    const size_t n = 70000, m = 66000;
    auto row = [](size_t i) {
        static const double odd[] = {0.1, 1e300, -1e-300, 16777217, -0.0, 123456.789012345678};
        return vector<double>{double(i), odd[i % 6] * double(i % 7 + 1), -double(i) / 3};
    };
    a.Reserve(10);
    for (size_t i = 0; i < n; i++)
        a.AddEntry(Event(row(i)));
    for (size_t i = 0; i < m; i++)
        b.AddEntry(Event(row(n + i)));
    c.desc << n << " and " << m << " entries";
    c.nontrivial = true;
    c.eq("entries", size_t(a.GetNEntries()), n);
    OXSXDataSet d = a + b, e(d), f;
    f = e;
    for (const OXSXDataSet *x : {&d, &e, &f})
    {
        c.eq("entries", size_t(x->GetNEntries()), n + m);
        for (size_t i = 0; i < n + m; i++)
            c.ok("entry", x->GetEntry(i).GetData() == row(i), "entry " + std::to_string(i));
        c.eq("by-name", x->GetEntry(n + m - 1).GetDatum("z"), row(n + m - 1)[2]);
        c.throws<OXSXException>("beyond", [&] { x->GetEntry(n + m); });
    }
    vector<double> wide;
    vector<string> wn;
    for (size_t i = 0; i < 70000; i++)
    {
        wide.push_back(double(i) / 7);
        wn.push_back("o" + std::to_string(i));
    }
    Event w(wide);
    w.SetObservableNames(&wn);
    c.eq("wide", w.GetNObservables(), wide.size());
    c.eq("wide-by-name", w.GetDatum("o69999"), wide[69999]);
    vector<size_t> idx = {65536, 3, 69999, 65535};
    c.nearv("wide-by-index", {w.GetDatum(idx[0]), w.GetDatum(idx[1]), w.GetDatum(idx[2]), w.GetDatum(idx[3])}, {wide[65536], wide[3], wide[69999], wide[65535]}, 0, 0);
    c.nearv("wide-set", w.ToObsSet(ObsSet(vector<string>{"o65536", "o3"})), {wide[65536], wide[3]}, 0, 0);
}
FACET(concat_mismatch, 1)
{
    size_t n = s.size(1, 4), m = n + s.size(1, 3);
    OXSXDataSet a, b;
    vector<double> va = genData(s, n), vb = genData(s, m);
    a.AddEntry(Event(va));
    b.AddEntry(Event(vb));
    c.desc << n << " vs " << m;
    c.nontrivial = true;
    c.throws<DimensionError>("concat", [&] { a + b; });
    c.throws<DimensionError>("concat-rev", [&] { b + a; });
    c.ok("unchanged", a.GetNEntries() == 1 && b.GetNEntries() == 1);
}
