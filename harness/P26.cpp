// Saving and loading: IO (HDF5 for real, ROOT files against the in-memory stand-in), ROOTNtuple, ROOTTree, LazyOXSXDataSet.
// SRC: core data dist histogram function
// EXTRA: Rand.cpp IO.cpp DistTools.cpp ROOTNtuple.cpp ROOTTree.cpp LazyOXSXDataSet.cpp
// FUZZ: no
#include "fakes.hpp"
#include <Event.h>
#include <IO.h>
#include <LazyOXSXDataSet.h>
#include <OXSXDataSet.h>
#include <ROOTNtuple.h>
#include <ROOTTree.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TNtuple.h>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

const char *pbt::kRule =
    "random histograms (1-4 axes, uniform and variable binning, short, long and latex names) and data sets (0-60 entries, sometimes "
    "tens of thousands, 1-7 observables) written to a scratch directory and read back; random interleavings of accesses, copies and "
    "assignments of lazily loaded sets; missing, foreign and truncated files; non-trivial: more than one axis, observable or file";

namespace
{
struct Scratch
{
    string dir;
    vector<string> files;
    Scratch()
    {
        char t[] = "/tmp/oxsx-p26-XXXXXX";
        dir = mkdtemp(t);
    }
    string file(const string &n)
    {
        files.push_back(dir + "/" + n);
        return files.back();
    }
    ~Scratch()
    {
        for (auto &f : files)
            unlink(f.c_str());
        rmdir(dir.c_str());
    }
};
string genName(Src &s, const string &stem, bool delimiter = false)
{
    switch (s.below(6))
    {
    case 0:
        return stem + string(s.chance(1, 4) ? s.size(200, 700) : s.size(40, 90), 'x') + stem;
    case 1:
        return stem + " \\mu_{" + stem + "} (MeV)";
    case 2:
        return delimiter ? stem + ":" + stem : stem + ".;#" + stem;
    default:
        return stem;
    }
}
struct RData
{
    vector<string> names;
    vector<vector<double>> x;
};
RData genData(Src &s, size_t maxN = 40, size_t minN = 0)
{
    RData r;
    size_t d = s.size(1, 7), n = s.size(minN, maxN);
    for (size_t i = 0; i < d; i++)
        r.names.push_back(genName(s, "o" + std::to_string(i)));
    // entries are a function of one seed, so that long sets do not need as many choices
    uint64_t z = s.below(1000000), mode = s.below(3);
    for (size_t i = 0; i < n; i++)
    {
        vector<double> e;
        for (size_t k = 0; k < d; k++)
        {
            z = z * 6364136223846793005ull + 1442695040888963407ull;
            double v = double(int64_t(z)) / 9223372036854775808.;
            e.push_back(mode == 0 ? double(i * d + k) : mode == 1 ? v * 100 : std::ldexp(v, int(z % 600) - 300));
        }
        r.x.push_back(e);
    }
    return r;
}
OXSXDataSet make(const RData &r)
{
    OXSXDataSet d;
    d.SetObservableNames(r.names);
    for (auto &e : r.x)
        d.AddEntry(Event(e));
    return d;
}
void compare(Ctx &c, const string &id, const DataSet &d, const RData &r, bool asFloat = false)
{
    c.ok(id + "-names", d.GetObservableNames() == r.names, str(d.GetObservableNames()));
    if (r.x.size()) // an OXSXDataSet counts them with the first entry
        c.eq(id + "-observables", size_t(d.GetNObservables()), r.names.size());
    c.eq(id + "-entries", size_t(d.GetNEntries()), r.x.size());
    for (size_t i = 0; i < r.x.size(); i++)
    {
        Event e = d.GetEntry(i);
        vector<double> want = r.x[i];
        if (asFloat)
            for (auto &v : want)
                v = double(float(v));
        c.ok(id + "-entry", e.GetData() == want, "entry " + std::to_string(i) + " got " + str(e.GetData()) + " want " + str(want));
        for (size_t k = 0; k < r.names.size() && i < 3; k++)
            c.ok(id + "-by-name", e.GetDatum(r.names[k]) == want[k], r.names[k]);
    }
}
} // namespace

FACET(histogram, 5)
{
    RAxes ax = genAxes(s, 1, 4, 5, 120);
    for (auto &a : ax.a)
    {
        a.name = genName(s, a.name);
        a.latex = s.boolean() ? genName(s, "L" + a.name.substr(0, 3)) : "";
    }
    vector<double> v = genContents(s, ax.bins(), false);
    Histogram h(ax.make());
    h.SetBinContents(v);
    c.desc << show(ax) << str(v);
    c.nontrivial = ax.dims() > 1;
    Scratch d;
    string f = d.file("h.h5");
    if (s.boolean())
    { // a file that is already there is replaced
        Histogram o(genAxes(s, 1, 2, 3).make());
        IO::SaveHistogram(o, f);
    }
    IO::SaveHistogram(h, f);
    c.nearv("original", h.GetBinContents(), v, 0, 0);
    Histogram g = IO::LoadHistogram(f);
    c.eq("dims", size_t(g.GetNDims()), ax.dims());
    c.eq("bins", size_t(g.GetNBins()), ax.bins());
    c.nearv("contents", g.GetBinContents(), v, 0, 0);
    for (size_t i = 0; i < ax.dims(); i++)
    {
        const BinAxis a = g.GetAxes().GetAxis(i), w = h.GetAxes().GetAxis(i);
        c.eq("axis-name", a.GetName(), ax.a[i].name);
        c.eq("axis-latex", a.GetLatexName(), w.GetLatexName());
        c.nearv("low-edges", a.GetBinLowEdges(), w.GetBinLowEdges(), 0, 0);
        c.nearv("high-edges", a.GetBinHighEdges(), w.GetBinHighEdges(), 0, 0);
        c.near("minimum", a.GetMin(), w.GetMin(), 0, 0);
        c.near("maximum", a.GetMax(), w.GetMax(), 0, 0);
    }
    vector<double> p = genPoint(s, ax);
    c.eq("finds-the-same-bin", g.FindBin(p), h.FindBin(p));
    c.throws<IOError>("as-data-set", [&] { delete IO::LoadDataSet(f); });
}
FACET(data_set, 5)
{
    RData r = genData(s);
    c.desc << str(r.names) << " x " << r.x.size();
    c.nontrivial = r.names.size() > 1 && r.x.size() > 1;
    Scratch d;
    string f = d.file("d.h5");
    IO::SaveDataSet(make(r), f);
    std::unique_ptr<OXSXDataSet> g(IO::LoadDataSet(f));
    compare(c, "loaded", *g, r);
    g.reset(IO::LoadDataSet(f));
    compare(c, "again", *g, r);
    c.throws<IOError>("as-histogram", [&] { IO::LoadHistogram(f); });
    c.tag("empty", r.x.empty());
}
FACET(long_data_set, 1)
{ // more data than one slab holds
    RData r = genData(s, s.boolean() ? 20000 : 10010, 3000);
    if (s.boolean())
    { // a whole number of slabs, or one value more or less
        size_t d = r.names.size(), at = 10000 * s.size(1, 2), n = at / d + s.below(2);
        for (size_t i = 0; r.x.size() < n; i++)
        {
            r.x.push_back(vector<double>(r.x.at(i)));
            r.x.back()[0] += 1;
        }
        if (n)
            r.x.resize(n);
    }
    c.desc << str(r.names) << " x " << r.x.size();
    c.nontrivial = r.names.size() * r.x.size() > 10000;
    Scratch d;
    string f = d.file("d.h5");
    IO::SaveDataSet(make(r), f);
    std::unique_ptr<OXSXDataSet> g(IO::LoadDataSet(f));
    compare(c, "loaded", *g, r);
}
FACET(refusals, 2)
{
    Scratch d;
    c.nontrivial = true;
    string f = d.file("x.h5");
    c.throws<IOError>("missing-set", [&] { delete IO::LoadDataSet(f); });
    c.throws<IOError>("missing-histogram", [&] { IO::LoadHistogram(f); });
    size_t n = s.size(0, 64);
    {
        std::ofstream o(f);
        for (size_t i = 0; i < n; i++)
            o << char(s.below(256));
    }
    c.desc << n << " bytes of something else";
    c.throws<IOError>("foreign-set", [&] { delete IO::LoadDataSet(f); });
    c.throws<IOError>("foreign-histogram", [&] { IO::LoadHistogram(f); });
    RData r = genData(s, 5, 1);
    Histogram h(genAxes(s, 1, 2, 3).make());
    for (string bad : {"x", "x.txt", "x.h5x", "x.", "x.root.bak"})
    {
        string p = d.dir + "/" + bad;
        if (bad == "x" && d.dir.find('.') != string::npos)
            continue;
        c.throws<IOError>("extension-set", [&] { IO::SaveDataSet(make(r), p); }, bad);
        c.throws<IOError>("extension-histogram", [&] { IO::SaveHistogram(h, p); }, bad);
        c.ok("nothing-written", access(p.c_str(), F_OK) != 0, bad);
    }
    // a name with the separator of the names in it cannot be stored
    RData q = r;
    q.names[s.below(q.names.size())] = "a:b";
    c.throws<IOError>("separator", [&] { IO::SaveDataSet(make(q), d.file("y.h5")); });
    RAxes ax = genAxes(s, 1, 2, 3);
    if (s.boolean())
        ax.a[0].name = "a:b";
    else
        ax.a[0].latex = "a:b";
    c.throws<IOError>("separator-histogram", [&] { IO::SaveHistogram(Histogram(ax.make()), d.file("z.h5")); });
    // one name and one name only for each observable
    OXSXDataSet few;
    few.SetObservableNames({"a", "b"});
    few.AddEntry(Event(vector<double>{1, 2}));
    few.AddEntry(Event(vector<double>{3, 4}));
    string g = d.file("t.h5");
    IO::SaveDataSet(few, g);
    // truncated file
    struct stat st;
    stat(g.c_str(), &st);
    c.ok("truncate", truncate(g.c_str(), off_t(s.below(uint64_t(st.st_size) / 2))) == 0);
    c.throws<IOError>("truncated", [&] { delete IO::LoadDataSet(g); });
}
FACET(root_data_set, 3)
{
    RData r = genData(s, s.chance(1, 6) ? 500 : 20);
    for (auto &n : r.names)
        n = n.substr(0, 2);
    for (auto &e : r.x)
        for (auto &v : e)
            v = std::fabs(v) < 1e-30 ? 0 : std::fabs(v) > 1e30 ? 1 : v;
    bool named = s.boolean();
    c.desc << str(r.names) << " x " << r.x.size();
    c.nontrivial = r.names.size() > 1 && r.x.size() > 1;
    TFile::Disk().clear();
    if (named)
        IO::SaveDataSet(make(r), "d.root", "tree");
    else
        IO::SaveDataSet(make(r), "d.root");
    string tn = named ? "tree" : "oxsx_saved";
    {
        ROOTNtuple n("d.root", tn);
        compare(c, "ntuple", n, r, true);
        c.throws<NotFoundError>("beyond", [&] { n.GetEntry(r.x.size() + s.below(3)); });
        n.LoadBaskets();
        n.DropBaskets();
        size_t k = r.x.size() ? s.below(r.x.size()) : 0; // any order
        if (r.x.size())
        {
            vector<double> want(r.x[k]);
            for (auto &v : want)
                v = double(float(v));
            c.ok("any-order", n.GetEntry(k).GetData() == want);
        }
        ROOTTree t("d.root", tn);
        compare(c, "tree", t, r, true);
        c.throws<NotFoundError>("beyond-tree", [&] { t.GetEntry(r.x.size() + s.below(3)); });
    }
    c.throws<IOError>("no-file", [&] { ROOTNtuple n("none.root", tn); });
    c.throws<IOError>("no-tree", [&] { ROOTNtuple n("d.root", "other"); });
    c.throws<IOError>("no-file-tree", [&] { ROOTTree n("none.root", tn); });
    c.throws<IOError>("no-tree-tree", [&] { ROOTTree n("d.root", "other"); });
    // a tree which is no ntuple, holding doubles
    {
        TTree t("plain", "");
        double a = 0;
        int b = 0;
        t.Branch("a", &a, "a/D");
        t.Branch("b", &b, "b/I");
        for (int i = 0; i < 3; i++)
        {
            a = 1.5 * i;
            b = i * i;
            t.Fill();
        }
        TFile::Current() = "d.root";
        t.Write();
    }
    c.throws<IOError>("not-an-ntuple", [&] { ROOTNtuple n("d.root", "plain"); });
    ROOTTree t("d.root", "plain");
    RData w;
    w.names = {"a", "b"};
    w.x = {{0, 0}, {1.5, 1}, {3, 4}};
    compare(c, "plain", t, w);
}
FACET(root_histogram, 2)
{
    RAxes ax = genAxes(s, 1, 3, 4, 40);
    vector<double> v = genContents(s, ax.bins());
    Histogram h(ax.make());
    h.SetBinContents(v);
    c.desc << show(ax) << str(v);
    c.nontrivial = ax.dims() > 1;
    TFile::Disk().clear();
    if (ax.dims() > 2)
    {
        c.throws<IOError>("dims", [&] { IO::SaveHistogram(h, "h.root", "n"); });
        return;
    }
    IO::SaveHistogram(h, "h.root", "n");
    TFile f("h.root");
    auto *t = dynamic_cast<THist *>(f.Get("n"));
    c.ok("saved", t != nullptr);
    for (size_t b = 0; b < ax.bins(); b++)
    {
        auto i = ax.unflat(b);
        int g = ax.dims() == 1 ? t->GetBin(int(i[0]) + 1) : t->GetBin(int(i[0]) + 1, int(i[1]) + 1);
        c.near("content", t->GetBinContent(g), v[b], 0, 0);
        c.near("x-edge", t->GetXaxis()->GetBinLowEdge(int(i[0]) + 1), ax.a[0].e[i[0]], 0, 1e-12);
    }
}
FACET(lazy, 4)
{
    Scratch d;
    vector<RData> r;
    vector<string> f;
    size_t k = s.size(1, 3);
    for (size_t i = 0; i < k; i++)
    {
        r.push_back(genData(s, 6, 1));
        f.push_back(d.file("l" + std::to_string(i) + ".h5"));
        IO::SaveDataSet(make(r[i]), f[i]);
    }
    vector<std::unique_ptr<LazyOXSXDataSet>> l;
    vector<size_t> of;
    size_t steps = s.size(2, 14);
    for (size_t t = 0; t < steps; t++)
    {
        size_t i = l.empty() ? 0 : s.below(l.size());
        switch (l.empty() ? 0 : s.below(8))
        {
        case 0:
        {
            size_t w = s.below(k);
            c.desc << " new " << w;
            l.emplace_back(new LazyOXSXDataSet(f[w]));
            of.push_back(w);
            break;
        }
        case 1:
            c.desc << " copy " << i;
            l.emplace_back(new LazyOXSXDataSet(*l[i]));
            of.push_back(size_t(of[i]));
            break;
        case 2:
        {
            size_t j = s.below(l.size());
            c.desc << " " << i << "=" << j;
            *l[i] = *l[j];
            of[i] = size_t(of[j]);
            break;
        }
        case 3:
            c.desc << " drop " << i;
            l.erase(l.begin() + long(i));
            of.erase(of.begin() + long(i));
            break;
        case 4:
            c.desc << " close " << i;
            l[i]->Close();
            break;
        case 5:
            c.desc << " load " << i;
            l[i]->Load();
            break;
        case 6:
        {
            c.desc << " entry " << i;
            size_t n = s.below(r[of[i]].x.size());
            c.ok("entry", l[i]->GetEntry(n).GetData() == r[of[i]].x[n]);
            break;
        }
        default:
            c.desc << " read " << i;
            compare(c, "lazy", *l[i], r[of[i]]);
        }
    }
    for (size_t i = 0; i < l.size(); i++)
        compare(c, "final", *l[i], r[of[i]]);
    c.nontrivial = k > 1 && steps > 3;
    LazyOXSXDataSet none(d.dir + "/none.h5");
    c.throws<IOError>("missing", [&] { none.GetNEntries(); });
    c.throws<IOError>("still-missing", [&] { none.GetEntry(0); });
}
namespace
{
void million(Ctx &c, size_t n, size_t d)
{ // sets which are loaded piece by piece
    OXSXDataSet o;
    vector<string> names;
    for (size_t k = 0; k < d; k++)
        names.push_back("o" + std::to_string(k));
    o.SetObservableNames(names);
    o.Reserve(n);
    vector<double> x(d);
    for (size_t i = 0; i < n; i++)
    {
        for (size_t k = 0; k < d; k++)
            x[k] = double(i * d + k);
        o.AddEntry(Event(x));
    }
    Scratch t;
    string f = t.file("m.h5");
    IO::SaveDataSet(o, f);
    std::unique_ptr<OXSXDataSet> g(IO::LoadDataSet(f));
    c.ok("names", g->GetObservableNames() == names);
    c.eq("entries", size_t(g->GetNEntries()), n);
    for (size_t i = 0; i < n; i++)
    {
        const vector<double> y = g->GetEntry(i).GetData();
        bool same = y.size() == d;
        for (size_t k = 0; k < d && same; k++)
            same = y[k] == double(i * d + k);
        c.ok("entry", same, std::to_string(i));
        if (!same)
            break;
    }
}
} // namespace
ONCE(million) { million(c, 1000000, 1); }
ONCE(million_and_one) { million(c, 1000001, 1); }
ONCE(pieces_and_rest) { million(c, 1049999, 2); }
