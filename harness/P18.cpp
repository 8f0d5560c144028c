// Event-level systematics, their manager, and filling binned distributions from data sets.
// SRC: core data cut eventSystematic fitutil systematic dist histogram function
// EXTRA: EventConvolution.cpp Rand.cpp
#include "fakes.hpp"
#include <BinnedED.h>
#include <BoolCut.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <DistFiller.h>
#include <Event.h>
#include <EventConvolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <memory>

const char *pbt::kRule =
    "random events and data sets over 2-5 observables in random order, sequences of 0-5 shifts, scales, reconvolutions and "
    "samplings (repeats allowed), 0-3 cuts and any entry limit, against a map of observable values and a list of filled bins; "
    "non-trivial: at least two systematics that do something, or events that pass and events that fail the cuts";

namespace
{
typedef std::map<string, double> RowMap;
const vector<string> kPool = {"energy", "radius", "truth", "alpha", "z", "weight"};

vector<string> genNames(Src &s, size_t lo, size_t hi)
{
    size_t n = s.size(lo, hi);
    const vector<string> pool = styled(s, kPool);
    auto p = s.permutation(pool.size());
    vector<string> v;
    for (size_t i = 0; i < n; i++)
        v.push_back(pool[p[i]]);
    return v;
}
// a PDF whose samples are a known constant
struct ConstPDF : public FakePDF
{
    ConstPDF(double v) : FakePDF(1, v) {}
    Function *Clone() const { return new ConstPDF(*this); }
    vector<double> Sample() const { return vector<double>(1, scale); }
};
enum Kind
{
    SCALE,
    SHIFT,
    RECONV,
    CONV,
    NKIND
};
struct RSys
{
    Kind k;
    string in, out, par;
    double v;
    void apply(RowMap &e) const
    {
        double x = e.at(out);
        switch (k)
        {
        case SCALE:
            x = x * v;
            break;
        case SHIFT:
        case CONV:
            x = x + v;
            break;
        default:
            x = e.at(in) + v * (x - e.at(in));
        }
        e[out] = x;
    }
    bool trivial() const { return k == SHIFT || k == CONV ? v == 0 : v == 1; }
};
const char *kKind[] = {"scale", "shift", "reconvolution", "sampling"};
string show(const RSys &r)
{
    std::ostringstream o;
    o << kKind[r.k] << "(" << r.in << "->" << r.out << "," << r.v << ")";
    return o.str();
}
RSys genSys(Src &s, const vector<string> &names, bool distinct)
{
    RSys r;
    r.k = Kind(s.below(NKIND));
    r.out = s.pick(names);
    r.in = distinct ? names[(std::find(names.begin(), names.end(), r.out) - names.begin() + 1 + s.below(names.size() - 1)) % names.size()]
                    : s.pick(names);
    if (r.k == SCALE)
        r.v = s.posfine(3, 2);
    else if (r.k == RECONV)
        r.v = std::fabs(s.fine(3, 2));
    else
        r.v = s.fine(4, 2);
    return r;
}
const char *kDefault[] = {"scale", "shift", "correction", "s"};
std::unique_ptr<EventSystematic> make(Src &s, const RSys &r, string &par)
{
    std::unique_ptr<EventSystematic> p;
    bool late = s.boolean(); // value set through the parameter interface, or directly
    string nm = "sys";
    switch (r.k)
    {
    case SCALE:
    {
        auto q = new EventScale(nm);
        if (!late)
            q->SetScale(r.v);
        p.reset(q);
        break;
    }
    case SHIFT:
    {
        auto q = new EventShift(nm);
        if (!late)
            q->SetShift(r.v);
        p.reset(q);
        break;
    }
    case RECONV:
    {
        auto q = new EventReconvolution(nm);
        if (!late)
            q->SetCorrection(r.v);
        p.reset(q);
        break;
    }
    default:
    {
        auto q = new EventConvolution(nm);
        ConstPDF f(late ? 77 : r.v);
        q->SetPDF(&f); // a copy is taken
        p.reset(q);
    }
    }
    p->SetInObservables({r.in});
    p->SetOutObservables({r.out});
    par = *p->GetParameterNames().begin();
    if (late)
    {
        if (s.boolean())
        {
            p->RenameParameter(par, "renamed");
            par = "renamed";
        }
        if (s.boolean())
            p->SetParameter(par, r.v);
        else
            p->SetParameters({{par, r.v}, {"other", 3}});
    }
    return p;
}
OXSXDataSet makeSet(const vector<string> &names, const vector<RowMap> &rows)
{
    OXSXDataSet d;
    d.SetObservableNames(names);
    for (auto &r : rows)
    {
        vector<double> v;
        for (auto &n : names)
            v.push_back(r.at(n));
        d.AddEntry(Event(v));
    }
    return d;
}
} // namespace

FACET(single, 4)
{
    vector<string> names = genNames(s, 2, 5);
    RSys r = genSys(s, names, false);
    string par;
    auto sys = make(s, r, par);
    RowMap row;
    vector<double> v;
    for (auto &n : names)
        v.push_back(row[n] = s.fine(20, 2));
    c.desc << show(r) << " on " << str(names) << str(v);
    c.nontrivial = !r.trivial();
    Event e(v);
    e.SetObservableNames(&names);
    c.ok("observables", sys->GetInObservables() == vector<string>{r.in} && sys->GetOutObservables() == vector<string>{r.out});
    // parameter interface
    c.eq("value", sys->GetParameter(par), r.v);
    c.eq("count", sys->GetParameterCount(), size_t(1));
    c.ok("names", sys->GetParameterNames() == std::set<string>{par});
    c.ok("dict", sys->GetParameters() == ParameterDict{{par, r.v}});
    c.throws<OXSXException>("set-unknown", [&] { sys->SetParameter("nope", 9); });
    c.throws<OXSXException>("get-unknown", [&] { sys->GetParameter("nope"); });
    c.throws<OXSXException>("rename-unknown", [&] { sys->RenameParameter("nope", "x"); });
    c.throws<OXSXException>("dict-missing", [&] { sys->SetParameters({{"nope", 9}}); });
    if (r.k == SCALE)
    {
        auto q = dynamic_cast<EventScale *>(sys.get());
        double bad = s.boolean() ? s.pick(vector<double>{0., -0., -1e-9, -1e-300}) : -s.posfine(3, 1);
        c.throws<ValueError>("bad-scale", [&] { q->SetScale(bad); });
        c.eq("getter", q->GetScale(), r.v);
    }
    if (r.k == SHIFT)
        c.eq("getter", dynamic_cast<EventShift *>(sys.get())->GetShift(), r.v);
    if (r.k == RECONV)
    {
        auto q = dynamic_cast<EventReconvolution *>(sys.get());
        double bad = s.boolean() ? s.pick(vector<double>{-1e-6, -1e-12, -1e-300}) : -s.posfine(3, 1);
        c.throws<ValueError>("bad-correction", [&] { q->SetCorrection(bad); });
        c.eq("getter", q->GetCorrection(), r.v);
    }
    c.eq("name", sys->GetName(), string("sys"));
    c.eq("refused-no-effect", sys->GetParameter(par), r.v);
    for (int k = 0; k < 2; k++) // a systematic has no memory
    {
        Event o = (*sys)(e);
        RowMap want = row;
        r.apply(want);
        c.eq("n", o.GetNObservables(), names.size());
        c.ok("obs-names", o.GetObservableNames() == names);
        for (auto &n : names)
            c.near(n == r.out ? "output" : "untouched", o.GetDatum(n), want.at(n), 1e-12, 1e-12, n);
        c.nearv("original", e.GetData(), v, 0, 0);
    }
    vector<string> fewer;
    for (auto &n : names)
        if (n != r.out)
            fewer.push_back(n);
    Event small(vector<double>(fewer.size(), 1));
    small.SetObservableNames(&fewer);
    c.throws<OXSXException>("missing-observable", [&] { (*sys)(small); });
}
FACET(parameter_history, 2)
{
    vector<string> names = {"energy", "truth"};
    RSys r;
    r.k = Kind(s.below(NKIND));
    r.in = "truth";
    r.out = "energy";
    r.v = 1;
    string par;
    std::unique_ptr<EventSystematic> sys = make(s, r, par);
    Event e(vector<double>{3, 7});
    e.SetObservableNames(&names);
    size_t n = s.size(1, 8);
    c.nontrivial = n > 2;
    for (size_t i = 0; i < n; i++)
    {
        switch (s.below(4))
        {
        case 0:
            r.v = std::ldexp(s.posfine(5, 2), s.chance(1, 6) ? -int(s.size(10, 60)) : 0);
            if (r.k == SCALE && s.boolean())
                dynamic_cast<EventScale *>(sys.get())->SetScale(r.v);
            else if (r.k == SHIFT && s.boolean())
                dynamic_cast<EventShift *>(sys.get())->SetShift(r.v);
            else
                sys->SetParameter(par, r.v);
            c.desc << par << "=" << r.v << " ";
            break;
        case 1:
            r.v = s.posfine(5, 2);
            sys->SetParameters({{par, r.v}, {"a", -5}, {"zz", -7}});
            c.desc << "{" << par << "=" << r.v << "} ";
            break;
        case 2:
        {
            string nn = s.pick(vector<string>{"p", "q", "scale", "shift", par});
            sys->RenameParameter(par, nn);
            if (nn != par)
                c.throws<OXSXException>("old-name", [&] { sys->GetParameter(par); });
            c.desc << par << "->" << nn << " ";
            par = nn;
            break;
        }
        default:
            if (r.k == CONV)
            { // copies carry everything over and share nothing
                auto q = dynamic_cast<EventConvolution *>(sys.get());
                q->SetName("before");
                std::unique_ptr<EventConvolution> cp(new EventConvolution(*q));
                EventConvolution as("other");
                as = *q;
                c.eq("copy-name", cp->GetName(), string("before"));
                c.eq("assigned-name", as.GetName(), string("before"));
                sys->SetParameter(par, -99);
                c.eq("copy-independent", cp->GetParameter(par), r.v);
                c.eq("assigned-independent", as.GetParameter(par), r.v);
                sys.reset(cp.release());
                sys->SetName("sys");
            }
            else
            {
                sys->SetName(par); // the two are independent
                c.eq("set-name", sys->GetName(), par);
                sys->RenameParameter(par, "other");
                c.eq("name-kept", sys->GetName(), par);
                sys->SetName("sys");
                c.ok("parameter-kept", sys->GetParameterNames() == std::set<string>{"other"});
                par = "other";
            }
        }
        c.eq("value", sys->GetParameter(par), r.v);
        c.ok("names", sys->GetParameterNames() == std::set<string>{par});
        RowMap w{{"energy", 3}, {"truth", 7}};
        r.apply(w);
        Event o = (*sys)(e);
        c.near("applied", o.GetDatum("energy"), w["energy"], 1e-12, 1e-12);
        c.eq("other", o.GetDatum("truth"), 7.);
    }
    EventConvolution empty("none");
    empty.SetOutObservables({"energy"});
    FakePDF some(1, 2, "kp");
    for (int k = 0; k < 2; k++)
    { // without a kernel, from the start or again
        c.throws<NULLPointerAccessError>("no-pdf", [&] { empty(e); });
        c.throws<NULLPointerAccessError>("no-pdf-rename", [&] { empty.RenameParameter("a", "b"); });
        c.throws<NULLPointerAccessError>("no-pdf-set", [&] { empty.SetParameter("a", 1); });
        c.throws<NULLPointerAccessError>("no-pdf-get", [&] { empty.GetParameter("a"); });
        c.throws<NULLPointerAccessError>("no-pdf-setall", [&] { empty.SetParameters(ParameterDict{{"a", 1}}); });
        c.throws<NULLPointerAccessError>("no-pdf-getall", [&] { empty.GetParameters(); });
        c.throws<NULLPointerAccessError>("no-pdf-count", [&] { empty.GetParameterCount(); });
        c.throws<NULLPointerAccessError>("no-pdf-names", [&] { empty.GetParameterNames(); });
        EventConvolution cp(empty), as("full");
        c.eq("copy-of-empty", cp.GetName(), string("none"));
        c.throws<NULLPointerAccessError>("copy-of-empty", [&] { cp.GetParameters(); });
        as.SetPDF(&some);
        c.ok("full", as.GetParameterNames() == std::set<string>{"kp"});
        as = empty;
        c.throws<NULLPointerAccessError>("assigned-empty", [&] { as.GetParameters(); });
        empty.SetPDF(&some);
        c.eq("now-full", empty.GetParameter("kp"), 2.);
        as = empty;
        s.boolean() ? empty.SetPDF(NULL) : empty.SetConditionalPDF(NULL);
        c.eq("assigned-kept", as.GetParameter("kp"), 2.);
    }
    FakePDF two(2, 1);
    c.throws<DimensionError>("pdf-2d", [&] { empty.SetPDF(&two); });
}
FACET(manager, 4)
{
    vector<string> names = genNames(s, 2, 4);
    EventSystematicManager m;
    vector<RSys> rs;
    vector<std::unique_ptr<EventSystematic>> own;
    size_t nd = s.size(0, 4);
    for (size_t i = 0; i < nd; i++)
    {
        rs.push_back(genSys(s, names, true));
        string par;
        own.push_back(make(s, rs.back(), par));
        c.desc << show(rs.back()) << " ";
    }
    vector<size_t> order;
    bool many = s.chance(1, 6);
    size_t steps = many ? s.size(8, 24) : s.size(0, 6);
    for (size_t i = 0; i < steps; i++)
    {
        if (!many && s.chance(1, 8))
        {
            m.Clear();
            order.clear();
            c.desc << "clear ";
        }
        else if (nd)
        {
            order.push_back(s.below(nd));
            m.Add(own[order.back()].get());
            c.desc << "+" << order.back() << " ";
        }
        c.eq("n", m.GetNSystematics(), order.size());
    }
    c.eq("list-n", m.GetSystematics().size(), order.size());
    size_t act = 0;
    for (size_t i = 0; i < order.size(); i++)
    {
        c.ok("list", m.GetSystematics()[i] == own[order[i]].get(), "order of the systematics");
        act += !rs[order[i]].trivial();
    }
    c.nontrivial = act > 1;
    for (int rep = 0; rep < 2; rep++)
    {
        RowMap row;
        vector<double> v;
        for (auto &n : names)
            v.push_back(row[n] = s.fine(20, 2));
        Event e(v);
        e.SetObservableNames(&names);
        Event o = m.ApplySystematics(e);
        double top = 1; // the largest value on the way
        for (size_t i : order)
        {
            rs[i].apply(row);
            for (auto &n : names)
                top = std::max(top, std::fabs(row[n]));
        }
        for (auto &n : names)
            c.near("value", o.GetDatum(n), row[n], 1e-12, 1e-12 * top + (many ? 0 : 1e-9), n);
        c.nearv("original", e.GetData(), v, 0, 0);
    }
}
// more events than fit in 16 bits
ONCE(many_events)
{
    vector<string> names = {"energy", "z"};
    OXSXDataSet data;
    data.SetObservableNames(names);
    const int n = 140001;
    for (int i = 0; i < n; i++)
        data.AddEntry(Event(vector<double>{double(i % 97) / 8, double(i % 13)}));
    RAxes ax;
    RAxis a;
    a.name = "energy";
    for (int i = 0; i <= 14; i++)
        a.e.push_back(double(i));
    ax.a = {a};
    EventShift sh("shift");
    sh.SetInObservables({"energy"});
    sh.SetOutObservables({"energy"});
    sh.SetShift(0.5);
    EventSystematicManager m;
    m.Add(&sh);
    CutCollection cuts;
    cuts.AddCut(LineCut("z", "z", 3.5, "lower"));
    cuts.AddCut(BoxCut("e", "energy", 1, 12));
    c.desc << n << " events";
    c.nontrivial = true;
    for (int upTo : {-1, n, 65536, 65537, 100000})
    {
        BinnedED pdf("pdf", ax.make());
        pdf.SetObservables(vector<string>{"energy"});
        vector<double> want(14, 0);
        vector<int> cut(2, 0);
        int pass = 0;
        for (int i = 0; i < (upTo < 0 ? n : upTo); i++)
        {
            double x = double(i % 97) / 8 + 0.5;
            if (i % 13 <= 3)
                cut[0]++;
            else if (!(x > 1 && x < 12))
                cut[1]++;
            else
            {
                want[a.find(x)] += 1;
                pass++;
            }
        }
        CutLog l(cuts.GetCutNames());
        DistFiller::FillDist(pdf, data, cuts, l, m, upTo);
        l.CalculateMeta();
        c.nearv("contents", pdf.GetBinContents(), want, 0, 0, "up to " + std::to_string(upTo));
        c.ok("log", l.GetCutCounts() == cut, str(l.GetCutCounts()));
        c.eq("remaining", l.GetRemainderCounts().back(), pass);
        BinnedED again("again", ax.make());
        again.SetObservables(vector<string>{"energy"});
        DistFiller::FillDist(again, data, cuts, m, upTo);
        c.nearv("contents-unlogged", again.GetBinContents(), want, 0, 0, "up to " + std::to_string(upTo));
    }
}
FACET(fill, 8)
{
    vector<string> names = genNames(s, 2, 5);
    // the distribution sees 1-2 of the observables, in any order; its axes are called differently
    size_t nd = s.size(1, 2);
    RAxes ax;
    vector<string> obs;
    auto perm = s.permutation(names.size());
    for (size_t i = 0; i < nd; i++)
    {
        ax.a.push_back(genAxis(s, "axis" + std::to_string(i), 5));
        obs.push_back(names[perm[i]]);
    }
    BinnedED pdf("pdf", ax.make());
    pdf.SetObservables(obs);
    vector<double> want = genContents(s, ax.bins(), true, 70); // filled on top of what is there
    pdf.SetBinContents(want);
    // systematics
    EventSystematicManager m;
    vector<RSys> rs;
    vector<std::unique_ptr<EventSystematic>> own;
    for (size_t k = s.size(0, 3); k-- > 0;)
    {
        rs.push_back(genSys(s, names, true));
        string par;
        own.push_back(make(s, rs.back(), par));
        m.Add(own.back().get());
        c.desc << show(rs.back()) << " ";
    }
    // cuts
    struct RC
    {
        int k;
        string o;
        double a, b;
    };
    vector<RC> cs;
    CutCollection cuts;
    for (size_t k = s.size(0, 3); k-- > 0;)
    {
        RC r{int(s.below(3)), s.pick(names), s.fine(6, 1), 0};
        r.b = r.a + s.posfine(16, 1);
        cs.push_back(r);
        if (r.k == 0)
            cuts.AddCut(BoxCut("box", r.o, r.a, r.b));
        else
            cuts.AddCut(LineCut("line", r.o, r.a, r.k == 1 ? "lower" : "upper"));
        c.desc << (r.k == 0 ? "box " : r.k == 1 ? "lower " : "upper ") << r.o << " " << r.a << " " << r.b << ", ";
    }
    // entries: many on bin edges
    vector<RowMap> rows;
    size_t n = s.size(0, 12);
    for (size_t i = 0; i < n; i++)
    {
        RowMap row;
        for (auto &nm : names)
            row[nm] = s.fine(10, 2);
        if (s.boolean())
            for (size_t d = 0; d < nd; d++)
                row[obs[d]] = ax.a[d].e[s.below(ax.a[d].e.size())];
        rows.push_back(row);
    }
    OXSXDataSet data = makeSet(names, rows);
    int mode = s.below(4);
    size_t limit = mode == 0 ? n : mode == 1 ? s.below(n + 1) : n;
    int nEv = mode == 1 ? int(limit) : mode == 2 ? int(n) : -1 - int(s.below(3));
    if (mode == 3 && n && s.chance(1, 4))
        nEv = int(n + 1 + s.below(3));
    bool log = s.boolean();
    c.desc << " obs" << str(obs) << " entries " << n << " nEv " << nEv << (log ? " log" : "");
    vector<int> cutAt(cs.size(), 0);
    size_t pass = 0;
    for (size_t i = 0; i < limit; i++)
    {
        RowMap row = rows[i];
        // a value that had to be rounded on the way and lands next to an edge may fall on either side of it
        std::map<string, bool> exact, touched;
        auto few = [](double x) { return std::fabs(x) < 1e4 && x * 4096 == std::floor(x * 4096); };
        for (auto &nm : names)
            exact[nm] = few(row[nm]);
        for (auto &r : rs)
        {
            if (r.k == SCALE || r.k == SHIFT || r.k == CONV)
                exact[r.out] = exact[r.out] && few(r.v);
            else
                exact[r.out] = exact[r.out] && exact[r.in] && few(r.v);
            touched[r.out] = true;
            r.apply(row);
        }
        auto unclear = [&](const string &o, double edge) { return touched[o] && !exact[o] && std::fabs(row[o] - edge) <= 1e-12 * (100 + std::fabs(edge)); };
        for (auto &r : cs)
            if (unclear(r.o, r.a) || unclear(r.o, r.b))
                throw pbt::Discard();
        for (size_t d = 0; d < nd; d++)
            for (double e : ax.a[d].e)
                if (unclear(obs[d], e))
                    throw pbt::Discard();
        bool in = true;
        for (size_t k = 0; in && k < cs.size(); k++)
        {
            double x = row[cs[k].o];
            in = cs[k].k == 0 ? x > cs[k].a && x < cs[k].b : cs[k].k == 1 ? x > cs[k].a : x < cs[k].a;
            if (!in)
                cutAt[k]++;
        }
        if (!in)
            continue;
        pass++;
        vector<double> p;
        for (auto &o : obs)
            p.push_back(row[o]);
        want[ax.find(p)] += 1;
    }
    CutLog l(cuts.GetCutNames());
    auto run = [&]
    {
        if (log)
            DistFiller::FillDist(pdf, data, cuts, l, m, nEv);
        else if (cs.empty() && rs.empty() && nEv == -1)
            DistFiller::FillDist(pdf, data);
        else
            DistFiller::FillDist(pdf, data, cuts, m, nEv);
    };
    c.tag("limited", mode == 1 && limit < n);
    c.tag("logged", log);
    c.nontrivial = pass > 0 && pass < limit;
    if (nEv > int(n))
    {
        c.tag("too-many");
        c.throws<OXSXException>("more-than-there-are", run);
        return;
    }
    run();
    c.nearv("contents", pdf.GetBinContents(), want, 1e-12, 1e-12, "bin contents");
    if (log)
    {
        l.CalculateMeta();
        c.ok("log", l.GetCutCounts() == cutAt, "events cut " + str(l.GetCutCounts()) + " want " + str(cutAt));
        if (!cs.empty())
            c.eq("log-remainder", l.GetRemainderCounts().back(), int(pass));
    }
    // the data set is only read
    c.eq("data-n", size_t(data.GetNEntries()), n);
    for (size_t i = 0; i < n; i++)
        for (auto &nm : names)
            c.eq("data", data.GetEntry(i).GetDatum(nm), rows[i][nm]);
}
