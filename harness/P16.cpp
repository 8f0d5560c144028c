// Cuts, collections of cuts, their log, and the counting experiment built on them.
// SRC: core data cut count eventSystematic fitutil systematic dist histogram function
#include "gens.hpp"
#include <iostream>
#include <BoolCut.h>
#include <BoxCut.h>
#include <CountingExperiment.h>
#include <CountingResult.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <Event.h>
#include <EventScale.h>
#include <EventShift.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <deque>
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>

const char *pbt::kRule =
    "random collections of 0-5 box, line and bool cuts over up to four observables and random streams of events with values at, "
    "next to and away from the bounds, with copies and assignments of the collections; counting experiments with random signal, "
    "backgrounds and event systematics; non-trivial: at least two cuts and at least one event passing and one failing";

namespace
{
const vector<string> kObs0 = {"energy", "radius", "flag", "z"};
vector<string> kObs = kObs0; // those of the case
struct RCut
{
    int kind; // 0 box 1 lower 2 upper 3 bool
    string name, obs;
    double a = 0, b = 0;
    bool pass(const std::map<string, double> &e) const
    {
        double x = e.at(obs);
        return kind == 0 ? x > a && x < b : kind == 1 ? x > a : kind == 2 ? x < a : x == a;
    }
    std::unique_ptr<Cut> make() const
    {
        if (kind == 0)
            return std::unique_ptr<Cut>(new BoxCut(name, obs, a, b));
        if (kind == 3)
            return std::unique_ptr<Cut>(new BoolCut(name, obs, a));
        return std::unique_ptr<Cut>(new LineCut(name, obs, a, kind == 1 ? "lower" : "upper"));
    }
};
RCut genCut(Src &s, size_t i)
{
    RCut r;
    r.kind = s.below(4);
    r.name = s.chance(1, 5) ? "cut" : "cut" + std::to_string(i); // names may coincide
    if (s.chance(1, 12))
        r.name = "a_cut_with_a_name_" + string(s.size(0, 90), 'n') + "_" + r.name;
    r.obs = s.pick(kObs);
    r.a = s.fine(3, 1);
    r.b = r.a + s.posfine(4, 1);
    if (r.kind == 0 && s.chance(1, 8))
        std::swap(r.a, r.b); // nothing passes
    return r;
}
double genValue(Src &s, const vector<RCut> &cs)
{
    double x = s.fine(4, 1);
    if (s.chance(1, 15)) // values which are no numbers pass no cut on them; infinite ones are above or below all
        return s.pick(vector<double>{std::nan(""), INFINITY, -INFINITY, 1e300, -1e300, 5e-324, -0.0});
    if (!cs.empty() && s.boolean())
    {
        const RCut &k = s.pick(cs);
        x = s.boolean() ? k.a : k.b;
        if (s.boolean())
            x = std::nextafter(x, s.boolean() ? 1e9 : -1e9);
    }
    return x;
}
vector<string> genNames(Src &s)
{
    vector<string> n;
    for (size_t i : s.permutation(kObs.size()))
        n.push_back(kObs[i]);
    if (s.boolean())
        n.push_back("unrelated");
    return n;
}
string show(const RCut &k)
{
    std::ostringstream o;
    o << k.kind << k.name << ":" << k.obs << "(" << k.a << "," << k.b << ") ";
    return o.str();
}
struct RLog
{
    vector<string> names;
    vector<int> cut;
    int pass = 0;
    int total() const
    {
        int t = pass;
        for (int x : cut)
            t += x;
        return t;
    }
};
void checkLog(Ctx &c, const string &id, CutLog l, const RLog &r)
{
    c.ok(id + "-names", l.GetCutNames() == r.names);
    c.ok(id + "-counts", l.GetCutCounts() == r.cut, str(l.GetCutCounts()) + " want " + str(r.cut));
    l.CalculateMeta();
    if (r.total() % 2)
        l.CalculateMeta(); // as often as one likes
    vector<int> rem = l.GetRemainderCounts();
    vector<double> cp = l.GetCutPercentages(), rp = l.GetRemainderPercentages();
    c.eq(id + "-n-remainders", rem.size(), r.cut.size());
    c.eq(id + "-n-percentages", cp.size(), r.cut.size());
    c.eq(id + "-n-remainder-percentages", rp.size(), r.cut.size());
    int left = r.total();
    for (size_t i = 0; i < r.cut.size(); i++)
    {
        left -= r.cut[i];
        c.eq(id + "-remainder", rem[i], left);
        c.near(id + "-percentage", cp[i], r.total() ? 100. * r.cut[i] / r.total() : 0);
        c.near(id + "-remainder-percentage", rp[i], r.total() ? 100. * left / r.total() : 0);
    }
    if (!r.cut.empty())
        c.eq(id + "-last-remainder", rem.back(), r.pass);
    c.ok(id + "-counts-after", l.GetCutCounts() == r.cut);
    // the table has one line per cut: name, counts
    string t = l.AsString();
    std::istringstream in(t);
    string line;
    size_t n = 0;
    if (r.cut.empty())
    {
        c.eq(id + "-table-empty", t, string());
        return;
    }
    std::getline(in, line);
    left = r.total();
    while (std::getline(in, line))
    {
        std::istringstream f(line);
        string name;
        double k, kp, m, mp;
        c.ok(id + "-table", bool(f >> name >> k >> kp >> m >> mp) && n < r.cut.size(), line);
        left -= r.cut[n];
        c.eq(id + "-table-name", name, r.names[n]);
        c.eq(id + "-table-cut", k, double(r.cut[n]));
        c.eq(id + "-table-left", m, double(left));
        c.near(id + "-table-percentage", kp, r.total() ? 100. * r.cut[n] / r.total() : 0, 5.1e-3, 1e-9);
        c.near(id + "-table-left-percentage", mp, r.total() ? 100. * left / r.total() : 0, 5.1e-3, 1e-9);
        n++;
    }
    c.eq(id + "-table-lines", n, r.cut.size());
}
} // namespace

FACET(stream, 6)
{
    kObs = styled(s, kObs0);
    vector<RCut> cs;
    std::unique_ptr<CutCollection> col(new CutCollection);
    size_t nc = s.chance(1, 6) ? s.size(6, 30) : s.size(0, 5);
    for (size_t i = 0; i < nc; i++)
    {
        cs.push_back(genCut(s, i));
        c.desc << show(cs.back());
        std::unique_ptr<Cut> k = cs.back().make();
        c.eq("name", k->GetName(), cs.back().name);
        std::unique_ptr<Cut> cl(s.boolean() ? k->Clone() : nullptr);
        col->AddCut(cl ? *cl : *k);
    }
    RLog log;
    for (auto &k : cs)
    {
        log.names.push_back(k.name);
        log.cut.push_back(0);
    }
    c.ok("names", col->GetCutNames() == log.names);
    CutLog l(col->GetCutNames());
    vector<string> names = genNames(s);
    bool pass = false, fail = false;
    size_t n = s.size(0, 25);
    for (size_t i = 0; i < n; i++)
    {
        vector<double> v;
        std::map<string, double> m;
        for (auto &o : names)
        {
            v.push_back(genValue(s, cs));
            m[o] = v.back();
        }
        Event e(v);
        e.SetObservableNames(&names);
        size_t first = 0;
        while (first < cs.size() && cs[first].pass(m))
            first++;
        bool ok = first == cs.size();
        if (s.chance(1, 6))
        { // copies behave as the original
            switch (s.below(4))
            {
            case 0:
                col.reset(new CutCollection(CutCollection(*col)));
                break;
            case 1:
            {
                std::unique_ptr<CutCollection> o(new CutCollection);
                for (size_t k = s.below(3); k-- > 0;)
                    o->AddCut(*genCut(s, k).make());
                *o = *col;
                col = std::move(o);
                break;
            }
            case 2:
                *col = *const_cast<const CutCollection *>(col.get());
                break;
            default:
            {
                CutCollection o(*col);
                o.AddCut(BoxCut("none", kObs[0], 1, 0)); // of the copy only
                c.eq("copy-cuts", o.PassesCuts(e), false);
            }
            }
            c.ok("copied-names", col->GetCutNames() == log.names);
        }
        for (auto &k : cs)
            c.eq("single", k.make()->PassesCut(e), k.pass(m), show(k) + str(m));
        c.eq("all", col->PassesCuts(e), ok, str(m));
        c.eq("all-logged", col->PassesCuts(e, l), ok, str(m));
        if (ok)
            log.pass++;
        else
            log.cut[first]++;
        (ok ? pass : fail) = true;
        c.nearv("event-unchanged", e.GetData(), v);
        if (s.chance(1, 5))
            checkLog(c, "log-midway", l, log);
        // of other observables it doesn't depend
        std::set<string> used;
        for (auto &k : cs)
            used.insert(k.obs);
        for (size_t q = 0; q < names.size(); q++)
            if (!used.count(names[q]))
                e.SetDatum(q, 1e9);
        c.eq("others-ignored", col->PassesCuts(e), ok);
    }
    c.desc << "events=" << n << " passed=" << log.pass;
    checkLog(c, "log", l, log);
    c.throws<NotFoundError>("no-such-cut", [&] { l.LogCut(cs.size() + s.below(3)); });
    checkLog(c, "log-after-refusal", l, log);
    // an event without the observable is refused, as soon as a cut asks for it
    if (!cs.empty())
    {
        vector<string> other = {"something", "else"};
        Event e(vector<double>{1, 2});
        e.SetObservableNames(&other);
        c.throws<NotFoundError>("unknown-observable", [&] { col->PassesCuts(e); });
        c.throws<NotFoundError>("unknown-observable-logged", [&] { col->PassesCuts(e, l); });
        c.throws<NotFoundError>("unknown-observable-single", [&] { cs[0].make()->PassesCut(e); });
    }
    c.nontrivial = cs.size() > 1 && pass && fail;
}

// more events than fit in 16 bits
ONCE(many_events)
{
    CutCollection col;
    col.AddCut(BoxCut("box", "energy", 1, 9));
    col.AddCut(LineCut("line", "energy", 7, "upper"));
    col.AddCut(BoolCut("flag", "flag", 1));
    vector<string> names = {"energy", "flag"};
    CutLog l(col.GetCutNames());
    RLog log;
    log.names = {"box", "line", "flag"};
    log.cut = {0, 0, 0};
    c.desc << "400000 events";
    c.nontrivial = true;
    for (int i = 0; i < 400000; i++)
    {
        double x = double(i % 23) / 2, f = i % 7 < 3;
        Event e(vector<double>{x, f});
        e.SetObservableNames(&names);
        bool a = x > 1 && x < 9, b = x < 7;
        c.eq("passes", col.PassesCuts(e, l), a && b && f == 1);
        if (!a)
            log.cut[0]++;
        else if (!b)
            log.cut[1]++;
        else if (f != 1)
            log.cut[2]++;
        else
            log.pass++;
        if (i % 30000 == 17)
            checkLog(c, "log-midway", l, log);
    }
    checkLog(c, "log", l, log);
}
// counts that do not fit in 16 bits
ONCE(many_counted)
{
    CountingExperiment ex;
    ex.AddCut(BoxCut("box", "energy", 1, 9));
    vector<string> names = {"energy"};
    OXSXDataSet d[3];
    const int n[3] = {130000, 140000, 110000};
    int pass[3] = {0, 0, 0};
    for (int k = 0; k < 3; k++)
    {
        d[k].SetObservableNames(names);
        for (int i = 0; i < n[k]; i++)
        {
            double x = double(i % (k ? 19 : 23)) / 2;
            d[k].AddEntry(Event(vector<double>{x}));
            pass[k] += x > 1 && x < 9;
        }
    }
    c.desc << pass[0] << " " << pass[1] << " " << pass[2] << " pass";
    c.nontrivial = true;
    ex.AddBackground(&d[0], 1000, "bg");
    ex.SetSignal(&d[1], "signal");
    ex.CountBackgrounds();
    ex.CountSignal();
    ex.CountData(&d[2]);
    CountingResult r = ex.GetCountingResult();
    c.eq("many-observed", r.GetObservedCounts(), pass[2]);
    c.near("many-efficiency", r.GetSignalEfficiency(), double(pass[1]) / n[1]);
    c.nearv("many-rates", r.GetExpectedRates(), vector<double>{1000. * pass[0] / n[0]});
    c.nearv("many-errors", r.GetExpectedRateErrors(), vector<double>{1000. * std::sqrt(double(pass[0])) / n[0]});
}
FACET(adjust, 2)
{
    kObs = styled(s, kObs0);
    double lo = s.fine(4, 2), hi = lo + s.posfine(4, 2);
    BoxCut b("box", "energy", lo, hi);
    LineCut l("line", "energy", lo, "lower");
    c.eq("box-lo", b.GetLowerLimit(), lo);
    c.eq("box-hi", b.GetUpperLimit(), hi);
    c.eq("line", l.GetCutValue(), lo);
    c.eq("side", l.GetSidedness(), string("lower"));
    CutCollection before;
    before.AddCut(b);
    double lo0 = lo, hi0 = hi, lv = lo;
    string side = "lower";
    vector<string> on = {"radius", "energy"};
    bool both[2] = {false, false};
    for (size_t st = s.size(1, 6); st-- > 0;)
    {
        switch (s.below(5))
        {
        case 0:
            b.SetLowerLimit(lo = s.fine(4, 2));
            break;
        case 1:
            b.SetUpperLimit(hi = s.fine(4, 2));
            break;
        case 2:
            l.SetCutValue(lv = s.fine(4, 2));
            break;
        case 3:
            l.SetSidedness(side = s.boolean() ? "upper" : "lower");
            break;
        default:
            c.throws<ValueError>("bad-side", [&] { l.SetSidedness(s.pick(vector<string>{"", "Lower", "both", "up"})); });
        }
        double x = s.boolean() ? s.fine(6, 2) : s.boolean() ? lo : s.boolean() ? hi : lv;
        Event e(vector<double>{s.fine(3, 1), x});
        e.SetObservableNames(&on);
        c.desc << lo << "," << hi << "," << lv << side << "@" << x << " ";
        c.eq("box", b.PassesCut(e), x > lo && x < hi);
        c.eq("line", l.PassesCut(e), side == "lower" ? x > lv : x < lv);
        c.eq("kept-copy", before.PassesCuts(e), x > lo0 && x < hi0);
        c.eq("get-lo", b.GetLowerLimit(), lo);
        c.eq("get-hi", b.GetUpperLimit(), hi);
        c.eq("get-line", l.GetCutValue(), lv);
        c.eq("get-side", l.GetSidedness(), side);
        both[b.PassesCut(e)] = true;
        both[!l.PassesCut(e)] = true;
    }
    c.throws<ValueError>("bad-side-new", [&] { LineCut("l", "energy", 1, "middle"); });
    c.nontrivial = both[0] && both[1];
}

FACET(counting, 4)
{
    kObs = styled(s, kObs0);
    CountingExperiment ex;
    vector<RCut> cs;
    size_t nc = s.size(0, 3);
    for (size_t i = 0; i < nc; i++)
    {
        RCut k = genCut(s, i);
        cs.push_back(k);
        c.desc << show(k);
        ex.AddCut(*k.make());
    }
    // event systematics, in order
    std::deque<std::unique_ptr<EventSystematic>> sys;
    vector<std::pair<int, std::pair<string, double>>> rs;
    for (size_t i = s.below(3); i-- > 0;)
    {
        string o = s.pick(kObs);
        double v = s.posfine(2, 1);
        if (s.boolean())
        {
            EventShift *x = new EventShift("shift");
            x->SetOutObservables({o});
            x->SetInObservables({o});
            x->SetShift(v);
            rs.push_back({0, {o, v}});
            sys.emplace_back(x);
        }
        else
        {
            EventScale *x = new EventScale("scale");
            x->SetOutObservables({o});
            x->SetInObservables({o});
            x->SetScale(v);
            rs.push_back({1, {o, v}});
            sys.emplace_back(x);
        }
        ex.AddSystematic(sys.back().get(), "s" + std::to_string(i));
        c.desc << (rs.back().first ? "*" : "+") << o << v << " ";
    }
    auto pass = [&](std::map<string, double> m)
    {
        for (auto &r : rs)
        {
            double &x = m[r.second.first];
            x = r.first ? x * r.second.second : x + r.second.second;
        }
        for (size_t i = 0; i < cs.size(); i++)
            if (!cs[i].pass(m))
                return int(i);
        return -1;
    };
    vector<string> cutNames;
    for (auto &k : cs)
        cutNames.push_back(k.make()->GetName());
    std::deque<OXSXDataSet> ds;
    std::map<OXSXDataSet *, string> logs; // the text of each one's log
    bool some = false, none = false;
    auto gen = [&](size_t minN, int &count)
    {
        ds.emplace_back();
        vector<string> names = genNames(s);
        ds.back().SetObservableNames(names);
        size_t n = s.size(minN, 20);
        count = 0;
        CutLog log(cutNames);
        for (size_t i = 0; i < n; i++)
        {
            vector<double> v;
            std::map<string, double> m;
            for (auto &o : names)
            {
                v.push_back(genValue(s, cs));
                m[o] = v.back();
            }
            ds.back().AddEntry(Event(v));
            int first = pass(m);
            bool p = first < 0;
            p ? log.LogPass() : log.LogCut(first);
            count += p;
            (p ? some : none) = true;
        }
        logs[&ds.back()] = log.AsString();
        return &ds.back();
    };
    // nothing counted yet
    c.eq("no-observed", ex.GetCountingResult().GetObservedCounts(), -1);
    c.eq("no-efficiency", ex.GetCountingResult().GetSignalEfficiency(), -1.);
    c.eq("no-expected", ex.GetCountingResult().GetExpectedCounts(), 0.);
    c.throws<OXSXException>("no-signal", [&] { ex.CountSignal(); });
    vector<double> rates, errs;
    double tot = 0, e2 = 0;
    size_t nb = s.chance(1, 6) ? s.size(4, 24) : s.size(0, 3);
    vector<string> inReport; // in this order
    vector<string> bgNames;
    const string longer = s.chance(1, 4) ? "a background with quite a long name, longer than its column " : "";
    const string sigName = longer + "signal";
    for (size_t i = 0; i < nb; i++)
    {
        int k;
        OXSXDataSet *d = gen(1, k);
        bgNames.push_back(i && s.chance(1, 12) ? bgNames[0] : longer + "bg" + std::to_string(i) + "_");
        inReport.push_back("\n" + bgNames[i] + "\n");
        inReport.push_back("\n" + logs[d] + "\n");
        double rate = s.posfine(100, 1);
        ex.AddBackground(d, rate, bgNames[i]);
        if (s.chance(1, 6))
            ex.CountBackgrounds(); // which counting them again replaces
        rates.push_back(k * rate / d->GetNEntries());
        errs.push_back(std::sqrt(double(k)) * rate / d->GetNEntries());
        tot += rates.back();
        e2 += errs.back() * errs.back();
        c.desc << "bg " << k << "/" << d->GetNEntries() << "*" << rate << " ";
    }
    int ks, kd;
    OXSXDataSet *sig = gen(1, ks), *data = gen(0, kd);
    if (s.boolean())
        ex.SetSignal(data, "not the signal");
    ex.SetSignal(sig, sigName);
    vector<int> order = {0, 1, 2};
    for (size_t i : s.permutation(3))
    {
        if (i == 0)
            ex.CountBackgrounds();
        else if (i == 1)
            ex.CountSignal();
        else
            ex.CountData(data);
    }
    CountingResult r = ex.GetCountingResult();
    c.desc << "signal " << ks << " data " << kd;
    c.eq("observed", r.GetObservedCounts(), kd);
    c.near("efficiency", r.GetSignalEfficiency(), double(ks) / sig->GetNEntries());
    c.nearv("rates", r.GetExpectedRates(), rates);
    c.nearv("errors", r.GetExpectedRateErrors(), errs);
    c.near("expected", r.GetExpectedCounts(), tot);
    c.near("error", r.GetExpectedCountError(), std::sqrt(e2));
    // counting other data replaces the result
    int k2;
    OXSXDataSet *d2 = gen(0, k2);
    ex.CountData(d2);
    c.eq("recount", ex.GetCountingResult().GetObservedCounts(), k2);
    c.eq("copy-kept", r.GetObservedCounts(), kd);
    string t = r.AsString();
    if (s.chance(1, 4))
    { // printed and saved: the same text
        std::ostringstream out;
        std::streambuf *was = std::cout.rdbuf(out.rdbuf());
        r.Print();
        std::cout.rdbuf(was);
        c.ok("printed", out.str().find(t) != string::npos, out.str());
        char tmp[] = "/tmp/p16XXXXXX";
        int fd = mkstemp(tmp);
        if (fd >= 0)
        {
            close(fd);
            r.SaveAs(tmp);
            std::ifstream in(tmp);
            std::stringstream ss;
            ss << in.rdbuf();
            unlink(tmp);
            c.ok("saved", ss.str().find(t) != string::npos, ss.str());
        }
    }
    inReport.push_back("\n" + sigName + "\n");
    inReport.push_back("\n" + logs[sig] + "\n");
    inReport.push_back("\n" + logs[data] + "\n");
    size_t from = 0;
    for (auto &x : inReport)
    {
        size_t p = t.find(x, from);
        c.ok("report-logs", p != string::npos, "no <" + x + "> in " + t.substr(from));
        from = p + x.size() - 1;
    }
    { // the summary: rates from the largest, their errors, the total and the efficiency
        vector<std::pair<size_t, vector<double>>> rows;
        std::set<size_t> taken;
        std::istringstream in(t.substr(from));
        string line;
        while (std::getline(in, line))
        {
            string pm;
            double a = 0, b = 0;
            size_t k = nb; // of this background
            auto same = [](double x, double y) { return std::fabs(x - y) <= 1e-5 + 1e-5 * std::fabs(y); };
            for (size_t i = 0; i < nb; i++)
                if (line.compare(0, bgNames[i].size(), bgNames[i]) == 0)
                {
                    std::istringstream f(line.substr(bgNames[i].size()));
                    if (!(f >> a >> pm >> b && pm == "+-"))
                        continue;
                    // names may be shared
                    if (k == nb || (!taken.count(i) && (taken.count(k) || !(same(a, rates[k]) && same(b, errs[k])))))
                        k = i;
                }
            if (k < nb)
            {
                taken.insert(k);
                rows.push_back({k, {a, b}});
            }
            else if (line.compare(0, 7, "Total :") == 0)
            {
                std::istringstream g(line.substr(7));
                c.ok("summary-total-line", bool(g >> a >> pm >> b), line);
                c.near("summary-total", a, tot, 1e-5, 1e-5);
                c.near("summary-total-error", b, std::sqrt(e2), 1e-5, 1e-5);
                rows.push_back({nb, {}});
            }
            else if (line.compare(0, 17, "Signal Efficiency") == 0)
            {
                c.near("summary-efficiency", std::atof(line.c_str() + 17), double(ks) / sig->GetNEntries(), 1e-5, 1e-5);
                rows.push_back({nb, {}});
            }
        }
        c.eq("summary-rows", rows.size(), nb + 2, t);
        std::set<size_t> seen;
        for (size_t i = 0; i < nb; i++)
        {
            size_t k = rows[i].first;
            c.ok("summary-background", k < nb && seen.insert(k).second, t);
            c.near("summary-rate", rows[i].second[0], rates[k], 1e-5, 1e-5);
            c.near("summary-rate-error", rows[i].second[1], errs[k], 1e-5, 1e-5);
            if (i)
                c.ok("summary-sorted", rows[i].second[0] <= rows[i - 1].second[0], t);
        }
    }
    for (size_t i = 0; i < nb; i++)
        c.ok("report-background", t.find(bgNames[i]) != string::npos, t);
    c.ok("report-signal", t.find(sigName) != string::npos, t);
    size_t at = t.find("Observed: ");
    c.ok("report-observed", at != string::npos && std::atof(t.c_str() + at + 10) == kd, t);
    c.nontrivial = !cs.empty() && some && none;
}

FACET(save, 1)
{
    vector<string> names;
    RLog r;
    size_t nc = s.size(1, 4);
    for (size_t i = 0; i < nc; i++)
    {
        r.names.push_back("cut" + std::to_string(i));
        r.cut.push_back(0);
    }
    CutLog l(r.names);
    for (size_t i = s.size(0, 30); i-- > 0;)
        if (s.chance(1, 3))
        {
            l.LogPass();
            r.pass++;
        }
        else
        {
            size_t k = s.below(nc);
            l.LogCut(k);
            r.cut[k]++;
        }
    c.desc << str(r.cut) << r.pass;
    checkLog(c, "log", l, r);
    char tmp[] = "/tmp/p16XXXXXX";
    int fd = mkstemp(tmp);
    if (fd < 0)
        return;
    close(fd);
    l.SaveAs("a title", tmp);
    std::ifstream in(tmp);
    std::stringstream ss;
    ss << in.rdbuf();
    unlink(tmp);
    string t = ss.str();
    c.ok("title", t.find("a title") != string::npos, t);
    c.ok("table", t.find(l.AsString()) != string::npos, t);
    std::ostringstream out;
    std::streambuf *was = std::cout.rdbuf(out.rdbuf());
    l.Print();
    std::cout.rdbuf(was);
    c.ok("printed", out.str().find(l.AsString()) != string::npos, out.str());
    c.throws<IOError>("no-such-folder", [&] { l.SaveAs("t", "/tmp/no such folder/anywhere/log"); });
    c.nontrivial = nc > 1 && r.total() > 0;
}
