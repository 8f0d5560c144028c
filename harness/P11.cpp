// BinnedNLLH: one evaluation against the extended Poisson formula.
// SRC: core histogram data dist function systematic fitutil teststat constraint cut eventSystematic
#include "nllhmodel.hpp"

const char *pbt::kRule =
    "random complete likelihoods: 1-3 pdfs with mixed norm statuses on 1-2 observables, 0-3 arbitrary systematics in groups, "
    "buffers, cuts, constraints of six kinds, data as events or distribution (perhaps of fewer observables), with and without "
    "Barlow-Beeston, built by random routes; non-trivial: at least two of several pdfs, systematics, buffers, constraints, "
    "cuts and Barlow-Beeston are in play";

namespace
{
void compare(Ctx &c, const string &id, BinnedNLLH &lh, const NConf &k)
{
    NResult r = evalRef(k);
    if (r.zero)
    {
        c.throws<std::runtime_error>(id + "-zero-probability", [&] { lh.Evaluate(); });
        return;
    }
    if (r.unsure)
    {
        lh.Evaluate();
        return;
    }
    double got = lh.Evaluate();
    c.near(id, got, r.nll, 1e-7, 1e-8 * r.scale);
    vector<double> norms = lh.GetNormalisations();
    c.nearv(id + "-norms", norms, r.norms, 1e-8, 1e-9);
}
} // namespace

FACET(formula, 8)
{
    NConf k = genConf(s);
    describe(c, k);
    Built b(k, &s);
    compare(c, "nll", b.lh, k);
    ParameterDict got = b.lh.GetParameters();
    c.ok("parameters", got == k.par, str(got));
    c.ok("names", b.lh.GetParameterNames() == k.parNames());
    c.eq("count", b.lh.GetParameterCount(), k.par.size());
    for (auto &x : k.buf)
        c.ok("buffer", b.lh.GetBuffer(x.first) == std::make_pair(x.second.first, x.second.second));
    c.ok("overflow", b.lh.GetBufferAsOverflow() == k.over);
    if (k.useEvents)
    {
        // the cut log of binning the data
        size_t pass = 0;
        for (auto &e : k.ev)
            pass += k.passes(e);
        vector<int> cnt = b.lh.GetSignalCutLog().GetCutCounts();
        size_t cut = 0;
        for (int x : cnt)
            cut += x;
        c.eq("cut-log", cut, k.ev.size() - pass);
    }
    int features = (k.pdf.size() > 1) + !k.sys.empty() + !k.buf.empty() + !k.con.empty() + k.bb + !k.boxes.empty() +
                   (k.dims().size() < k.ax.dims());
    c.nontrivial = features >= 2;
    c.tag("bb", k.bb);
    c.tag("systematics", !k.sys.empty());
    c.tag("buffers", !k.buf.empty());
    c.tag("events", k.useEvents);
    c.tag("constraints", !k.con.empty());
    c.tag("marginal", k.dims().size() < k.ax.dims());
}

// expectations (and data) in another unit: tiny and huge expectations count like any other
FACET(units, 3)
{
    NConf k = genConf(s, true);
    k.con.clear();
    describe(c, k);
    NResult r0 = evalRef(k);
    if (r0.zero || r0.unsure)
        return;
    double u = genUnit(s);
    c.desc << "expectations times " << u;
    for (auto &p : k.pdf)
    {
        if (p.st == FALSE)
            p.v = times(p.v, u);
        else
            k.par[p.name] *= u;
    }
    if (!k.useEvents && s.boolean())
    {
        k.data = times(k.data, u);
        c.desc << " and the data";
        c.tag("data-scaled");
    }
    c.nontrivial = true;
    NResult r = evalRef(k);
    Built b(k, &s);
    double got = b.lh.Evaluate();
    c.near("nll", got, r.nll, 1e-7, 1e-8 * (r.scale - 1));
    c.nearv("norms", b.lh.GetNormalisations(), r.norms, 1e-8, 1e-290);
}
// the same data as events and as a distribution
FACET(dataroutes, 2)
{
    NConf k = genConf(s, false);
    if (!k.useEvents)
    {
        k.useEvents = true;
        k.evObs = k.obs;
        k.ev.clear();
        for (size_t i = 0, n = s.size(1, 10); i < n; i++)
            k.ev.push_back(genPoint(s, k.ax));
    }
    describe(c, k);
    NConf d = k;
    Want w = k.dataWant();
    d.useEvents = false;
    d.boxes.clear();
    d.data = w.v;
    d.keep.clear();
    for (size_t i = 0; i < k.ax.dims(); i++)
        d.keep.push_back(i);
    Built a(k, &s), b(d, &s), e(d, &s, false);
    e.ds.reset(new OXSXDataSet);
    e.ds->SetObservableNames(k.evObs);
    for (auto &x : k.ev)
        e.ds->AddEntry(Event(x));
    e.lh.SetDataSet(e.ds.get());
    for (size_t i = 0; i < k.boxes.size(); i++)
        e.lh.AddCut(BoxCut("c", k.evObs[0], k.boxes[i].first, k.boxes[i].second));
    e.lh.BinData();
    BinnedED binned = e.lh.GetDataDist();
    c.nearv("binned-data", binned.GetBinContents(), w.v);
    compare(c, "events", a.lh, k);
    compare(c, "dist", b.lh, k);
    compare(c, "explicitly-binned", e.lh, k);
    Built f(d, &s, false);
    f.lh.SetDataDist(binned);
    compare(c, "rebinned", f.lh, k);
    c.nontrivial = k.ev.size() >= 2;
}

// what is refused
FACET(refusals, 1)
{
    NConf k = genConf(s);
    describe(c, k);
    Built none(k, &s, false);
    c.throws<LogicError>("no-data", [&] { none.lh.Evaluate(); });
    Built b(k, &s);
    NConf z = k;
    // parameters that are missing change nothing
    if (!k.par.empty())
    {
        ParameterDict p = k.par;
        for (auto &q : p)
            q.second += 1;
        auto it = p.begin();
        std::advance(it, s.below(p.size()));
        p.erase(it);
        if (!p.empty())
        {
            c.throws<ParameterError>("missing-parameter", [&] { b.lh.SetParameters(p); });
            c.ok("nothing-set", b.lh.GetParameters() == k.par, str(b.lh.GetParameters()));
        }
    }
    // a bin without any expectation
    bool allFit = true;
    for (auto &p : k.pdf)
        allFit &= p.st != FALSE;
    if (allFit)
    {
        for (auto &p : k.pdf)
            z.par[p.name] = 0;
        for (auto &q : z.con)
            if (q.kind == 3)
                return;
        b.lh.SetParameters(z.par);
        c.throws<std::runtime_error>("zero-probability", [&] { b.lh.Evaluate(); });
        b.lh.SetParameters(k.par);
        compare(c, "after-zero", b.lh, k);
        c.nontrivial = true;
    }
    // data that lack an observable, then proper ones
    if (k.useEvents && k.boxes.empty())
    {
        Built e(k, &s, false);
        OXSXDataSet bad;
        bad.SetObservableNames({"unrelated"});
        for (size_t i = 0, n = s.size(1, 4); i < n; i++)
            bad.AddEntry(Event(vector<double>(1, s.fine(4, 1))));
        e.lh.SetDataSet(&bad);
        for (size_t i = 0; i < 2; i++)
            c.throws<OXSXException>(i ? "wrong-data-again" : "wrong-data", [&] { e.lh.Evaluate(); });
        e.ds.reset(new OXSXDataSet);
        e.ds->SetObservableNames(k.evObs);
        for (auto &x : k.ev)
            e.ds->AddEntry(Event(x));
        e.lh.SetDataSet(e.ds.get());
        compare(c, "after-wrong-data", e.lh, k);
    }
    // Barlow-Beeston needs the generated numbers
    BinnedNLLH lh;
    lh.SetBarlowBeeston(true);
    BinnedED ed = b.ed(k, k.pdf[0]);
    c.throws<OXSXException>("bb-no-rate", [&] { lh.AddPdf(ed); });
    c.throws<OXSXException>("bb-no-rate-group", [&] { lh.AddPdf(ed, vector<string>(1, "")); });
    c.throws<OXSXException>("bb-no-rates", [&] { lh.AddPdfs(vector<BinnedED>(1, ed)); });
    c.throws<OXSXException>("bb-no-rates-group", [&] { lh.AddPdfs(vector<BinnedED>(1, ed), vector<vector<string>>(1, vector<string>(1, ""))); });
    BinnedNLLH l2;
    vector<NormFittingStatus> two(2, DIRECT);
    vector<BinnedED> one(1, ed);
    c.throws<DimensionError>("statuses", [&] { l2.AddPdfs(one, &two); });
    c.throws<DimensionError>("statuses-rates", [&] { l2.AddPdfs(one, vector<int>(1, 3), &two); });
    c.throws<DimensionError>("statuses-groups", [&] { l2.AddPdfs(one, vector<vector<string>>(1, vector<string>(1, "")), &two); });
    c.throws<DimensionError>("groups", [&] { l2.AddPdfs(one, vector<vector<string>>(2, vector<string>(1, ""))); });
    c.throws<DimensionError>("groups-rates", [&] { l2.AddPdfs(one, vector<vector<string>>(2, vector<string>(1, "")), vector<int>(1, 3)); });
    c.throws<NotFoundError>("unknown-group", [&] { l2.AddPdf(ed, vector<string>(1, "nope")); });
    c.throws<NotFoundError>("buffer", [&] { l2.GetBuffer("none"); });
}
