// Event distributions: observable mapping, probabilities, products, projections, copies.
// SRC: core histogram data dist
#include "fakes.hpp"
#include <AnalyticED.h>
#include <BinnedED.h>
#include <CompositeED.h>
#include <memory>

const char *pbt::kRule =
    "random distributions over random ordered subsets of an event's 1-6 observables, composed into random products, "
    "evaluated at random events; non-trivial: the distribution looks at fewer or differently ordered observables than the "
    "event carries, or has at least 2 dimensions";

namespace
{
struct World
{
    vector<string> names;
    vector<double> data;
    double at(const string &n) const
    {
        for (size_t i = 0; i < names.size(); i++)
            if (names[i] == n)
                return data[i];
        throw std::runtime_error("World::at");
    }
    Event event() const
    {
        Event e(data);
        e.SetObservableNames(&names);
        return e;
    }
};
const vector<string> kPool = {"energy", "radius", "time", "alpha", "z", "beta"};
struct Dist
{ // a distribution and its reference evaluation
    std::unique_ptr<EventDistribution> d;
    std::function<double(const World &)> prob;
    double integral;
    double normed; // integral after Normalise()
    unsigned dims;
    string name;
};
vector<string> subset(Src &s, const vector<string> &from, size_t lo, size_t hi)
{
    auto p = s.permutation(from.size());
    vector<string> v;
    for (size_t i = 0, n = s.size(lo, std::min(hi, from.size())); i < n; i++)
        v.push_back(from[p[i]]);
    return v;
}
RAxes axesFor(Src &s, const vector<string> &obs, size_t maxTotal)
{
    RAxes r;
    size_t total = 1;
    for (auto &o : obs)
    {
        r.a.push_back(genAxis(s, o, std::max<size_t>(1, std::min<size_t>(4, maxTotal / total))));
        total *= r.a.back().n();
    }
    return r;
}
vector<double> pointFor(const World &w, const vector<string> &obs)
{
    vector<double> p;
    for (auto &o : obs)
        p.push_back(w.at(o));
    return p;
}
Dist genDist(Src &s, Ctx &c, const World &w, int depth)
{
    Dist r;
    size_t kind = depth > 0 ? s.below(4) : s.below(2);
    if (kind == 0)
    {
        vector<string> obs = subset(s, w.names, 1, 3);
        RAxes ax = axesFor(s, obs, 60);
        vector<double> v = genContents(s, ax.bins());
        if (sum(v) == 0)
            v[0] = 1;
        if (s.boolean())
        { // integrals that are powers of two: a product can be normalised when its factors are not
            double to = std::ldexp(1., int(s.range(-2, 2))) / sum(v);
            for (auto &x : v)
                x *= to;
        }
        else if (s.chance(1, 4)) // nearly everything in one bin
            v[s.below(v.size())] *= std::ldexp(1., 40);
        BinnedED *b = new BinnedED("b" + std::to_string(s.below(3)), ax.make());
        b->SetBinContents(v);
        b->SetObservables(obs);
        r.d.reset(b);
        double t = sum(v);
        r.prob = [=](const World &x) { return v[ax.find(pointFor(x, obs))] / t; };
        r.integral = t;
        r.normed = 1;
        r.dims = unsigned(obs.size());
        r.name = b->GetName();
        c.desc << " binned" << str(obs);
    }
    else if (kind == 1)
    {
        vector<string> obs = subset(s, w.names, 1, 3);
        double sc = s.posfine(4, 2) * (s.chance(1, 4) ? 1e-30 : 1);
        FakePDF f(obs.size(), sc);
        AnalyticED *a = new AnalyticED("a" + std::to_string(s.below(3)), &f);
        a->SetObservables(ObsSet(obs));
        if (s.boolean())
        {
            sc = s.posfine(4, 2);
            a->SetParameter("s", sc);
        }
        r.d.reset(a);
        r.prob = [=](const World &x) { return FakePDF::value(obs.size(), sc, pointFor(x, obs)); };
        r.integral = r.normed = 1;
        r.dims = unsigned(obs.size());
        r.name = a->GetName();
        c.desc << " analytic" << str(obs);
    }
    else
    {
        c.desc << " (";
        size_t n = kind == 2 ? 2 : s.size(1, s.chance(1, 4) ? 7 : 3);
        vector<Dist> parts;
        for (size_t i = 0; i < n; i++)
            parts.push_back(genDist(s, c, w, depth - 1));
        c.desc << " )";
        r.integral = r.normed = 1;
        r.dims = 0;
        vector<std::function<double(const World &)>> ps;
        vector<EventDistribution *> raw;
        for (size_t i = 0; i < n; i++)
        {
            r.integral *= parts[i].integral;
            r.normed *= parts[i].normed;
            r.dims += parts[i].dims;
            r.name += (i ? "*" : "") + parts[i].name;
            ps.push_back(parts[i].prob);
            raw.push_back(parts[i].d.get());
        }
        r.prob = [=](const World &x)
        {
            double p = 1;
            for (auto &f : ps)
                p *= f(x);
            return p;
        };
        if (kind == 2)
        {
            if (s.boolean())
                r.d.reset(new CompositeED((*raw[0]) * (*raw[1])));
            else
                r.d.reset(new CompositeED(raw[0], raw[1]));
        }
        else
            r.d.reset(new CompositeED(raw));
    }
    return r;
}
World genWorld(Src &s)
{
    World w;
    w.names = subset(s, styled(s, kPool), 1, 6);
    for (size_t i = 0; i < w.names.size(); i++)
        w.data.push_back(s.fine(8, 3));
    return w;
}
}
FACET(probability, 5)
{
    World w = genWorld(s);
    c.desc << str(w.names);
    Dist d = genDist(s, c, w, 2);
    c.nontrivial = w.names.size() > 1;
    c.eq("dims", d.d->GetNDims(), d.dims);
    c.eq("name", d.d->GetName(), d.name);
    c.near("integral", d.d->Integral(), d.integral);
    std::unique_ptr<EventDistribution> cl(d.d->Clone());
    bool gone = s.boolean();
    if (gone) // clones outlive the original
        d.d.reset();
    else if (s.boolean())
        d.d.swap(cl);
    EventDistribution &x = gone ? *cl : *d.d;
    for (size_t k = s.size(1, 5); k-- > 0;)
    {
        c.near("probability", x.Probability(w.event()), d.prob(w), 1e-9, 0);
        // the value does not depend on the order of the event's observables or on extra ones
        World o;
        auto p = s.permutation(w.names.size());
        for (size_t i = 0; i < p.size(); i++)
        {
            if (s.chance(1, 4))
            {
                o.names.push_back("extra" + std::to_string(i));
                o.data.push_back(1e3);
            }
            o.names.push_back(w.names[p[i]]);
            o.data.push_back(w.data[p[i]]);
        }
        c.near("observable-order", x.Probability(o.event()), d.prob(w), 1e-9, 0);
        for (auto &v : w.data)
            v = s.fine(8, 3);
    }
    c.eq("clone-name", x.GetName(), d.name);
    x.SetName("renamed");
    c.eq("set-name", x.GetName(), string("renamed"));
    std::unique_ptr<EventDistribution> cl2(x.Clone());
    c.eq("clone-keeps-name", cl2->GetName(), string("renamed"));
    x.Normalise();
    c.near("normalised", x.Integral(), d.normed);
    c.near("clone-unaffected", cl2->Integral(), d.integral);
    c.near("probability-after-normalise", x.Probability(w.event()), d.prob(w), 1e-9, 0);
    // an observable the event does not carry is refused
    World none;
    none.names = {"nothing"};
    none.data = {1};
    c.throws<OXSXException>("missing-observable", [&] { x.Probability(none.event()); });
}
FACET(composite_copies, 2)
{
    World w = genWorld(s);
    c.desc << str(w.names);
    Dist a = genDist(s, c, w, 1), b = genDist(s, c, w, 1), e = genDist(s, c, w, 1);
    c.nontrivial = true;
    std::unique_ptr<CompositeED> p(new CompositeED(a.d.get(), b.d.get()));
    std::unique_ptr<CompositeED> q(new CompositeED(*p));
    CompositeED r(e.d.get(), e.d.get());
    r = *q;
    r = *&r;
    double want = a.prob(w) * b.prob(w);
    p->SetName("p");
    p->Normalise();
    p.reset();
    c.near("copy", q->Probability(w.event()), want, 1e-9, 0);
    c.near("copy-integral", q->Integral(), a.integral * b.integral);
    q.reset();
    c.near("assigned", r.Probability(w.event()), want, 1e-9, 0);
    c.near("assigned-integral", r.Integral(), a.integral * b.integral);
    c.eq("assigned-name", r.GetName(), a.name + "*" + b.name);
    c.near("triple", (r * *e.d).Probability(w.event()), want * e.prob(w), 1e-9, 0);
}
FACET(binned_fill, 3)
{
    World w = genWorld(s);
    vector<string> obs = subset(s, w.names, 1, 3);
    RAxes ax = axesFor(s, obs, 80);
    BinnedED b("b", ax.make());
    b.SetObservables(obs);
    c.desc << str(w.names) << show(ax);
    c.nontrivial = ax.bins() > 1;
    c.ok("observables", b.GetObservables() == obs);
    c.eq("bins", b.GetNBins(), ax.bins());
    c.eq("dims", size_t(b.GetNDims()), ax.dims());
    vector<double> v(ax.bins(), 0);
    for (size_t k = s.size(1, 8); k-- > 0;)
    {
        for (size_t i = 0; i < w.names.size(); i++)
        {
            w.data[i] = s.fine(10, 3);
            for (auto &x : ax.a)
                if (x.name == w.names[i])
                    w.data[i] = genCoord(s, x);
        }
        double wt = s.fine(6, 3);
        vector<double> p = pointFor(w, obs);
        size_t bin = ax.find(p);
        c.eq("find-event", b.FindBin(w.event()), bin);
        c.eq("find-vector", b.FindBin(p), bin);
        if (s.boolean())
            b.Fill(w.event(), wt);
        else if (ax.dims() == 1 && s.boolean())
            b.Fill(p[0], wt);
        else
            b.Fill(p, wt);
        v[bin] += wt;
        c.nearv("contents", b.GetBinContents(), v);
        double t = sum(v), a = 0;
        for (double x : v)
            a += std::fabs(x);
        if (std::fabs(t) > 1e-3 * a && a > 0)
        {
            c.near("probability-event", b.Probability(w.event()), v[bin] / t);
            c.near("probability-vector", b.Probability(p), v[bin] / t);
        }
    }
    // too few values for the axes, or an event without its observables
    {
        vector<double> p(obs.size() + (s.boolean() ? 1 : -1), 0);
        c.throws<DimensionError>("find-dims", [&] { b.FindBin(p); });
        c.throws<DimensionError>("fill-dims", [&] { b.Fill(p); });
        World bare;
        bare.names = {"nothing"};
        bare.data = {1};
        c.throws<OXSXException>("fill-missing", [&] { b.Fill(bare.event()); });
        c.throws<OXSXException>("find-missing", [&] { b.FindBin(bare.event()); });
        BinnedED odd(b);
        vector<string> fewer(obs.begin(), obs.end() - 1), more(obs);
        more.push_back(obs[0]); // twice
        odd.SetObservables(obs.size() > 1 && s.boolean() ? fewer : more);
        c.throws<OXSXException>("fill-representation", [&] { odd.Fill(w.event()); });
        c.throws<OXSXException>("find-representation", [&] { odd.FindBin(w.event()); });
        c.throws<OXSXException>("probability-representation", [&] { odd.Probability(w.event()); });
        c.nearv("refused-unchanged", odd.GetBinContents(), v);
        c.nearv("refused-unchanged", b.GetBinContents(), v);
    }
    // forwarding to the histogram
    c.near("integral", b.Integral(), sum(v), 1e-9, 1e-9);
    size_t bin = s.below(ax.bins());
    b.SetBinContent(bin, 3);
    b.AddBinContent(bin, 0.5);
    v[bin] = 3.5;
    double f = s.fine(3, 2);
    b.Scale(f);
    for (auto &x : v)
        x *= f;
    c.nearv("set-add-scale", b.GetBinContents(), v);
    c.ok("unpack", b.UnpackIndices(bin) == ax.unflat(bin) && b.FlattenIndices(ax.unflat(bin)) == bin);
    c.ok("axes", b.GetAxes() == ax.make());
    BinnedED o("o", ax.make());
    if (s.chance(4, 5)) // arithmetic is about the bins only
        o.SetObservables(obs);
    vector<double> ov = genContents(s, ax.bins(), false, 0);
    o.SetBinContents(ov);
    BinnedED add(b), mul(b), div(b);
    double wt = s.fine(3, 2);
    add.Add(o, wt);
    mul.Multiply(o);
    div.Divide(o);
    for (size_t i = 0; i < v.size(); i++)
    {
        c.near("add", add.GetBinContent(i), v[i] + wt * ov[i]);
        c.near("multiply", mul.GetBinContent(i), v[i] * ov[i]);
        c.near("divide", div.GetBinContent(i), v[i] / ov[i]);
    }
    c.nearv("copies-independent", b.GetBinContents(), v);
    {
        RAxes q = ax;
        RAxis &last = q.a[s.below(q.dims())];
        last.e.back() += 0.5;
        last.uniform = false;
        BinnedED x("x", q.make());
        x.SetObservables(obs);
        c.throws<ValueError>("add-binning", [&] { b.Add(x); });
        c.throws<ValueError>("multiply-binning", [&] { b.Multiply(x); });
        c.throws<ValueError>("divide-binning", [&] { b.Divide(x); });
        c.nearv("mismatch-unchanged", b.GetBinContents(), v);
        // a histogram, or axes, taken over whole
        vector<double> hv = genContents(s, q.bins());
        Histogram h(q.make());
        h.SetBinContents(hv);
        BinnedED y(b);
        y.SetHistogram(h);
        c.ok("set-histogram-axes", y.GetAxes() == q.make());
        c.nearv("set-histogram", y.GetBinContents(), hv);
        c.ok("set-histogram-observables", y.GetObservables() == obs && y.GetName() == "b");
        c.nearv("set-histogram-means", y.Means(), h.Means());
        c.nearv("set-histogram-variances", y.Variances(), h.Variances());
        c.nearv("get-histogram", y.GetHistogram().GetBinContents(), hv);
        { // the same edges under other names
            RAxes on = ax;
            for (auto &p : on.a)
                p.name = "renamed_" + p.name, p.latex = "";
            Histogram hn(on.make());
            vector<double> nv = genContents(s, on.bins());
            hn.SetBinContents(nv);
            BinnedED u(b);
            if (s.boolean())
                u.SetHistogram(hn);
            else
                u.SetAxes(on.make());
            c.ok("renamed-axes", u.GetAxes().GetAxisNames() == on.names());
            for (size_t i = 0; i < on.dims(); i++)
                c.ok("renamed-latex", u.GetAxes().GetAxis(i).GetLatexName() == on.a[i].make().GetLatexName());
        }
        BinnedED z("z", h);
        c.nearv("from-histogram", z.GetBinContents(), hv);
        BinnedED e;
        e.SetAxes(q.make());
        c.eq("set-axes-bins", e.GetNBins(), q.bins());
        c.nearv("set-axes-empty", e.GetBinContents(), vector<double>(q.bins(), 0));
    }
    BinnedED pad(b);
    pad.AddPadding(0.25);
    for (size_t i = 0; i < v.size(); i++)
        c.near("padding", pad.GetBinContent(i), v[i] == 0 ? 0.25 : v[i]);
    b.Empty();
    c.near("empty", b.Integral(), 0);
}
// weights and axes in other units: contents scale, probabilities stay
FACET(units, 2)
{
    World w = genWorld(s);
    vector<string> obs = subset(s, w.names, 1, 3);
    RAxes ax = axesFor(s, obs, 60), q = ax;
    double u = genUnit(s);
    vector<double> a;
    for (auto &x : q.a)
    {
        a.push_back(s.boolean() ? 1 : genUnit(s));
        x = inUnits(x, a.back());
    }
    c.desc << str(w.names) << show(ax) << " times " << str(a) << " weights times " << u;
    c.nontrivial = ax.bins() > 1;
    BinnedED b("b", ax.make()), d("b", q.make());
    b.SetObservables(obs);
    d.SetObservables(obs);
    World v = w;
    auto draw = [&] {
        for (size_t i = 0; i < w.names.size(); i++)
        {
            w.data[i] = v.data[i] = s.fine(10, 3);
            for (size_t j = 0; j < ax.dims(); j++)
                if (ax.a[j].name == w.names[i])
                {
                    w.data[i] = roundable(genCoord(s, ax.a[j]));
                    v.data[i] = w.data[i] * a[j];
                }
        }
    };
    vector<double> start = genContents(s, ax.bins());
    start[s.below(start.size())] += 1;
    b.SetBinContents(start);
    d.SetBinContents(times(start, u));
    for (size_t k = s.size(1, 6); k-- > 0;)
    {
        draw();
        double wt = s.posfine(6, 3);
        if (s.boolean())
        {
            b.Fill(w.event(), wt);
            d.Fill(v.event(), wt * u);
        }
        else
        {
            b.Fill(pointFor(w, obs), wt);
            d.Fill(pointFor(v, obs), wt * u);
        }
        c.nearv("contents", d.GetBinContents(), times(b.GetBinContents(), u), UREL, UABS);
        draw();
        c.near("probability", d.Probability(v.event()), b.Probability(w.event()), UREL, UABS);
        c.near("probability-vector", d.Probability(pointFor(v, obs)), b.Probability(pointFor(w, obs)), UREL, UABS);
        c.near("integral", d.Integral(), b.Integral() * u, UREL, UABS);
    }
    string keep = s.pick(obs);
    c.nearv("marginal", d.Marginalise(keep).GetBinContents(), times(b.Marginalise(keep).GetBinContents(), u), UREL, UABS);
    // tiny factors of a product are factors like any other
    CompositeED p(&b, &b), r(&d, &d);
    c.near("product", r.Probability(v.event()), p.Probability(w.event()), UREL, UABS);
    c.near("product-integral", r.Integral(), p.Integral() * u * u, UREL, UABS);
    d.Normalise();
    b.Normalise();
    c.nearv("normalised", d.GetBinContents(), b.GetBinContents(), UREL, UABS);
    c.nearv("means", d.Means(), [&] {
        vector<double> m = b.Means();
        for (size_t j = 0; j < m.size(); j++)
            m[j] *= a[j];
        return m;
    }(), UREL, UABS);
}
FACET(projections, 4)
{
    World w = genWorld(s);
    vector<string> obs = subset(s, w.names, 1, 4);
    RAxes ax = axesFor(s, obs, 100);
    BinnedED b("b", ax.make());
    b.SetObservables(obs);
    vector<double> v;
    for (size_t i = 0; i < ax.bins(); i++)
        v.push_back(1 + double(i) + 0.25 * double(s.below(3)));
    b.SetBinContents(v);
    vector<string> keep = subset(s, obs, 1, obs.size());
    c.desc << show(ax) << " keep" << str(keep);
    c.nontrivial = obs.size() > 1;
    BinnedED m = keep.size() == 1 && s.boolean() ? b.Marginalise(keep[0]) : b.Marginalise(keep);
    c.ok("observables", m.GetObservables() == keep, "observables of the projection");
    c.ok("axis-names", m.GetAxes().GetAxisNames() == keep, "axis names of the projection");
    RAxes kx;
    for (auto &k : keep)
        kx.a.push_back(ax.a[ax.index(k)]);
    vector<double> want(kx.bins(), 0);
    for (auto &t : ax.tuples())
    {
        vector<size_t> u;
        for (auto &k : keep)
            u.push_back(t[ax.index(k)]);
        want[kx.flat(u)] += v[ax.flat(t)];
    }
    c.nearv("contents", m.GetBinContents(), want);
    c.near("event-probability", m.Probability(w.event()), want[kx.find(pointFor(w, keep))] / sum(v));
    if (obs.size() > 1)
    {
        std::map<string, size_t> fix;
        vector<string> fixn = subset(s, obs, 1, obs.size() - 1), rest;
        for (auto &f : fixn)
            fix[f] = s.below(ax.a[ax.index(f)].n());
        RAxes rx;
        for (size_t d = 0; d < obs.size(); d++)
            if (!fix.count(obs[d]))
            {
                rest.push_back(obs[d]);
                rx.a.push_back(ax.a[d]);
            }
        c.desc << " fix" << str(fix);
        BinnedED sl = b.GetSlice(fix);
        c.ok("slice-observables", sl.GetObservables() == rest, "observables of the slice");
        c.ok("slice-axes", sl.GetAxes() == rx.make());
        double tot = 0;
        vector<double> sw(rx.bins());
        for (auto &t : ax.tuples())
        {
            bool in = true;
            vector<size_t> u;
            for (size_t d = 0; d < obs.size(); d++)
                if (fix.count(obs[d]))
                    in = in && t[d] == fix[obs[d]];
                else
                    u.push_back(t[d]);
            if (in)
                sw[rx.flat(u)] = v[ax.flat(t)], tot += v[ax.flat(t)];
        }
        c.nearv("slice-contents", sl.GetBinContents(), sw);
        c.near("slice-probability", sl.Probability(w.event()), sw[rx.find(pointFor(w, rest))] / tot);
    }
    c.nearv("original-unchanged", b.GetBinContents(), v);
    c.throws<NotFoundError>("unknown-axis", [&] { b.Marginalise("nothing"); });
}
FACET(analytic_params, 2)
{
    size_t n = s.size(1, 3);
    double sc = s.posfine(4, 2);
    FakePDF f(n, sc, "p0");
    AnalyticED a("a", &f);
    vector<string> ao = subset(s, styled(s, kPool), n, n);
    a.SetObservables(ObsSet(ao));
    c.ok("analytic-observables", a.GetObservables() == ObsSet(ao) && a.GetObservables().GetNames() == ao);
    {
        World few;
        few.names = ao;
        few.data.assign(n, 0.5);
        AnalyticED wrong(a);
        vector<string> two = ao;
        two.push_back(ao[0]);
        wrong.SetObservables(ObsSet(two));
        c.throws<OXSXException>("analytic-representation", [&] { wrong.Probability(few.event()); });
        c.near("analytic-right", a.Probability(few.event()), FakePDF::value(n, sc, vector<double>(n, 0.5)));
    }
    f.scale = 99; // the distribution owns its own copy
    c.desc << n << " dims";
    c.nontrivial = true;
    vector<double> x;
    for (size_t i = 0; i < n; i++)
        x.push_back(s.fine(4, 2));
    string nm = "p0";
    std::unique_ptr<AnalyticED> other(new AnalyticED(a));
    double so = sc;
    for (size_t k = s.size(1, 8); k-- > 0;)
    {
        double v = s.posfine(8, 3);
        switch (s.below(6))
        {
        case 4:
        { // assigned to one of other observables and another function
            FakePDF g(s.size(1, 3), 77, "other");
            AnalyticED b("b", &g);
            if (s.boolean())
                b.SetObservables(ObsSet(subset(s, kPool, n, n)));
            b = a;
            c.ok("assigned-observables", b.GetObservables() == ObsSet(ao) && b.GetName() == a.GetName() && b.GetNDims() == a.GetNDims(), str(b.GetObservables().GetNames()));
            World few;
            few.names = ao;
            few.data.assign(n, 0.5);
            c.near("assigned-event", b.Probability(few.event()), FakePDF::value(n, sc, vector<double>(n, 0.5)));
            b.SetParameter(nm, 55);
            AnalyticED none("none", &g); // of no observables
            b = none;
            c.ok("assigned-no-observables", b.GetObservables().GetNames().empty() && b.GetName() == "none", str(b.GetObservables().GetNames()));
            break;
        }
        case 0:
            a.SetParameter(nm, v);
            sc = v;
            break;
        case 1:
            a.SetParameters(ParameterDict{{nm, v}});
            sc = v;
            break;
        case 2:
        {
            string nn = "q" + std::to_string(k);
            a.RenameParameter(nm, nn);
            nm = nn;
            break;
        }
        case 3:
            *other = a;
            so = sc;
            break;
        default:
            other.reset(new AnalyticED(a));
            so = sc;
        }
        c.near("value", a.Probability(x), FakePDF::value(n, sc, x));
        c.near("other", other->Probability(x), FakePDF::value(n, so, x));
        c.near("get", a.GetParameter(nm), sc);
        c.ok("dict", a.GetParameters() == ParameterDict{{nm, sc}});
        c.ok("names", a.GetParameterNames() == std::set<string>{nm} && a.GetParameterCount() == 1);
    }
    c.throws<OXSXException>("unknown-param", [&] { a.SetParameter("nothing", 1); });
    c.throws<ParameterError>("missing-param", [&] { a.SetParameters(ParameterDict{{"nothing", 1}}); });
    x.push_back(0);
    c.throws<DimensionError>("dims", [&] { a.Probability(x); });
}
