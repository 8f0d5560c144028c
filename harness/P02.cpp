// Histogram contents: fills, weights, integrals, normalisation, arithmetic, refusals.
// SRC: core histogram
#include "gens.hpp"

const char *pbt::kRule =
    "random 1-4 dimensional histograms driven through random operation histories (fill by vector / by name / by value, "
    "set, add, scale, normalise, pad, add / multiply / divide another histogram, empty) against a plain array model; "
    "non-trivial: at least 2 bins and at least one content-changing operation";

namespace
{
struct Model
{
    RAxes ax;
    vector<double> v;
};
void same(Ctx &c, const string &id, const Histogram &h, const Model &m, double scale = 1)
{
    c.eq("nbins", h.GetNBins(), m.ax.bins());
    c.eq("ndims", h.GetNDims(), m.ax.dims());
    c.nearv(id, h.GetBinContents(), m.v, 1e-9, 1e-12 * scale);
    for (size_t i = 0; i < m.v.size(); i++)
        c.near(id + "-get", h.GetBinContent(i), m.v[i], 1e-9, 1e-12 * scale);
    double t = 0, a = 0;
    for (double x : m.v)
        t += x, a += std::fabs(x);
    if (std::isfinite(a))
        c.near("integral", h.Integral(), t, 1e-9, 1e-9 * a + 1e-300);
}
}

FACET(history, 6)
{
    Model m;
    m.ax = genAxes(s, 1, 4, 5, 120);
    m.v.assign(m.ax.bins(), 0);
    Histogram h(m.ax.make());
    c.desc << show(m.ax);
    same(c, "starts-empty", h, m);
    { // the bins are those of the axes
        size_t b = s.below(m.v.size());
        vector<size_t> t = m.ax.unflat(b);
        vector<double> lo(t.size()), hi(t.size()), mid(t.size());
        h.GetBinLowEdges(b, lo);
        h.GetBinHighEdges(b, hi);
        h.GetBinCentres(b, mid);
        for (size_t d = 0; d < t.size(); d++)
        {
            const RAxis &a = m.ax.a[d];
            c.near("low-edge", h.GetBinLowEdge(b, d), a.e[t[d]]);
            c.near("high-edge", h.GetBinHighEdge(b, d), a.e[t[d] + 1]);
            c.near("bin-centre", h.GetBinCentre(b, d), a.centre(t[d]));
            c.near("low-edges", lo[d], a.e[t[d]]);
            c.near("high-edges", hi[d], a.e[t[d] + 1]);
            c.near("bin-centres", mid[d], a.centre(t[d]));
            c.eq("axis-index", h.GetAxisIndex(a.name), d);
        }
        c.ok("axis-names", h.GetAxisNames() == m.ax.names());
    }
    size_t nops = s.size(1, 14);
    c.nontrivial = m.ax.bins() > 1;
    for (size_t k = 0; k < nops; k++)
    {
        switch (s.below(15))
        {
        case 0:
        case 1:
        {
            vector<double> p = genPoint(s, m.ax);
            bool w = s.boolean();
            double wt = w ? s.fine(8, 3) : 1;
            c.desc << " fill" << str(p) << "*" << wt;
            if (w)
                h.Fill(p, wt);
            else
                h.Fill(p);
            m.v[m.ax.find(p)] += wt;
            break;
        }
        case 2:
        { // by name, in a map that may hold more observables than axes
            vector<double> p = genPoint(s, m.ax);
            std::map<string, double> mp;
            for (size_t d = 0; d < m.ax.dims(); d++)
                mp[m.ax.a[d].name] = p[d];
            if (s.boolean())
                mp["unrelated"] = s.fine(8, 2);
            bool w = s.boolean();
            double wt = w ? s.fine(8, 3) : 1;
            c.desc << " fill" << str(mp) << "*" << wt;
            if (w)
                h.Fill(mp, wt);
            else
                h.Fill(mp);
            m.v[m.ax.find(p)] += wt;
            break;
        }
        case 3:
        {
            double x = genCoord(s, m.ax.a[0]);
            double wt = s.fine(8, 3);
            c.desc << " fill1 " << x << "*" << wt;
            if (m.ax.dims() == 1)
            {
                h.Fill(x, wt);
                m.v[m.ax.a[0].find(x)] += wt;
                c.eq("find1", h.FindBin(x), m.ax.a[0].find(x));
            }
            else
            {
                c.throws<DimensionError>("fill1-dims", [&] { h.Fill(x, wt); });
                c.throws<DimensionError>("find1-dims", [&] { h.FindBin(x); });
            }
            break;
        }
        case 4:
        {
            size_t b = s.below(m.v.size());
            double x = s.fine(16, 4);
            c.desc << " set " << b << "=" << x;
            h.SetBinContent(b, x);
            m.v[b] = x;
            break;
        }
        case 5:
        {
            size_t b = s.below(m.v.size());
            double x = s.fine(16, 4);
            c.desc << " add " << b << "+=" << x;
            h.AddBinContent(b, x);
            m.v[b] += x;
            break;
        }
        case 6:
        {
            m.v = genContents(s, m.v.size(), s.boolean(), 20);
            c.desc << " contents" << str(m.v);
            h.SetBinContents(m.v);
            break;
        }
        case 7:
        {
            double f = s.fine(4, 3);
            c.desc << " scale " << f;
            h.Scale(f);
            for (auto &x : m.v)
                x *= f;
            break;
        }
        case 8:
        {
            double t = sum(m.v), a = 0;
            for (double x : m.v)
                a += std::fabs(x);
            if (!(a > 1e-290 && a < 1e290) || std::fabs(t) < 1e-3 * a)
                break; // no meaningful normalisation
            c.desc << " normalise";
            h.Normalise();
            for (auto &x : m.v)
                x /= t;
            c.near("normalised", h.Integral(), 1, 1e-9, 1e-9);
            break;
        }
        case 9:
        {
            bool dflt = s.boolean();
            double p = dflt ? std::numeric_limits<double>::min() : s.posfine(2, 4);
            c.desc << " pad " << p;
            if (dflt)
                h.AddPadding();
            else
                h.AddPadding(p);
            for (size_t i = 0; i < m.v.size(); i++)
                if (m.v[i] == 0)
                {
                    c.eq("padded", h.GetBinContent(i), p);
                    m.v[i] = p;
                }
            break;
        }
        case 10:
        {
            Histogram o(m.ax.make());
            vector<double> ov = genContents(s, m.v.size(), s.boolean(), 20);
            o.SetBinContents(ov);
            bool w = s.boolean();
            double wt = w ? s.fine(4, 2) : 1;
            c.desc << " Add " << wt << "*" << str(ov);
            if (w)
                h.Add(o, wt);
            else
                h.Add(o);
            for (size_t i = 0; i < m.v.size(); i++)
                m.v[i] += wt * ov[i];
            c.nearv("operand-unchanged", o.GetBinContents(), ov);
            break;
        }
        case 11:
        {
            Histogram o(m.ax.make());
            bool div = s.boolean();
            // division follows IEEE arithmetic, empty bins included
            vector<double> ov = genContents(s, m.v.size(), s.boolean(), div ? (s.chance(1, 8) ? 20 : 0) : 20);
            o.SetBinContents(ov);
            c.desc << (div ? " Divide" : " Multiply") << str(ov);
            if (div)
                h.Divide(o);
            else
                h.Multiply(o);
            for (size_t i = 0; i < m.v.size(); i++)
                m.v[i] = div ? m.v[i] / ov[i] : m.v[i] * ov[i];
            c.nearv("operand-unchanged", o.GetBinContents(), ov);
            break;
        }
        case 12:
        { // with itself
            double wt = s.fine(4, 2);
            c.desc << " self";
            switch (s.below(3))
            {
            case 0:
                h.Add(h, wt);
                for (auto &x : m.v)
                    x += wt * x;
                break;
            case 1:
                h.Multiply(h);
                for (auto &x : m.v)
                    x *= x;
                break;
            default:
                h.Divide(h);
                for (auto &x : m.v)
                    x /= x;
            }
            break;
        }
        case 13:
        { // other axes, and contents for them
            if (s.boolean())
                break;
            m.ax = genAxes(s, 1, 4, 5, 120);
            c.desc << " axes " << show(m.ax);
            h.SetAxes(m.ax.make());
            if (s.boolean())
            {
                h.Empty();
                m.v.assign(m.ax.bins(), 0);
            }
            else
            {
                m.v = genContents(s, m.ax.bins(), s.boolean(), 20);
                h.SetBinContents(m.v);
            }
            c.eq("new-bins", h.GetNBins(), m.v.size());
            c.eq("new-dims", h.GetNDims(), m.ax.dims());
            c.ok("new-names", h.GetAxisNames() == m.ax.names());
            break;
        }
        default:
            c.desc << " empty";
            h.Empty();
            m.v.assign(m.v.size(), 0);
        }
        same(c, "contents", h, m);
        if (s.chance(1, 6))
        { // copies are independent of the original
            Histogram cp(h);
            cp.SetBinContent(s.below(m.v.size()), 99);
            cp.Scale(3);
            same(c, "copy-independent", h, m);
        }
    }
}
// the same history with contents in another unit, on axes in other units: contents scale exactly
FACET(units, 3)
{
    RAxes r = genAxes(s, 1, 3, 5, 80), q = r;
    double u = genUnit(s);
    vector<double> a;
    for (auto &x : q.a)
    {
        a.push_back(s.boolean() ? 1 : genUnit(s));
        x = inUnits(x, a.back());
    }
    Histogram h(r.make()), g(q.make());
    c.desc << show(r) << " times " << str(a) << " contents times " << u;
    c.nontrivial = r.bins() > 1;
    auto in = [&](vector<double> p) {
        for (size_t d = 0; d < p.size(); d++)
            p[d] *= a[d];
        return p;
    };
    for (size_t k = s.size(1, 8); k-- > 0;)
    {
        size_t b = s.below(r.bins());
        double w = s.fine(8, 3);
        vector<double> p = genPoint(s, r), v;
        for (auto &x : p)
            x = roundable(x);
        switch (s.below(7))
        {
        case 0:
            h.Fill(p, w);
            g.Fill(in(p), w * u);
            break;
        case 1:
        {
            std::map<string, double> m, n;
            for (size_t d = 0; d < p.size(); d++)
            {
                m[r.a[d].name] = p[d];
                n[r.a[d].name] = in(p)[d];
            }
            h.Fill(m, w);
            g.Fill(n, w * u);
            break;
        }
        case 2:
            h.AddBinContent(b, w);
            g.AddBinContent(b, w * u);
            break;
        case 3:
            h.SetBinContent(b, w);
            g.SetBinContent(b, w * u);
            break;
        case 4:
        {
            v = genContents(s, r.bins(), s.boolean());
            Histogram o(r.make()), l(q.make());
            o.SetBinContents(v);
            l.SetBinContents(times(v, u));
            h.Add(o, w);
            g.Add(l, w);
            break;
        }
        case 5:
        { // multiplied or divided by a histogram in a third unit
            v = genContents(s, r.bins(), s.boolean(), 0);
            double t = genUnit(s);
            Histogram o(r.make()), l(q.make());
            bool div = s.boolean();
            o.SetBinContents(v);
            l.SetBinContents(times(v, t));
            if (div)
                h.Divide(o), g.Divide(l), g.Scale(t);
            else
                h.Multiply(o), g.Multiply(l), g.Scale(1 / t);
            break;
        }
        default:
            h.Scale(w);
            g.Scale(w);
        }
        c.nearv("contents", g.GetBinContents(), times(h.GetBinContents(), u), UREL, UABS);
        for (size_t i = 0; i < r.bins(); i++)
            c.near("get", g.GetBinContent(i), h.GetBinContent(i) * u, UREL, UABS);
        c.near("integral", g.Integral(), h.Integral() * u, UREL, UABS);
    }
    if (r.dims() == 1)
    {
        double x = roundable(genCoord(s, r.a[0])), y = roundable(genCoord(s, r.a[0]));
        c.near("bounded", g.Integral(x * a[0], y * a[0]), h.Integral(x, y) * u, UREL, UABS);
    }
    vector<double> mean = h.Means(), var = h.Variances(), m2 = g.Means(), v2 = g.Variances();
    for (size_t d = 0; d < r.dims(); d++)
        mean[d] *= a[d] * u;
    c.nearv("means", m2, mean, UREL, UABS);
    if (h.Integral() == 0)
        return;
    h.Normalise();
    g.Normalise();
    c.nearv("normalised", g.GetBinContents(), h.GetBinContents(), UREL, UABS);
    mean = h.Means(), var = h.Variances();
    for (size_t d = 0; d < r.dims(); d++)
    {
        mean[d] *= a[d];
        var[d] *= a[d] * a[d];
    }
    c.nearv("means", g.Means(), mean, UREL, UABS);
    c.nearv("variances", g.Variances(), var, UREL, UABS);
}
FACET(moments, 2)
{
    RAxes r = genAxes(s, 1, 3, 5, 80);
    Histogram h(r.make());
    vector<double> v = genContents(s, r.bins());
    double t = sum(v);
    if (t <= 0)
        v[0] = t = 1;
    h.SetBinContents(v);
    h.Normalise();
    c.desc << show(r) << str(v);
    c.nontrivial = r.bins() > 1;
    vector<double> mean = h.Means(), var = h.Variances();
    c.eq("sizes", mean.size() + var.size(), 2 * r.dims());
    auto T = r.tuples();
    for (size_t d = 0; d < r.dims(); d++)
    {
        double mu = 0, v2 = 0;
        for (size_t i = 0; i < T.size(); i++)
            mu += v[i] / t * r.a[d].centre(T[i][d]);
        for (size_t i = 0; i < T.size(); i++)
            v2 += v[i] / t * std::pow(r.a[d].centre(T[i][d]) - mu, 2);
        c.near("mean", mean[d], mu, 1e-9, 1e-9);
        c.near("variance", var[d], v2, 1e-7, 1e-7);
    }
}
FACET(bounded_integral, 2)
{
    RAxes r = genAxes(s, 1, 2, 8, 60);
    Histogram h(r.make());
    vector<double> v = genContents(s, r.bins(), s.boolean());
    h.SetBinContents(v);
    double a = genCoord(s, r.a[0]), b = genCoord(s, r.a[0]);
    if (s.chance(2, 3) && b < a)
        std::swap(a, b);
    c.desc << show(r) << str(v) << " " << a << ".." << b;
    c.nontrivial = r.bins() > 1 && a < b;
    if (r.dims() != 1)
    {
        c.throws<DimensionError>("one-dim-only", [&] { h.Integral(a, b); });
        return;
    }
    double want = 0;
    if (b > a)
        for (size_t i = r.a[0].find(a); i <= r.a[0].find(b); i++)
            want += v[i];
    c.near("bounded", h.Integral(a, b), want);
}
FACET(refusals, 3)
{
    RAxes r = genAxes(s, 1, 3, 5, 80);
    Histogram h(r.make());
    vector<double> v = genContents(s, r.bins());
    h.SetBinContents(v);
    size_t n = r.bins(), over = s.boolean() ? n : n + s.size(1, 30);
    c.desc << show(r) << " bin " << over;
    c.nontrivial = true;
    c.throws<NotFoundError>("get-oob", [&] { h.GetBinContent(over); });
    c.throws<NotFoundError>("set-oob", [&] { h.SetBinContent(over, 1); });
    c.throws<NotFoundError>("add-oob", [&] { h.AddBinContent(over, 1); });
    vector<double> w(n + (s.boolean() ? 1 : size_t(-1)), 1);
    c.throws<DimensionError>("contents-size", [&] { h.SetBinContents(w); });
    vector<double> p(r.dims() + (s.boolean() ? 1 : size_t(-1)), 0);
    c.throws<DimensionError>("fill-dims", [&] { h.Fill(p); });
    std::map<string, double> mp;
    size_t miss = s.below(r.dims());
    for (size_t d = 0; d < r.dims(); d++)
        if (d != miss)
            mp[r.a[d].name] = 0;
    mp["unrelated"] = 1;
    c.throws<NotFoundError>("fill-incomplete", [&] { h.Fill(mp); });
    RAxes q = r;
    switch (s.below(3))
    {
    case 0:
        q.a[s.below(q.dims())].e.back() += 0.5;
        for (auto &x : q.a)
            x.uniform = false;
        break;
    case 1:
        q.a.push_back(genAxis(s, "extra", 3));
        break;
    default:
        q.a[s.below(q.dims())].e.push_back(1000);
        for (auto &x : q.a)
            x.uniform = false;
    }
    Histogram o(q.make());
    c.throws<ValueError>("add-binning", [&] { h.Add(o); });
    c.throws<ValueError>("mul-binning", [&] { h.Multiply(o); });
    c.throws<ValueError>("div-binning", [&] { h.Divide(o); });
    c.nearv("refusals-change-nothing", h.GetBinContents(), v);
    c.eq("bins-unchanged", h.GetNBins(), n);
}
// metamorphic: order of fills is irrelevant; filling = summing the single fills; weights are linear
FACET(fill_order, 2)
{
    RAxes r = genAxes(s, 1, 3, 5, 60);
    Histogram a(r.make()), b(r.make()), one(r.make()), two(r.make());
    size_t n = s.size(1, 12);
    vector<vector<double>> pts;
    vector<double> ws;
    for (size_t i = 0; i < n; i++)
    {
        pts.push_back(genPoint(s, r));
        ws.push_back(s.fine(8, 3));
    }
    auto perm = s.permutation(n);
    size_t cut = s.below(n + 1);
    for (size_t i = 0; i < n; i++)
    {
        a.Fill(pts[i], ws[i]);
        b.Fill(pts[perm[i]], ws[perm[i]]);
        (i < cut ? one : two).Fill(pts[i], ws[i]);
    }
    one.Add(two);
    c.desc << show(r) << n << " fills";
    c.nontrivial = r.bins() > 1 && n > 1;
    c.nearv("order", a.GetBinContents(), b.GetBinContents());
    c.nearv("split", a.GetBinContents(), one.GetBinContents());
    c.near("all-counted", a.Integral(), sum(ws));
}

// more bins than fit in 16 bits
ONCE(over_16_bits)
{
    RAxes r;
    const size_t n[] = {270, 3, 90};
    for (size_t d = 0; d < 3; d++)
    {
        RAxis a;
        a.name = "axis" + std::to_string(d);
        a.uniform = true;
        for (size_t j = 0; j <= n[d]; j++)
            a.e.push_back(double(j) / 4 - 5);
        r.a.push_back(a);
    }
    c.desc << "270 x 3 x 90 bins";
    c.nontrivial = true;
    Histogram h(r.make());
    vector<double> v(r.bins(), 0);
    for (size_t k = 0; k < 72000; k++)
    {
        size_t b = (k * 7919) % v.size();
        vector<size_t> t = r.unflat(b);
        h.Fill(vector<double>{r.a[0].centre(t[0]), r.a[1].centre(t[1]), r.a[2].centre(t[2])}, double(k % 5) + 1);
        v[b] += double(k % 5) + 1;
    }
    c.nearv("filled", h.GetBinContents(), v);
    c.near("integral", h.Integral(), sum(v));
    for (size_t b = 0; b < v.size(); b += 13)
    {
        h.AddBinContent(b, 2);
        v[b] += 2;
        c.near("get", h.GetBinContent(b), v[b]);
    }
    Histogram o(h);
    h.Add(o, 0.5);
    h.Multiply(o);
    for (auto &x : v)
        x = 1.5 * x * x;
    c.nearv("arithmetic", h.GetBinContents(), v);
    h.AddPadding(3);
    for (auto &x : v)
        x = x == 0 ? 3 : x;
    c.nearv("padded", h.GetBinContents(), v);
    vector<double> t(r.a[1].n(), 0), tt = t;
    for (size_t b = 0; b < v.size(); b++)
        t[r.unflat(b)[1]] += v[b];
    c.nearv("marginalised", h.Marginalise("axis1").GetBinContents(), t);
    std::map<string, size_t> fix = {{"axis0", 251}, {"axis2", 77}};
    for (size_t j = 0; j < 3; j++)
        tt[j] = v[r.flat({251, j, 77})];
    c.nearv("sliced", h.GetSlice(fix).GetBinContents(), tt);
}
// many bins
FACET(large, 1)
{
    RAxes r;
    size_t d = s.size(1, 5);
    for (size_t i = 0; i < d; i++)
    {
        RAxis a = genAxis(s, "axis" + std::to_string(i), r.bins() < 50 ? (d == 1 ? 3000 : 60) : 4, 2);
        r.a.push_back(a);
    }
    Histogram h(r.make());
    vector<double> v(r.bins());
    uint64_t k = s.below(1000) + 1;
    for (size_t i = 0; i < v.size(); i++)
        v[i] = double((i * k) % 97) / 13;
    c.desc << "bins " << r.bins() << " dims " << d << " contents (i*" << k << ")%97/13";
    c.nontrivial = true;
    h.SetBinContents(v);
    for (size_t n = 0; n < 10; n++)
    {
        vector<double> p = genPoint(s, r);
        double w = s.posfine(8, 2);
        h.Fill(p, w);
        v[r.find(p)] += w;
        size_t b = s.below(v.size());
        h.AddBinContent(b, 1);
        v[b] += 1;
    }
    Histogram o(h);
    o.Scale(0.5);
    h.Add(o, 2);
    for (auto &x : v)
        x *= 2;
    c.nearv("contents", h.GetBinContents(), v);
    c.near("integral", h.Integral(), sum(v));
    double t = sum(v);
    h.Normalise();
    for (auto &x : v)
        x /= t;
    c.nearv("normalised", h.GetBinContents(), v, 1e-9, 1e-12);
    vector<double> mean = h.Means();
    for (size_t j = 0; j < d; j++)
    {
        double mu = 0;
        for (size_t i = 0; i < v.size(); i++)
            mu += v[i] * r.a[j].centre(r.unflat(i)[j]);
        c.near("mean", mean.at(j), mu, 1e-9, 1e-8);
    }
}
