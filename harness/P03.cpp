// Histogram reductions: marginalisation, slicing, lattice lookup.
// SRC: core histogram
#include "gens.hpp"

const char *pbt::kRule =
    "random 1-4 dimensional histograms with distinct contents, projected on random axis subsets in random order, sliced at "
    "random fixed bins, and queried at points between bin centres; non-trivial: at least 2 dimensions for reductions, or "
    "at least 2 bins on an axis for lattice queries";

static vector<double> distinct(Src &s, size_t n)
{
    vector<double> v(n);
    bool neg = s.chance(1, 4);
    for (size_t i = 0; i < n; i++)
    {
        v[i] = s.tail(double(i + 1) + 0.25 * double(s.below(3)));
        if (neg && s.boolean())
            v[i] = -v[i];
    }
    return v;
}
FACET(marginalise, 4)
{
    RAxes r = s.chance(1, 8) ? genAxes(s, 1, 6, 12, 600) : genAxes(s, 1, 4, 4, 120);
    Histogram h(r.make());
    vector<double> v = distinct(s, r.bins());
    h.SetBinContents(v);
    auto perm = s.permutation(r.dims());
    size_t keep = s.size(1, r.dims());
    RAxes q;
    vector<size_t> idx;
    for (size_t i = 0; i < keep; i++)
    {
        q.a.push_back(r.a[perm[i]]);
        idx.push_back(perm[i]);
    }
    c.desc << show(r) << str(v) << " onto " << str(q.names());
    c.nontrivial = r.dims() > 1;
    c.tag("reordered", !std::is_sorted(idx.begin(), idx.end()));
    vector<double> want(q.bins(), 0);
    for (auto &t : r.tuples())
    {
        vector<size_t> u;
        for (size_t k : idx)
            u.push_back(t[k]);
        want[q.flat(u)] += v[r.flat(t)];
    }
    Histogram m = (keep == 1 && s.boolean()) ? h.Marginalise(q.a[0].name) : h.Marginalise(q.names());
    c.ok("axes", m.GetAxes() == q.make(), "projected axes");
    c.ok("axis-names", m.GetAxisNames() == q.names());
    c.nearv("marginal", m.GetBinContents(), want);
    c.near("total", m.Integral(), sum(v));
    c.nearv("original-unchanged", h.GetBinContents(), v);
    c.throws<NotFoundError>("unknown-axis", [&] { h.Marginalise("nothing"); });
    // marginalising in two steps is the same
    if (keep > 1)
    {
        size_t k2 = s.size(1, keep - 1);
        vector<string> sub;
        for (size_t i = 0; i < k2; i++)
            sub.push_back(q.a[i].name);
        c.nearv("two-step", m.Marginalise(sub).GetBinContents(), h.Marginalise(sub).GetBinContents());
    }
}
FACET(slice, 4)
{
    RAxes r = s.chance(1, 8) ? genAxes(s, 1, 6, 12, 600) : genAxes(s, 1, 4, 4, 120);
    Histogram h(r.make());
    vector<double> v = distinct(s, r.bins());
    h.SetBinContents(v);
    size_t nfix = s.below(r.dims());
    auto perm = s.permutation(r.dims());
    std::map<string, size_t> fix;
    std::map<size_t, size_t> fixIdx;
    for (size_t i = 0; i < nfix; i++)
    {
        size_t b = s.below(r.a[perm[i]].n());
        fix[r.a[perm[i]].name] = b;
        fixIdx[perm[i]] = b;
    }
    RAxes q;
    vector<size_t> idx;
    for (size_t d = 0; d < r.dims(); d++)
        if (!fixIdx.count(d))
        {
            q.a.push_back(r.a[d]);
            idx.push_back(d);
        }
    c.desc << show(r) << str(v) << " fixed " << str(fix);
    c.nontrivial = r.dims() > 1 && nfix > 0;
    c.tag("free" + std::to_string(idx.size()));
    Histogram sl = h.GetSlice(fix);
    c.ok("axes", sl.GetAxes() == q.make(), "slice axes");
    for (auto &u : q.tuples())
    {
        vector<size_t> t(r.dims());
        for (auto &p : fixIdx)
            t[p.first] = p.second;
        for (size_t i = 0; i < idx.size(); i++)
            t[idx[i]] = u[i];
        c.near("slice", sl.GetBinContent(q.flat(u)), v[r.flat(t)], 1e-12, 1e-12, "slice bin " + str(u));
    }
    c.nearv("original-unchanged", h.GetBinContents(), v);
    // the slices over one axis sum to the projection that drops it
    if (r.dims() > 1)
    {
        size_t d = s.below(r.dims());
        vector<string> rest;
        for (size_t i = 0; i < r.dims(); i++)
            if (i != d)
                rest.push_back(r.a[i].name);
        Histogram tot = h.GetSlice({{r.a[d].name, 0}});
        for (size_t b = 1; b < r.a[d].n(); b++)
            tot.Add(h.GetSlice({{r.a[d].name, b}}));
        c.nearv("slices-sum-to-marginal", tot.GetBinContents(), h.Marginalise(rest).GetBinContents());
    }
}
// contents and axes in other units: reductions scale exactly
FACET(units, 2)
{
    RAxes r = genAxes(s, 1, 4, 4, 120), q = r;
    double u = genUnit(s);
    vector<double> a;
    for (auto &x : q.a)
    {
        a.push_back(s.boolean() ? 1 : genUnit(s));
        x = inUnits(x, a.back());
    }
    vector<double> v = genContents(s, r.bins(), s.boolean());
    Histogram h(r.make()), g(q.make());
    h.SetBinContents(v);
    g.SetBinContents(times(v, u));
    c.desc << show(r) << str(v) << " contents times " << u << " axes times " << str(a);
    c.nontrivial = r.dims() > 1;
    vector<size_t> perm = s.permutation(r.dims());
    vector<string> on;
    std::map<string, size_t> fix;
    for (size_t i = 0, n = s.size(1, r.dims()); i < n; i++)
        on.push_back(r.a[perm[i]].name);
    for (size_t i = 0, n = s.below(r.dims()); i < n; i++)
        fix[r.a[perm[i]].name] = s.below(r.a[perm[i]].n());
    Histogram hm = h.Marginalise(on), gm = g.Marginalise(on);
    c.nearv("marginal", gm.GetBinContents(), times(hm.GetBinContents(), u), UREL, UABS);
    Histogram hs = h.GetSlice(fix), gs = g.GetSlice(fix);
    c.nearv("slice", gs.GetBinContents(), times(hs.GetBinContents(), u), UREL, UABS);
    auto axes = [&](const Histogram &x, const Histogram &y) { // the reduced axes are the original ones
        for (auto &n : x.GetAxisNames())
        {
            const BinAxis &i = x.GetAxes().GetAxis(n), &j = y.GetAxes().GetAxis(n);
            double b = a[r.index(n)];
            c.nearv("lows", j.GetBinLowEdges(), times(i.GetBinLowEdges(), b), UREL, UABS);
            c.nearv("highs", j.GetBinHighEdges(), times(i.GetBinHighEdges(), b), UREL, UABS);
            c.nearv("centres", j.GetBinCentres(), times(i.GetBinCentres(), b), UREL, UABS);
        }
    };
    axes(hm, gm);
    axes(hs, gs);
}
FACET(slice_refusals, 1)
{
    RAxes r = genAxes(s, 1, 4, 4, 100);
    Histogram h(r.make());
    h.SetBinContents(distinct(s, r.bins()));
    c.nontrivial = true;
    c.desc << show(r);
    std::map<string, size_t> all;
    for (auto &a : r.a)
        all[a.name] = s.below(a.n());
    c.throws<DimensionError>("all-fixed", [&] { h.GetSlice(all); });
    c.throws<NotFoundError>("unknown-axis", [&] { h.GetSlice({{"nothing", 0}}); });
    if (r.dims() > 1)
    {
        size_t d = s.below(r.dims());
        size_t over = r.a[d].n() + s.below(20);
        c.desc << " axis " << r.a[d].name << " bin " << over;
        c.throws<std::exception>("fixed-bin-oob", [&] { h.GetSlice({{r.a[d].name, over}}); });
    }
}
// GetLatticePointValues: the 2^N bin centres around a point strictly inside the lattice of bin centres
FACET(lattice, 3)
{
    RAxes r = (s.chance(1, 8) ? genAxes(s, 1, 5, 12, 800, 2) : genAxes(s, 1, 4, 5, 200, 2));
    Histogram h(r.make());
    vector<double> v = distinct(s, r.bins());
    h.SetBinContents(v);
    vector<double> p;
    vector<size_t> lo;
    for (auto &a : r.a)
    { // bin-centre pair b, b+1 brackets the point
        size_t b = s.below(a.n() - 1);
        lo.push_back(b);
        double f = s.below(4) == 0 ? 0 : s.real(0.001, 0.999);
        if (b == a.n() - 2 && s.chance(1, 4))
            f = 1; // exactly at the last bin centre
        p.push_back(a.centre(b) + f * (a.centre(b + 1) - a.centre(b)));
    }
    c.desc << show(r) << " at " << str(p);
    c.nontrivial = true;
    c.tag("dims" + std::to_string(r.dims()));
    vector<vector<double>> locs;
    vector<double> got = h.GetLatticePointValues(p, locs);
    size_t n = size_t(1) << r.dims();
    c.eq("count", got.size(), n);
    c.eq("locs", locs.size(), n);
    for (size_t k = 0; k < n; k++)
    {
        vector<size_t> t;
        for (size_t d = 0; d < r.dims(); d++)
            t.push_back(lo[d] + ((k >> d) & 1));
        c.near("lattice-value", got[k], v[r.flat(t)], 1e-12, 1e-12, "corner " + std::to_string(k));
        for (size_t d = 0; d < r.dims(); d++)
            c.near("lattice-location", locs[k].at(d), r.a[d].centre(t[d]));
    }
}
// outside the lattice of bin centres there are no surrounding points: refused, never read out of bounds
FACET(lattice_outside, 1)
{
    RAxes r = genAxes(s, 1, 3, 5, 100, 1);
    Histogram h(r.make());
    h.SetBinContents(distinct(s, r.bins()));
    vector<double> p;
    size_t bad = s.below(r.dims());
    for (size_t d = 0; d < r.dims(); d++)
    {
        const RAxis &a = r.a[d];
        double l = a.centre(0), u = a.centre(a.n() - 1);
        double x = l + s.real(0, 0.999) * (u - l);
        if (d == bad)
            x = s.boolean() ? u + s.posfine(2, 3) : l - s.posfine(2, 3);
        p.push_back(x);
    }
    c.desc << show(r) << " at " << str(p);
    c.nontrivial = true;
    vector<vector<double>> locs;
    c.throws<OXSXException>("outside-lattice", [&] { h.GetLatticePointValues(p, locs); });
}
