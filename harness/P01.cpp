// Bin axes and axis collections: indexing bijection, bin lookup, edges, validation.
// SRC: core histogram
#include "gens.hpp"

const char *pbt::kRule =
    "random axis collections (1-4 axes, 1-8 bins each, uniform or variable width) with query points on, next to, inside "
    "and outside every kind of edge; non-trivial: at least 2 bins in total and at least one query";

FACET(axis_edges, 2)
{
    RAxis r = genAxis(s, "x", 12);
    BinAxis a = r.make();
    c.desc << show(r);
    c.nontrivial = r.n() > 1;
    c.eq("nbins", a.GetNBins(), r.n());
    c.near("min", a.GetMin(), r.e.front());
    c.near("max", a.GetMax(), r.e.back());
    c.eq("name", a.GetName(), r.name);
    c.eq("latex", a.GetLatexName(), r.latex.empty() ? r.name : r.latex);
    c.near("minimum", a.GetMinimum(), r.e.front());
    c.near("maximum", a.GetMaximum(), r.e.back());
    c.eq("centre-count", a.GetBinCentres().size(), r.n());
    c.eq("edge-count", a.GetBinLowEdges().size() + a.GetBinHighEdges().size(), 2 * r.n());
    for (size_t i = 0; i < r.n(); i++)
    {
        c.near("low", a.GetBinLowEdge(i), r.e[i]);
        c.near("high", a.GetBinHighEdge(i), r.e[i + 1]);
        c.near("lows", a.GetBinLowEdges()[i], r.e[i]);
        c.near("highs", a.GetBinHighEdges()[i], r.e[i + 1]);
        c.near("centre", a.GetBinCentre(i), r.centre(i));
        c.near("all-centres", a.GetBinCentres()[i], r.centre(i));
        c.near("width", a.GetBinWidth(i), r.width(i));
        c.eq("centre-finds-itself", a.FindBin(a.GetBinCentre(i)), i);
        c.eq("low-edge-inclusive", a.FindBin(r.e[i]), i);
    }
    BinAxis named(a);
    named.SetName("other name");
    c.ok("renamed", named.GetName() == "other name" && named.GetLatexName() == a.GetLatexName() && a.GetName() == r.name);
    for (size_t i = 0; i <= r.n(); i++)
        c.eq("renamed-same-bins", named.FindBin(r.e[i]), a.FindBin(r.e[i]));
    // a second axis with the same edges compares equal, one with any edge moved does not
    RAxis o = r;
    o.uniform = false;
    c.ok("equal", a == o.make() && !(a != o.make()), "same edges");
    size_t k = s.below(o.e.size());
    if (k == 0)
        o.e[0] -= 0.0625;
    else
        o.e[k] += 0.0625;
    c.ok("unequal", a != o.make() && !(a == o.make()), "different edges");
}
FACET(axis_find, 4)
{
    RAxis r = genAxis(s, "x", 12);
    BinAxis a = r.make();
    c.desc << show(r) << " at";
    c.nontrivial = r.n() > 1;
    for (size_t k = s.size(1, 12); k-- > 0;)
    {
        double x = genCoord(s, r);
        if (s.chance(1, 20))
            x = s.boolean() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        c.desc << " " << x;
        c.tag("below", x < r.e.front());
        c.tag("above", x >= r.e.back());
        c.eq("find", a.FindBin(x), r.find(x), "value " + std::to_string(x));
    }
}
// arbitrary (not exactly representable) uniform binning: FindBin agrees with the axis's own edges
FACET(axis_find_inexact, 2)
{
    double lo = s.real(-100, 100), hi = lo + s.real(0.001, 300);
    size_t n = s.size(1, 40);
    BinAxis a("x", lo, hi, n);
    c.desc << "uniform " << lo << ".." << hi << " n=" << n;
    c.nontrivial = n > 1;
    c.eq("nbins", a.GetNBins(), n);
    double w = (hi - lo) / double(n);
    for (size_t i = 0; i < n; i++)
    {
        c.near("low", a.GetBinLowEdge(i), lo + double(i) * w, 1e-12, 1e-10);
        c.near("high", a.GetBinHighEdge(i), lo + double(i + 1) * w, 1e-12, 1e-10);
        c.near("centre", a.GetBinCentre(i), lo + (double(i) + 0.5) * w, 1e-12, 1e-10);
        c.near("width", a.GetBinWidth(i), w, 1e-9, 1e-12);
        c.eq("centre-finds-itself", a.FindBin(a.GetBinCentre(i)), i);
    }
    for (size_t k = 0; k < 8; k++)
    {
        double x = lo + (hi - lo) * s.real(-0.2, 1.2);
        size_t b = a.FindBin(x);
        c.ok("in-range", b < n, "bin index " + std::to_string(b));
        c.ok("low<=x", b == 0 || a.GetBinLowEdge(b) <= x, "x below its bin");
        c.ok("x<high", b == n - 1 || x < a.GetBinHighEdge(b), "x above its bin");
    }
}
FACET(axis_validation, 1)
{
    c.nontrivial = true;
    switch (s.below(5))
    {
    case 0:
    {
        double lo = s.dyadic(8, 3), hi = lo - double(s.range(0, 16)) / 8;
        c.desc << "max<=min " << lo << " " << hi;
        c.throws<OXSXException>("max<=min", [&] { BinAxis("x", lo, hi, s.size(1, 9)); });
        break;
    }
    case 1:
        c.desc << "zero bins";
        c.throws<OXSXException>("zero-bins", [&] { BinAxis("x", 0, 1 + s.posdyadic(3, 2), 0); });
        break;
    case 2:
    {
        RAxis r = genAxis(s, "x", 6, 2);
        vector<double> l(r.e.begin(), r.e.end() - 1), h(r.e.begin() + 1, r.e.end());
        if (s.boolean())
            l.pop_back();
        else
            h.push_back(100);
        c.desc << "size mismatch " << str(l) << str(h);
        c.throws<OXSXException>("edge-size-mismatch", [&] { BinAxis("x", l, h); });
        break;
    }
    case 3:
    {
        RAxis r = genAxis(s, "x", 6, 2);
        vector<double> l(r.e.begin(), r.e.end() - 1), h(r.e.begin() + 1, r.e.end());
        size_t i = s.below(l.size() - 1);
        std::swap(l[i], l[i + 1]);
        std::swap(h[i], h[i + 1]);
        c.desc << "unordered " << str(l) << str(h);
        c.throws<OXSXException>("unordered-edges", [&] { BinAxis("x", l, h); });
        break;
    }
    default:
    {
        RAxis r = genAxis(s, "x", 6, 1);
        vector<double> l(r.e.begin(), r.e.end() - 1), h(r.e.begin() + 1, r.e.end());
        size_t i = s.below(l.size());
        h[i] = l[i] - 0.125;
        c.desc << "low>high " << str(l) << str(h);
        c.throws<OXSXException>("low>high", [&] { BinAxis("x", l, h); });
    }
    }
}
FACET(collection_bijection, 4)
{
    RAxes r = genAxes(s, 1, 4, 6, 200);
    AxisCollection a = r.make();
    c.desc << show(r);
    c.nontrivial = r.bins() > 1;
    c.tag("dims" + std::to_string(r.dims()));
    c.eq("ndims", a.GetNDimensions(), r.dims());
    c.eq("nbins", a.GetNBins(), r.bins());
    c.ok("names", a.GetAxisNames() == r.names());
    auto T = r.tuples();
    std::set<size_t> seen;
    for (size_t f = 0; f < T.size(); f++)
    {
        size_t g = a.FlattenIndices(T[f]);
        c.eq("flatten-row-major", g, r.flat(T[f]));
        c.ok("flatten-range", g < r.bins());
        c.ok("flatten-injective", seen.insert(g).second);
        c.ok("unpack", a.UnpackIndices(g) == T[f], "unpack(flatten(t)) != t");
        vector<double> lo(r.dims()), hi(r.dims()), ce(r.dims());
        a.GetBinLowEdges(g, lo);
        a.GetBinHighEdges(g, hi);
        a.GetBinCentres(g, ce);
        for (size_t d = 0; d < r.dims(); d++)
        {
            c.eq("unflatten", a.UnflattenIndex(g, d), T[f][d]);
            c.near("low", a.GetBinLowEdge(g, d), r.a[d].e[T[f][d]]);
            c.near("high", a.GetBinHighEdge(g, d), r.a[d].e[T[f][d] + 1]);
            c.near("centre", a.GetBinCentre(g, d), r.a[d].centre(T[f][d]));
            c.near("width", a.GetBinWidth(g, d), r.a[d].width(T[f][d]));
            c.near("lows", lo[d], r.a[d].e[T[f][d]]);
            c.near("highs", hi[d], r.a[d].e[T[f][d] + 1]);
            c.near("centres", ce[d], r.a[d].centre(T[f][d]));
        }
        c.eq("centre-finds-itself", a.FindBin(ce), g);
    }
}
FACET(collection_find, 4)
{
    RAxes r = genAxes(s, 1, 4, 6, 400);
    AxisCollection a = r.make();
    c.desc << show(r) << " at";
    c.nontrivial = r.bins() > 1;
    for (size_t k = s.size(1, 10); k-- > 0;)
    {
        vector<double> p = genPoint(s, r);
        c.desc << " " << str(p);
        c.eq("find", a.FindBin(p), r.find(p), str(p));
    }
    // the same point in another binning of as many bins
    RAxes q = r;
    for (auto &x : q.a)
    {
        double by = double(s.range(-2, 2));
        for (auto &e : x.e)
            e += by;
    }
    AxisCollection b = q.make();
    for (size_t k = s.size(0, 3); k-- > 0;)
    {
        vector<double> p = genPoint(s, s.boolean() ? r : q);
        c.eq("find-in-one", a.FindBin(p), r.find(p), str(p));
        c.eq("find-in-other", b.FindBin(p), q.find(p), str(p));
    }
}
FACET(collection_errors, 2)
{
    RAxes r = genAxes(s, 1, 4, 4, 100);
    AxisCollection a = r.make();
    size_t n = r.bins(), d = r.dims();
    size_t over = s.boolean() ? n : n + s.size(1, 50);
    size_t od = d + s.size(0, 3), dd = s.below(d);
    c.desc << show(r) << " bin " << over << " dim " << od;
    c.nontrivial = true;
    vector<double> out(d);
    c.throws<std::exception>("lows-oob", [&] { a.GetBinLowEdges(over, out); });
    c.throws<std::exception>("highs-oob", [&] { a.GetBinHighEdges(over, out); });
    c.throws<std::exception>("centres-oob", [&] { a.GetBinCentres(over, out); });
    c.throws<NotFoundError>("low-oob", [&] { a.GetBinLowEdge(over, dd); });
    c.throws<NotFoundError>("high-oob", [&] { a.GetBinHighEdge(over, dd); });
    c.throws<NotFoundError>("centre-oob", [&] { a.GetBinCentre(over, dd); });
    c.throws<NotFoundError>("width-oob", [&] { a.GetBinWidth(over, dd); });
    c.throws<NotFoundError>("low-dim", [&] { a.GetBinLowEdge(0, od); });
    c.throws<NotFoundError>("high-dim", [&] { a.GetBinHighEdge(0, od); });
    c.throws<NotFoundError>("centre-dim", [&] { a.GetBinCentre(0, od); });
    c.throws<NotFoundError>("width-dim", [&] { a.GetBinWidth(0, od); });
    c.throws<NotFoundError>("axis-index", [&] { a.GetAxis(od); });
    c.throws<NotFoundError>("axis-name", [&] { a.GetAxis("no such axis"); });
    c.throws<NotFoundError>("axis-index-name", [&] { a.GetAxisIndex("no such axis"); });
    c.throws<DimensionError>("flatten-dims", [&] { a.FlattenIndices(vector<size_t>(d + 1, 0)); });
    c.throws<DimensionError>("find-dims", [&] { a.FindBin(vector<double>(d - 1, 0)); });
    vector<double> bad(d + 1);
    c.throws<DimensionError>("centres-dims", [&] { a.GetBinCentres(0, bad); });
    c.throws<DimensionError>("lows-dims", [&] { a.GetBinLowEdges(0, bad); });
    c.throws<DimensionError>("highs-dims", [&] { a.GetBinHighEdges(0, bad); });
    // a repeated axis name is refused and changes nothing
    c.throws<ValueError>("duplicate-name", [&] { a.AddAxis(genAxis(s, r.a[dd].name, 4).make()); });
    c.eq("after-refusal-bins", a.GetNBins(), n);
    c.eq("after-refusal-dims", a.GetNDimensions(), d);
    for (size_t i = 0; i < d; i++)
    {
        c.eq("name->index", a.GetAxisIndex(r.a[i].name), i);
        c.ok("axis-by-name", a.GetAxis(r.a[i].name) == r.a[i].make());
        c.ok("axis-by-index", a.GetAxis(i) == r.a[i].make());
    }
}
FACET(collection_compare, 1)
{
    RAxes r = genAxes(s, 1, 4, 5, 200), q = r;
    c.ok("equal", r.make() == q.make() && !(r.make() != q.make()));
    size_t k = s.below(r.dims());
    switch (s.below(3))
    {
    case 0:
        q.a[k].e[s.below(q.a[k].e.size() - 1) + 1] += 0.0625;
        q.a[k].uniform = false;
        break;
    case 1:
        q.a.push_back(genAxis(s, "extra", 4));
        break;
    default:
        q.a[k].e.push_back(q.a[k].e.back() + 1);
        q.a[k].uniform = false;
    }
    c.desc << show(r) << " vs " << show(q);
    c.nontrivial = true;
    c.ok("unequal", r.make() != q.make() && !(r.make() == q.make()));
    // whatever equality makes of the names, inequality is its opposite
    RAxes ren = r;
    ren.a[k].name += "2";
    c.ok("opposite", (r.make() == ren.make()) == !(r.make() != ren.make()) && (r.a[k].make() == ren.a[k].make()) == !(r.a[k].make() != ren.a[k].make()));
    c.ok("symmetric", (r.make() == ren.make()) == (ren.make() == r.make()));
    // incremental construction: AddAxes == AddAxis one by one
    AxisCollection one = r.make(), all;
    vector<BinAxis> v;
    for (auto &x : r.a)
        v.push_back(x.make());
    all.AddAxes(v);
    c.ok("add-axes", one == all && all.GetNBins() == r.bins() && all.GetNDimensions() == r.dims());
}

// many bins: one long axis, also among others, and many short axes
FACET(large, 1)
{
    RAxes r;
    if (s.chance(1, 4))
    { // more bins than would fit in 16 or 32 bits: a collection doesn't store them
        size_t d = s.size(2, 5);
        for (size_t i = 0; i < d; i++)
        {
            RAxis a;
            a.name = "axis" + std::to_string(i);
            a.uniform = s.boolean();
            size_t n = s.range(5, d == 2 ? (s.chance(1, 5) ? 100000 : 4000) : 300);
            double lo = s.dyadic(8, 3), w = s.posdyadic(2, 3);
            for (size_t j = 0; j <= n; j++)
                a.e.push_back(lo + double(j) * w);
            r.a.push_back(a);
        }
        c.tag(r.bins() >> 32 ? "over-32-bits" : r.bins() >> 16 ? "over-16-bits" : "fits-16-bits");
    }
    else if (s.boolean())
    {
        size_t d = s.size(1, 3), big = s.below(d);
        for (size_t i = 0; i < d; i++)
        {
            RAxis a;
            a.name = "axis" + std::to_string(i);
            size_t n = i == big ? s.size(20, d == 1 ? 70000 : 1200) : s.size(1, 3);
            a.uniform = i != big || s.boolean();
            a.e.push_back(s.dyadic(8, 3));
            double w = s.posdyadic(2, 3), alt = s.posdyadic(2, 3);
            for (size_t j = 0; j < n; j++)
                a.e.push_back(a.e.back() + (a.uniform || j % 3 ? w : alt));
            r.a.push_back(a);
        }
    }
    else
    {
        size_t d = s.size(5, 10);
        for (size_t i = 0; i < d; i++)
            r.a.push_back(genAxis(s, "axis" + std::to_string(d - i), r.bins() < 3000 ? 3 : 1));
    }
    c.desc << "axes";
    for (auto &x : r.a)
        c.desc << " " << x.n() << (x.uniform ? "~" : "") << " in " << x.e.front() << ".." << x.e.back();
    c.nontrivial = true;
    c.tag("dims" + std::to_string(r.dims()));
    AxisCollection a = r.make();
    c.eq("ndims", a.GetNDimensions(), r.dims());
    c.eq("nbins", a.GetNBins(), r.bins());
    size_t step = std::max<size_t>(1, r.bins() / 2000);
    for (size_t g = s.below(step); g < r.bins(); g += step)
    {
        vector<size_t> t = r.unflat(g);
        c.ok("unpack", a.UnpackIndices(g) == t, std::to_string(g));
        c.eq("flatten", a.FlattenIndices(t), g);
        vector<double> ce;
        for (size_t d = 0; d < r.dims(); d++)
        {
            ce.push_back(r.a[d].centre(t[d]));
            c.near("low", a.GetBinLowEdge(g, d), r.a[d].e[t[d]]);
            c.near("high", a.GetBinHighEdge(g, d), r.a[d].e[t[d] + 1]);
            c.near("centre", a.GetBinCentre(g, d), ce[d]);
            c.near("width", a.GetBinWidth(g, d), r.a[d].width(t[d]));
        }
        c.eq("centre-finds-itself", a.FindBin(ce), g);
    }
    for (size_t k = 0; k < 20; k++)
    {
        vector<double> p = genPoint(s, r);
        c.eq("find", a.FindBin(p), r.find(p), str(p));
    }
}
// the same axes in other units: every bin number is the same, every edge, centre and width scales exactly
FACET(units, 2)
{
    RAxes r = genAxes(s, 1, 3, 6, 200), q = r;
    vector<double> u;
    for (auto &a : q.a)
    {
        u.push_back(s.chance(1, 3) ? 1 : genUnit(s));
        a = inUnits(a, u.back());
    }
    AxisCollection a = r.make(), b = q.make();
    c.desc << show(r) << " times " << str(u);
    c.nontrivial = r.bins() > 1;
    for (size_t k = s.size(1, 8); k-- > 0;)
    {
        vector<double> p = genPoint(s, r), x = p;
        for (size_t d = 0; d < x.size(); d++)
        {
            p[d] = roundable(p[d]);
            x[d] = p[d] * u[d];
        }
        size_t f = a.FindBin(p);
        c.eq("find", b.FindBin(x), f, str(p));
        for (size_t d = 0; d < x.size(); d++)
        {
            c.near("low", b.GetBinLowEdge(f, d), a.GetBinLowEdge(f, d) * u[d], UREL, UABS);
            c.near("high", b.GetBinHighEdge(f, d), a.GetBinHighEdge(f, d) * u[d], UREL, UABS);
            c.near("centre", b.GetBinCentre(f, d), a.GetBinCentre(f, d) * u[d], UREL, UABS);
            c.near("width", b.GetBinWidth(f, d), a.GetBinWidth(f, d) * u[d], UREL, UABS);
        }
    }
    for (size_t d = 0; d < r.dims(); d++)
    {
        const BinAxis &m = a.GetAxis(d), &n = b.GetAxis(d);
        c.near("min", n.GetMin(), m.GetMin() * u[d], UREL, UABS);
        c.near("max", n.GetMax(), m.GetMax() * u[d], UREL, UABS);
        c.nearv("lows", n.GetBinLowEdges(), times(m.GetBinLowEdges(), u[d]), UREL, UABS);
        c.nearv("highs", n.GetBinHighEdges(), times(m.GetBinHighEdges(), u[d]), UREL, UABS);
        c.nearv("centres", n.GetBinCentres(), times(m.GetBinCentres(), u[d]), UREL, UABS);
        // an axis that differs at all is another axis
        RAxis o = q.a[d];
        size_t i = s.below(o.e.size());
        double far = std::ldexp(r.a[d].width(i ? i - 1 : 0), -30) * u[d];
        o.e[i] += i ? -far : far;
        o.uniform = false;
        c.ok("unequal", !(o.make() == n) || o.e[i] == q.a[d].e[i], "one edge moved by " + str(vector<double>{far}));
    }
}
// growing, copying and assigning collections: every stage answers for exactly the axes it holds
FACET(collection_history, 2)
{
    RAxes r = genAxes(s, 1, 3, 5, 100), o = genAxes(s, 1, 3, 5, 100);
    AxisCollection a = r.make();
    c.nontrivial = true;
    auto same = [&](const char *id, const AxisCollection &x, const RAxes &want) {
        c.ok(id, x.GetNDimensions() == want.dims() && x.GetNBins() == want.bins() && x.GetAxisNames() == want.names(), "shape");
        c.ok(id, want.dims() == 0 || x == want.make(), "equal axes");
        for (size_t k = 0; want.bins() && k < 4; k++)
        {
            vector<double> p = genPoint(s, want);
            size_t f = want.find(p), d = s.below(want.dims());
            c.eq(id, x.FindBin(p), f, "find " + str(p));
            c.ok(id, x.UnpackIndices(f) == want.unflat(f), "unpack");
            c.near(id, x.GetBinCentre(f, d), want.a[d].centre(want.unflat(f)[d]));
            c.eq(id, x.GetAxisIndex(want.a[d].name), d);
        }
    };
    c.desc << show(r);
    same("made", a, r);
    RAxes r0 = r;
    AxisCollection cp(a);
    for (size_t k = s.size(1, 4); k-- > 0;)
        switch (s.below(4))
        {
        case 0:
            if (r.bins() < 400)
            {
                r.a.push_back(genAxis(s, "more" + std::to_string(r.dims()), 4));
                c.desc << " add " << show(r.a.back());
                a.AddAxis(r.a.back().make());
            }
            same("added", a, r);
            break;
        case 1:
        { // a batch that repeats a name is refused; the axes before it may be kept, the repeated one never is
            vector<BinAxis> v;
            RAxes w = r;
            size_t n = s.below(3);
            for (size_t i = 0; i < n && w.bins() < 400; i++)
            {
                w.a.push_back(genAxis(s, "batch" + std::to_string(w.dims()), 3));
                v.push_back(w.a.back().make());
            }
            v.push_back(genAxis(s, w.a[s.below(w.dims())].name, 3).make());
            c.desc << " add batch ending in a repeated name";
            c.throws<ValueError>("duplicate-in-batch", [&] { a.AddAxes(v); });
            if (a.GetNDimensions() == w.dims())
                r = w;
            same("after-batch", a, r);
            break;
        }
        case 2:
            c.desc << " = " << show(o);
            a = o.make();
            r = o;
            same("assigned", a, r);
            break;
        default:
            c.desc << " = copy";
            a = cp;
            r = r0;
            same("assigned-copy", a, r);
        }
    same("copy", cp, r0);
}
