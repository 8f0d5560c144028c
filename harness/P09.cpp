// BinnedEDShrinker against an explicit per-bin model.
// SRC: core histogram data dist fitutil systematic function
#include "edmodel.hpp"
#include <BinnedED.h>
#include <BinnedEDShrinker.h>

const char *pbt::kRule =
    "random 1-3 dimensional binnings, buffers per axis (none, zero, unequal lower and upper, too large, for unknown axes), "
    "overflow mode and contents, re-used for several distributions and buffer changes; non-trivial: at least one axis is "
    "buffered and at least two bins are kept";

namespace
{
void check(Ctx &c, const BinnedED &o, const Want &w, const vector<string> &obs)
{
    c.eq("dims", o.GetNDims(), w.ax.dims());
    c.eq("bins", size_t(o.GetNBins()), w.ax.bins());
    for (size_t d = 0; d < w.ax.dims(); d++)
    {
        const BinAxis &a = o.GetAxes().GetAxis(d);
        const RAxis &r = w.ax.a[d];
        c.eq("axis-name", a.GetName(), r.name);
        c.eq("axis-latex", a.GetLatexName(), r.make().GetLatexName());
        c.eq("axis-bins", size_t(a.GetNBins()), r.n());
        for (size_t i = 0; i < r.n(); i++)
        {
            c.near("low-edge", a.GetBinLowEdge(i), r.e[i]);
            c.near("high-edge", a.GetBinHighEdge(i), r.e[i + 1]);
            c.near("centre", a.GetBinCentre(i), r.centre(i));
        }
    }
    c.nearv("contents", o.GetBinContents(), w.v);
    c.ok("observables", o.GetObservables() == obs);
}
} // namespace

FACET(shrink, 8)
{
    RAxes ax = genAxes(s, 1, 3, 7, 120, s.chance(3, 4) ? 2 : 1);
    if (s.chance(1, 10))
    { // long axes
        ax = genAxes(s, 1, 2, 400, 800, 2);
        c.tag("long-axis");
    }
    c.desc << show(ax);
    vector<string> obs = ax.names();
    for (auto &x : obs)
        if (s.chance(1, 4))
            x = "obs_" + x;
    BinnedEDShrinker sh;
    c.ok("default-no-overflow", !sh.GetUsingOverflows());
    Buf b;
    bool over = false;
    size_t rounds = s.size(1, 3);
    for (size_t r = 0; r < rounds; r++)
    {
        // change some settings
        size_t nb = s.size(0, 3);
        for (size_t i = 0; i < nb; i++)
        {
            string name = s.chance(1, 10) ? "unknown" : s.pick(ax.names());
            size_t n = name == "unknown" ? 5 : ax.a[ax.index(name)].n();
            unsigned l, u;
            if (s.chance(1, 12)) // too large
            {
                l = s.size(0, n);
                u = n - l + s.below(2);
            }
            else
            {
                l = s.below(n);
                u = s.below(n - l);
            }
            sh.SetBuffer(name, l, u);
            b[name] = {l, u};
            c.desc << " buf(" << name << "," << l << "," << u << ")";
        }
        if (s.boolean())
        {
            over = s.boolean();
            sh.SetUsingOverflows(over);
        }
        c.desc << " over=" << over;
        c.ok("get-overflow", sh.GetUsingOverflows() == over);
        c.ok("get-buffers", sh.GetBuffers() == b);
        for (auto &p : b)
            c.ok("get-buffer", sh.GetBuffer(p.first) == p.second);
        c.throws<NotFoundError>("get-unknown", [&] { sh.GetBuffer("nowhere"); });

        BinnedED e("e", ax.make());
        e.SetObservables(obs);
        vector<double> v = genContents(s, ax.bins(), s.boolean());
        e.SetBinContents(v);
        if (!possible(ax, b))
        {
            c.throws<ValueError>("too-large", [&] { sh.SetBinMap(e); });
            for (auto &p : b) // a user would go back to buffers that fit
                if (p.first != "unknown" && (p.second.first || p.second.second) && p.second.first + p.second.second >= ax.a[ax.index(p.first)].n())
                {
                    p.second = {0, 0};
                    sh.SetBuffer(p.first, 0, 0);
                }
        }
        sh.SetBinMap(e);
        Want w = shrink(ax, v, b, over);
        BinnedED o = sh.ShrinkDist(e);
        check(c, o, w, obs);
        if (over)
            c.near("total-kept", o.Integral(), sum(v), 1e-9, 1e-9);
        c.nearv("operand-unchanged", e.GetBinContents(), v);
        // the same map serves every distribution with these axes
        vector<double> v2 = genContents(s, ax.bins());
        BinnedED e2("e2", ax.make());
        e2.SetObservables(obs);
        e2.SetBinContents(v2);
        check(c, sh.ShrinkDist(e2), shrink(ax, v2, b, over), obs);
        if (b.empty())
            c.eq("unshrunk-name", o.GetName(), string("e"));
        // copies of the shrinker do the same
        BinnedEDShrinker cp = sh;
        check(c, cp.ShrinkDist(e), w, obs);
        bool buffered = false;
        for (size_t d = 0; d < ax.dims(); d++)
            buffered |= w.ax.a[d].n() < ax.a[d].n();
        c.nontrivial |= buffered && w.ax.bins() >= 2;
        c.tag("overflow", over && buffered);
    }
}
// contents and axes in other units: what is kept scales exactly
FACET(units, 2)
{
    RAxes r = genAxes(s, 1, 3, 7, 120, 2), q = r;
    double u = genUnit(s);
    vector<double> a;
    for (auto &x : q.a)
    {
        a.push_back(s.boolean() ? 1 : genUnit(s));
        x = inUnits(x, a.back());
    }
    BinnedEDShrinker x, y;
    bool over = s.chance(2, 3);
    x.SetUsingOverflows(over);
    y.SetUsingOverflows(over);
    for (auto &d : r.a)
    {
        unsigned l = s.below(d.n()), h = s.below(d.n() - l);
        x.SetBuffer(d.name, l, h);
        y.SetBuffer(d.name, l, h);
        c.nontrivial |= l || h;
    }
    vector<double> v = genContents(s, r.bins(), s.boolean());
    if (s.chance(1, 3)) // large beside small
        for (auto &z : v)
            z *= genUnit(s);
    c.desc << show(r) << str(v) << " over=" << over << " contents times " << u << " axes times " << str(a);
    BinnedED b("b", r.make()), d("b", q.make());
    b.SetObservables(r.names());
    d.SetObservables(r.names());
    b.SetBinContents(v);
    d.SetBinContents(times(v, u));
    x.SetBinMap(b);
    y.SetBinMap(d);
    BinnedED o = x.ShrinkDist(b), p = y.ShrinkDist(d);
    c.nearv("contents", p.GetBinContents(), times(o.GetBinContents(), u), UREL, UABS);
    for (size_t i = 0; i < r.dims(); i++)
    {
        const BinAxis &m = o.GetAxes().GetAxis(i), &n = p.GetAxes().GetAxis(i);
        c.nearv("lows", n.GetBinLowEdges(), times(m.GetBinLowEdges(), a[i]), UREL, UABS);
        c.nearv("highs", n.GetBinHighEdges(), times(m.GetBinHighEdges(), a[i]), UREL, UABS);
        c.nearv("centres", n.GetBinCentres(), times(m.GetBinCentres(), a[i]), UREL, UABS);
    }
}
// shrinking a single axis
FACET(axis, 2)
{
    RAxis a = genAxis(s, "x", 8);
    unsigned l = s.below(a.n() + 2), u = s.below(a.n() + 2);
    c.desc << show(a) << " " << l << " " << u;
    BinnedEDShrinker sh;
    if ((l || u) && l + u >= a.n())
    {
        c.throws<ValueError>("axis-too-large", [&] { sh.ShrinkAxis(a.make(), l, u); });
        return;
    }
    BinAxis o = sh.ShrinkAxis(a.make(), l, u);
    c.eq("axis-n", size_t(o.GetNBins()), a.n() - l - u);
    c.eq("axis-nm", o.GetName(), a.name);
    c.eq("axis-ltx", o.GetLatexName(), a.make().GetLatexName());
    for (size_t i = 0; i < o.GetNBins(); i++)
    {
        c.near("axis-low", o.GetBinLowEdge(i), a.e[i + l]);
        c.near("axis-high", o.GetBinHighEdge(i), a.e[i + l + 1]);
        c.near("axis-centre", o.GetBinCentre(i), a.centre(i + l));
    }
    // every kept value is found in the same place
    for (int i = 0; i < 4; i++)
    {
        double x = genCoord(s, a);
        if (x >= a.e[l] && x < a.e[a.n() - u])
            c.eq("axis-find", size_t(o.FindBin(x)), a.find(x) - l);
    }
    c.nontrivial = l + u > 0 && o.GetNBins() >= 2;
}
