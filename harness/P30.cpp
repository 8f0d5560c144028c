// Conversions between ROOT histograms and OXO's: DistTools, against the in-memory stand-ins for ROOT's histograms.
// SRC: core data dist histogram function
// EXTRA: Rand.cpp DistTools.cpp Gaussian.cpp
#include "fakes.hpp"
#include <BinnedED.h>
#include <DistTools.h>
#include <Gaussian.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TH3D.h>

const char *pbt::kRule =
    "random histograms and distributions with 1-4 axes, uniform and variable binning and latex names, converted to ROOT histograms and "
    "back, random ROOT histograms, and densities integrated over random axes; non-trivial: at least two bins with different contents";

namespace
{
template <class T>
void axes(Ctx &c, T &h, const RAxes &ax)
{
    TAxis *a[3] = {h.GetXaxis(), ax.dims() > 1 ? h.GetYaxis() : nullptr, ax.dims() > 2 ? h.GetZaxis() : nullptr};
    for (size_t i = 0; i < ax.dims(); i++)
    {
        c.eq("axis-bins", size_t(a[i]->GetNbins()), ax.a[i].n());
        for (size_t b = 0; b < ax.a[i].n(); b++)
        {
            c.near("low-edge", a[i]->GetBinLowEdge(int(b) + 1), ax.a[i].e[b], 0, 1e-12);
            c.near("high-edge", a[i]->GetBinUpEdge(int(b) + 1), ax.a[i].e[b + 1], 0, 1e-12);
        }
        c.eq("title", string(a[i]->GetTitle()), ax.a[i].make().GetLatexName());
    }
}
int rbin(const THist &h, const RAxes &ax, size_t b)
{
    auto i = ax.unflat(b);
    return h.GetBin(int(i[0]) + 1, ax.dims() > 1 ? int(i[1]) + 1 : 0, ax.dims() > 2 ? int(i[2]) + 1 : 0);
}
void contents(Ctx &c, const string &id, const THist &h, const RAxes &ax, const vector<double> &v, bool perWidth = false)
{
    double total = 0, all = 0;
    for (size_t b = 0; b < ax.bins(); b++)
    {
        double w = v[b];
        if (perWidth)
            w /= ax.a[0].width(b);
        c.near(id, h.GetBinContent(rbin(h, ax, b)), w, 1e-12, 1e-12, "bin " + std::to_string(b));
        total += w;
    }
    size_t n = 1;
    for (size_t i = 0; i < ax.dims(); i++)
        n *= ax.a[i].n() + 2;
    for (size_t k = 0; k < n; k++)
        all += h.GetBinContent(int(k));
    c.near(id + "-nothing-outside", all, total, 1e-9, 1e-9);
}
void same(Ctx &c, const Histogram &h, const RAxes &ax, const vector<double> &v)
{
    c.eq("back-dims", size_t(h.GetNDims()), ax.dims());
    c.eq("back-bins", size_t(h.GetNBins()), ax.bins());
    c.nearv("back-contents", h.GetBinContents(), v, 0, 0);
    for (size_t i = 0; i < ax.dims(); i++)
    {
        const BinAxis a = h.GetAxes().GetAxis(i);
        c.nearv("back-low-edges", a.GetBinLowEdges(), vector<double>(ax.a[i].e.begin(), ax.a[i].e.end() - 1), 0, 1e-9);
        c.nearv("back-high-edges", a.GetBinHighEdges(), vector<double>(ax.a[i].e.begin() + 1, ax.a[i].e.end()), 0, 1e-9);
        c.eq("back-name", a.GetName(), ax.a[i].make().GetLatexName());
    }
}
} // namespace

FACET(round_trip, 6)
{
    RAxes ax = s.chance(1, 6) ? genAxes(s, 1, 3, 150, 1500) : genAxes(s, 1, 4, 4, 100);
    vector<double> v = genContents(s, ax.bins(), false);
    Histogram h(ax.make());
    h.SetBinContents(v);
    BinnedED e("e", h);
    e.SetObservables(ax.names());
    c.desc << show(ax) << str(v);
    c.nontrivial = std::set<double>(v.begin(), v.end()).size() > 1;
    if (ax.dims() != 1)
    {
        c.throws<DimensionError>("1d", [&] { DistTools::ToTH1D(h); });
        c.throws<DimensionError>("1d-ed", [&] { DistTools::ToTH1D(e); });
    }
    if (ax.dims() != 2)
    {
        c.throws<DimensionError>("2d", [&] { DistTools::ToTH2D(h); });
        c.throws<DimensionError>("2d-ed", [&] { DistTools::ToTH2D(e); });
    }
    if (ax.dims() != 3)
    {
        c.throws<DimensionError>("3d", [&] { DistTools::ToTH3D(h); });
        c.throws<DimensionError>("3d-ed", [&] { DistTools::ToTH3D(e); });
    }
    for (int k = 0; k < 2; k++)
        if (ax.dims() == 1)
        {
            TH1D t = k ? DistTools::ToTH1D(e) : DistTools::ToTH1D(h), w = k ? DistTools::ToTH1D(e, true) : DistTools::ToTH1D(h, true);
            axes(c, t, ax);
            axes(c, w, ax);
            contents(c, "content", t, ax, v);
            contents(c, "per-width", w, ax, v, true);
            same(c, DistTools::ToHist(t), ax, v);
        }
        else if (ax.dims() == 2)
        {
            TH2D t = k ? DistTools::ToTH2D(e) : DistTools::ToTH2D(h);
            axes(c, t, ax);
            contents(c, "content", t, ax, v);
            same(c, DistTools::ToHist(t), ax, v);
        }
        else if (ax.dims() == 3)
        {
            TH3D t = k ? DistTools::ToTH3D(e) : DistTools::ToTH3D(h);
            axes(c, t, ax);
            contents(c, "content", t, ax, v);
            same(c, DistTools::ToHist(t), ax, v);
        }
    c.nearv("unchanged", h.GetBinContents(), v, 0, 0);
}
FACET(density, 3)
{
    RAxes ax = genAxes(s, 1, 3, 4, 40);
    vector<double> m, w;
    for (size_t i = 0; i < ax.dims(); i++)
    {
        m.push_back(ax.a[i].e.front() + s.real(0, 1) * (ax.a[i].e.back() - ax.a[i].e.front()));
        w.push_back(s.posfine(4, 2));
    }
    Gaussian g(m, w, "g");
    c.desc << show(ax) << " means " << str(m) << " widths " << str(w);
    c.nontrivial = ax.bins() > 1;
    Histogram h = DistTools::ToHist(g, ax.make());
    c.eq("bins", size_t(h.GetNBins()), ax.bins());
    c.ok("axes", h.GetAxes() == ax.make());
    auto cdf = [&](size_t i, double x) { return 0.5 * std::erfc(-(x - m[i]) / w[i] / std::sqrt(2.)); };
    double total = 1;
    for (size_t b = 0; b < ax.bins(); b++)
    {
        auto t = ax.unflat(b);
        double want = 1;
        for (size_t i = 0; i < ax.dims(); i++)
            want *= cdf(i, ax.a[i].e[t[i] + 1]) - cdf(i, ax.a[i].e[t[i]]);
        c.near("bin-integral", h.GetBinContent(b), want, 1e-6, 1e-8, "bin " + std::to_string(b));
    }
    for (size_t i = 0; i < ax.dims(); i++)
        total *= cdf(i, ax.a[i].e.back()) - cdf(i, ax.a[i].e.front());
    c.near("total", h.Integral(), total, 1e-6, 1e-7);
    RAxes other = genAxes(s, 1, 4, 2, 16);
    if (other.dims() != ax.dims())
        c.throws<DimensionError>("dims", [&] { DistTools::ToHist(g, other.make()); });
}
FACET(from_root, 2)
{ // a ROOT histogram with content in its under- and overflow
    size_t n = s.size(1, s.chance(1, 6) ? 300 : 6);
    RAxis a = genAxis(s, "x", n, n);
    TH1D t("h", "", int(n), a.e.data());
    t.GetXaxis()->SetTitle("x");
    vector<double> v = genContents(s, n, false);
    for (size_t i = 0; i < n; i++)
        t.SetBinContent(int(i) + 1, v[i]);
    t.SetBinContent(0, 1000);
    t.SetBinContent(int(n) + 1, 2000);
    c.desc << show(a) << str(v);
    c.nontrivial = n > 1;
    RAxes ax;
    ax.a.push_back(a);
    ax.a[0].latex = "x";
    same(c, DistTools::ToHist(t), ax, v);
}
