#ifndef OXSX_VERIF_THIST
#define OXSX_VERIF_THIST
#include <TFile.h>
class TAxis
{
public:
    std::vector<double> fE;
    std::string fT;
    const char *GetTitle() const { return fT.c_str(); }
    void SetTitle(const char *t) { fT = t; }
    double GetBinLowEdge(int b) const { return fE.at(size_t(b - 1)); }
    double GetBinUpEdge(int b) const { return fE.at(size_t(b)); }
    double GetBinWidth(int b) const { return GetBinUpEdge(b) - GetBinLowEdge(b); }
    int GetNbins() const { return int(fE.size()) - 1; }
    int Find(double x) const
    {
        int b = 0;
        while (b < int(fE.size()) && x >= fE[size_t(b)])
            b++;
        return b;
    }
};
// one to three dimensions; bins 0 and n + 1 of each axis are the under- and overflow
class THist : public TObject
{
public:
    THist(size_t d, const char *n) : TObject(n), fA(d) {}
    void SetDirectory(void *) {}
    TAxis *GetXaxis() { return &fA.at(0); }
    TAxis *GetYaxis() { return &fA.at(1); }
    TAxis *GetZaxis() { return &fA.at(2); }
    const TAxis *GetXaxis() const { return &fA.at(0); }
    const TAxis *GetYaxis() const { return &fA.at(1); }
    const TAxis *GetZaxis() const { return &fA.at(2); }
    int GetNbinsX() const { return fA.at(0).GetNbins(); }
    int GetNbinsY() const { return fA.at(1).GetNbins(); }
    int GetNbinsZ() const { return fA.at(2).GetNbins(); }
    int GetBin(int x, int y = 0, int z = 0) const
    {
        int nx = GetNbinsX() + 2, ny = fA.size() > 1 ? GetNbinsY() + 2 : 1;
        return x + nx * (y + ny * z);
    }
    double GetBinContent(int b) const { return fC.at(size_t(b)); }
    void SetBinContent(int b, double v) { fC.at(size_t(b)) = v; }
    void SaveAs(const char *f) const { TFile::Disk()[f][fN] = std::shared_ptr<TObject>(CloneObject()); }

protected:
    void Edges(size_t d, int n, const double *e) { fA.at(d).fE.assign(e, e + n + 1); }
    void Edges(size_t d, int n, double lo, double hi)
    {
        for (int i = 0; i <= n; i++)
            fA.at(d).fE.push_back(i == n ? hi : lo + (hi - lo) * i / n);
    }
    void Finish()
    {
        size_t n = 1;
        for (auto &a : fA)
            n *= a.fE.size() + 1;
        fC.assign(n, 0);
    }
    std::vector<TAxis> fA;
    std::vector<double> fC;
};
class TH1D : public THist
{
public:
    TH1D(const char *n, const char *, int nx, const double *x) : THist(1, n)
    {
        Edges(0, nx, x);
        Finish();
    }
    TH1D(const char *n, const char *, int nx, double lo, double hi) : THist(1, n)
    {
        Edges(0, nx, lo, hi);
        Finish();
    }
    TObject *CloneObject() const override { return new TH1D(*this); }
    void Fill(double x, double w = 1) { fC[size_t(fA[0].Find(x))] += w; }
};
class TH2D : public THist
{
public:
    TH2D(const char *n, const char *, int nx, const double *x, int ny, const double *y) : THist(2, n)
    {
        Edges(0, nx, x);
        Edges(1, ny, y);
        Finish();
    }
    TObject *CloneObject() const override { return new TH2D(*this); }
    void Fill(double x, double y, double w = 1) { fC[size_t(GetBin(fA[0].Find(x), fA[1].Find(y)))] += w; }
    using THist::SetBinContent;
    void SetBinContent(int x, int y, double v) { fC.at(size_t(GetBin(x, y))) = v; }
    using THist::GetBinContent;
    double GetBinContent(int x, int y) const { return fC.at(size_t(GetBin(x, y))); }
};
class TH3D : public THist
{
public:
    TH3D(const char *n, const char *, int nx, const double *x, int ny, const double *y, int nz, const double *z) : THist(3, n)
    {
        Edges(0, nx, x);
        Edges(1, ny, y);
        Edges(2, nz, z);
        Finish();
    }
    TObject *CloneObject() const override { return new TH3D(*this); }
    void Fill(double x, double y, double z, double w = 1) { fC[size_t(GetBin(fA[0].Find(x), fA[1].Find(y), fA[2].Find(z)))] += w; }
    using THist::SetBinContent;
    void SetBinContent(int x, int y, int z, double v) { fC.at(size_t(GetBin(x, y, z))) = v; }
    using THist::GetBinContent;
    double GetBinContent(int x, int y, int z) const { return fC.at(size_t(GetBin(x, y, z))); }
};
#endif
