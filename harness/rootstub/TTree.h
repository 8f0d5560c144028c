#ifndef OXSX_VERIF_TTREE
#define OXSX_VERIF_TTREE
#include <TFile.h>
#include <TLeaf.h>
#include <cstdlib>
#include <deque>
struct TObjArray
{
    std::vector<TObject> fO;
    TObject *At(int i) { return &fO.at(size_t(i)); }
};
class TTree : public TObject
{
public:
    TTree(const char *n, const char *) : TObject(n) {}
    TTree(const TTree &o) : TObject(o), fRows(o.fRows), fBranches(o.fBranches), fTypes(o.fTypes)
    {
        for (size_t i = 0; i < fBranches.fO.size(); i++)
            fLeaves.emplace_back();
    }
    TObject *CloneObject() const override { return new TTree(*this); }
    void Branch(const char *n, void *addr, const char *leaf)
    {
        std::string l(leaf);
        fBranches.fO.push_back(TObject(n));
        fTypes.push_back(l[l.size() - 1]);
        fAddr.push_back(addr);
        fLeaves.emplace_back();
    }
    void Fill()
    {
        std::vector<double> r;
        for (size_t i = 0; i < fAddr.size(); i++)
            r.push_back(fTypes[i] == 'D' ? *static_cast<double *>(fAddr[i]) : fTypes[i] == 'I' ? double(*static_cast<int *>(fAddr[i])) : fTypes[i] == 'F' ? double(*static_cast<float *>(fAddr[i])) : double(*static_cast<bool *>(fAddr[i])));
        fRows.push_back(r);
    }
    void AddRow(const std::vector<double> &r) { fRows.push_back(r); }
    const std::vector<std::vector<double>> &Rows() const { return fRows; }
    long GetEntries() const { return long(fRows.size()); }
    int GetNbranches() const { return int(fBranches.fO.size()); }
    TObjArray *GetListOfBranches() { return &fBranches; }
    TLeaf *GetLeaf(const char *n)
    {
        for (size_t i = 0; i < fBranches.fO.size(); i++)
            if (fBranches.fO[i].fN == n)
                return &fLeaves[i];
        return nullptr;
    }
    virtual int GetEntry(long i)
    {
        for (size_t k = 0; k < fLeaves.size(); k++)
            fLeaves[k].fV = fRows.at(size_t(i)).at(k);
        return 1;
    }
    void LoadBaskets() {}
    void DropBaskets() {}
    int Write()
    {
        TFile::Disk()[TFile::Current()][fN] = std::shared_ptr<TObject>(CloneObject());
        return 1;
    }

protected:
    std::vector<std::vector<double>> fRows;
    TObjArray fBranches;
    std::string fTypes;
    std::vector<void *> fAddr;
    std::deque<TLeaf> fLeaves;
};
#endif
