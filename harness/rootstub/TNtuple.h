#ifndef OXSX_VERIF_TNTUPLE
#define OXSX_VERIF_TNTUPLE
#include <TTree.h>
class TNtuple : public TTree
{
public:
    TNtuple(const char *n, const char *t, const char *vars) : TTree(n, t)
    {
        std::string v(vars), cur;
        for (size_t i = 0; i <= v.size(); i++)
            if (i == v.size() || v[i] == ':')
            {
                fBranches.fO.push_back(TObject(cur));
                fTypes.push_back('F');
                fLeaves.emplace_back();
                cur.clear();
            }
            else
                cur += v[i];
        fArgs.resize(fBranches.fO.size());
    }
    TNtuple(const TNtuple &o) : TTree(o), fArgs(o.fArgs) {}
    TObject *CloneObject() const override { return new TNtuple(*this); }
    int Fill(const float *x)
    {
        fRows.push_back(std::vector<double>(x, x + fArgs.size()));
        return 1;
    }
    int GetNvar() const { return int(fArgs.size()); }
    float *GetArgs() { return fArgs.data(); }
    int GetEntry(long i) override
    {
        TTree::GetEntry(i);
        for (size_t k = 0; k < fArgs.size(); k++)
            fArgs[k] = float(fRows.at(size_t(i)).at(k));
        return 1;
    }

private:
    std::vector<float> fArgs;
};
#endif
