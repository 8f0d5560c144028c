// Stand-ins for the few ROOT classes the code uses (ROOT is not installed here): in-memory, no behaviour beyond the interface used.
#ifndef OXSX_VERIF_TOBJECT
#define OXSX_VERIF_TOBJECT
#include <string>
struct TObject
{
    std::string fN;
    TObject(const std::string &n = "") : fN(n) {}
    virtual ~TObject() {}
    virtual TObject *CloneObject() const { return new TObject(*this); }
    const char *GetName() const { return fN.c_str(); }
    void SetName(const char *n) { fN = n; }
};
#endif
