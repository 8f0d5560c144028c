#ifndef OXSX_VERIF_TLEAF
#define OXSX_VERIF_TLEAF
#include <TObject.h>
struct TLeaf : public TObject
{
    double fV = 0;
    double GetValue() const { return fV; }
};
#endif
