#ifndef OXSX_VERIF_TSTOPWATCH
#define OXSX_VERIF_TSTOPWATCH
struct TStopwatch
{
    void Start(bool = true) {}
    double RealTime() { return 0; }
};
#endif
