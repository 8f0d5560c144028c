// Stand-in for ROOT's TRandom3 (ROOT is not installed here): same interface as used by src/rand/Rand.cpp, deterministic in
// its seed, uniform on the open interval (0, 1) like ROOT's.
#ifndef OXSX_VERIF_TRANDOM3
#define OXSX_VERIF_TRANDOM3
#include <cmath>
#include <cstdint>
class TRandom3
{
public:
    TRandom3(unsigned seed = 4357) { SetSeed(seed); }
    void SetSeed(unsigned long seed = 0)
    {
        fSeed = unsigned(seed);
        fState = 0x9e3779b97f4a7c15ull * (seed + 1);
    }
    unsigned GetSeed() const { return fSeed; }
    double Rndm()
    {
        calls()++;
        uint64_t z = (fState += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        z ^= z >> 31;
        if (extreme() && z % 4 == 0) // values next to the ends of the interval, which a fair stream hardly ever gives
            return (z >> 8) % 2 ? 1 - std::ldexp(1., -32) : std::ldexp(1., -32);
        return (double(z >> 32) + 0.5) / 4294967296.;
    }
    double Gaus(double mean = 0, double sigma = 1)
    {
        double u = Rndm(), v = Rndm();
        return mean + sigma * std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
    }
    int Poisson(double mean)
    {
        int k = 0;
        for (; mean > 300; mean -= 300) // the sum of Poisson numbers is one
            k += Poisson(300);
        double l = std::exp(-mean), p = 1;
        while ((p *= Rndm()) > l)
            k++;
        return k;
    }
    static unsigned long &calls()
    {
        static unsigned long n = 0;
        return n;
    }
    static bool &extreme()
    {
        static bool b = false;
        return b;
    }

private:
    unsigned fSeed;
    uint64_t fState;
};
#endif
