// Property-based testing core used by every harness in this directory.
//
// A test case is a function of a *choice sequence* (a vector of bounded integers).  Random search draws the
// choices from a PRNG, libFuzzer derives them from its input bytes, a replay file stores them literally and
// the shrinker minimises them (shorter sequence, smaller choices).  Generators map "choice 0" to their
// simplest value, so a shrunken sequence is a small case.
//
// Each case runs in a forked worker: a crash, a sanitizer report or a hang in the code under test is a
// failure of that case, with the same replay and shrinking machinery as an oracle mismatch.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{

struct Failure
{
    std::string id, msg;
};
struct Discard
{
};

// ---------------------------------------------------------------- choice source
class Src
{
public:
    explicit Src(uint64_t seed) : fMode(0), fState(seed) {}
    Src(const std::vector<uint64_t> &c) : fMode(1), fState(0), fReplay(c) {}
    Src(const uint8_t *d, size_t n) : fMode(2), fState(0), fBytes(d), fNBytes(n) {}

    // uniform in [0, n)
    uint64_t below(uint64_t n)
    {
        if (n <= 1)
        {
            return 0; // not a choice
        }
        uint64_t v = 0;
        if (fMode == 0)
            v = n == 0 ? next() : next() % n;
        else if (fMode == 1)
            v = fPos < fReplay.size() ? fReplay[fPos] : 0;
        else
        {
            size_t nb = n > (1ull << 32) ? 8 : n > (1 << 16) ? 4 : n > 256 ? 2 : 1;
            for (size_t i = 0; i < nb && fPos < fNBytes; i++)
                v |= uint64_t(fBytes[fPos++]) << (8 * i);
        }
        if (fMode == 1)
            fPos++;
        if (v >= n)
            v = fMode == 1 ? n - 1 : v % n;
        rec.push_back(v);
        if (mirror && mirror[0] + 2 < mirrorCap)
            mirror[++mirror[0]] = v;
        return v;
    }
    // inclusive; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
    size_t size(size_t lo, size_t hi) { return size_t(range(int64_t(lo), int64_t(hi))); }
    bool boolean() { return below(2); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false
    template <class T>
    const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    // a multiple of 2^-bits with |value| <= mag; exactly representable, shrinks to 0
    double dyadic(int mag, int bits)
    {
        int64_t k = int64_t(mag) << bits;
        int64_t m = range(0, k);
        bool neg = boolean();
        double v = std::ldexp(double(m), -bits);
        return neg ? -v : v;
    }
    // positive multiple of 2^-bits in (0, mag]
    double posdyadic(int mag, int bits)
    {
        int64_t k = int64_t(mag) << bits;
        return std::ldexp(double(range(1, k)), -bits);
    }
    // the same, but one in four has a part that single precision doesn't hold (2^-32; sums of few of them are still exact)
    double fine(int mag, int bits) { return tail(dyadic(mag, bits)); }
    double posfine(int mag, int bits) { return tail(posdyadic(mag, bits)); }
    double tail(double v) { return chance(1, 4) ? v + std::ldexp(double(range(1, 1 << 29)), -32) : v; }
    // generic real in [lo, hi]
    double real(double lo, double hi)
    {
        double u = double(below(1ull << 40)) / double((1ull << 40) - 1);
        return lo + u * (hi - lo);
    }
    std::vector<size_t> permutation(size_t n)
    {
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; i++)
            p[i] = i;
        for (size_t i = 0; i + 1 < n; i++)
            std::swap(p[i], p[i + below(n - i)]);
        return p;
    }
    bool exhausted() const { return fMode == 2 && fPos >= fNBytes; }

    std::vector<uint64_t> rec;
    uint64_t *mirror = nullptr; // shared memory copy of rec (count first), survives a crash of the process
    uint64_t mirrorCap = 0;

private:
    uint64_t next()
    { // splitmix64
        uint64_t z = (fState += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int fMode;
    uint64_t fState;
    std::vector<uint64_t> fReplay;
    size_t fPos = 0;
    const uint8_t *fBytes = nullptr;
    size_t fNBytes = 0;
};

// ---------------------------------------------------------------- per-case context
// description stream; mirrored into shared memory when set, so that it survives a crash of the process
class DescBuf : public std::streambuf
{
public:
    char *mirror = nullptr;
    size_t cap = 0, n = 0;
    std::string text;
    std::string str() const { return text; }

protected: // no put area, so that every character passes here
    std::streamsize xsputn(const char *s, std::streamsize k) override
    {
        for (std::streamsize i = 0; mirror && i < k && n + 1 < cap; i++)
            mirror[n++] = s[i];
        text.append(s, size_t(k));
        return k;
    }
    int overflow(int ch) override
    {
        if (ch != EOF)
        {
            char c = char(ch);
            xsputn(&c, 1);
        }
        return 0;
    }
};
class Desc : public std::ostream
{
public:
    Desc() : std::ostream(&buf) {}
    DescBuf buf;
    std::string str() const { return buf.str(); }
};
class Ctx
{
public:
    Desc desc; // human-readable description of the case
    bool nontrivial = false;
    std::map<std::string, long> tags;

    void tag(const std::string &t, bool b = true)
    {
        if (b)
            tags[t]++;
    }
    void fail(const std::string &id, const std::string &msg) { throw Failure{id, msg}; }
    void ok(const std::string &id, bool b, const std::string &msg = "")
    {
        if (!b)
            throw Failure{id, msg};
    }
    // floating point comparison with an absolute + relative tolerance; infinities and NaN compare by class
    static bool same(double a, double b, double rel = 1e-9, double abs = 1e-9)
    {
        if (std::isnan(a) || std::isnan(b))
            return std::isnan(a) && std::isnan(b);
        if (std::isinf(a) || std::isinf(b))
            return a == b;
        return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    }
    void near(const std::string &id, double got, double want, double rel = 1e-9, double abs = 1e-9,
              const std::string &what = "")
    {
        if (!same(got, want, rel, abs))
        {
            std::ostringstream o;
            o.precision(17);
            o << what << " got " << got << " want " << want;
            throw Failure{id, o.str()};
        }
    }
    template <class T, class U>
    void eq(const std::string &id, const T &got, const U &want, const std::string &what = "")
    {
        if (!(got == want))
        {
            std::ostringstream o;
            o.precision(17);
            o << what << " got " << got << " want " << want;
            throw Failure{id, o.str()};
        }
    }
    void nearv(const std::string &id, const std::vector<double> &got, const std::vector<double> &want,
               double rel = 1e-9, double abs = 1e-9, const std::string &what = "")
    {
        if (got.size() != want.size())
        {
            std::ostringstream o;
            o << what << " size got " << got.size() << " want " << want.size();
            throw Failure{id, o.str()};
        }
        for (size_t i = 0; i < got.size(); i++)
            if (!same(got[i], want[i], rel, abs))
            {
                std::ostringstream o;
                o.precision(17);
                o << what << " [" << i << "] got " << got[i] << " want " << want[i];
                throw Failure{id, o.str()};
            }
    }
    // f must throw an exception of type E (or derived)
    template <class E, class F>
    void throws(const std::string &id, F f, const std::string &what = "")
    {
        bool thrown = false;
        std::string other;
        try
        {
            f();
        }
        catch (const E &)
        {
            thrown = true;
        }
        catch (const std::exception &e)
        {
            other = std::string(" but another exception: ") + e.what();
        }
        if (!thrown)
            throw Failure{id, what + " expected an exception" + (other.empty() ? ", none was thrown" : other)};
    }
};

template <class T>
std::string str(const std::vector<T> &v)
{
    std::ostringstream o;
    o.precision(12);
    o << "[";
    for (size_t i = 0; i < v.size(); i++)
        o << (i ? "," : "") << v[i];
    o << "]";
    return o.str();
}
template <class K, class V>
std::string str(const std::map<K, V> &m)
{
    std::ostringstream o;
    o.precision(12);
    o << "{";
    bool first = true;
    for (auto &p : m)
    {
        o << (first ? "" : ",") << p.first << ":" << p.second;
        first = false;
    }
    o << "}";
    return o.str();
}

typedef std::function<void(Src &, Ctx &)> CaseFn;
struct Facet
{
    std::string name;
    unsigned weight;
    CaseFn fn;
};
struct Probe // one known finding: fails with the given id while the defect is there
{
    std::string key;
    std::function<void(Ctx &)> fn;
};
struct Registry
{
    std::vector<Facet> facets;
    std::vector<Probe> probes;
    static Registry &get()
    {
        static Registry r;
        return r;
    }
};
struct AddFacet
{
    AddFacet(const std::string &n, unsigned w, CaseFn f) { Registry::get().facets.push_back({n, w, f}); }
};
struct AddProbe
{
    AddProbe(const std::string &n, std::function<void(Ctx &)> f) { Registry::get().probes.push_back({n, f}); }
};

// what the property is, for evidence: how cases are made and what non-trivial means
extern const char *kRule;

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define FACET(name, weight)                                                            \
    static void PBT_CAT(facet_, name)(pbt::Src & s, pbt::Ctx & c);                     \
    static pbt::AddFacet PBT_CAT(add_, name)(#name, weight, PBT_CAT(facet_, name));    \
    static void PBT_CAT(facet_, name)(pbt::Src & s, pbt::Ctx & c)
// a large case which is run once
#define ONCE(name)                                                                     \
    static void PBT_CAT(once_, name)(pbt::Ctx & c);                                    \
    static pbt::AddFacet PBT_CAT(addo_, name)(#name, 0, [](pbt::Src &, pbt::Ctx &c) { PBT_CAT(once_, name)(c); }); \
    static void PBT_CAT(once_, name)(pbt::Ctx & c)
#define PROBE(name)                                                                    \
    static void PBT_CAT(probe_, name)(pbt::Ctx & c);                                   \
    static pbt::AddProbe PBT_CAT(addp_, name)(#name, PBT_CAT(probe_, name));           \
    static void PBT_CAT(probe_, name)(pbt::Ctx & c)
