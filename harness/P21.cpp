// Leapfrog integration, numerical gradient, sigmoid boundary, Hamiltonian sampler.
// SRC: core data dist histogram function
// EXTRA: LeapFrog.cpp Rand.cpp
#include "gens.hpp"
#include <Gradient.h>
#include <HMCEnergy.h>
#include <HamiltonianSampler.h>
#include <LeapFrog.h>
#include <Rand.h>
#include <SigmoidBoundary.h>
#include <memory>

const char *pbt::kRule =
    "random quadratic, quartic and linear potentials over 1-4 parameters, random masses, momenta, steps, numbers of steps and boxes, "
    "including starts on the walls and in the corners of the box and symmetric starts that hit two walls at once; non-trivial: at "
    "least two parameters and two steps, or at least one reflection";

namespace
{
const vector<string> kNames0 = {"a", "norm", "shift", "z"};
vector<string> kNames = kNames0; // those of the case
// U(q) = sum k/2 (q-c)^2 + g q + w (q-c)^4 + coupling
struct Pot
{
    ParameterDict k, c, g, w;
    double couple = 0;
    double U(const ParameterDict &q) const
    {
        double u = 0, s = 0;
        for (auto &p : q)
        {
            double d = p.second - c.at(p.first);
            u += k.at(p.first) / 2 * d * d + g.at(p.first) * p.second + w.at(p.first) * d * d * d * d;
            s += p.second;
        }
        return u + couple / 2 * s * s;
    }
    ParameterDict operator()(const ParameterDict &q) const
    {
        ParameterDict r;
        double s = 0;
        for (auto &p : q)
            s += p.second;
        for (auto &p : q)
        {
            double d = p.second - c.at(p.first);
            r[p.first] = k.at(p.first) * d + g.at(p.first) + 4 * w.at(p.first) * d * d * d + couple * s;
        }
        return r;
    }
};
struct State
{
    ParameterDict q, p, m;
};
double kin(const State &s)
{
    double e = 0;
    for (auto &x : s.p)
        e += x.second * x.second / 2 / s.m.at(x.first);
    return e;
}
Pot genPot(Src &s, size_t n, bool quartic)
{
    Pot f;
    for (size_t i = 0; i < n; i++)
    {
        f.k[kNames[i]] = std::fabs(s.fine(2, 2));
        f.c[kNames[i]] = s.fine(2, 1);
        f.g[kNames[i]] = s.fine(1, 2);
        f.w[kNames[i]] = quartic && s.chance(1, 4) ? 1. / 16 : 0;
    }
    if (s.chance(1, 3))
        f.couple = 0.25;
    return f;
}
State genState(Src &s, size_t n)
{
    State x;
    for (size_t i = 0; i < n; i++)
    {
        x.q[kNames[i]] = s.fine(3, 2);
        x.p[kNames[i]] = s.fine(3, 2);
        x.m[kNames[i]] = s.posfine(4, 1);
    }
    return x;
}
// velocity Verlet, one step at a time
void verlet(State &x, double e, const Pot &f)
{
    ParameterDict g = f(x.q);
    for (auto &p : x.p)
        p.second -= e / 2 * g[p.first];
    for (auto &q : x.q)
        q.second += e * x.p[q.first] / x.m[q.first];
    g = f(x.q);
    for (auto &p : x.p)
        p.second -= e / 2 * g[p.first];
}
void sameDict(Ctx &c, const string &id, const ParameterDict &got, const ParameterDict &want, double tol)
{
    c.eq(id + "-n", got.size(), want.size());
    for (auto &p : want)
    {
        c.ok(id + "-name", got.count(p.first));
        c.near(id, got.at(p.first), p.second, tol, tol, p.first);
    }
}
bool sane(const ParameterDict &d)
{
    for (auto &p : d)
        if (!(std::fabs(p.second) < 1e4))
            return false;
    return true;
}
} // namespace

FACET(integrate, 5)
{
    kNames = styled(s, kNames0);
    size_t n = s.size(1, 4);
    Pot f = genPot(s, n, true);
    State x = genState(s, n), o = x;
    double e = std::ldexp(1., -int(s.size(1, 6)));
    int steps = int(s.size(1, 12));
    c.desc << "q" << str(x.q) << " p" << str(x.p) << " m" << str(x.m) << " step " << e << " x " << steps;
    c.nontrivial = n > 1 && steps > 1;
    State w = x;
    for (int i = 0; i < steps; i++)
        verlet(w, e, f);
    if (!sane(w.q) || !sane(w.p))
        throw pbt::Discard();
    State y = x;
    LeapFrog::Hamiltonian(y.q, y.p, y.m, e, f, steps);
    sameDict(c, "position", y.q, w.q, 1e-8);
    sameDict(c, "momentum", y.p, w.p, 1e-8);
    c.ok("masses", y.m == x.m);
    State z = x;
    for (int i = 0; i < steps; i++)
        LeapFrog::Hamiltonian(z.q, z.p, z.m, e, f);
    sameDict(c, "single-steps-position", z.q, w.q, 1e-8);
    sameDict(c, "single-steps-momentum", z.p, w.p, 1e-8);
    // a box far away makes no difference
    ParameterDict lo, hi;
    for (auto &p : x.q)
    {
        lo[p.first] = -1e5;
        hi[p.first] = 1e5;
    }
    State b = x;
    LeapFrog::Hamiltonian(b.q, b.p, b.m, e, f, steps, lo, hi);
    sameDict(c, "distant-box-position", b.q, w.q, 1e-8);
    sameDict(c, "distant-box-momentum", b.p, w.p, 1e-8);
    // and back
    for (auto &p : y.p)
        p.second *= -1;
    LeapFrog::Hamiltonian(y.q, y.p, y.m, e, f, steps);
    for (auto &p : y.p)
        p.second *= -1;
    sameDict(c, "reversed-position", y.q, x.q, 1e-7);
    sameDict(c, "reversed-momentum", y.p, x.p, 1e-7);
}
FACET(energy, 2)
{
    kNames = styled(s, kNames0);
    // uncoupled harmonic motion: leapfrog conserves p^2/2m + k/2 q^2 (1 - k e^2/4m) exactly, for any number of steps
    size_t n = s.size(1, 3);
    Pot f;
    for (size_t i = 0; i < n; i++)
    {
        f.k[kNames[i]] = s.posfine(2, 2);
        f.c[kNames[i]] = s.fine(2, 1);
        f.g[kNames[i]] = f.w[kNames[i]] = 0;
    }
    State x = genState(s, n);
    double e = std::ldexp(1., -int(s.size(2, 6)));
    int steps = int(s.chance(1, 4) ? s.size(60, 400) : s.size(1, 60));
    c.nontrivial = n > 1 && steps > 1;
    c.desc << "q" << str(x.q) << " p" << str(x.p) << " k" << str(f.k) << " step " << e << " x " << steps;
    auto modified = [&](const State &t, const string &nm) {
        double d = t.q.at(nm) - f.c.at(nm), m = t.m.at(nm), k = f.k.at(nm);
        return t.p.at(nm) * t.p.at(nm) / 2 / m + k / 2 * d * d * (1 - k * e * e / 4 / m);
    };
    State y = x;
    LeapFrog::Hamiltonian(y.q, y.p, y.m, e, f, steps);
    for (size_t i = 0; i < n; i++)
        c.near("conserved", modified(y, kNames[i]), modified(x, kNames[i]), 1e-8, 1e-8, kNames[i]);
}
FACET(reflections, 6)
{
    kNames = styled(s, kNames0);
    size_t n = s.size(1, 3);
    Pot f = genPot(s, n, false);
    bool drift = s.boolean(); // no force at all: the motion is known in closed form
    bool symmetric = s.chance(1, 3), nearTie = symmetric && s.boolean();
    if (drift)
    {
        f.couple = 0;
        for (auto &k : f.k)
            k.second = 0;
        for (auto &g : f.g)
            g.second = 0;
    }
    ParameterDict lo, hi;
    State x;
    for (size_t i = 0; i < n; i++)
    {
        string nm = kNames[i];
        lo[nm] = s.fine(3, 1);
        hi[nm] = lo[nm] + s.posfine(3, 1);
        int at = s.below(4);
        double w = hi[nm] - lo[nm];
        x.q[nm] = at == 0 ? lo[nm] + w * s.below(9) / 8. : at == 1 ? lo[nm] : at == 2 ? hi[nm] : lo[nm] + w / 2;
        x.p[nm] = s.fine(4, 2);
        x.m[nm] = s.posfine(2, 1);
        if (symmetric && i)
        { // hits the same kind of wall at the same time as the first parameter
            lo[nm] = lo[kNames[0]];
            hi[nm] = hi[kNames[0]];
            x.q[nm] = x.q[kNames[0]];
            x.p[nm] = x.p[kNames[0]];
            x.m[nm] = x.m[kNames[0]];
            if (nearTie) // or nearly
                x.p[nm] *= 1 + std::ldexp(double(s.range(-8, 8)), -14);
            f.k[nm] = f.k[kNames[0]];
            f.c[nm] = f.c[kNames[0]];
            f.g[nm] = f.g[kNames[0]];
        }
    }
    double e = std::ldexp(1., -int(s.size(0, 4)));
    int steps = int(s.size(1, 8));
    c.desc << "q" << str(x.q) << " p" << str(x.p) << " m" << str(x.m) << " box " << str(lo) << str(hi) << " step " << e << " x " << steps
           << (drift ? " drifting" : "");
    c.tag("symmetric", symmetric);
    c.tag("drifting", drift);
    State y = x;
    double moved = 0;
    bool wall = false; // a state on a wall between two steps makes the direction ambiguous
    for (int i = 0; i < steps; i++)
    {
        State b = y;
        LeapFrog::Hamiltonian(y.q, y.p, y.m, e, f, 1, lo, hi);
        for (auto &q : y.q)
        {
            double slack = 1e-9;
            wall = wall || q.second < lo[q.first] + 1e-6 || q.second > hi[q.first] - 1e-6;
            c.ok("inside", q.second >= lo[q.first] - slack && q.second <= hi[q.first] + slack,
                 q.first + "=" + std::to_string(q.second) + " outside [" + std::to_string(lo[q.first]) + "," + std::to_string(hi[q.first]) + "] after step " + std::to_string(i + 1));
            moved = std::max(moved, std::fabs(b.p[q.first]) * e / b.m[q.first] / (hi[q.first] - lo[q.first]));
        }
        if (drift)
            c.near("kinetic-energy", kin(y), kin(x), 1e-9, 1e-9);
    }
    c.nontrivial = moved > 1 || n > 1;
    c.tag("many-reflections", moved > 2);
    if (drift)
        for (auto &q : y.q)
        { // unfold: free motion on a line of mirrored copies of the box
            double L = hi[q.first] - lo[q.first], v = x.p[q.first] / x.m[q.first];
            double u = x.q[q.first] - lo[q.first] + v * e * steps;
            double r = std::fmod(std::fmod(u, 2 * L) + 2 * L, 2 * L);
            double want = lo[q.first] + (r > L ? 2 * L - r : r);
            c.near("billiard-position", q.second, want, 1e-8, 1e-8, q.first);
            c.near("billiard-momentum", std::fabs(y.p[q.first]), std::fabs(x.p[q.first]), 1e-12, 1e-12, q.first);
            if (r > 1e-6 && r < L - 1e-6)
                c.near("billiard-direction", y.p[q.first], x.p[q.first], 1e-12, 1e-12, q.first);
            if (r > L + 1e-6 && r < 2 * L - 1e-6)
                c.near("billiard-direction", y.p[q.first], -x.p[q.first], 1e-12, 1e-12, q.first);
        }
    // all steps at once are the same as one after another
    State z = x;
    LeapFrog::Hamiltonian(z.q, z.p, z.m, e, f, steps, lo, hi);
    sameDict(c, "steps-position", z.q, y.q, 1e-9);
    sameDict(c, "steps-momentum", z.p, y.p, 1e-9);
    for (auto &q : x.q)
        wall = wall || q.second < lo[q.first] + 1e-6 || q.second > hi[q.first] - 1e-6;
    if (!wall)
    {
        c.tag("reversed");
        State r = y;
        for (auto &p : r.p)
            p.second *= -1;
        LeapFrog::Hamiltonian(r.q, r.p, r.m, e, f, steps, lo, hi);
        sameDict(c, "reversed-position", r.q, x.q, 1e-6);
    }
}
struct Fn
{ // a statistic: any smooth function of its parameters
    const Pot &f;
    ParameterDict now;
    size_t evals = 0;
    explicit Fn(const Pot &f_) : f(f_) {}
    void SetParameters(const ParameterDict &d) { now = d; }
    double Evaluate()
    {
        evals++;
        return f.U(now);
    }
    std::set<string> GetParameterNames() const
    {
        std::set<string> r;
        for (auto &p : f.k)
            r.insert(p.first);
        return r;
    }
};
// positions, times and masses in other units: the same motion in those units, with and without walls
FACET(units, 3)
{
    kNames = styled(s, kNames0);
    size_t n = s.size(1, 3);
    Pot f = genPot(s, n, true);
    State x = genState(s, n);
    double a = genUnit(s), t = genUnit(s), m = genUnit(s), e = std::ldexp(1., -int(s.size(1, 6)));
    int steps = int(s.size(1, 12));
    c.nontrivial = n > 1 || steps > 1;
    auto times = [](ParameterDict d, double u) {
        for (auto &p : d)
            p.second *= u;
        return d;
    };
    State y = x;
    y.q = times(x.q, a), y.m = times(x.m, m), y.p = times(x.p, m * a / t);
    auto g = [&](const ParameterDict &q) { return times(f(times(q, 1 / a)), m * a / t / t); };
    c.desc << "q" << str(x.q) << " p" << str(x.p) << " m" << str(x.m) << " step " << e << " x " << steps << " units " << a << " " << t << " " << m;
    bool box = s.boolean();
    if (box)
    {
        ParameterDict lo, hi;
        for (auto &p : x.q)
        {
            lo[p.first] = p.second - s.posfine(3, 2) * double(s.below(5) > 0);
            hi[p.first] = p.second + s.posfine(3, 2);
        }
        c.desc << " between " << str(lo) << " and " << str(hi);
        LeapFrog::Hamiltonian(x.q, x.p, x.m, e, f, steps, lo, hi);
        LeapFrog::Hamiltonian(y.q, y.p, y.m, e * t, g, steps, times(lo, a), times(hi, a));
    }
    else
    {
        LeapFrog::Hamiltonian(x.q, x.p, x.m, e, f, steps);
        LeapFrog::Hamiltonian(y.q, y.p, y.m, e * t, g, steps);
    }
    if (!sane(x.q) || !sane(x.p))
        throw pbt::Discard();
    c.tag("box", box);
    for (auto &p : x.q)
        c.near("position", y.q.at(p.first), p.second * a, UREL, UABS, p.first);
    for (auto &p : x.p)
        c.near("momentum", y.p.at(p.first), p.second * m * a / t, UREL, UABS, p.first);
}
FACET(gradient, 3)
{
    kNames = styled(s, kNames0);
    size_t n = s.size(1, 4);
    Pot f = genPot(s, n, true);
    State x = genState(s, n);
    double e = std::ldexp(1., -int(s.size(1, 8)));
    c.desc << "q" << str(x.q) << " epsilon " << e;
    c.nontrivial = n > 1;
    Fn st(f);
    Gradient<Fn> g(st, e);
    ParameterDict q = x.q, got = g(x.q);
    c.ok("point-unchanged", q == x.q);
    c.eq("n", got.size(), n);
    for (auto &p : x.q)
    {
        ParameterDict h = x.q, l = x.q;
        h[p.first] += e;
        l[p.first] -= e;
        c.near("central-difference", got[p.first], (f.U(h) - f.U(l)) / (2 * e), 1e-9, 1e-9, p.first);
        if (f.w[p.first] == 0) // exact for polynomials of second degree
            c.near("derivative", got[p.first], f(x.q)[p.first], 1e-7, 1e-7, p.first);
    }
    { // a statistic with tiny or huge values, of parameters in other units
        struct InUnits
        {
            Fn f;
            double v, u;
            void SetParameters(ParameterDict d)
            {
                for (auto &p : d)
                    p.second /= u;
                f.SetParameters(d);
            }
            double Evaluate() { return f.Evaluate() * v; }
            std::set<string> GetParameterNames() const { return f.GetParameterNames(); }
        } su{st, genUnit(s), genUnit(s)};
        ParameterDict r = x.q;
        for (auto &p : r)
            p.second *= su.u;
        ParameterDict there = r;
        Gradient<InUnits> gu(su, e * su.u);
        ParameterDict d = gu(r);
        for (auto &p : got)
            c.near("gradient-units", d[p.first], p.second * su.v / su.u, UREL, UABS, p.first);
        c.ok("gradient-units-point", r == there);
    }
    // the negative log likelihood is the energy
    HMCEnergy<Fn> h(st);
    h.SetParameters(x.q);
    c.near("energy", h.Evaluate(), -f.U(x.q), 1e-12, 1e-12);
    c.ok("energy-names", h.GetParameterNames() == st.GetParameterNames());
    Gradient<HMCEnergy<Fn>> gh(h, e);
    ParameterDict neg = gh(x.q);
    for (auto &p : x.q)
        c.near("energy-gradient", neg[p.first], -got[p.first], 1e-9, 1e-9);
}
FACET(sigmoid, 3)
{
    kNames = styled(s, kNames0);
    size_t n = s.size(1, 3);
    Pot f = genPot(s, n, false);
    State x = genState(s, n);
    double mu = s.pick(vector<double>{0.5, 1, 10, 1000});
    ParameterDict lo, hi;
    for (size_t i = 0; i < n; i++)
    {
        if (s.chance(2, 3))
            lo[kNames[i]] = s.fine(3, 2);
        if (s.chance(2, 3))
            hi[kNames[i]] = s.fine(3, 2);
    }
    c.desc << "q" << str(x.q) << " min " << str(lo) << " max " << str(hi) << " mu " << mu;
    c.nontrivial = !lo.empty() && !hi.empty();
    Fn st(f);
    std::unique_ptr<SigmoidBoundary<Fn>> b(mu == 1000 ? new SigmoidBoundary<Fn>(st, lo, hi) : new SigmoidBoundary<Fn>(st, lo, hi, mu));
    for (int k = 0; k < 2; k++)
    {
        b->SetParameters(x.q);
        double want = f.U(x.q);
        auto soft = [](double t) { return std::max(t, 0.) + std::log1p(std::exp(-std::fabs(t))); }; // log(1 + e^t)
        for (auto &p : lo)
            want += soft(-mu * (x.q[p.first] - p.second));
        for (auto &p : hi)
            want += soft(mu * (x.q[p.first] - p.second));
        c.near("penalty", b->Evaluate(), want, 1e-9, 1e-9);
        c.near("penalty-again", b->Evaluate(), want, 1e-9, 1e-9);
        c.ok("names", b->GetParameterNames() == st.GetParameterNames());
        x.q[kNames[s.below(n)]] += s.fine(4, 2);
    }
}
FACET(sampler, 3)
{
    kNames = styled(s, kNames0);
    size_t n = s.size(1, 3);
    bool quartic = s.boolean(); // the numerical gradient isn't exact then, but close for small steps
    Pot f = genPot(s, n, quartic);
    State x = genState(s, n);
    Fn st(f);
    double e = std::ldexp(1., -int(quartic ? s.size(4, 6) : s.size(2, 5)));
    double tol = quartic ? 2e-3 : 1e-5;
    int steps = int(s.size(1, 6));
    HamiltonianSampler<Fn> h(st, e, steps);
    ParameterDict ones;
    for (auto &p : x.q)
        ones[p.first] = 1;
    c.ok("default-masses", h.GetMasses() == ones);
    if (s.boolean())
        h.SetMasses(x.m);
    else
        x.m = ones;
    c.ok("masses", h.GetMasses() == x.m);
    c.near("kinetic", h.KineticEnergy(x.p), kin(x), 1e-12, 1e-12);
    bool box = s.boolean();
    ParameterDict lo, hi;
    if (box)
    {
        for (auto &q : x.q)
        {
            lo[q.first] = q.second - std::fabs(s.fine(1, 2)) - 0.25;
            hi[q.first] = q.second + std::fabs(s.fine(1, 2)) + 0.25;
        }
        h.SetMinima(lo);
        h.SetMaxima(hi);
        c.ok("box", h.GetMinima() == lo && h.GetMaxima() == hi);
    }
    unsigned seed = unsigned(s.below(10000));
    c.desc << "q" << str(x.q) << " m" << str(x.m) << " step " << e << " x " << steps << " seed " << seed << (box ? " box" : "");
    c.nontrivial = n > 1 && steps > 1;
    Rand::SetSeed(seed);
    ParameterDict q0 = x.q, q1 = h.Draw(x.q);
    double corr = h.CorrectAccParam();
    c.ok("start-unchanged", q0 == x.q);
    // the same random momenta, independently integrated with the exact gradient
    Rand::SetSeed(seed);
    State y = x;
    for (auto &p : y.q)
        y.p[p.first] = Rand::Gaus(0, std::sqrt(y.m[p.first]));
    double k0 = kin(y);
    if (!box)
    {
        for (int i = 0; i < steps; i++)
            verlet(y, e, f);
        sameDict(c, "proposal", q1, y.q, tol);
        c.near("acceptance-correction", corr, k0 - kin(y), tol, tol);
        // energy is conserved to the order of the step squared, so the proposal is a good one
    }
    else
        for (auto &q : q1)
            c.ok("proposal-inside", q.second >= lo[q.first] - 1e-9 && q.second <= hi[q.first] + 1e-9, q.first);
    if (box)
    { // walls that aren't reached don't matter
        bool clear = true;
        for (int i = 0; i < steps; i++)
        {
            verlet(y, e, f);
            for (auto &q : y.q)
                clear = clear && q.second > lo[q.first] + 0.01 && q.second < hi[q.first] - 0.01;
        }
        if (clear)
        {
            sameDict(c, "proposal-in-box", q1, y.q, tol);
            c.near("acceptance-correction-in-box", corr, k0 - kin(y), tol, tol);
        }
    }
    // a second draw from the same random state and start is the same
    Rand::SetSeed(seed);
    ParameterDict q2 = h.Draw(x.q);
    c.ok("reproducible", q1 == q2);
    c.eq("reproducible-correction", h.CorrectAccParam(), corr);
}
