// Function objects: Gaussian, GaussianFitter, JumpPDF, VaryingCDF, SquareRootScale, Heaviside.
// Gaussian and VaryingCDF need ROOT's random numbers and are built against the stand-in in rootstub/.
// SRC: core data dist histogram function
// EXTRA: Rand.cpp Gaussian.cpp VaryingCDF.cpp
#include "fakes.hpp"
#include <Gaussian.h>
#include <Heaviside.h>
#include <JumpPDF.h>
#include <Rand.h>
#include <SquareRootScale.h>
#include <VaryingCDF.h>
#include <memory>

const char *pbt::kRule =
    "random Gaussians in 1-4 dimensions with random means, widths, cut-offs, points, boxes and cuts of boxes; random histories of "
    "setting, renaming, copying and assigning parameters over a pool of Gaussians, shifted densities, square-root scales and "
    "conditional densities with parameter functions; random step functions; non-trivial: more than one dimension, object or constraint";

namespace
{
// a randomly chosen standard library alternative to the GSL call used by the code under test
double phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.)); }
struct RGaus
{
    vector<double> m, s;
    vector<string> mn, sn;
    double cut = 6;
    size_t n() const { return m.size(); }
    double pdf(const vector<double> &x) const
    {
        double p = 1;
        for (size_t i = 0; i < n(); i++)
        {
            double z = (x[i] - m[i]) / s[i];
            p *= std::exp(-z * z / 2) / (s[i] * std::sqrt(2 * M_PI));
        }
        return p;
    }
    double cdf(size_t i, double x) const
    {
        double z = (x - m[i]) / s[i];
        return z > cut ? 1 : z < -cut ? 0 : phi(z);
    }
    double integral(const vector<double> &lo, const vector<double> &hi) const
    {
        double p = 1;
        for (size_t i = 0; i < n(); i++)
            p *= cdf(i, hi[i]) - cdf(i, lo[i]);
        return p;
    }
    vector<string> names() const
    {
        vector<string> v = mn;
        v.insert(v.end(), sn.begin(), sn.end());
        return v;
    }
    std::set<string> nameSet() const
    {
        auto v = names();
        return std::set<string>(v.begin(), v.end());
    }
    bool has(const string &p) const { return nameSet().count(p); }
    double &slot(size_t i) { return i < n() ? m[i] : s[i - n()]; }
    double slot(size_t i) const { return i < n() ? m[i] : s[i - n()]; }
    string &name(size_t i) { return i < n() ? mn[i] : sn[i - n()]; }
    void set(const string &p, double v)
    {
        for (size_t i = 0; i < 2 * n(); i++)
            if (name(i) == p)
                slot(i) = v;
    }
};
RGaus genRGaus(Src &s, size_t maxd = 4)
{
    RGaus r;
    size_t n = maxd > 3 && s.chance(1, 8) ? s.size(5, 14) : s.size(1, maxd);
    for (size_t i = 0; i < n; i++)
    {
        r.m.push_back(s.fine(8, 3));
        r.s.push_back(s.posfine(4, 3));
        r.mn.push_back("means_" + std::to_string(i));
        r.sn.push_back("stddevs_" + std::to_string(i));
    }
    return r;
}
string show(const RGaus &r) { return "means " + str(r.m) + " widths " + str(r.s); }
vector<double> genNear(Src &s, const RGaus &r, double reach = 8)
{
    vector<double> x;
    for (size_t i = 0; i < r.n(); i++)
        x.push_back(r.m[i] + r.s[i] * (s.boolean() ? s.real(-reach, reach) : double(s.range(-int(reach), int(reach)))));
    return x;
}
// does every way of looking at the Gaussian agree with the model?
void compare(Ctx &c, const string &id, const Gaussian &g, const RGaus &r)
{
    c.eq(id + "-dims", g.GetNDims(), r.n());
    c.near(id + "-cutoff", g.GetCdfCutOff(), r.cut, 0, 0);
    c.nearv(id + "-means", g.GetMeans(), r.m, 0, 0);
    c.nearv(id + "-stdevs", g.GetStdDevs(), r.s, 0, 0);
    for (size_t i = 0; i < r.n(); i++)
    {
        c.near(id + "-mean", g.GetMean(i), r.m[i], 0, 0);
        c.near(id + "-stdev", g.GetStDev(i), r.s[i], 0, 0);
    }
    c.ok(id + "-mean-names", g.GetMeanNames() == r.mn);
    c.ok(id + "-stdev-names", g.GetStDevNames() == r.sn);
    auto names = r.nameSet();
    c.ok(id + "-names", g.GetParameterNames() == names);
    if (names.size() == 2 * r.n())
        c.eq(id + "-count", g.GetParameterCount(), 2 * r.n());
    ParameterDict d = g.GetParameters();
    c.eq(id + "-dict-size", d.size(), names.size());
    for (auto &p : names)
    { // slots which share a name by renaming may differ until it is next set: any of them will do
        std::set<double> v;
        for (size_t i = 0; i < 2 * r.n(); i++)
            if (r.names()[i] == p)
                v.insert(r.slot(i));
        c.ok(id + "-dict", d.count(p) && v.count(d[p]), p);
        c.ok(id + "-parameter", v.count(g.GetParameter(p)), p + " got " + std::to_string(g.GetParameter(p)));
    }
    bool valid = true; // a width that is not positive has been set: no density
    for (double x : r.s)
        valid = valid && x > 0;
    if (!valid)
        return;
    vector<double> x = r.m;
    for (size_t i = 0; i < r.n(); i++)
        x[i] += r.s[i] * 0.5 * double(i % 4 + 1) + (i % 4 ? 0 : r.s[i]);
    c.near(id + "-value", g(x), r.pdf(x), 1e-9, 1e-290);
    c.near(id + "-integral", g.Integral(r.m, x), r.integral(r.m, x), 1e-9, 1e-12);
}
} // namespace

FACET(density, 3)
{
    RGaus r = genRGaus(s);
    vector<double> x = genNear(s, r);
    c.desc << show(r) << " at " << str(x);
    c.nontrivial = r.n() > 1;
    Gaussian g(r.m, r.s, "g");
    compare(c, "made", g, r);
    c.near("value", g(x), r.pdf(x), 1e-9, 1e-290);
    c.near("symmetric", g(x), [&] { auto y = x; for (size_t i = 0; i < y.size(); i++) y[i] = 2 * r.m[i] - y[i]; return g(y); }(), 1e-9, 0);
    c.near("whole", g.Integral(), 1, 0, 0);
    c.eq("name", g.GetName(), string("g"));
    // other constructors
    size_t n = s.size(1, 4);
    Gaussian u(n, "u");
    RGaus ru = r;
    ru.m.assign(n, 0);
    ru.s.assign(n, 1);
    ru.mn.clear();
    ru.sn.clear();
    for (size_t i = 0; i < n; i++)
    {
        ru.mn.push_back("means_" + std::to_string(i));
        ru.sn.push_back("stddevs_" + std::to_string(i));
    }
    compare(c, "unit", u, ru);
    Gaussian o(r.m[0], r.s[0], "o");
    RGaus ro = r;
    ro.m.resize(1);
    ro.s.resize(1);
    ro.mn.resize(1);
    ro.sn.resize(1);
    compare(c, "one", o, ro);
    // refusals
    vector<double> bad = x;
    if (s.boolean())
        bad.push_back(0);
    else
        bad.pop_back();
    c.throws<DimensionError>("value-dims", [&] { g(bad); });
    c.throws<DimensionError>("integral-dims", [&] { g.Integral(bad, x); });
    c.throws<DimensionError>("integral-dims-2", [&] { g.Integral(x, bad); });
    vector<double> bs = r.s;
    bs[s.below(bs.size())] = s.boolean() ? 0 : -0.5;
    {
        Gaussian std1;
        c.eq("default-dims", std1.GetNDims(), size_t(1));
        c.ok("default-mean-width", std1.GetMean(0) == 0 && std1.GetStDev(0) == 1);
        double u = s.fine(4, 2);
        c.near("default-value", std1(vector<double>(1, u)), std::exp(-u * u / 2) / std::sqrt(2 * M_PI), 1e-9, 1e-12);
        c.ok("default-name", !std1.GetName().empty());
        Gaussian named(r.m, r.s, "first");
        c.eq("given-name", named.GetName(), string("first"));
        named.SetName("second");
        c.eq("set-name", named.GetName(), string("second"));
        c.near("named-value", named(x), g(x), 1e-12, 0);
    }
    c.throws<ValueError>("width", [&] { Gaussian b(r.m, bs, "b"); });
    c.throws<DimensionError>("sizes", [&] { Gaussian b(bad, r.s, "b"); });
    c.throws<NotFoundError>("mean-range", [&] { g.GetMean(r.n() + s.below(3)); });
    c.throws<NotFoundError>("stdev-range", [&] { g.GetStDev(r.n() + s.below(3)); });
}
// a Gaussian in other units
FACET(units, 2)
{
    RGaus r = genRGaus(s, 3), q = r;
    vector<double> x = genNear(s, r), lo = genNear(s, r), hi = genNear(s, r), y = x, l = lo, h = hi;
    double u = genUnit(s), all = 1;
    for (size_t i = 0; i < r.n(); i++)
    {
        q.m[i] *= u, q.s[i] *= u, y[i] *= u, l[i] *= u, h[i] *= u;
        all *= u;
    }
    c.desc << show(r) << " times " << u << " at " << str(x) << " from " << str(lo) << " to " << str(hi);
    c.nontrivial = r.n() > 1;
    Gaussian g(r.m, r.s), f(q.m, q.s);
    c.near("density", f(y), g(x) / all, 1e-9, 1e-280);
    c.near("integral", f.Integral(l, h), g.Integral(lo, hi), 1e-9, 1e-13);
    for (size_t i = 0; i < r.n(); i++)
    {
        c.near("cdf", f.Cdf(i, l[i]), g.Cdf(i, lo[i]), 1e-9, 1e-13);
        f.SetParameter("means_" + std::to_string(i), q.m[i] * 2);
        f.SetParameter("stddevs_" + std::to_string(i), q.s[i] * 2);
        y[i] *= 2;
    }
    c.near("density-doubled", f(y), g(x) / all / std::exp2(double(r.n())), 1e-9, 1e-280);
}
FACET(integral, 4)
{
    RGaus r = genRGaus(s, 3);
    if (s.boolean())
        r.cut = s.pick(vector<double>{1, 2.5, 4, 10});
    Gaussian g(r.m, r.s, "g");
    c.near("default-cutoff", g.GetCdfCutOff(), 6, 0, 0);
    g.SetCdfCutOff(r.cut);
    c.near("cutoff", g.GetCdfCutOff(), r.cut, 0, 0);
    vector<double> a = genNear(s, r), b = genNear(s, r), lo, hi;
    for (size_t i = 0; i < r.n(); i++)
    {
        lo.push_back(std::min(a[i], b[i]));
        hi.push_back(std::max(a[i], b[i]));
    }
    c.desc << show(r) << " cut-off " << r.cut << " box " << str(lo) << str(hi);
    c.nontrivial = r.n() > 1 || r.cut != 6;
    for (size_t i = 0; i < r.n(); i++)
        c.near("cdf", g.Cdf(i, hi[i]), r.cdf(i, hi[i]), 1e-9, 1e-12);
    double I = g.Integral(lo, hi);
    c.near("box", I, r.integral(lo, hi), 1e-9, 1e-12);
    c.ok("not-negative", I >= 0);
    c.ok("at-most-one", I <= 1 + 1e-12);
    // additive over a cut of the box
    size_t d = s.below(r.n());
    double at = lo[d] + (hi[d] - lo[d]) * s.real(0, 1);
    vector<double> m1 = hi, m2 = lo;
    m1[d] = m2[d] = at;
    c.near("additive", g.Integral(lo, m1) + g.Integral(m2, hi), I, 1e-9, 1e-12);
    vector<double> L, H;
    for (size_t i = 0; i < r.n(); i++)
    {
        double k = std::max(r.cut, 6.) + 1;
        L.push_back(r.m[i] - k * r.s[i]);
        H.push_back(r.m[i] + k * r.s[i]);
    }
    c.near("whole-range", g.Integral(L, H), 1, 1e-8, 0);
    // the integral of the value itself, inside the cut-off
    bool inside = true;
    for (size_t i = 0; i < r.n(); i++)
        inside = inside && std::fabs(lo[i] - r.m[i]) <= r.cut * r.s[i] && std::fabs(hi[i] - r.m[i]) <= r.cut * r.s[i];
    if (inside && r.n() == 1)
    {
        const int N = 400;
        double h = (hi[0] - lo[0]) / N, q = 0;
        for (int k = 0; k <= N; k++)
            q += (k == 0 || k == N ? 1 : k % 2 ? 4 : 2) * g(vector<double>(1, lo[0] + k * h));
        c.near("integral-of-value", I, q * h / 3, 1e-6, 1e-8);
        c.tag("quadrature");
    }
    Gaussian cp(g);
    c.near("copy-cutoff", cp.GetCdfCutOff(), r.cut, 0, 0);
    c.near("copy-integral", cp.Integral(lo, hi), I, 0, 0);
}
FACET(parameters, 6)
{
    vector<std::unique_ptr<Gaussian>> g;
    vector<RGaus> r;
    r.push_back(genRGaus(s));
    g.emplace_back(new Gaussian(r[0].m, r[0].s, "g"));
    c.desc << show(r[0]);
    size_t steps = s.size(1, 10);
    bool moved = false;
    for (size_t k = 0; k < steps; k++)
    {
        size_t i = s.below(r.size());
        RGaus &R = r[i];
        Gaussian &G = *g[i];
        double v = s.fine(8, 3), w = s.posfine(4, 3);
        size_t d = s.below(R.n());
        auto names = R.names();
        string p = s.pick(names);
        c.desc << " | " << i << ":";
        switch (s.below(13))
        {
        case 11:
            R.cut = s.pick(vector<double>{1, 2.5, 4, 6, 10});
            c.desc << "cut-off " << R.cut;
            G.SetCdfCutOff(R.cut);
            break;
        case 0:
            c.desc << "mean " << d << "=" << v;
            G.SetMean(d, v);
            R.m[d] = v;
            break;
        case 1:
            c.desc << "width " << d << "=" << w;
            G.SetStDev(d, w);
            R.s[d] = w;
            break;
        case 2:
            for (auto &x : R.m)
                x = s.fine(8, 3);
            c.desc << "means " << str(R.m);
            G.SetMeans(R.m);
            break;
        case 3:
            for (auto &x : R.s)
                x = s.posfine(4, 3);
            c.desc << "widths " << str(R.s);
            G.SetStDevs(R.s);
            break;
        case 4:
            c.desc << "set " << p << "=" << w;
            G.SetParameter(p, w);
            R.set(p, w);
            moved = true;
            break;
        case 5:
        {
            ParameterDict q;
            for (auto &x : names)
                if (s.chance(3, 4))
                    q[x] = s.posfine(4, 3);
            c.desc << "set " << str(q);
            G.SetParameters(q);
            for (auto &x : q)
                R.set(x.first, x.second);
            moved = true;
            break;
        }
        case 6:
        case 7:
        { // new name, the same name, or (sometimes) one that is taken, so that the two are tied together
            string to = s.boolean() ? "p" + std::to_string(s.below(8)) : s.pick(names);
            c.desc << "rename " << p << " to " << to;
            G.RenameParameter(p, to);
            for (size_t j = 0; j < 2 * R.n(); j++)
                if (R.name(j) == p)
                    R.name(j) = to;
            moved = true;
            break;
        }
        case 8:
        {
            c.desc << "copy";
            if (r.size() < 4)
            {
                g.emplace_back(s.boolean() ? static_cast<Gaussian *>(G.Clone()) : new Gaussian(G));
                r.push_back(RGaus(R));
            }
            break;
        }
        case 9:
        {
            size_t j = s.below(r.size());
            c.desc << "= " << j;
            *g[i] = *g[j];
            RGaus t = r[j];
            r[i] = t;
            break;
        }
        case 10:
        {
            c.desc << "drop";
            if (r.size() > 1)
            {
                g.erase(g.begin() + long(i));
                r.erase(r.begin() + long(i));
            }
            break;
        }
        default:
        {
            c.desc << "refusals";
            c.throws<NotFoundError>("rename-unknown", [&] { G.RenameParameter("nothing", "q"); });
            c.throws<NotFoundError>("get-unknown", [&] { G.GetParameter("nothing"); });
            c.throws<NotFoundError>("mean-range", [&] { G.SetMean(R.n() + s.below(2), v); });
            c.throws<NotFoundError>("width-range", [&] { G.SetStDev(R.n() + s.below(2), w); });
            vector<double> bad(R.n() + (s.boolean() ? 1 : size_t(-1)), 1);
            c.throws<DimensionError>("means-size", [&] { G.SetMeans(bad); });
            c.throws<DimensionError>("widths-size", [&] { G.SetStDevs(bad); });
            break;
        }
        }
        for (size_t j = 0; j < r.size(); j++)
            compare(c, "g" + std::to_string(j), *g[j], r[j]);
    }
    c.nontrivial = moved && r.size() > 0 && steps > 1;
    c.tag("several", r.size() > 1);
}
FACET(sampling, 2)
{
    RGaus r = genRGaus(s);
    if (s.chance(1, 3))
        for (auto &x : r.s)
            x *= std::pow(10., double(s.range(-6, 9)));
    unsigned seed = unsigned(s.below(10000));
    c.desc << show(r) << " seed " << seed;
    c.nontrivial = r.n() > 1;
    Gaussian g(r.m, r.s, "g"), u(r.n(), "u");
    for (size_t k = 0; k < 3; k++)
    {
        Rand::SetSeed(seed + unsigned(k));
        c.eq("seed", Rand::GetSeed(), seed + unsigned(k));
        vector<double> z = u.Sample();
        Rand::SetSeed(seed + unsigned(k));
        vector<double> x = g.Sample();
        c.eq("sample-size", x.size(), r.n());
        for (size_t i = 0; i < r.n(); i++)
            c.near("sample", x[i], r.m[i] + r.s[i] * z[i], 1e-9, 1e-9 * (1 + r.s[i]));
        Rand::SetSeed(seed + unsigned(k));
        c.nearv("repeatable", g.Sample(), x, 0, 0);
        vector<double> shift;
        for (size_t i = 0; i < r.n(); i++)
            shift.push_back(s.fine(4, 2));
        JumpPDF j("j", &g);
        Rand::SetSeed(seed + unsigned(k));
        vector<double> y = j.Sample(shift);
        for (size_t i = 0; i < r.n(); i++)
            c.near("jump-sample", y.at(i), x[i] + shift[i], 1e-9, 1e-9 * (1 + r.s[i]));
    }
}
FACET(jump, 4)
{
    RGaus r = genRGaus(s, 3);
    vector<std::unique_ptr<JumpPDF>> j;
    vector<std::unique_ptr<RGaus>> m; // null: no density inside
    {
        Gaussian g(r.m, r.s, "g");
        j.emplace_back(new JumpPDF("j", &g));
        g.SetMean(0, 1e6); // the kernel was copied
    }
    m.emplace_back(new RGaus(r));
    j.emplace_back(new JumpPDF("empty"));
    m.emplace_back(nullptr);
    vector<string> nm = {"j", "empty"};
    c.desc << show(r);
    size_t steps = s.size(1, 8);
    for (size_t k = 0; k < steps; k++)
    {
        size_t i = s.below(m.size());
        RGaus *R = m[i].get();
        JumpPDF &J = *j[i];
        double w = s.posfine(4, 3);
        c.desc << " | " << i << ":";
        switch (s.below(6))
        {
        case 0:
        {
            string p = R ? s.pick(R->names()) : "x";
            c.desc << "set " << p << "=" << w;
            if (!R)
            {
                c.throws<NULLPointerAccessError>("set-empty", [&] { J.SetParameter(p, w); });
                break;
            }
            J.SetParameter(p, w);
            R->set(p, w);
            break;
        }
        case 1:
        {
            ParameterDict q;
            if (R)
                for (auto &x : R->names())
                    q[x] = s.posfine(4, 3);
            c.desc << "set " << str(q);
            if (!R)
            {
                c.throws<NULLPointerAccessError>("setall-empty", [&] { J.SetParameters(q); });
                break;
            }
            J.SetParameters(q);
            for (auto &x : q)
                R->set(x.first, x.second);
            break;
        }
        case 2:
        {
            string p = R ? s.pick(R->names()) : "x", to = "p" + std::to_string(s.below(9));
            c.desc << "rename " << p << " to " << to;
            if (!R)
            {
                c.throws<NULLPointerAccessError>("rename-empty", [&] { J.RenameParameter(p, to); });
                break;
            }
            J.RenameParameter(p, to);
            for (size_t x = 0; x < 2 * R->n(); x++)
                if (R->name(x) == p)
                    R->name(x) = to;
            break;
        }
        case 3:
            c.desc << "copy";
            if (m.size() < 5)
            {
                j.emplace_back(s.boolean() ? static_cast<JumpPDF *>(J.Clone()) : new JumpPDF(J));
                m.emplace_back(R ? new RGaus(*R) : nullptr);
                nm.push_back(string(nm[i]));
            }
            break;
        case 4:
        {
            size_t k2 = s.below(m.size());
            c.desc << "= " << k2;
            *j[i] = *j[k2];
            if (k2 != i)
                m[i].reset(m[k2] ? new RGaus(*m[k2]) : nullptr);
            nm[i] = string(nm[k2]);
            break;
        }
        default:
            nm[i] = "n" + std::to_string(s.below(5));
            c.desc << "name " << nm[i];
            J.SetName(nm[i]);
        }
        for (size_t i2 = 0; i2 < m.size(); i2++)
        {
            JumpPDF &K = *j[i2];
            c.eq("name", K.GetName(), nm[i2]);
            vector<double> x = genNear(s, r, 2), x2, y(x), hi;
            for (size_t d = 0; d < r.n(); d++)
            {
                x2.push_back(s.fine(4, 2));
                hi.push_back(x[d] + s.posfine(4, 2));
            }
            if (!m[i2])
            {
                c.throws<NULLPointerAccessError>("value-empty", [&] { K.ConditionalProbability(x, x2); });
                c.throws<NULLPointerAccessError>("integral-empty", [&] { K.Integral(x, hi, x2); });
                c.throws<NULLPointerAccessError>("sample-empty", [&] { K.Sample(x2); });
                c.throws<NULLPointerAccessError>("get-empty", [&] { K.GetParameters(); });
                c.throws<NULLPointerAccessError>("getone-empty", [&] { K.GetParameter("x"); });
                c.throws<NULLPointerAccessError>("count-empty", [&] { K.GetParameterCount(); });
                c.throws<NULLPointerAccessError>("names-empty", [&] { K.GetParameterNames(); });
                continue;
            }
            const RGaus &Q = *m[i2];
            vector<double> a = x, b = hi;
            for (size_t d = 0; d < r.n(); d++)
            {
                a[d] -= x2[d];
                b[d] -= x2[d];
            }
            c.near("value", K.ConditionalProbability(x, x2), Q.pdf(a), 1e-9, 1e-290);
            c.near("integral", K.Integral(x, hi, x2), Q.integral(a, b), 1e-9, 1e-12);
            if (s.chance(1, 3))
            { // limits the other way round: what the density itself says to that
                size_t d = s.below(r.n());
                std::swap(x[d], hi[d]);
                std::swap(a[d], b[d]);
                c.near("integral-reversed", K.Integral(x, hi, x2), Q.integral(a, b), 1e-9, 1e-12);
                std::swap(x[d], hi[d]);
            }
            vector<double> shorter(x2.begin(), x2.end() - 1);
            c.throws<DimensionError>("shift-size", [&] { K.ConditionalProbability(x, shorter); });
            c.throws<DimensionError>("shift-size-integral", [&] { K.Integral(x, hi, shorter); });
            c.throws<DimensionError>("shift-size-sample", [&] { K.Sample(shorter); });
            c.ok("names", K.GetParameterNames() == Q.nameSet());
            auto d = K.GetParameters();
            for (size_t q = 0; q < 2 * Q.n(); q++)
            {
                string p = Q.names()[q];
                bool unique = Q.nameSet().size() == 2 * Q.n();
                if (unique)
                {
                    c.near("parameter", K.GetParameter(p), Q.slot(q), 0, 0, p);
                    c.near("parameters", d[p], Q.slot(q), 0, 0, p);
                    c.eq("count", K.GetParameterCount(), 2 * Q.n());
                }
            }
        }
    }
    c.nontrivial = steps > 1;
}
FACET(jump_refusing_kernel, 2)
{ // a kernel which does refuse unknown parameters: the refusal comes through
    FakePDF f(s.size(1, 3), s.fine(4, 2), "s");
    JumpPDF j("j", &f);
    double v = s.fine(4, 2);
    vector<double> x, x2, d;
    for (size_t i = 0; i < f.n; i++)
    {
        x.push_back(s.fine(8, 2));
        x2.push_back(s.fine(8, 2));
        d.push_back(x[i] - x2[i]);
    }
    c.desc << "fake " << f.n << " scale " << v;
    c.nontrivial = true;
    c.throws<NotFoundError>("set", [&] { j.SetParameter("t", v); });
    c.throws<NotFoundError>("get", [&] { j.GetParameter("t"); });
    c.throws<NotFoundError>("rename", [&] { j.RenameParameter("t", "u"); });
    c.throws<ParameterError>("set-all", [&] { j.SetParameters(ParameterDict{{"t", v}}); });
    c.near("unchanged", j.GetParameter("s"), f.scale, 0, 0);
    j.SetParameters(ParameterDict{{"s", v}, {"t", 1.}});
    c.near("set-value", j.GetParameter("s"), v, 0, 0);
    c.near("value", j.ConditionalProbability(x, x2), FakePDF::value(f.n, v, d), 1e-12, 1e-12);
    c.near("original", f.scale, f.GetParameter("s"), 0, 0);
}
FACET(square_root, 2)
{
    SquareRootScale f("scale");
    string par = "grad";
    double g = 1;
    size_t steps = s.size(1, 8);
    c.nontrivial = steps > 1;
    for (size_t k = 0; k < steps; k++)
    {
        double v = s.fine(8, 3);
        switch (s.below(6))
        {
        case 0:
            c.desc << " set " << v;
            f.SetParameter(par, v);
            g = v;
            break;
        case 1:
            c.desc << " dict " << v;
            f.SetParameters(ParameterDict{{par, v}, {"zzz", 3.}, {"aaa", 4.}});
            g = v;
            break;
        case 2:
            c.desc << " gradient " << v;
            f.SetGradient(v);
            g = v;
            break;
        case 3:
        {
            string to = "p" + std::to_string(s.below(4));
            c.desc << " rename " << to;
            f.RenameParameter(par, to);
            par = to;
            break;
        }
        case 4:
        {
            c.desc << " clone";
            std::unique_ptr<Function> cl(f.Clone());
            cl->SetParameter(par, g + 1);
            c.near("clone", cl->GetParameter(par), g + 1, 0, 0);
            cl->RenameParameter(par, "own");
            break;
        }
        default:
            c.desc << " refusals";
            c.throws<ParameterError>("set", [&] { f.SetParameter("no" + par, v); });
            c.throws<ParameterError>("get", [&] { f.GetParameter("no" + par); });
            c.throws<ParameterError>("rename", [&] { f.RenameParameter("no" + par, "q"); });
            c.throws<ParameterError>("dict", [&] { f.SetParameters(ParameterDict{{"no" + par, v}}); });
        }
        c.near("gradient", f.GetGradient(), g, 0, 0);
        c.near("parameter", f.GetParameter(par), g, 0, 0);
        c.ok("parameters", f.GetParameters() == (ParameterDict{{par, g}}));
        c.ok("names", f.GetParameterNames() == (std::set<string>{par}));
        c.eq("count", f.GetParameterCount(), size_t(1));
        c.eq("dims", f.GetNDims(), size_t(1));
        double x = s.boolean() ? s.fine(16, 4) : s.real(-1, 1) * std::pow(10., double(s.range(-6, 9)));
        c.near("value", f(vector<double>{x}), g * std::sqrt(x < 0 ? -x : x), 1e-12, 0);
        c.near("first-only", f(vector<double>{x, v, 1}), f(vector<double>{x}), 0, 0);
    }
}
namespace
{
struct Step : public Heaviside // the class leaves the parameter interface open
{
    size_t n;
    Step(int d) : Heaviside(d), n(size_t(d)) {}
    Function *Clone() const { return new Step(*this); }
    size_t GetNDims() const { return n; }
    void SetParameter(const string &, double) {}
    double GetParameter(const string &) const { return 0; }
    void SetParameters(const ParameterDict &) {}
    ParameterDict GetParameters() const { return ParameterDict(); }
    size_t GetParameterCount() const { return 0; }
    std::set<string> GetParameterNames() const { return {}; }
    void RenameParameter(const string &, const string &) {}
    string GetName() const { return "step"; }
    void SetName(const string &) {}
};
} // namespace
FACET(step, 3)
{
    size_t n = s.size(1, 4);
    Step f{int(n)};
    vector<double> pos(n, 0);
    vector<int> side(n, 0); // 0 none, 1 maximum, 2 minimum
    size_t k = s.size(0, 5);
    for (size_t i = 0; i < k; i++)
    {
        unsigned d = unsigned(s.below(n));
        pos[d] = s.fine(8, 2);
        side[d] = int(s.range(1, 2));
        c.desc << d << (side[d] == 1 ? "<" : ">") << pos[d] << " ";
        f.AddConstraint(d, pos[d], side[d] == 1 ? Heaviside::MAXIMUM : Heaviside::MINIMUM);
    }
    c.nontrivial = k > 1;
    c.throws<NotFoundError>("bad-dim", [&] { f.AddConstraint(unsigned(n + s.below(3)), 0, Heaviside::MAXIMUM); });
    c.throws<ValueError>("bad-side", [&] { f.AddConstraint(unsigned(s.below(n)), 3, Heaviside::IGNORE); });
    for (int t = 0; t < 4; t++)
    {
        vector<double> x;
        double want = 1;
        for (size_t i = 0; i < n; i++)
        {
            double v = s.fine(8, 2);
            switch (s.below(4))
            {
            case 0:
                v = pos[i];
                break;
            case 1:
                v = std::nextafter(pos[i], 100);
                break;
            case 2:
                v = std::nextafter(pos[i], -100);
                break;
            default:
                break;
            }
            x.push_back(v);
            if ((side[i] == 1 && v > pos[i]) || (side[i] == 2 && v < pos[i]))
                want = 0;
        }
        c.near("value", f(x), want, 0, 0, str(x));
        std::unique_ptr<Function> cl(f.Clone());
        c.near("clone", (*cl)(x), want, 0, 0);
        x.push_back(0);
        c.throws<DimensionError>("longer", [&] { f(x); });
        x.resize(n - 1);
        c.throws<DimensionError>("shorter", [&] { f(x); });
    }
}
namespace
{
// parameter function of the conditional density: a + b * x_k, with two named parameters of its own, which refuses other names
struct Linear : public Function
{
    size_t k;
    string pa, pb, name;
    double a, b;
    Linear(size_t k_, const string &a_, const string &b_, double va, double vb) : k(k_), pa(a_), pb(b_), name("linear"), a(va), b(vb) {}
    Function *Clone() const { return new Linear(*this); }
    double operator()(const vector<double> &x) const { return a + b * x.at(k) * x.at(k); }
    size_t GetNDims() const { return k + 1; }
    double &get(const string &p)
    {
        if (p == pa)
            return a;
        if (p == pb)
            return b;
        throw NotFoundError("Linear has no " + p);
    }
    void SetParameter(const string &p, double v) { get(p) = v; }
    double GetParameter(const string &p) const { return const_cast<Linear *>(this)->get(p); }
    void SetParameters(const ParameterDict &d)
    {
        if (!d.count(pa) || !d.count(pb))
            throw ParameterError("Linear: missing parameter");
        a = d.at(pa);
        b = d.at(pb);
    }
    ParameterDict GetParameters() const { return ParameterDict{{pa, a}, {pb, b}}; }
    size_t GetParameterCount() const { return 2; }
    std::set<string> GetParameterNames() const { return {pa, pb}; }
    void RenameParameter(const string &o, const string &n)
    {
        if (o == pa)
            pa = n;
        else if (o == pb)
            pb = n;
        else
            throw NotFoundError("Linear has no " + o);
    }
    string GetName() const { return name; }
    void SetName(const string &s) { name = s; }
};
struct RVary
{
    RGaus kernel;
    bool has = false;
    std::map<string, Linear> dep; // the parameter of the kernel -> its function
    std::map<string, double> root; // square root scales: parameter of the kernel -> gradient
    std::map<string, string> rootPar;
    RGaus at(const vector<double> &x2) const
    {
        RGaus q = kernel;
        for (auto &p : dep)
            q.set(p.first, p.second(x2));
        for (auto &p : root)
            q.set(p.first, p.second * std::sqrt(std::fabs(x2[0])));
        return q;
    }
    ParameterDict pars() const
    {
        ParameterDict d;
        for (auto &p : dep)
            for (auto &q : p.second.GetParameters())
                d.insert(q);
        for (auto &p : root)
            d[rootPar.at(p.first)] = p.second;
        return d;
    }
    void set(const string &p, double v)
    {
        for (auto &q : dep)
            if (q.second.GetParameterNames().count(p))
                q.second.SetParameter(p, v);
        for (auto &q : root)
            if (rootPar.at(q.first) == p)
                q.second = v;
    }
};
} // namespace
FACET(varying, 5)
{
    size_t n = s.size(1, 3);
    vector<std::unique_ptr<VaryingCDF>> v;
    vector<std::unique_ptr<RVary>> m;
    v.emplace_back(new VaryingCDF("v"));
    m.emplace_back(new RVary);
    size_t steps = s.size(2, 10);
    int fresh = 0;
    for (size_t k = 0; k < steps; k++)
    {
        size_t i = s.below(m.size());
        VaryingCDF &V = *v[i];
        RVary &R = *m[i];
        double val = s.posfine(4, 3);
        auto pars = R.pars();
        c.desc << " | " << i << ":";
        switch (k == 0 ? 0 : k == 1 ? 1 : s.below(9))
        {
        case 0:
        {
            RGaus g = genRGaus(s, 3);
            while (g.n() > n)
            {
                g.m.pop_back();
                g.s.pop_back();
                g.mn.pop_back();
                g.sn.pop_back();
            }
            while (g.n() < n)
            {
                size_t q = g.n();
                g.m.push_back(double(q));
                g.s.push_back(1);
                g.mn.push_back("means_" + std::to_string(q));
                g.sn.push_back("stddevs_" + std::to_string(q));
            }
            Gaussian G(g.m, g.s, "k");
            c.desc << "kernel " << show(g);
            if (s.boolean())
                V.SetKernel(&G);
            else
            {
                JumpPDF j("j", &G);
                V.SetKernel(static_cast<ConditionalPDF *>(&j));
            }
            G.SetMean(0, 1e5);
            R.kernel = g;
            R.has = true;
            break;
        }
        case 1:
        case 2:
        {
            size_t slot = s.below(2 * n);
            string kp = slot < n ? "means_" + std::to_string(slot) : "stddevs_" + std::to_string(slot - n);
            if (s.boolean())
            {
                string id = std::to_string(fresh++);
                Linear l(s.below(n), "a" + id, "b" + id, s.posfine(4, 3), s.posfine(2, 3));
                c.desc << kp << " = " << l.a << "+" << l.b << " x" << l.k << "^2";
                V.SetDependance(kp, &l);
                R.root.erase(kp);
                R.dep.erase(kp);
                R.dep.insert({kp, l});
                l.a = 1e5;
            }
            else
            {
                SquareRootScale q("q");
                string p = "g" + std::to_string(fresh++);
                q.RenameParameter("grad", p);
                q.SetGradient(val);
                c.desc << kp << " = " << val << " sqrt(|x0|)";
                V.SetDependance(kp, &q);
                R.dep.erase(kp);
                R.root[kp] = val;
                R.rootPar[kp] = p;
            }
            break;
        }
        case 3:
        {
            if (pars.empty())
                break;
            auto it = pars.begin();
            std::advance(it, long(s.below(pars.size())));
            c.desc << "set " << it->first << "=" << val;
            V.SetParameter(it->first, val);
            R.set(it->first, val);
            break;
        }
        case 4:
        {
            for (auto &p : pars)
            {
                p.second = s.posfine(4, 3);
                R.set(p.first, p.second);
            }
            c.desc << "set " << str(pars);
            V.SetParameters(pars);
            break;
        }
        case 5:
        {
            if (pars.empty())
                break;
            auto it = pars.begin();
            std::advance(it, long(s.below(pars.size())));
            string to = "r" + std::to_string(fresh++), with;
            if (s.chance(1, 3))
            { // the name of a parameter of another function: the two are tied together and set as one
                auto jt = pars.begin();
                std::advance(jt, long(s.below(pars.size())));
                bool shared = jt->first == it->first;
                for (auto &p : R.dep) // a function keeps two different names
                    shared = shared || (p.second.GetParameterNames().count(it->first) && p.second.GetParameterNames().count(jt->first));
                if (!shared)
                    to = with = jt->first;
            }
            c.desc << "rename " << it->first << " to " << to;
            V.RenameParameter(it->first, to);
            for (auto &p : R.dep)
                if (p.second.GetParameterNames().count(it->first))
                    p.second.RenameParameter(it->first, to);
            for (auto &p : R.rootPar)
                if (p.second == it->first)
                    p.second = to;
            if (!with.empty())
            {
                V.SetParameter(with, val);
                R.set(with, val);
                c.desc << "=" << val;
            }
            break;
        }
        case 6:
            c.desc << "copy";
            if (m.size() < 4)
            {
                v.emplace_back(s.boolean() ? new VaryingCDF(V) : static_cast<VaryingCDF *>(V.Clone()));
                m.emplace_back(new RVary(R));
            }
            break;
        case 7:
        {
            size_t j = s.below(m.size());
            c.desc << "= " << j;
            *v[i] = *v[j];
            if (i != j)
                m[i].reset(new RVary(*m[j]));
            break;
        }
        default:
            if (m.size() < 4 && s.boolean())
            {
                c.desc << "new";
                v.emplace_back(new VaryingCDF("w"));
                m.emplace_back(new RVary);
            }
            else if (m.size() > 1)
            {
                c.desc << "drop";
                v.erase(v.begin() + long(i));
                m.erase(m.begin() + long(i));
            }
        }
        for (size_t i2 = 0; i2 < m.size(); i2++)
        {
            VaryingCDF &W = *v[i2];
            const RVary &Q = *m[i2];
            auto d = Q.pars();
            string id = "v" + std::to_string(i2);
            c.ok(id + "-parameters", W.GetParameters() == d, "got " + str(W.GetParameters()) + " want " + str(d));
            if (d.size() == 2 * Q.dep.size() + Q.root.size())
                c.eq(id + "-count", W.GetParameterCount(), d.size());
            std::set<string> names;
            for (auto &p : d)
            {
                names.insert(p.first);
                c.near(id + "-parameter", W.GetParameter(p.first), p.second, 0, 0, p.first);
            }
            c.ok(id + "-names", W.GetParameterNames() == names);
            c.throws<NotFoundError>(id + "-unknown", [&] { W.GetParameter("nothing"); });
            c.throws<NotFoundError>(id + "-set-unknown", [&] { W.SetParameter("nothing", 1); });
            c.throws<NotFoundError>(id + "-rename-unknown", [&] { W.RenameParameter("nothing", "more"); });
            vector<double> x, x2, hi;
            for (size_t q = 0; q < n; q++)
            {
                x.push_back(s.fine(4, 2));
                x2.push_back(s.posfine(4, 2));
                hi.push_back(x[q] + s.posfine(4, 2));
            }
            if (!Q.has)
            {
                c.throws<NULLPointerAccessError>(id + "-value-empty", [&] { W.ConditionalProbability(x, x2); });
                c.throws<NULLPointerAccessError>(id + "-integral-empty", [&] { W.Integral(x, hi, x2); });
                c.throws<NULLPointerAccessError>(id + "-sample-empty", [&] { W.Sample(x2); });
                continue;
            }
            RGaus g = Q.at(x2);
            auto sample = [&] {
                Rand::SetSeed(unsigned(k));
                Gaussian u(n, "u");
                vector<double> z = u.Sample();
                Rand::SetSeed(unsigned(k));
                vector<double> y = W.Sample(x2);
                for (size_t q = 0; q < n; q++)
                    c.near(id + "-sample", y.at(q), x2[q] + g.m[q] + g.s[q] * z[q], 1e-9, 1e-9);
            };
            // each of the three works the parameters out for itself, whatever was asked before
            unsigned first = unsigned(s.below(3));
            if (first == 1)
                sample();
            vector<double> a(x), b(hi);
            for (size_t q = 0; q < n; q++)
            {
                a[q] -= x2[q];
                b[q] -= x2[q];
            }
            if (first == 2)
                c.near(id + "-integral", W.Integral(x, hi, x2), g.integral(a, b), 1e-9, 1e-12);
            c.near(id + "-value", W.ConditionalProbability(x, x2), g.pdf(a), 1e-9, 1e-290);
            if (first != 2)
                c.near(id + "-integral", W.Integral(x, hi, x2), g.integral(a, b), 1e-9, 1e-12);
            if (first != 1)
                sample();
        }
    }
    c.nontrivial = steps > 2;
    c.tag("several", m.size() > 1);
}
