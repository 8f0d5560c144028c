// Constraints: each penalty by its formula, their sum, replacement rules and refusals.
// SRC: core histogram constraint
#include "gens.hpp"
#include <ConstraintManager.h>
#include <cmath>

const char *pbt::kRule =
    "random constraints of every kind (symmetric, asymmetric, pair, ratio, fraction, interpolated histogram of 1-4 parameters, "
    "function), random histories of adding, replacing, conflicting and copying, evaluated at random points, central values, "
    "and either side of them; non-trivial: at least two kinds of constraint, or a penalty away from its centre";

namespace
{
typedef long double ld;
const vector<string> kPool0 = {"alpha", "zeta", "mass", "b", "norm"};
vector<string> kPool = kPool0; // those of the case

double interp(const RAxes &ax, const vector<double> &v, const vector<double> &x)
{
    // recursive one-dimensional interpolation, first axis outermost
    struct R
    {
        const RAxes &ax;
        const vector<double> &v, &x;
        ld go(size_t d, size_t base) const
        {
            if (d == ax.dims())
                return v[base];
            const RAxis &a = ax.a[d];
            size_t i = 0;
            while (i + 2 < a.n() && x[d] >= a.centre(i + 1))
                i++;
            ld f = ((ld)x[d] - a.centre(i)) / ((ld)a.centre(i + 1) - a.centre(i));
            return go(d + 1, base * a.n() + i) * (1 - f) + go(d + 1, base * a.n() + i + 1) * f;
        }
    };
    return double(R{ax, v, x}.go(0, 0));
}
struct Con
{
    int kind; // 0 sym 1 asym 2 pair 3 ratio 4 frac 5 histogram 6 function
    string a, b;
    double m1, s1, m2, s2, rho;
    RAxes ax;
    vector<double> v;
    vector<string> fn; // of the function
    double w = 1;
    string key() const
    {
        switch (kind)
        {
        case 0:
        case 1:
            return "ind " + a;
        case 2:
            return "pair " + a + " " + b;
        case 3:
            return "ratio " + a + " " + b;
        case 4:
            return "frac " + a + " " + b;
        case 5:
            return "hist " + a;
        default:
            return "func " + str(fn) + std::to_string(w);
        }
    }
    static double func(const vector<string> &fn, double w, const ParameterDict &p)
    {
        double t = w, i = 1;
        for (auto &n : fn)
            t += i++ * p.at(n) * p.at(n);
        return t;
    }
    double eval(const ParameterDict &p) const
    {
        auto sq = [](ld z) { return z * z; };
        switch (kind)
        {
        case 0:
            return double(sq(((ld)p.at(a) - m1) / s1) / 2);
        case 1:
            return double(sq(((ld)p.at(a) - m1) / (p.at(a) < m1 ? s2 : s1)) / 2); // s1 above
        case 2:
        {
            ld u = ((ld)p.at(a) - m1) / s1, t = ((ld)p.at(b) - m2) / s2, r = rho;
            return double((u * u - 2 * r * u * t + t * t) / (2 * (1 - r * r)));
        }
        case 3:
            return double(sq(((ld)p.at(a) / p.at(b) - m1) / s1) / 2);
        case 4:
            return double(sq((((ld)p.at(a) - p.at(b)) / ((ld)p.at(a) + p.at(b)) - m1) / s1) / 2);
        case 5:
        {
            vector<double> x;
            for (auto &q : ax.a)
                x.push_back(p.at(q.name));
            return interp(ax, v, x);
        }
        default:
            return double(sq((ld)(func(fn, w, p) - m1) / s1) / 2);
        }
    }
    std::set<string> needs() const
    {
        if (kind <= 1)
            return {a};
        if (kind <= 4)
            return {a, b};
        if (kind == 5)
        {
            std::set<string> r;
            for (auto &q : ax.a)
                r.insert(q.name);
            return r;
        }
        return std::set<string>(fn.begin(), fn.end());
    }
    void put(ConstraintManager &m) const
    {
        switch (kind)
        {
        case 0:
            m.SetConstraint(a, m1, s1);
            break;
        case 1:
            m.SetConstraint(a, m1, s1, s2);
            break;
        case 2:
            m.SetConstraint(a, m1, s1, b, m2, s2, rho);
            break;
        case 3:
            m.SetConstraint(a, b, m1, s1);
            break;
        case 4:
            m.SetFracConstraint(a, b, m1, s1);
            break;
        case 5:
        {
            Histogram h(ax.make());
            h.SetBinContents(v);
            m.SetConstraint(a, h);
            break;
        }
        default:
        {
            ParameterDict d;
            for (auto &n : fn)
                d[n] = w;
            vector<string> f = fn;
            double ww = w;
            m.SetConstraint(d, [f, ww](const ParameterDict &p) { return func(f, ww, p); }, m1, s1);
        }
        }
    }
};
RAxis paramAxis(Src &s, const string &n)
{ // covers the values given to parameters: their centres span at least [-2, 40]
    RAxis a;
    a.name = n;
    size_t in = s.size(0, 4);
    std::set<double> e = {-8, -4, 44, 48};
    while (e.size() < 4 + in)
        e.insert(s.fine(3, 2) + 4 * double(s.below(10)));
    a.e.assign(e.begin(), e.end());
    // the outer bins must have centres outside
    while (a.centre(0) > -2)
        a.e[0] -= 8;
    while (a.centre(a.n() - 1) < 40)
        a.e.back() += 8;
    return a;
}
Con genCon(Src &s, size_t maxHist = 3)
{
    Con k;
    k.kind = s.below(7);
    auto p = s.permutation(kPool.size());
    k.a = kPool[p[0]];
    k.b = kPool[p[1]];
    k.m1 = s.fine(4, 2);
    k.m2 = s.fine(4, 2);
    k.s1 = s.posfine(4, 3);
    k.s2 = s.posfine(4, 3);
    k.rho = s.chance(1, 4) ? 0 : (s.fine(1, 6) * 0.87);
    if (k.kind == 5)
    {
        size_t nd = s.size(1, maxHist);
        for (size_t i = 0; i < nd; i++)
            k.ax.a.push_back(paramAxis(s, kPool[p[i]]));
        k.v = genContents(s, k.ax.bins(), false);
        k.a = s.boolean() ? "lbl" : "other";
    }
    if (k.kind == 6)
    {
        size_t nd = s.size(1, 3);
        for (size_t i = 0; i < nd; i++)
            k.fn.push_back(kPool[p[i]]);
        std::sort(k.fn.begin(), k.fn.end());
        k.w = s.fine(2, 1) + 0.0; // no negative zero
    }
    return k;
}
ParameterDict genPars(Src &s, const vector<Con> &cs)
{
    ParameterDict d;
    for (auto &n : kPool)
        d[n] = s.posfine(20, 3); // positive: ratios and fractions are defined
    // central values and points just off them
    for (auto &k : cs)
        if (k.kind <= 2 && s.chance(1, 3) && k.m1 > 0)
            d[k.a] = s.boolean() ? k.m1 : std::nextafter(k.m1, s.boolean() ? 1e9 : -1e9);
    bool free = true;
    for (auto &k : cs)
        free &= k.kind < 3;
    if (free && s.boolean()) // negative ones where nothing divides
        for (auto &p : d)
            p.second = -p.second;
    d["unrelated"] = s.fine(100, 2);
    return d;
}
string show(const Con &k)
{
    std::ostringstream o;
    o << k.kind << "{" << k.a << "," << k.b << "," << k.m1 << "," << k.s1 << "," << k.m2 << "," << k.s2 << "," << k.rho << "," << str(k.fn)
      << k.w << (k.kind == 5 ? show(k.ax) + str(k.v) : "") << "} ";
    return o.str();
}
void check(Ctx &c, const string &id, const ConstraintManager &m, const vector<Con> &cs, const ParameterDict &d)
{
    double want = 0, scale = 1;
    for (auto &k : cs)
    {
        double e = k.eval(d);
        want += e;
        scale += std::fabs(e);
        if (k.kind == 5)
            for (double x : k.v)
                scale = std::max(scale, std::fabs(x));
        if (k.kind == 2)
            scale += std::fabs(e) / (1 - k.rho * k.rho);
    }
    c.near(id, m.Evaluate(d), want, 1e-9, 1e-10 * scale, str(d));
}
} // namespace

FACET(manager, 8)
{
    kPool = styled(s, kPool0);
    ConstraintManager m;
    vector<Con> cs;
    c.near("empty", m.Evaluate(ParameterDict()), 0);
    size_t steps = s.size(1, 8);
    std::set<int> kinds;
    bool off = false;
    for (size_t st = 0; st < steps; st++)
    {
        Con k = genCon(s);
        if (s.chance(1, 4) && !cs.empty())
        { // again the same parameters
            Con o = s.pick(cs);
            if (o.kind <= 4)
            {
                k.kind = o.kind <= 1 ? int(s.below(2)) : o.kind;
                k.a = o.a;
                k.b = o.b;
                if (s.chance(1, 5))
                    std::swap(k.a, k.b);
            }
            else if (o.kind == 5)
            {
                k = o;
                k.v = genContents(s, k.ax.bins(), false);
            }
            else
            {
                double a = k.m1, b = k.s1;
                k = o;
                k.m1 = a;
                k.s1 = b;
            }
        }
        c.desc << show(k);
        bool clash = false;
        for (auto &o : cs)
        {
            if (k.kind <= 1 && o.kind == 2)
                clash |= o.a == k.a || o.b == k.a;
            if (k.kind == 2 && o.kind <= 1)
                clash |= o.a == k.a || o.a == k.b;
            if (k.kind == 2 && o.kind == 2 && o.key() != k.key())
                clash |= o.a == k.a || o.a == k.b || o.b == k.a || o.b == k.b;
        }
        if (k.kind == 2 && s.chance(1, 6))
        { // refused correlations leave what was there
            static const vector<double> bad = {1, -1, 1.5, -1.25, 1e9, -1e9, NAN};
            Con t = k;
            t.rho = s.pick(bad);
            c.throws<OXSXException>("bad-correlation", [&] { t.put(m); });
        }
        else if (clash)
        {
            c.throws<LogicError>("conflict", [&] { k.put(m); });
            c.tag("conflict");
        }
        else
        {
            k.put(m);
            vector<Con> left;
            for (auto &o : cs)
                if (o.key() != k.key())
                    left.push_back(o);
                else
                    c.tag("replaced");
            left.push_back(k);
            cs = left;
        }
        if (s.chance(1, 5))
        { // copies are independent
            ConstraintManager t(m);
            m = t;
            t.SetConstraint("unrelated", 1e6, 1e-3);
        }
        ParameterDict d = genPars(s, cs);
        check(c, "total", m, cs, d);
        // unrelated parameters
        d["unrelated"] += 17;
        d["another"] = -3;
        check(c, "unrelated", m, cs, d);
        std::set<string> need;
        for (auto &k2 : cs)
        {
            kinds.insert(k2.kind);
            off |= k2.eval(d) != 0;
            auto nd = k2.needs();
            need.insert(nd.begin(), nd.end());
        }
        if (!need.empty())
        {
            ParameterDict only;
            for (auto &n : need)
                only[n] = d[n];
            check(c, "only-its-parameters", m, cs, only);
            only.erase(std::next(only.begin(), s.below(only.size())));
            c.throws<std::exception>("missing-parameter", [&] { m.Evaluate(only); });
        }
    }
    c.nontrivial = kinds.size() > 1 || off;
}

FACET(single, 4)
{
    kPool = styled(s, kPool0);
    double mean = s.fine(8, 3), w = s.posfine(4, 3), lo = s.posfine(4, 3);
    double z = s.fine(8, 3);
    QuadraticConstraint q(mean, w), a(mean, w, lo);
    c.desc << mean << " " << w << " " << lo << " " << z;
    c.eq("centre", q.Evaluate(mean), 0.);
    c.eq("centre-asym", a.Evaluate(mean), 0.);
    c.near("sym", q.Evaluate(mean + z * w), z * z / 2);
    c.near("sym-mirror", q.Evaluate(mean - z * w), z * z / 2);
    double az = std::fabs(z);
    c.near("above", a.Evaluate(mean + az * w), z * z / 2);
    c.near("below", a.Evaluate(mean - az * lo), z * z / 2);
    // one sigma costs one half
    c.near("one-sigma", q.Evaluate(mean + w), 0.5);
    // a pair without correlation is the sum of two, swapping its parameters changes nothing, and along either axis it is no less
    double m2 = s.fine(8, 3), y = s.fine(8, 3), rho = (s.fine(1, 5) * 0.86);
    c.desc << " " << m2 << " " << y << " " << rho;
    BivariateQuadraticConstraint b0(mean, w, m2, lo, 0), b(mean, w, m2, lo, rho), bs(m2, lo, mean, w, rho);
    QuadraticConstraint q2(m2, lo);
    double X = mean + z * w, Y = m2 + y * lo;
    c.near("uncorrelated", b0.Evaluate(X, Y), q.Evaluate(X) + q2.Evaluate(Y));
    c.near("swapped", b.Evaluate(X, Y), bs.Evaluate(Y, X), 1e-9, 1e-9);
    c.near("pair-centre", b.Evaluate(mean, m2), 0);
    c.near("pair", b.Evaluate(X, Y), (z * z - 2 * rho * z * y + y * y) / (2 * (1 - rho * rho)), 1e-9, 1e-9);
    // the conditional mean minimises it, leaving the marginal penalty
    c.near("profile", b.Evaluate(X, m2 + rho * z * lo), z * z / 2, 1e-9, 1e-9);
    double bad = s.boolean() ? 1 + s.posfine(4, 3) : 1;
    c.throws<ValueError>("correlation-up", [&] { BivariateQuadraticConstraint(0, 1, 0, 1, bad); });
    c.throws<ValueError>("correlation-down", [&] { BivariateQuadraticConstraint(0, 1, 0, 1, -bad); });
    // ratio and fraction
    double v1 = s.fine(20, 3), v2 = s.posfine(20, 3) * (s.boolean() ? 1 : -1);
    RatioConstraint r(mean, w);
    c.near("ratio", r.Evaluate(v1, v2), (v1 / v2 - mean) * (v1 / v2 - mean) / (2 * w * w), 1e-9, 1e-9);
    c.near("ratio-centre", r.Evaluate(mean * v2, v2), 0, 1e-9, 1e-12);
    if (v1 + v2 != 0)
    {
        FractionalConstraint f(mean, w);
        double fr = (v1 - v2) / (v1 + v2);
        c.near("fraction", f.Evaluate(v1, v2), (fr - mean) * (fr - mean) / (2 * w * w), 1e-9, 1e-9);
        FractionalConstraint f0(0, w);
        c.near("fraction-equal", f0.Evaluate(v2, v2), 0);
        c.near("fraction-antisymmetric", f0.Evaluate(v1, v2), f0.Evaluate(v2, v1), 1e-9, 1e-9);
    }
    c.nontrivial = z != 0 && rho != 0;
}

// parameters in other units, with their constraints: the penalties are the same
FACET(units, 3)
{
    kPool = styled(s, kPool0);
    vector<Con> cs, ds;
    ConstraintManager m, l;
    static const vector<string> names = {"a", "b", "c1", "d", "zeta", "q"};
    ParameterDict p, q, unit;
    double both = genUnit(s); // ratios and fractions are of parameters in the same unit
    for (auto &n : names)
    {
        unit[n] = n == "a" || n == "b" ? both : s.chance(1, 4) ? 1 : genUnit(s);
        p[n] = s.posfine(8, 3) + 0.25;
        q[n] = p[n] * unit[n];
    }
    bool pos = both > 1e-6; // a ratio's denominator within 1e-8 of zero is moved away from it
    for (size_t i = 0, n = s.size(1, 4); i < n; i++)
    {
        Con k;
        k.kind = int(s.below(5));
        if (k.kind == 3 && !pos)
            k.kind = 4;
        k.a = names[k.kind <= 1 ? 2 : k.kind == 2 ? 3 : 0];
        k.b = names[k.kind == 2 ? 4 : 1];
        k.m1 = s.fine(8, 3), k.s1 = s.posfine(4, 3), k.m2 = s.fine(8, 3), k.s2 = s.posfine(4, 3), k.rho = s.fine(1, 5) * 0.86;
        Con t = k;
        if (k.kind <= 2)
            t.m1 *= unit[k.a], t.s1 *= unit[k.a];
        if (k.kind == 1)
            t.s2 *= unit[k.a];
        if (k.kind == 2)
            t.m2 *= unit[k.b], t.s2 *= unit[k.b];
        k.put(m);
        t.put(l);
        c.desc << show(k);
    }
    if (s.boolean())
    {
        RAxes ax;
        RAxis x, y;
        x.name = "q";
        for (size_t j = 0, n = s.size(2, 5); j <= n; j++)
            x.e.push_back(-4 + double(j) * 32 / double(n));
        ax.a = {x};
        RAxes ay = ax;
        ay.a[0] = inUnits(x, unit["q"]);
        vector<double> v = genContents(s, x.n(), false);
        if (p["q"] >= x.centre(0) && p["q"] < x.centre(x.n() - 1))
        {
            Histogram h(ax.make()), g(ay.make());
            h.SetBinContents(v);
            g.SetBinContents(v);
            m.SetConstraint("hist", h);
            l.SetConstraint("hist", g);
        }
    }
    c.desc << " at" << str(p) << " units" << str(unit);
    c.nontrivial = true;
    double want = m.Evaluate(p);
    c.near("same-penalty", l.Evaluate(q), want, UREL, UABS);
    // a small denominator is a denominator like any other, down to 1e-8
    double mean = s.fine(8, 3), w = s.posfine(4, 3), den = (s.boolean() ? 1 : -1) * std::pow(10, s.real(-7.9, 3)), num = mean * den + s.fine(4, 3) * den;
    c.desc << " ratio of " << num << " and " << den;
    c.near("small-denominator", RatioConstraint(mean, w).Evaluate(num, den), std::pow((num / den - mean) / w, 2) / 2, 1e-9, 1e-9);
    // penalties near the centre are small but not zero
    double z = std::ldexp(s.posdyadic(1, 3), -int(s.range(0, 20)));
    c.near("small-penalty", QuadraticConstraint(0, w).Evaluate(z * w), z * z / 2, 1e-9, 1e-300);
    c.near("small-penalty-below", QuadraticConstraint(0, 1, w).Evaluate(-z * w), z * z / 2, 1e-9, 1e-300);
    c.near("small-pair-penalty", BivariateQuadraticConstraint(0, w, 0, 1, 0.5).Evaluate(z * w, 0), z * z / 1.5, 1e-9, 1e-300);
}
FACET(interpolated, 4)
{
    kPool = styled(s, kPool0);
    bool many = s.chance(1, 8);
    RAxes ax = many ? genAxes(s, 5, 6, 2, 100, 2) : genAxes(s, 1, 4, 4, 100, 2);
    c.tag("5-or-6-parameters", many);
    vector<double> v = genContents(s, ax.bins(), false);
    Histogram h(ax.make());
    h.SetBinContents(v);
    ShapeInterpConstraint k(h);
    ConstraintManager m;
    m.SetConstraint("lbl", h);
    c.desc << show(ax) << str(v);
    double big = 1;
    for (double x : v)
        big = std::max(big, std::fabs(x));
    ParameterDict d;
    vector<double> x;
    bool between = false;
    for (auto &a : ax.a)
    {
        double lo = a.centre(0), hi = a.centre(a.n() - 1), y;
        if (s.boolean())
            y = a.centre(s.below(a.n() - 1)); // on the lattice
        else
        {
            y = lo + (hi - lo) * s.real(0, 1) * 0.999;
            between = true;
        }
        x.push_back(y);
        d[a.name] = y;
    }
    d["unrelated"] = s.fine(5, 2);
    c.desc << " at" << str(d);
    c.near("value", k.Evaluate(d), interp(ax, v, x), 1e-9, 1e-9 * big);
    c.near("in-manager", m.Evaluate(d), interp(ax, v, x), 1e-9, 1e-9 * big);
    // on a bin's centre it is that bin's content
    size_t b = s.below(ax.bins());
    auto t = ax.unflat(b);
    bool inner = true;
    ParameterDict at = d;
    for (size_t i = 0; i < t.size(); i++)
    {
        inner &= t[i] + 1 < ax.a[i].n();
        at[ax.a[i].name] = ax.a[i].centre(t[i]);
    }
    if (inner)
        c.near("at-bin-centre", k.Evaluate(at), v[b], 1e-9, 1e-9 * big);
    // outside of the outermost centres there is nothing to interpolate
    size_t o = s.below(ax.dims());
    ParameterDict out = d;
    out[ax.a[o].name] = s.boolean() ? ax.a[o].centre(0) - s.posfine(4, 3) : ax.a[o].centre(ax.a[o].n() - 1) + s.posfine(4, 3);
    c.throws<OXSXException>("outside", [&] { k.Evaluate(out); });
    ParameterDict miss = d;
    miss.erase(ax.a[o].name);
    c.throws<NotFoundError>("missing", [&] { k.Evaluate(miss); });
    c.nontrivial = between;
}
