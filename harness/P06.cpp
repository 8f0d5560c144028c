// Shift, Scale and ScaleFunction systematics.
// SRC: core histogram data dist function systematic
#include "sysgen.hpp"
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shift.h>
#include <memory>

const char *pbt::kRule =
    "random 1-3 dimensional binnings (uniform and variable), transformed observable at a random position, random shifts, "
    "scale factors and increasing scale functions, re-used over random histories of parameter and axis changes; non-trivial: "
    "at least 2 bins on the transformed axis and a transformation that is not the identity";

namespace
{
struct Case
{
    RAxes ax;
    vector<string> obs;
    size_t d;
};
Case genCase(Src &s, Ctx &c)
{
    Case k;
    k.ax = genAxes(s, 1, 3, 5, 48);
    if (s.chance(1, 8))
    { // one long axis of wide and narrow bins
        k.ax.a.resize(s.size(1, std::min<size_t>(2, k.ax.dims())));
        size_t d = s.below(k.ax.dims());
        RAxis a;
        a.name = k.ax.a[d].name;
        a.e.push_back(s.fine(8, 3));
        double narrow = s.posfine(1, 3), wide = narrow * double(s.range(1, 16));
        for (size_t i = 0, n = s.size(6, k.ax.dims() == 1 ? 60 : 24); i < n; i++)
            a.e.push_back(a.e.back() + (s.chance(1, 4) ? wide : narrow));
        k.ax.a[d] = a;
        k.obs = obsFor(s, k.ax);
        k.d = d;
        c.tag("long-axis");
        c.desc << " " << show(k.ax) << " on " << k.obs[k.d];
        return k;
    }
    k.obs = obsFor(s, k.ax);
    k.d = s.below(k.ax.dims());
    c.desc << " " << show(k.ax) << " on " << k.obs[k.d];
    return k;
}
void configure(Systematic &y, const Case &k)
{
    y.SetAxes(k.ax.make());
    y.SetDistributionObs(ObsSet(k.obs));
    y.SetTransformationObs(ObsSet(k.obs[k.d]));
}
double genShift(Src &s, const RAxis &a)
{
    switch (s.below(5))
    {
    case 0:
        return s.fine(2, 3);
    case 1:
        return a.e[s.below(a.e.size())] - a.e[s.below(a.e.size())]; // edges land on edges
    case 2:
        return s.real(-3, 3);
    case 3:
        return (s.boolean() ? 1 : -1) * (a.e.back() - a.e.front()) * s.real(0.5, 1.5); // mostly off the axis
    default:
        return s.real(-0.01, 0.01);
    }
}
double genScale(Src &s)
{
    switch (s.below(4))
    {
    case 0:
        return s.posfine(4, 2);
    case 1:
        return s.real(0.9, 1.1);
    case 2:
        return s.real(0.01, 10);
    default:
        return 1;
    }
}
void columns(Ctx &c, Systematic &y, const RMat &m)
{ // fractions: each original bin keeps at most its content, exactly its content if nothing leaves the range
    SparseMatrix r = y.GetResponse();
    for (size_t j = 0; j < m.size(); j++)
    {
        double t = 0, w = 0;
        for (size_t i = 0; i < m.size(); i++)
        {
            double x = r.GetComponent(i, j);
            c.ok("non-negative", x >= 0, "negative response");
            t += x;
            w += m[i][j];
        }
        c.near("column-sum", t, w, 1e-9, 1e-9);
        c.ok("column<=1", t <= 1 + 1e-9);
    }
}
}
FACET(shift, 4)
{
    Case k = genCase(s, c);
    Shift y("shift");
    configure(y, k);
    double sh = genShift(s, k.ax.a[k.d]);
    y.SetShift(sh);
    y.Construct();
    c.desc << " by " << sh;
    c.nontrivial = k.ax.a[k.d].n() > 1 && sh != 0;
    RMat m = refMove(k.ax, k.d, [=](double x) { return x + sh; });
    checkResponse(c, "shift", y, m);
    columns(c, y, m);
    checkApply(c, "shift", y, m, k.ax, k.obs, genContents(s, k.ax.bins()));
}
FACET(scale, 4)
{
    Case k = genCase(s, c);
    Scale y("scale");
    configure(y, k);
    double f = genScale(s);
    y.SetScaleFactor(f);
    y.Construct();
    c.desc << " by " << f;
    c.nontrivial = k.ax.a[k.d].n() > 1 && f != 1;
    RMat m = refMove(k.ax, k.d, [=](double x) { return x * f; });
    checkResponse(c, "scale", y, m);
    columns(c, y, m);
    checkApply(c, "scale", y, m, k.ax, k.obs, genContents(s, k.ax.bins()));
}
static double cubic(double a, double b, double g, double x) { return a + b * x + g * x * x * x; }
FACET(scale_function, 4)
{
    Case k = genCase(s, c);
    ScaleFunction y("scalefunction");
    configure(y, k);
    y.SetScaleFunction([](const ParameterDict &p, const double &x) { return cubic(p.at("a"), p.at("b"), p.at("g"), x); },
                       {"b", "g", "a"});
    double a = s.fine(2, 3), b = genScale(s), g = s.boolean() ? 0 : s.posfine(1, 4);
    y.SetParameter("a", a);
    y.SetParameter("b", b);
    y.SetParameter("g", g);
    y.Construct();
    c.desc << " a=" << a << " b=" << b << " g=" << g;
    c.nontrivial = k.ax.a[k.d].n() > 1 && (a != 0 || b != 1 || g != 0);
    RMat m = refMove(k.ax, k.d, [=](double x) { return cubic(a, b, g, x); });
    checkResponse(c, "scalefunction", y, m, 1e-8);
    columns(c, y, m);
    checkApply(c, "scalefunction", y, m, k.ax, k.obs, genContents(s, k.ax.bins()), 1e-8);
    // a linear scale function is the linear scale
    if (a == 0 && g == 0)
    {
        Scale l("scale");
        configure(l, k);
        l.SetScaleFactor(b);
        l.Construct();
        checkResponse(c, "same-as-scale", l, m);
    }
}
// more bins than fit in 8 bits, along the transformed axis and across the others
ONCE(many_bins)
{
    c.nontrivial = true;
    auto longAxis = [](const string &name, size_t n, bool uniform) {
        RAxis a;
        a.name = name;
        a.uniform = uniform;
        for (size_t i = 0; i <= n; i++)
            a.e.push_back(double(i) / 4 + (uniform ? 0 : double(i % 3) / 32));
        return a;
    };
    for (int shape = 0; shape < 5; shape++)
    {
        Case k;
        if (shape < 3)
            k.ax.a = {longAxis("x", 20, true), longAxis("y", 5, false), longAxis("z", 7, true)}, k.d = size_t(shape);
        else
            k.ax.a = {longAxis("x", shape == 3 ? 300 : 513, shape == 3)}, k.d = 0;
        k.obs = k.ax.names();
        c.desc << " " << k.ax.bins() << " bins on " << k.obs[k.d];
        for (int kind = 0; kind < 3; kind++)
        {
            std::unique_ptr<Systematic> y;
            if (kind == 0)
            {
                y.reset(new Shift("y"));
                ((Shift &)*y).SetShift(0.3);
            }
            else if (kind == 1)
            {
                y.reset(new Scale("y"));
                ((Scale &)*y).SetScaleFactor(1.07);
            }
            else
            {
                y.reset(new ScaleFunction("y"));
                ((ScaleFunction &)*y).SetScaleFunction([](const ParameterDict &, const double &x) { return 0.97 * x + 0.1; }, {});
            }
            configure(*y, k);
            y->Construct();
            RMat m = refMove(k.ax, k.d, [=](double x) { return kind == 0 ? x + 0.3 : kind == 1 ? x * 1.07 : 0.97 * x + 0.1; });
            checkResponse(c, "many-bins", *y, m);
            vector<double> v;
            for (size_t i = 0; i < m.size(); i++)
                v.push_back(double(i % 17));
            checkApply(c, "many-bins", *y, m, k.ax, k.obs, v);
        }
    }
}
// identity parameters, and splitting independence of the other observables
FACET(identity, 1)
{
    Case k = genCase(s, c);
    std::unique_ptr<Systematic> y;
    switch (s.below(3))
    {
    case 0:
        y.reset(new Shift("y"));
        ((Shift &)*y).SetShift(0);
        break;
    case 1:
        y.reset(new Scale("y"));
        ((Scale &)*y).SetScaleFactor(1);
        break;
    default:
        y.reset(new ScaleFunction("y"));
        ((ScaleFunction &)*y).SetScaleFunction([](const ParameterDict &, const double &x) { return x; }, {});
    }
    configure(*y, k);
    y->Construct();
    c.nontrivial = k.ax.bins() > 1;
    RMat m = rzero(k.ax.bins());
    for (size_t i = 0; i < m.size(); i++)
        m[i][i] = 1;
    checkResponse(c, "identity", *y, m);
    checkApply(c, "identity", *y, m, k.ax, k.obs, genContents(s, k.ax.bins(), true, 0));
}
// one object through a history of parameter, axis and observable changes
FACET(reuse, 4)
{
    Case k = genCase(s, c);
    int kind = int(s.below(3));
    std::unique_ptr<Systematic> y;
    double p = kind == 0 ? 0.5 : 1.25;
    string pn;
    if (kind == 0)
    {
        Shift *x = new Shift("y");
        pn = "shift";
        y.reset(x);
    }
    else if (kind == 1)
    {
        y.reset(new Scale("y"));
        pn = "scaleFactor";
        pn = *y->GetParameterNames().begin();
    }
    else
    {
        ScaleFunction *x = new ScaleFunction("y");
        x->SetScaleFunction([](const ParameterDict &d, const double &v) { return v * d.begin()->second; }, {"f"});
        pn = "f";
        y.reset(x);
    }
    c.eq("name", y->GetName(), string("y"));
    c.ok("param-names", y->GetParameterNames() == std::set<string>{pn} && y->GetParameterCount() == 1);
    y->SetParameter(pn, p);
    configure(*y, k);
    c.nontrivial = true;
    for (size_t n = s.size(1, 6); n-- > 0;)
    {
        switch (s.below(7))
        {
        case 5:
        { // the observables in another order, with the same axes
            string t = k.obs[k.d];
            vector<string> o = k.obs;
            vector<size_t> perm = s.permutation(o.size());
            for (size_t i = 0; i < o.size(); i++)
                k.obs[i] = o[perm[i]];
            k.d = size_t(std::find(k.obs.begin(), k.obs.end(), t) - k.obs.begin());
            y->SetDistributionObs(ObsSet(k.obs));
            c.desc << " observables " << str(k.obs);
            break;
        }
        case 0:
        case 1:
            p = kind == 0 ? s.fine(2, 3) : s.posfine(3, 3);
            if (s.boolean())
                y->SetParameter(pn, p);
            else
                y->SetParameters(ParameterDict{{"other", 77}, {pn, p}, {"a_param", 1}});
            c.desc << " " << pn << "=" << p;
            break;
        case 2:
            k = genCase(s, c);
            configure(*y, k);
            break;
        case 3:
            k.d = s.below(k.ax.dims());
            y->SetTransformationObs(ObsSet(k.obs[k.d]));
            c.desc << " on " << k.obs[k.d];
            break;
        case 4:
        { // new binning with the same observables
            Case o = k;
            for (auto &a : o.ax.a)
                a = genAxis(s, a.name, 3);
            k = o;
            y->SetAxes(k.ax.make());
            c.desc << " rebin " << show(k.ax);
            break;
        }
        default:
        {
            string nn = "p" + std::to_string(n);
            y->RenameParameter(pn, nn);
            pn = nn;
            c.desc << " rename " << pn;
        }
        }
        if (s.chance(1, 4))
            continue; // construct only after several changes
        y->Construct();
        double q = p;
        RMat m = kind == 0 ? refMove(k.ax, k.d, [=](double x) { return x + q; })
                           : refMove(k.ax, k.d, [=](double x) { return x * q; });
        checkResponse(c, "reuse", *y, m);
        c.near("param", y->GetParameter(pn), p);
        c.ok("params", y->GetParameters() == ParameterDict{{pn, p}}, "parameters: " + str(y->GetParameters()));
        c.ok("param-set", y->GetParameterNames() == std::set<string>{pn} && y->GetParameterCount() == 1);
    }
    y->Construct();
    y->Construct();
    double q = p;
    RMat m = kind == 0 ? refMove(k.ax, k.d, [=](double x) { return x + q; })
                       : refMove(k.ax, k.d, [=](double x) { return x * q; });
    checkApply(c, "reuse", *y, m, k.ax, k.obs, genContents(s, k.ax.bins()));
}
// the same systematic on an axis in another unit has the same response
namespace
{
// a copy is like the original and independent of it
template <class Y>
void copied(Src &s, Ctx &c, const Case &k, const string &par, std::function<void(Y &)> setup, std::function<RMat(double)> ref)
{
    std::unique_ptr<Y> a(new Y("orig"));
    setup(*a);
    configure(*a, k);
    double p = s.posfine(3, 3), q = p;
    a->SetParameter(par, p);
    if (s.boolean())
        a->Construct();
    std::unique_ptr<Y> b;
    if (s.boolean())
    {
        b.reset(new Y(*a));
        c.desc << " copied";
    }
    else
    {
        b.reset(new Y("other"));
        if (s.boolean())
        {
            setup(*b);
            b->SetParameter(par, s.posfine(3, 3));
            configure(*b, genCase(s, c));
            b->Construct();
        }
        *b = *a;
        Y &self = *b;
        *b = self;
        c.desc << " assigned";
    }
    c.eq("copy-name", b->GetName(), string("orig"));
    c.ok("copy-params", b->GetParameters() == a->GetParameters(), str(b->GetParameters()));
    if (s.boolean())
        q = s.posfine(3, 3), b->SetParameter(par, q), c.desc << " copy set";
    else
        p = s.posfine(3, 3), a->SetParameter(par, p), c.desc << " original set";
    c.near("original-param", a->GetParameter(par), p);
    c.near("copy-param", b->GetParameter(par), q);
    a->Construct();
    b->Construct();
    checkResponse(c, "original", *a, ref(p));
    checkResponse(c, "copy", *b, ref(q));
    b->RenameParameter(par, "renamed");
    c.ok("original-keeps-name", a->GetParameterNames().count(par) == 1 && !a->GetParameterNames().count("renamed"));
    a.reset();
    q = s.posfine(3, 3);
    b->SetParameter("renamed", q);
    b->Construct();
    checkResponse(c, "copy-outlives", *b, ref(q));
}
} // namespace
FACET(copies, 2)
{
    Case k = genCase(s, c);
    c.nontrivial = k.ax.a[k.d].n() > 1;
    switch (s.below(3))
    {
    case 0:
        copied<Shift>(s, c, k, "shift", [](Shift &) {}, [&](double p) { return refMove(k.ax, k.d, [=](double x) { return x + p; }); });
        break;
    case 1:
        copied<Scale>(s, c, k, *Scale("x").GetParameterNames().begin(), [](Scale &) {}, [&](double p) { return refMove(k.ax, k.d, [=](double x) { return x * p; }); });
        break;
    default:
        // the function reads its parameter by position, so renaming does not matter
        copied<ScaleFunction>(s, c, k, "f", [](ScaleFunction &y) { y.SetScaleFunction([](const ParameterDict &d, const double &v) { return v * d.begin()->second; }, {"f"}); },
                              [&](double p) { return refMove(k.ax, k.d, [=](double x) { return x * p; }); });
    }
}
FACET(units, 3)
{
    Case k = genCase(s, c), q = k;
    double u = genUnit(s);
    q.ax.a[k.d] = inUnits(k.ax.a[k.d], u);
    size_t other = s.below(k.ax.dims());
    if (other != k.d && s.boolean())
        q.ax.a[other] = inUnits(k.ax.a[other], genUnit(s));
    c.desc << " times " << u;
    c.nontrivial = k.ax.a[k.d].n() > 1;
    std::unique_ptr<Systematic> x, y;
    double sh = genShift(s, k.ax.a[k.d]), f = genScale(s);
    switch (s.below(3))
    {
    case 0:
        x.reset(new Shift("shift"));
        y.reset(new Shift("shift"));
        x->SetParameter("shift", sh);
        y->SetParameter("shift", sh * u);
        c.desc << " shifted by " << sh;
        break;
    case 1:
        x.reset(new Scale("scale"));
        y.reset(new Scale("scale"));
        ((Scale &)*x).SetScaleFactor(f);
        ((Scale &)*y).SetScaleFactor(f);
        c.desc << " scaled by " << f;
        break;
    default:
        for (auto *z : {&x, &y})
        {
            z->reset(new ScaleFunction("f"));
            ((ScaleFunction &)**z).SetScaleFunction([](const ParameterDict &p, const double &v) { return p.at("a") + p.at("b") * v; },
                                                    {"a", "b"});
            (*z)->SetParameter("b", f);
            (*z)->SetParameter("a", z == &y ? sh * u : sh);
        }
        c.desc << " moved to " << sh << " + " << f << " x";
    }
    configure(*x, k);
    configure(*y, q);
    x->Construct();
    y->Construct();
    SparseMatrix m = x->GetResponse(), n = y->GetResponse();
    for (size_t i = 0; i < k.ax.bins(); i++)
        for (size_t j = 0; j < k.ax.bins(); j++)
            c.near("units", n.GetComponent(i, j), m.GetComponent(i, j), UREL, 1e-30, "R[" + std::to_string(i) + "][" + std::to_string(j) + "]");
    // and applied to contents in another unit gives the same distribution
    vector<double> v = genContents(s, k.ax.bins());
    double t = genUnit(s), nx = 0, ny = 0;
    BinnedED b("b", k.ax.make()), d("d", q.ax.make());
    b.SetObservables(k.obs);
    d.SetObservables(k.obs);
    b.SetBinContents(v);
    d.SetBinContents(times(v, t));
    BinnedED bx = (*x)(b, &nx), dy = (*y)(d, &ny);
    c.nearv("units-contents", dy.GetBinContents(), times(bx.GetBinContents(), t), UREL, t * 1e-30);
    c.near("units-norm", ny, nx * t, UREL, t * 1e-30);
    if (nx > 0)
        c.nearv("units-normalised", (*y)(d).GetBinContents(), (*x)(b).GetBinContents(), UREL, 1e-30);
}
// a scale function given again: exactly the new parameters, all zero
FACET(scale_function_again, 1)
{
    Case k = genCase(s, c);
    ScaleFunction y("f");
    c.nontrivial = true;
    const vector<string> pool = styled(s, {"a", "b", "g", "slope", "z"});
    configure(y, k);
    for (size_t n = s.size(1, 4); n-- > 0;)
    {
        vector<size_t> perm = s.permutation(pool.size());
        vector<string> names;
        for (size_t i = 0, m = s.below(4); i < m; i++)
            names.push_back(pool[perm[i]]);
        y.SetScaleFunction(
            [](const ParameterDict &p, const double &x) {
                double t = 0;
                for (auto &q : p)
                    t += q.second;
                return x * (1 + t);
            },
            names);
        c.desc << " parameters " << str(names);
        c.ok("names", y.GetParameterNames() == std::set<string>(names.begin(), names.end()), "names");
        c.eq("count", y.GetParameterCount(), names.size());
        ParameterDict want;
        for (auto &q : names)
            want[q] = 0;
        c.ok("start-at-zero", y.GetParameters() == want, str(y.GetParameters()));
        for (auto &q : pool)
            if (!want.count(q))
            {
                c.throws<ParameterError>("gone", [&] { y.GetParameter(q); }, q);
                c.throws<ParameterError>("gone", [&] { y.SetParameter(q, 1); }, q);
            }
        double t = 0;
        for (auto &q : names)
            if (s.chance(2, 3))
            {
                double v = s.posdyadic(1, 3);
                y.SetParameter(q, v);
                t += v;
            }
        y.Construct();
        checkResponse(c, "again", y, refMove(k.ax, k.d, [=](double x) { return x * (1 + t); }));
    }
}
FACET(refusals, 2)
{
    Case k = genCase(s, c);
    c.nontrivial = true;
    Shift sh("a");
    Scale sc("b");
    ScaleFunction sf("c");
    sc.SetScaleFactor(1.5);
    sf.SetScaleFunction([](const ParameterDict &, const double &x) { return x; }, {"u", "v"});
    vector<Systematic *> all = {&sh, &sc, &sf};
    Systematic &y = *all[s.below(3)];
    c.desc << " " << y.GetName();
    switch (s.below(6))
    {
    case 0:
        y.SetDistributionObs(ObsSet(k.obs));
        y.SetTransformationObs(ObsSet(k.obs[k.d]));
        c.throws<LogicError>("no-axes", [&] { y.Construct(); });
        break;
    case 1:
    {
        y.SetAxes(k.ax.make());
        y.SetDistributionObs(ObsSet(k.obs));
        vector<string> two = {k.obs[k.d], "another"};
        y.SetTransformationObs(s.boolean() ? ObsSet(two) : ObsSet());
        c.throws<RepresentationError>("one-observable", [&] { y.Construct(); });
        break;
    }
    case 2:
    {
        double f = -s.posfine(3, 2) * double(s.below(2));
        configure(sc, k);
        sc.SetScaleFactor(f);
        c.desc << " factor " << f;
        c.throws<ValueError>("scale<=0", [&] { sc.Construct(); });
        break;
    }
    case 3:
    {
        ScaleFunction u("u");
        configure(u, k);
        c.throws<LogicError>("no-function", [&] { u.Construct(); });
        break;
    }
    case 4:
    {
        ParameterDict before = y.GetParameters();
        c.throws<ParameterError>("set-unknown", [&] { y.SetParameter("nothing", 1); });
        c.throws<ParameterError>("get-unknown", [&] { y.GetParameter("nothing"); });
        c.throws<ParameterError>("rename-unknown", [&] { y.RenameParameter("nothing", "n"); });
        c.throws<ParameterError>("missing", [&] { y.SetParameters(ParameterDict{{"nothing", 1}, {"u", 5}}); });
        c.throws<ParameterError>("missing-one", [&] { y.SetParameters(ParameterDict{{"nothing", 1}}); });
        c.throws<ParameterError>("missing-all", [&] { y.SetParameters(ParameterDict()); });
        c.ok("unchanged", y.GetParameters() == before, str(y.GetParameters()));
        break;
    }
    default:
    {
        configure(y, k);
        y.Construct();
        RAxes o = k.ax;
        o.a[0].e.push_back(o.a[0].e.back() + 1);
        o.a[0].uniform = false;
        BinnedED b("b", o.make());
        c.throws<DimensionError>("wrong-size", [&] { y(b); });
    }
    }
}
