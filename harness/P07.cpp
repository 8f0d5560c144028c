// Convolution, Shape and Renorm systematics.
// SRC: core histogram data dist function systematic
#include "kernels.hpp"
#include "sysgen.hpp"
#include <Convolution.h>
#include <Renorm.h>
#include <Shape.h>
#include <algorithm>
#include <memory>

const char *pbt::kRule =
    "random 1-3 dimensional binnings, an ordered subset of the observables transformed, kernels with a closed-form integral "
    "(unconditional and conditional), shape functions and factors, one object re-used over random histories of parameter, "
    "kernel, axis and observable changes; non-trivial: at least 2 bins on the transformed axes and a non-trivial kernel";

namespace
{
struct Case
{
    RAxes ax;
    vector<string> obs;
    vector<size_t> t; // transformed dimensions, in the order of the transformation observables
    vector<string> tobs() const
    {
        vector<string> v;
        for (size_t d : t)
            v.push_back(obs[d]);
        return v;
    }
    size_t tbins() const
    {
        size_t n = 1;
        for (size_t d : t)
            n *= ax.a[d].n();
        return n;
    }
};
void genTrans(Src &s, Case &k, size_t most)
{
    vector<size_t> p = s.permutation(k.ax.dims());
    k.t.assign(p.begin(), p.begin() + s.size(1, std::min(most, k.ax.dims())));
}
Case genCase(Src &s, Ctx &c, size_t maxBins = 4, size_t maxTotal = 40)
{
    Case k;
    k.ax = s.chance(1, 10) ? genAxes(s, 1, 3, 4 * maxBins, 2 * maxTotal) : genAxes(s, 1, 3, maxBins, maxTotal);
    k.obs = obsFor(s, k.ax);
    genTrans(s, k, 3);
    c.desc << " " << show(k.ax) << "on " << str(k.tobs());
    return k;
}
void configure(Systematic &y, const Case &k)
{
    y.SetAxes(k.ax.make());
    y.SetDistributionObs(ObsSet(k.obs));
    y.SetTransformationObs(ObsSet(k.tobs()));
}
RMat refConvolution(const Case &k, const Kernel &q)
{
    RMat m = rzero(k.ax.bins());
    auto T = k.ax.tuples();
    for (auto &o : T)
        for (auto &d : T)
        {
            bool same = true;
            for (size_t i = 0; i < k.ax.dims(); i++)
                if (std::find(k.t.begin(), k.t.end(), i) == k.t.end() && o[i] != d[i])
                    same = false;
            if (!same)
                continue;
            vector<double> lo, hi, x;
            for (size_t i : k.t)
            {
                lo.push_back(k.ax.a[i].e[d[i]]);
                hi.push_back(k.ax.a[i].e[d[i] + 1]);
                x.push_back(k.ax.a[i].centre(o[i]));
            }
            m[k.ax.flat(d)][k.ax.flat(o)] = q.integral(lo, hi, x, 1);
        }
    return m;
}
double shapeValue(double a, double b, const vector<double> &x)
{
    double v = a;
    for (size_t i = 0; i < x.size(); i++)
        v += b * double(i * i + 1) * x[i] * x[i];
    return v;
}
ShapeFunction shapeFunction(const string &pa, const string &pb)
{
    return [=](const ParameterDict &p, const vector<double> &x) { return shapeValue(p.at(pa), p.at(pb), x); };
}
vector<double> centresOf(const Case &k, const vector<size_t> &t)
{
    vector<double> x;
    for (size_t i : k.t)
        x.push_back(k.ax.a[i].centre(t[i]));
    return x;
}
RMat refShape(const Case &k, double a, double b)
{
    RMat m = rzero(k.ax.bins());
    for (auto &t : k.ax.tuples())
        m[k.ax.flat(t)][k.ax.flat(t)] = shapeValue(a, b, centresOf(k, t));
    return m;
}
// history of changes shared by the convolution and shape facets; f applies a change of its own
void change(Src &s, Ctx &c, Systematic &y, Case &k, size_t maxBins, size_t maxTotal)
{
    switch (s.below(4))
    {
    case 0:
        k = genCase(s, c, maxBins, maxTotal);
        configure(y, k);
        break;
    case 1:
    { // the observables in another order, with the same axes
        vector<string> t = k.tobs(), o = k.obs;
        vector<size_t> p = s.permutation(o.size());
        for (size_t i = 0; i < o.size(); i++)
            k.obs[i] = o[p[i]];
        for (size_t i = 0; i < t.size(); i++)
            k.t[i] = size_t(std::find(k.obs.begin(), k.obs.end(), t[i]) - k.obs.begin());
        y.SetDistributionObs(ObsSet(k.obs));
        c.desc << " observables " << str(k.obs);
        break;
    }
    case 2:
        genTrans(s, k, 3);
        y.SetTransformationObs(ObsSet(k.tobs()));
        c.desc << " now on " << str(k.tobs());
        break;
    default:
        for (auto &a : k.ax.a)
            a = genAxis(s, a.name, 3);
        y.SetAxes(k.ax.make());
        c.desc << " rebinned " << show(k.ax);
    }
}
}
FACET(convolution, 5)
{
    Case k = genCase(s, c);
    Convolution y("conv");
    configure(y, k);
    Kernel q{};
    auto setKernel = [&] {
        q = Kernel{k.t.size(), s.fine(1, 3), s.posfine(2, 3), 0};
        if (s.chance(1, 6)) // so narrow that all of it is in one bin
        {
            q.w = std::ldexp(1., -20 - int(s.below(30)));
            c.tag("narrow-kernel");
        }
        if (s.boolean())
        {
            FakeJump f;
            f.k = q;
            y.SetFunction(&f);
            c.desc << " jump";
        }
        else
        {
            q.slope = s.fine(1, 2);
            FakeConditional f;
            f.k = q;
            y.SetConditionalPDF(&f);
            c.desc << " conditional slope=" << q.slope;
        }
        c.desc << " m=" << q.m << " w=" << q.w;
    };
    setKernel();
    c.nontrivial = k.tbins() > 1;
    y.Construct();
    checkResponse(c, "convolution", y, refConvolution(k, q));
    for (size_t n = s.size(0, 4); n-- > 0;)
    {
        switch (s.below(4))
        {
        case 0:
            setKernel();
            break;
        case 1:
            q.w = s.posfine(3, 3);
            y.SetParameter("w", q.w);
            c.desc << " w=" << q.w;
            break;
        case 2:
            q.m = s.fine(2, 3);
            q.w = s.posfine(3, 3);
            y.SetParameters(ParameterDict{{"other", 3}, {"m", q.m}, {"w", q.w}});
            c.desc << " m=" << q.m << " w=" << q.w;
            break;
        default:
        {
            size_t before = k.t.size();
            change(s, c, y, k, 4, 40);
            if (k.t.size() != before)
                setKernel();
        }
        }
        if (s.chance(1, 3))
            continue;
        y.Construct();
        checkResponse(c, "convolution-again", y, refConvolution(k, q));
        c.ok("params", y.GetParameters() == ParameterDict{{"m", q.m}, {"w", q.w}}, str(y.GetParameters()));
    }
    y.Construct();
    RMat m = refConvolution(k, q);
    checkApply(c, "convolution", y, m, k.ax, k.obs, genContents(s, k.ax.bins()));
    SparseMatrix r = y.GetResponse();
    for (size_t j = 0; j < m.size(); j++)
    {
        double t = 0;
        for (size_t i = 0; i < m.size(); i++)
            t += r.GetComponent(i, j);
        c.ok("column<=1", t <= 1 + 1e-9, "a convolution creates content");
    }
}
// the same kernel in another unit has the same response
FACET(units, 2)
{
    Case k = genCase(s, c), q = k;
    double u = genUnit(s);
    for (size_t d : k.t)
        q.ax.a[d] = inUnits(k.ax.a[d], u);
    Convolution x("conv"), y("conv");
    configure(x, k);
    configure(y, q);
    Kernel f{k.t.size(), s.fine(1, 3), s.posfine(2, 3), s.fine(1, 2)}, g = f;
    g.m *= u;
    g.w *= u;
    c.desc << " m=" << f.m << " w=" << f.w << " slope=" << f.slope << " times " << u;
    if (s.boolean())
    {
        FakeJump a, b;
        a.k = f;
        b.k = g;
        a.k.slope = b.k.slope = 0;
        x.SetFunction(&a);
        y.SetFunction(&b);
    }
    else
    {
        FakeConditional a, b;
        a.k = f;
        b.k = g;
        x.SetConditionalPDF(&a);
        y.SetConditionalPDF(&b);
    }
    c.nontrivial = k.tbins() > 1;
    auto same = [&](const char *id) {
        SparseMatrix m = x.GetResponse(), n = y.GetResponse();
        for (size_t i = 0; i < k.ax.bins(); i++)
            for (size_t j = 0; j < k.ax.bins(); j++)
                c.near(id, n.GetComponent(i, j), m.GetComponent(i, j), UREL, UABS, "R[" + std::to_string(i) + "][" + std::to_string(j) + "]");
    };
    x.Construct();
    y.Construct();
    same("units");
    for (size_t n = s.below(3); n-- > 0;)
    {
        double w = s.posfine(3, 3), m = s.fine(2, 3);
        x.SetParameters(ParameterDict{{"m", m}, {"w", w}});
        y.SetParameters(ParameterDict{{"m", m * u}, {"w", w * u}});
        x.Construct();
        y.Construct();
        same("units-again");
    }
    // a distribution in another unit comes out in that unit
    vector<double> v = genContents(s, k.ax.bins());
    double t = genUnit(s), nx = 0, ny = 0;
    BinnedED b("b", k.ax.make()), d("d", q.ax.make());
    b.SetObservables(k.obs);
    d.SetObservables(k.obs);
    b.SetBinContents(v);
    d.SetBinContents(times(v, t));
    c.nearv("units-contents", y(d, &ny).GetBinContents(), times(x(b, &nx).GetBinContents(), t), UREL, UABS);
    c.near("units-norm", ny, nx * t, UREL, UABS);
    // tiny and huge shape factors are factors like any other
    Shape z("shape");
    configure(z, k);
    z.SetShapeFunction(shapeFunction("a", "b"), {"a", "b"});
    double a = s.posfine(2, 3) * t, e = s.posfine(1, 4) * t;
    z.SetParameter("a", a);
    z.SetParameter("b", e);
    z.Construct();
    RMat want = refShape(k, a, e);
    SparseMatrix r = z.GetResponse();
    for (size_t i = 0; i < want.size(); i++)
        for (size_t j = 0; j < want.size(); j++)
            c.near("shape-units", r.GetComponent(i, j), want[i][j], 1e-9, 1e-9 * t);
    BinnedED l = z(b, &nx);
    c.nearv("shape-units-contents", l.GetBinContents(), ::apply(want, v), 1e-9, 1e-9 * t);
}
FACET(shape, 4)
{
    Case k = genCase(s, c, 6, 120);
    Shape y("shape");
    configure(y, k);
    double a = s.posfine(2, 3), b = s.posfine(1, 4);
    string pa = "zz", pb = "aa";
    y.SetShapeFunction(shapeFunction(pa, pb), {pa, pb});
    c.ok("initial", y.GetParameters() == ParameterDict{{pa, 0}, {pb, 0}});
    y.SetParameter(pa, a);
    y.SetParameter(pb, b);
    c.desc << " a=" << a << " b=" << b;
    c.nontrivial = k.tbins() > 1;
    y.Construct();
    checkResponse(c, "shape", y, refShape(k, a, b));
    for (size_t n = s.size(0, 4); n-- > 0;)
    {
        switch (s.below(4))
        {
        case 0:
            a = s.posfine(3, 3);
            y.SetParameter(pa, a);
            c.desc << " a=" << a;
            break;
        case 1:
            a = s.posfine(3, 3), b = s.posfine(3, 3);
            y.SetParameters(ParameterDict{{pa, a}, {"other", 7}, {pb, b}});
            c.desc << " a=" << a << " b=" << b;
            break;
        case 2:
            a = 0, b = 0;
            y.SetShapeFunction(shapeFunction("q" + pa, "q" + pb), {"q" + pb, "q" + pa});
            pa = "q" + pa, pb = "q" + pb;
            c.desc << " new function";
            break;
        default:
            change(s, c, y, k, 6, 120);
        }
        if (s.chance(1, 3))
            continue;
        y.Construct();
        checkResponse(c, "shape-again", y, refShape(k, a, b));
        c.ok("params", y.GetParameters() == ParameterDict{{pa, a}, {pb, b}}, str(y.GetParameters()));
    }
    y.Construct();
    checkApply(c, "shape", y, refShape(k, a, b), k.ax, k.obs, genContents(s, k.ax.bins()));
    if (s.chance(1, 3))
    { // a function that goes negative somewhere is refused, on every later attempt too
        if (s.boolean())
            y.SetParameter(pa, -1e4);
        else
        {
            y.SetParameter(pa, s.pick(vector<double>{-1e-3, -1e-9, -1e-15, -1e-30, -1e-300}));
            y.SetParameter(pb, 0);
        }
        c.throws<ValueError>("negative", [&] { y.Construct(); });
        c.throws<ValueError>("negative-again", [&] { y.Construct(); });
        y.SetParameter(pa, a);
        y.SetParameter(pb, b);
        y.Construct();
        checkResponse(c, "shape-after-refusal", y, refShape(k, a, b));
    }
}
// shape functions without parameters, one after another
FACET(shape_fixed, 1)
{
    Case k = genCase(s, c, 5, 60);
    Shape y("shape");
    configure(y, k);
    c.nontrivial = k.tbins() > 1;
    for (size_t n = s.size(1, 3); n-- > 0;)
    {
        double a = s.posfine(2, 3), b = s.posfine(1, 4);
        c.desc << " a=" << a << " b=" << b;
        bool fixed = s.chance(2, 3);
        if (fixed)
            y.SetShapeFunction([=](const ParameterDict &p, const vector<double> &x) { return shapeValue(a + 7 * double(p.size()), b, x); }, {});
        else
        {
            y.SetShapeFunction([=](const ParameterDict &p, const vector<double> &x) { return shapeValue(p.at("a"), b, x); }, {"a"});
            y.SetParameter("a", a);
        }
        c.eq("fixed-count", y.GetParameterCount(), size_t(fixed ? 0 : 1));
        y.Construct();
        checkResponse(c, "shape-fixed", y, refShape(k, a, b));
        checkApply(c, "shape-fixed", y, refShape(k, a, b), k.ax, k.obs, genContents(s, k.ax.bins()));
    }
}
// more bins than fit in 8 bits
ONCE(many_bins)
{
    c.nontrivial = true;
    auto longAxis = [](const string &name, size_t n, bool uniform) {
        RAxis a;
        a.name = name;
        a.uniform = uniform;
        for (size_t i = 0; i <= n; i++)
            a.e.push_back(double(i) / 4 + (uniform ? 0 : double(i % 3) / 32));
        return a;
    };
    for (int shape = 0; shape < 4; shape++)
    {
        Case k;
        if (shape < 3)
        {
            k.ax.a = {longAxis("x", 20, true), longAxis("y", 5, false), longAxis("z", 6, true)};
            k.t = shape == 0 ? vector<size_t>{0} : shape == 1 ? vector<size_t>{2, 1} : vector<size_t>{1, 0, 2};
        }
        else
            k.ax.a = {longAxis("x", 300, true)}, k.t = {0};
        k.obs = k.ax.names();
        c.desc << " " << k.ax.bins() << " bins on " << str(k.tobs());
        vector<double> v;
        for (size_t i = 0; i < k.ax.bins(); i++)
            v.push_back(double(i % 17));
        Shape y("shape");
        configure(y, k);
        y.SetShapeFunction([](const ParameterDict &, const vector<double> &x) { return shapeValue(0.5, 0.125, x); }, {});
        y.Construct();
        checkResponse(c, "many-bins-shape", y, refShape(k, 0.5, 0.125));
        checkApply(c, "many-bins-shape", y, refShape(k, 0.5, 0.125), k.ax, k.obs, v);
        Convolution z("conv");
        configure(z, k);
        FakeConditional f;
        f.k = Kernel{k.t.size(), 0.25, 0.5, -0.125};
        z.SetConditionalPDF(&f);
        z.Construct();
        checkResponse(c, "many-bins-convolution", z, refConvolution(k, f.k));
        checkApply(c, "many-bins-convolution", z, refConvolution(k, f.k), k.ax, k.obs, v);
    }
}
FACET(renorm, 2)
{
    Case k = genCase(s, c, 6, 120);
    Renorm y("renorm");
    configure(y, k);
    double f = 1;
    c.near("default", y.GetScaleFactor(), 1);
    c.nontrivial = k.ax.bins() > 1;
    for (size_t n = s.size(1, 4); n-- > 0;)
    {
        switch (s.below(3))
        {
        case 0:
            f = s.posfine(4, 3);
            y.SetScaleFactor(f);
            c.desc << " f=" << f;
            break;
        case 1:
            f = s.below(2) ? s.fine(4, 3) : 0;
            y.SetScaleFactor(f);
            break;
        default:
            change(s, c, y, k, 6, 120);
        }
        c.near("factor", y.GetScaleFactor(), f);
        y.Construct();
        RMat m = rzero(k.ax.bins());
        for (size_t i = 0; i < m.size(); i++)
            m[i][i] = f;
        checkResponse(c, "renorm", y, m);
        checkApply(c, "renorm", y, m, k.ax, k.obs, genContents(s, k.ax.bins()));
    }
}
namespace
{
// a copy is like the original and independent of it
template <class Y>
void copied(Src &s, Ctx &c, const Case &k, std::function<void(Y &, double)> set, std::function<double(const Y &)> get, std::function<void(Y &)> setup, std::function<RMat(double)> ref)
{
    std::unique_ptr<Y> a(new Y("orig"));
    setup(*a);
    configure(*a, k);
    double p = s.posfine(3, 3), q = p;
    set(*a, p);
    if (s.boolean())
        a->Construct();
    std::unique_ptr<Y> b;
    switch (s.below(3))
    {
    case 0:
        b.reset(new Y(*a));
        c.desc << " copied";
        break;
    case 1:
        b.reset(new Y("other"));
        *b = *a;
        c.desc << " assigned";
        break;
    default:
    {
        b.reset(new Y("other"));
        Case k2 = genCase(s, c);
        configure(*b, k2);
        if (k2.t.size() == k.t.size())
            setup(*b), set(*b, s.posfine(3, 3)), b->Construct();
        *b = *a;
        Y &self = *b;
        *b = self;
    }
        c.desc << " assigned over another";
    }
    c.eq("copy-name", b->GetName(), string("orig"));
    c.ok("copy-params", b->GetParameters() == a->GetParameters(), str(b->GetParameters()));
    if (s.boolean())
        q = s.posfine(3, 3), set(*b, q), c.desc << " copy set";
    else
        p = s.posfine(3, 3), set(*a, p), c.desc << " original set";
    c.near("original-param", get(*a), p);
    c.near("copy-param", get(*b), q);
    a->Construct();
    b->Construct();
    checkResponse(c, "original", *a, ref(p));
    checkResponse(c, "copy", *b, ref(q));
    a.reset();
    q = s.posfine(3, 3);
    set(*b, q);
    b->Construct();
    checkResponse(c, "copy-outlives", *b, ref(q));
}
} // namespace
FACET(copies, 2)
{
    Case k = genCase(s, c);
    c.nontrivial = k.ax.bins() > 1;
    switch (s.below(4))
    {
    case 0:
        c.desc << " renorm";
        copied<Renorm>(s, c, k, [](Renorm &y, double v) { y.SetScaleFactor(v); }, [](const Renorm &y) { return y.GetScaleFactor(); }, [](Renorm &) {}, [&](double p) {
            RMat m = rzero(k.ax.bins());
            for (size_t i = 0; i < m.size(); i++)
                m[i][i] = p;
            return m;
        });
        break;
    case 1:
        c.desc << " shape";
        copied<Shape>(s, c, k, [](Shape &y, double v) { y.SetParameter("a", v); }, [](const Shape &y) { return y.GetParameter("a"); }, [](Shape &y) { y.SetShapeFunction([](const ParameterDict &d, const vector<double> &x) { return shapeValue(d.at("a"), 0.125, x); }, {"a"}); },
                      [&](double p) { return refShape(k, p, 0.125); });
        break;
    default:
    {
        bool jump = s.boolean();
        Kernel q{k.t.size(), s.fine(1, 3), 1, jump ? 0 : s.fine(1, 2)};
        c.desc << (jump ? " jump" : " conditional");
        copied<Convolution>(
            s, c, k, [](Convolution &y, double v) { y.SetParameter("w", v); }, [](const Convolution &y) { return y.GetParameter("w"); }, [=](Convolution &y) {
                if (jump)
                {
                    FakeJump f;
                    f.k = q;
                    y.SetFunction(&f);
                }
                else
                {
                    FakeConditional f;
                    f.k = q;
                    y.SetConditionalPDF(&f);
                }
            },
            [&](double w) {
                Kernel r = q;
                r.w = w;
                return refConvolution(k, r);
            });
    }
    }
}
FACET(refusals, 2)
{
    Case k = genCase(s, c);
    c.nontrivial = true;
    Convolution cv("cv");
    Shape sh("sh");
    Renorm rn("rn");
    FakeJump f;
    f.k = Kernel{k.t.size(), 0, 1, 0};
    switch (s.below(7))
    {
    case 0:
        c.desc << " convolution without axes";
        cv.SetFunction(&f);
        cv.SetDistributionObs(ObsSet(k.obs));
        cv.SetTransformationObs(ObsSet(k.tobs()));
        c.throws<LogicError>("conv-no-axes", [&] { cv.Construct(); });
        break;
    case 1:
        c.desc << " convolution without a kernel";
        configure(cv, k);
        c.throws<LogicError>("conv-no-kernel", [&] { cv.Construct(); });
        c.throws<OXSXException>("conv-no-kernel-get", [&] { cv.GetParameter("m"); });
        c.throws<OXSXException>("conv-no-kernel-set", [&] { cv.SetParameter("m", 1); });
        c.throws<OXSXException>("conv-no-kernel-names", [&] { cv.GetParameterNames(); });
        c.throws<OXSXException>("conv-no-kernel-setall", [&] { cv.SetParameters(ParameterDict{{"m", 1}}); });
        c.throws<OXSXException>("conv-no-kernel-getall", [&] { cv.GetParameters(); });
        c.throws<OXSXException>("conv-no-kernel-count", [&] { cv.GetParameterCount(); });
        c.throws<OXSXException>("conv-no-kernel-rename", [&] { cv.RenameParameter("m", "n"); });
        break;
    case 2:
        c.desc << " shape without axes or function";
        if (s.boolean())
            configure(sh, k);
        else
            sh.SetShapeFunction(shapeFunction("a", "b"), {"a", "b"});
        c.throws<LogicError>("shape-unconfigured", [&] { sh.Construct(); });
        break;
    case 3:
        c.desc << " renorm without axes";
        c.throws<LogicError>("renorm-unconfigured", [&] { rn.Construct(); });
        break;
    case 4:
        c.desc << " observables that the distribution does not have";
        cv.SetFunction(&f);
        configure(cv, k);
        cv.SetTransformationObs(ObsSet(vector<string>{"no_such_observable"}));
        c.throws<std::exception>("conv-unknown-obs", [&] { cv.Construct(); });
        sh.SetShapeFunction(shapeFunction("a", "b"), {"a", "b"});
        configure(sh, k);
        sh.SetTransformationObs(ObsSet(vector<string>{"no_such_observable"}));
        c.throws<std::exception>("shape-unknown-obs", [&] { sh.Construct(); });
        break;
    case 5:
        c.desc << " no transformed observable";
        cv.SetFunction(&f);
        cv.SetAxes(k.ax.make());
        cv.SetDistributionObs(ObsSet(k.obs));
        c.throws<std::exception>("conv-no-obs", [&] { cv.Construct(); });
        break;
    default:
    {
        RAxes o = k.ax;
        o.a[0].e.push_back(o.a[0].e.back() + 1);
        o.a[0].uniform = false;
        BinnedED b("b", o.make());
        configure(rn, k);
        rn.Construct();
        c.throws<DimensionError>("wrong-size", [&] { rn(b); });
    }
    }
}
// the parameter interface against a name -> value model
FACET(parameters, 2)
{
    int kind = int(s.below(2));
    std::unique_ptr<Systematic> y;
    std::map<string, double> model;
    if (kind == 0)
    {
        Convolution *x = new Convolution("y");
        FakeConditional f;
        f.k = Kernel{1, 0.5, 1.5, 0};
        x->SetConditionalPDF(&f);
        f.k.m = 99; // the systematic has its own copy
        model = {{"m", 0.5}, {"w", 1.5}};
        y.reset(x);
    }
    else
    {
        Shape *x = new Shape("y");
        vector<string> names;
        for (size_t i = s.size(0, 3); i-- > 0;)
            names.push_back(string(1, char('a' + i)));
        x->SetShapeFunction([](const ParameterDict &, const vector<double> &) { return 1.; }, names);
        for (auto &n : names)
            model[n] = 0;
        y.reset(x);
    }
    c.desc << (kind ? " shape " : " convolution ") << str(model);
    c.nontrivial = model.size() > 0;
    auto any = [&] {
        auto it = model.begin();
        std::advance(it, s.below(model.size()));
        return it->first;
    };
    for (size_t n = s.size(1, 8); n-- > 0;)
    {
        unsigned op = unsigned(s.below(5));
        if (model.empty() && op < 3)
            op = 3;
        switch (op)
        {
        case 0:
        {
            string p = any();
            double v = s.fine(4, 3);
            y->SetParameter(p, v);
            model[p] = v;
            c.desc << " " << p << "=" << v;
            break;
        }
        case 1:
        {
            ParameterDict d{{"unrelated", 4}};
            for (auto &p : model)
                d[p.first] = p.second = s.fine(4, 3);
            y->SetParameters(d);
            c.desc << " set " << str(model);
            break;
        }
        case 2:
        {
            string p = any(), q = "r" + std::to_string(n);
            y->RenameParameter(p, q);
            model[q] = model[p];
            model.erase(p);
            c.desc << " " << p << "->" << q;
            break;
        }
        case 3:
            c.throws<OXSXException>("set-unknown", [&] { y->SetParameter("unknown", 1); });
            c.throws<OXSXException>("get-unknown", [&] { y->GetParameter("unknown"); });
            c.throws<OXSXException>("rename-unknown", [&] { y->RenameParameter("unknown", "u"); });
            break;
        default:
            if (model.size())
            {
                ParameterDict d{{"unrelated", 4}};
                for (auto &p : model)
                    d[p.first] = 55;
                d.erase(any());
                c.throws<OXSXException>("missing", [&] { y->SetParameters(d); });
            }
        }
        c.ok("parameters", y->GetParameters() == ParameterDict(model.begin(), model.end()),
             "got " + str(y->GetParameters()) + " want " + str(model));
        std::set<string> names;
        for (auto &p : model)
        {
            names.insert(p.first);
            c.near("value", y->GetParameter(p.first), p.second);
        }
        c.ok("names", y->GetParameterNames() == names);
        c.eq("count", y->GetParameterCount(), names.size());
        c.eq("name", y->GetName(), string("y"));
    }
}
