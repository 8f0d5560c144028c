// Reference responses for the systematics, as explicit matrices R[dest][orig] over global bins.
#pragma once
#include "gens.hpp"
#include <BinnedED.h>
#include <Systematic.h>

typedef vector<vector<double>> RMat; // [dest][orig]
inline RMat rzero(size_t n) { return RMat(n, vector<double>(n, 0)); }
// every bin of axis d is moved to [lo(e), hi(e)] = f applied to its edges
template <class F>
RMat refMove(const RAxes &ax, size_t d, F f)
{
    RMat m = rzero(ax.bins());
    for (auto &t : ax.tuples())
    {
        double a = f(ax.a[d].e[t[d]]), b = f(ax.a[d].e[t[d] + 1]);
        for (size_t k = 0; k < ax.a[d].n(); k++)
        {
            double o = std::min(b, ax.a[d].e[k + 1]) - std::max(a, ax.a[d].e[k]);
            if (o > 0)
            {
                vector<size_t> u = t;
                u[d] = k;
                m[ax.flat(u)][ax.flat(t)] += o / (b - a);
            }
        }
    }
    return m;
}
inline vector<double> apply(const RMat &m, const vector<double> &v)
{
    vector<double> o(m.size(), 0);
    for (size_t i = 0; i < m.size(); i++)
        for (size_t j = 0; j < v.size(); j++)
            o[i] += m[i][j] * v[j];
    return o;
}
inline void checkResponse(Ctx &c, const string &id, Systematic &s, const RMat &m, double tol = 1e-9)
{
    SparseMatrix r = s.GetResponse();
    c.eq(id + "-rows", size_t(r.GetNRows()), m.size());
    c.eq(id + "-cols", size_t(r.GetNCols()), m.size());
    for (size_t i = 0; i < m.size(); i++)
        for (size_t j = 0; j < m.size(); j++)
            c.near(id, r.GetComponent(i, j), m[i][j], tol, tol, "R[" + std::to_string(i) + "][" + std::to_string(j) + "]");
}
// applying the systematic to a distribution: contents, norm, normalisation, operand
inline void checkApply(Ctx &c, const string &id, Systematic &s, const RMat &m, const RAxes &ax, const vector<string> &obs,
                       const vector<double> &v, double tol = 1e-9)
{
    BinnedED b("b", ax.make());
    b.SetObservables(obs);
    b.SetBinContents(v);
    vector<double> want = apply(m, v);
    double norm = -1, total = sum(want);
    BinnedED o = s(b, &norm);
    c.nearv(id + "-contents", o.GetBinContents(), want, tol, tol);
    c.near(id + "-norm", norm, total, tol, tol);
    if (total > 1e-6)
    {
        BinnedED n = s(b);
        for (size_t i = 0; i < want.size(); i++)
            c.near(id + "-normalised", n.GetBinContent(i), want[i] / total, tol * 10, tol * 10);
    }
    c.nearv(id + "-operand-unchanged", b.GetBinContents(), v);
    c.ok(id + "-observables", o.GetObservables() == obs);
    c.ok(id + "-axes", o.GetAxes() == ax.make());
}
inline vector<string> obsFor(Src &s, const RAxes &ax)
{
    vector<string> o = ax.names();
    if (s.chance(1, 4))
        for (auto &x : o)
            x = "obs_" + x;
    return o;
}

// A systematic with an arbitrary response, linear in its parameters: R = A + p*B + q*C (C may be absent).
// Responses of different instances do not commute, so the order of application is visible.
struct FakeSys : public Systematic
{
    string name;
    vector<string> pn;    // parameter names
    vector<double> pv;    // values
    RMat A;
    vector<RMat> B;       // one per parameter
    size_t constructed = 0;
    FakeSys(const string &n) : name(n) {}
    RMat ref() const
    {
        RMat r = A;
        for (size_t k = 0; k < B.size(); k++)
            for (size_t i = 0; i < r.size(); i++)
                for (size_t j = 0; j < r.size(); j++)
                    r[i][j] += pv[k] * B[k][i][j];
        return r;
    }
    void Construct()
    {
        constructed++;
        RMat r = ref();
        SparseMatrix m(r.size(), r.size());
        for (size_t i = 0; i < r.size(); i++)
            for (size_t j = 0; j < r.size(); j++)
                if (r[i][j])
                    m.SetComponent(i, j, r[i][j]);
        SetResponse(m);
    }
    size_t idx(const string &p) const
    {
        for (size_t i = 0; i < pn.size(); i++)
            if (pn[i] == p)
                return i;
        throw NotFoundError("FakeSys " + name + " has no parameter " + p);
    }
    void SetParameter(const string &p, double v) { pv[idx(p)] = v; }
    double GetParameter(const string &p) const { return pv[idx(p)]; }
    void SetParameters(const ParameterDict &d)
    {
        for (auto &p : pn)
            if (!d.count(p))
                throw ParameterError("FakeSys: missing " + p);
        for (size_t i = 0; i < pn.size(); i++)
            pv[i] = d.at(pn[i]);
    }
    ParameterDict GetParameters() const
    {
        ParameterDict d;
        for (size_t i = 0; i < pn.size(); i++)
            d[pn[i]] = pv[i];
        return d;
    }
    size_t GetParameterCount() const { return pn.size(); }
    std::set<string> GetParameterNames() const { return std::set<string>(pn.begin(), pn.end()); }
    void RenameParameter(const string &o, const string &n) { pn[idx(o)] = n; }
    string GetName() const { return name; }
    void SetName(const string &s) { name = s; }
};
// non-negative responses, so that applying them to positive contents keeps them positive
inline void genFakeSys(Src &s, FakeSys &y, size_t n, size_t nPar = 1, bool nonneg = true)
{
    y.A = rzero(n);
    for (size_t i = 0; i < n; i++)
    {
        y.A[i][i] = s.posdyadic(2, 2);
        size_t k = s.below(3);
        while (k--)
            y.A[i][s.below(n)] += nonneg ? s.posdyadic(1, 2) : s.dyadic(1, 2);
    }
    for (size_t p = 0; p < nPar; p++)
    {
        RMat b = rzero(n);
        size_t k = s.size(1, 2 * n);
        while (k--)
            b[s.below(n)][s.below(n)] += s.posdyadic(1, 2);
        y.B.push_back(b);
        y.pn.push_back(y.name + "_p" + std::to_string(p));
        y.pv.push_back(s.posdyadic(2, 2));
    }
}
inline RMat mul(const RMat &a, const RMat &b)
{
    RMat o = rzero(a.size());
    for (size_t i = 0; i < a.size(); i++)
        for (size_t k = 0; k < a.size(); k++)
            if (a[i][k])
                for (size_t j = 0; j < a.size(); j++)
                    o[i][j] += a[i][k] * b[k][j];
    return o;
}
inline RMat rident(size_t n)
{
    RMat m = rzero(n);
    for (size_t i = 0; i < n; i++)
        m[i][i] = 1;
    return m;
}
