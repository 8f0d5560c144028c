// Sparse and dense matrices.
// SRC: core
#include "gens.hpp"
#include <DenseMatrix.h>
#include <SparseMatrix.h>

const char *pbt::kRule =
    "random histories of component settings, products, scalings, copies, identities and zeros on sparse and dense matrices of "
    "1-5 x 1-5, against plain two-dimensional arrays; non-trivial: a product or application of matrices with at least two rows "
    "and non-zero off-diagonal components";

namespace
{
struct RM
{
    size_t r = 0, k = 0;
    vector<vector<double>> v;
    double past = 0; // the largest terms that cancelled on the way here: rounding is relative to them
    RM(size_t r_ = 0, size_t k_ = 0) : r(r_), k(k_), v(r_, vector<double>(k_, 0)) {}
    double big() const
    {
        double b = past;
        for (auto &row : v)
            for (double x : row)
                b = std::max(b, std::fabs(x));
        return b;
    }
    RM mul(const RM &o) const
    {
        RM m(r, o.k);
        for (size_t i = 0; i < r; i++)
            for (size_t j = 0; j < o.k; j++)
                for (size_t l = 0; l < k; l++)
                    m.v[i][j] += v[i][l] * o.v[l][j];
        m.past = big() * o.big() * k;
        return m;
    }
    vector<double> apply(const vector<double> &x) const
    {
        vector<double> y(r, 0);
        for (size_t i = 0; i < r; i++)
            for (size_t j = 0; j < k; j++)
                y[i] += v[i][j] * x[j];
        return y;
    }
    bool interesting() const
    {
        if (r < 2)
            return false;
        for (size_t i = 0; i < r; i++)
            for (size_t j = 0; j < k; j++)
                if (i != j && v[i][j] != 0)
                    return true;
        return false;
    }
};
string show(const RM &m)
{
    string o = std::to_string(m.r) + "x" + std::to_string(m.k);
    for (auto &x : m.v)
        o += str(x);
    return o;
}
// sparse: never set the last non-zero component to zero.  Armadillo 12.6 itself resurrects it when an all-zero matrix is
// assigned afterwards (SpMat::init_simple discards the pending write; a few lines of plain Armadillo show it).
template <class M>
void fill(Src &s, M &m, RM &r, bool sparse = true)
{
    for (size_t n = s.size(0, r.r * r.k + 2); n-- > 0;)
    {
        size_t i = s.below(r.r), j = s.below(r.k);
        double x = s.chance(1, 5) ? 0 : s.fine(4, 2);
        size_t nz = 0;
        for (auto &row : r.v)
            for (double y : row)
                nz += y != 0;
        if (sparse && x == 0 && nz == 1 && r.v[i][j] != 0)
            x = 1;
        m.SetComponent(i, j, x);
        r.v[i][j] = x;
    }
}
void fillAll(Src &s, SparseMatrix &m, RM &r)
{
    // components in one go, in any order of distinct positions; those not given become zero
    vector<long long unsigned> rows, cols;
    vector<double> vals;
    auto p = s.permutation(r.r * r.k);
    size_t n = s.size(0, r.r * r.k);
    RM z(r.r, r.k);
    for (size_t q = 0; q < n; q++)
    {
        size_t i = p[q] / r.k, j = p[q] % r.k;
        double x = s.chance(1, 6) ? 0 : s.fine(4, 2);
        rows.push_back(i);
        cols.push_back(j);
        vals.push_back(x);
        z.v[i][j] = x;
    }
    m.SetComponents(rows, cols, vals);
    r = z;
}
template <class M>
void same(Ctx &c, const string &id, const M &m, const RM &r)
{
    for (size_t i = 0; i < r.r; i++)
        for (size_t j = 0; j < r.k; j++)
            c.near(id, m.GetComponent(i, j), r.v[i][j], 1e-12, 1e-12 + 1e-14 * r.past, "(" + std::to_string(i) + "," + std::to_string(j) + ")");
    c.throws<NotFoundError>(id + "-row-oob", [&] { m.GetComponent(r.r, 0); });
    c.throws<NotFoundError>(id + "-col-oob", [&] { m.GetComponent(0, r.k); });
}
void sameS(Ctx &c, const string &id, const SparseMatrix &m, const RM &r)
{
    c.eq(id + "-rows", m.GetNRows(), r.r);
    c.eq(id + "-cols", m.GetNCols(), r.k);
    same(c, id, m, r);
}
vector<double> genVec(Src &s, size_t n)
{
    vector<double> x;
    for (size_t i = 0; i < n; i++)
        x.push_back(s.fine(6, 1));
    return x;
}
template <class M>
void checkApply(Ctx &c, Src &s, const string &id, const M &m, const RM &r)
{
    vector<double> x = genVec(s, r.k), x0 = x;
    c.nearv(id + "-apply", m(x), r.apply(x), 1e-11, 1e-11 + 1e-12 * r.past, show(r) + " on " + str(x));
    c.ok(id + "-apply-input", x == x0);
    vector<double> wrong = genVec(s, s.boolean() ? r.k + 1 : r.k - 1);
    if (!wrong.empty())
        c.throws<DimensionError>(id + "-apply-size", [&] { m(wrong); });
    c.nontrivial = c.nontrivial || r.interesting();
}
} // namespace

FACET(sparse_history, 6)
{
    const size_t N = 3;
    vector<SparseMatrix> m;
    vector<RM> r;
    size_t d0 = s.chance(1, 6) ? s.size(6, 12) : s.size(1, 5);
    for (size_t i = 0; i < N; i++)
    { // mostly compatible shapes
        RM q(s.chance(1, 4) ? s.size(1, 5) : d0, s.chance(1, 4) ? s.size(1, 5) : d0);
        SparseMatrix x(q.r, q.k);
        sameS(c, "new", x, q);
        if (s.boolean())
            fill(s, x, q);
        else
            fillAll(s, x, q);
        sameS(c, "filled", x, q);
        m.push_back(x);
        r.push_back(q);
        c.desc << char('A' + i) << "=" << show(q) << " ";
    }
    size_t steps = s.size(1, 8);
    for (size_t st = 0; st < steps; st++)
    {
        size_t i = s.below(N), j = s.below(N), k = s.below(N);
        char a = char('A' + i), b = char('A' + j), d = char('A' + k);
        switch (s.below(10))
        {
        case 0:
        case 1:
            c.desc << d << "=" << a << "*" << b << " ";
            if (r[i].k == r[j].r)
            {
                RM w = r[i].mul(r[j]);
                c.nontrivial = c.nontrivial || (r[i].interesting() && r[j].interesting());
                SparseMatrix x = m[i] * m[j];
                sameS(c, "product", x, w);
                sameS(c, "product-left", m[i], r[i]);
                sameS(c, "product-right", m[j], r[j]);
                m[k] = x;
                r[k] = w;
            }
            else
                c.throws<std::exception>("product-shape", [&] { m[i] * m[j]; });
            break;
        case 2:
        case 3:
            c.desc << a << "*=" << b << " ";
            if (r[i].k == r[j].r)
            {
                RM w = r[i].mul(r[j]);
                m[i] *= m[j];
                r[i] = w;
            }
            else
                c.throws<std::exception>("product-assign-shape", [&] { m[i] *= m[j]; });
            break;
        case 4:
        {
            double f = s.fine(2, 1);
            c.desc << a << ".scale(" << f << ") ";
            m[i].Scale(f);
            r[i].past *= std::fabs(f);
            for (auto &row : r[i].v)
                for (auto &x : row)
                    x *= f;
            break;
        }
        case 5:
            c.desc << a << ".zero ";
            if (s.chance(1, 4)) // whatever it held
                m[i].SetComponent(s.below(r[i].r), s.below(r[i].k), s.pick(vector<double>{INFINITY, -INFINITY, std::nan(""), 1e308}));
            m[i].SetZeros();
            r[i] = RM(r[i].r, r[i].k);
            break;
        case 6:
            c.desc << a << ".identity ";
            if (r[i].r == r[i].k)
            {
                m[i].SetToIdentity();
                r[i] = RM(r[i].r, r[i].k);
                for (size_t q = 0; q < r[i].r; q++)
                    r[i].v[q][q] = 1;
            }
            else
                c.throws<DimensionError>("identity-shape", [&] { m[i].SetToIdentity(); });
            break;
        case 7:
            fill(s, m[i], r[i]);
            c.desc << a << "=" << show(r[i]) << " ";
            break;
        case 8:
            fillAll(s, m[i], r[i]);
            c.desc << a << ":=" << show(r[i]) << " ";
            break;
        default:
            c.desc << d << "=" << a << " ";
            m[k] = m[i];
            r[k] = r[i];
        }
        // magnitudes stay small enough for exact comparison
        for (size_t q = 0; q < N; q++)
        {
            double mx = 0;
            for (auto &row : r[q].v)
                for (double x : row)
                    mx = std::max(mx, std::fabs(x));
            if (mx > 1e6)
            {
                m[q].SetZeros();
                r[q] = RM(r[q].r, r[q].k);
            }
            sameS(c, "state", m[q], r[q]);
        }
    }
    for (size_t q = 0; q < N; q++)
        checkApply(c, s, "sparse", m[q], r[q]);
}
FACET(sparse_refusals, 2)
{
    RM r(s.size(1, 4), s.size(1, 4));
    SparseMatrix m(r.r, r.k);
    fill(s, m, r);
    c.nontrivial = r.interesting();
    c.desc << show(r);
    c.throws<NotFoundError>("row", [&] { m.SetComponent(r.r + s.below(3), 0, 1); });
    c.throws<NotFoundError>("col", [&] { m.SetComponent(0, r.k + s.below(3), 1); });
    typedef vector<long long unsigned> V;
    c.throws<DimensionError>("components-rows", [&] { m.SetComponents(V{0}, V{0, 0}, {1, 1}); });
    c.throws<DimensionError>("components-cols", [&] { m.SetComponents(V{0, 0}, V{0}, {1, 1}); });
    c.throws<DimensionError>("components-values", [&] { m.SetComponents(V{0}, V{0}, {1, 1}); });
    c.throws<std::exception>("components-row-oob", [&] { m.SetComponents(s.boolean() ? V{0, r.r + s.below(2)} : V{r.r + s.below(2), 0}, V{0, 0}, {1, 1}); });
    c.throws<std::exception>("components-col-oob", [&] { m.SetComponents(V{0, 0}, s.boolean() ? V{0, r.k + s.below(2)} : V{r.k + s.below(2), 0}, {1, 1}); });
    sameS(c, "unchanged", m, r);
    SparseMatrix none;
    c.eq("empty-rows", none.GetNRows(), size_t(0));
    c.eq("empty-cols", none.GetNCols(), size_t(0));
    c.throws<NotFoundError>("empty-get", [&] { none.GetComponent(0, 0); });
    c.throws<NotFoundError>("empty-set", [&] { none.SetComponent(0, 0, 1); });
    c.throws<DimensionError>("empty-zero", [&] { none.SetZeros(); });
    c.throws<DimensionError>("empty-identity", [&] { none.SetToIdentity(); });
    for (int i = 0; i < 2; i++)
    { // rows without columns and columns without rows
        size_t n = s.size(1, 4);
        SparseMatrix flat(i ? n : 0, i ? 0 : n);
        DenseMatrix dflat(i ? n : 0, i ? 0 : n);
        c.throws<DimensionError>("flat-zero", [&] { flat.SetZeros(); });
        c.throws<DimensionError>("flat-identity", [&] { flat.SetToIdentity(); });
        c.throws<DimensionError>("dense-flat-zero", [&] { dflat.SetZeros(); });
        c.throws<DimensionError>("dense-flat-identity", [&] { dflat.SetToIdentity(); });
        c.throws<NotFoundError>("flat-get", [&] { flat.GetComponent(0, 0); });
    }
    DenseMatrix nod;
    c.throws<DimensionError>("dense-empty-zero", [&] { nod.SetZeros(); });
    c.throws<DimensionError>("dense-empty-identity", [&] { nod.SetToIdentity(); });
}
FACET(dense_history, 4)
{
    const size_t N = 3;
    vector<DenseMatrix> m;
    vector<RM> r;
    size_t d0 = s.chance(1, 6) ? s.size(6, 12) : s.size(1, 5);
    for (size_t i = 0; i < N; i++)
    {
        RM q(s.chance(1, 4) ? s.size(1, 5) : d0, s.chance(1, 4) ? s.size(1, 5) : d0);
        DenseMatrix x(q.r, q.k);
        same(c, "new", x, q);
        fill(s, x, q, false);
        m.push_back(x);
        r.push_back(q);
        c.desc << char('A' + i) << "=" << show(q) << " ";
    }
    for (size_t st = s.size(1, 7); st-- > 0;)
    {
        size_t i = s.below(N), j = s.below(N);
        char a = char('A' + i), b = char('A' + j);
        switch (s.below(6))
        {
        case 0:
        case 1:
            c.desc << a << "*=" << b << " ";
            if (r[i].k == r[j].r)
            {
                RM w = r[i].mul(r[j]);
                m[i] *= m[j];
                r[i] = w;
            }
            else
                c.throws<std::exception>("product-assign-shape", [&] { m[i] *= m[j]; });
            break;
        case 2:
            c.desc << a << ".zero ";
            if (s.chance(1, 4)) // whatever it held
                m[i].SetComponent(s.below(r[i].r), s.below(r[i].k), s.pick(vector<double>{INFINITY, -INFINITY, std::nan(""), 1e308}));
            m[i].SetZeros();
            r[i] = RM(r[i].r, r[i].k);
            break;
        case 3:
            if (r[i].r != r[i].k)
                break; // a rectangular dense matrix has no identity
            c.desc << a << ".identity ";
            m[i].SetToIdentity();
            r[i] = RM(r[i].r, r[i].k);
            for (size_t q = 0; q < r[i].r; q++)
                r[i].v[q][q] = 1;
            break;
        case 4:
        {
            size_t n = r[i].r;
            vector<double> tri;
            for (size_t q = 0; q < n * (n + 1) / 2; q++)
                tri.push_back(s.fine(4, 1));
            c.desc << a << ".symmetric" << str(tri) << " ";
            if (r[i].r != r[i].k)
                c.throws<DimensionError>("symmetric-shape", [&] { m[i].SetSymmetricMatrix(tri); });
            else
            {
                vector<double> bad = tri;
                if (s.boolean())
                    bad.push_back(1);
                else
                    bad.pop_back();
                c.throws<DimensionError>("symmetric-size", [&] { m[i].SetSymmetricMatrix(bad); });
                m[i].SetSymmetricMatrix(tri);
                size_t q = 0; // packed: column by column of the upper triangle
                for (size_t col = 0; col < n; col++)
                    for (size_t row = 0; row <= col; row++)
                        r[i].v[row][col] = r[i].v[col][row] = tri[q++];
            }
            break;
        }
        default:
            c.desc << b << "=" << a << " ";
            m[j] = m[i];
            r[j] = r[i];
            fill(s, m[j], r[j], false);
        }
        for (size_t q = 0; q < N; q++)
        {
            double mx = 0;
            for (auto &row : r[q].v)
                for (double x : row)
                    mx = std::max(mx, std::fabs(x));
            if (mx > 1e6)
            {
                m[q].SetZeros();
                r[q] = RM(r[q].r, r[q].k);
            }
            same(c, "state", m[q], r[q]);
            c.throws<NotFoundError>("set-row-oob", [&] { m[q].SetComponent(r[q].r, 0, 1); });
            c.throws<NotFoundError>("set-col-oob", [&] { m[q].SetComponent(0, r[q].k, 1); });
        }
    }
    for (size_t q = 0; q < N; q++)
        checkApply(c, s, "dense", m[q], r[q]);
}
// components in other units, and large beside small: every component is kept as it is given
FACET(units, 2)
{
    size_t n = s.size(1, 5), k = s.size(1, 5), l = s.size(1, 5);
    auto gen = [&](RM &r) {
        for (auto &row : r.v)
            for (auto &x : row)
                x = s.chance(1, 4) ? 0 : s.fine(4, 2) * (s.chance(1, 3) ? genUnit(s) : 1);
    };
    RM ra(n, k), rb(k, l), ua = ra, ub = rb;
    gen(ra);
    gen(rb);
    double u = genUnit(s), w = genUnit(s);
    SparseMatrix a(n, k), b(k, l), c1(n, k), c2(k, l);
    DenseMatrix da(n, k), db(k, l), d1(n, k), d2(k, l);
    bool one = s.boolean();
    auto put = [&](const RM &r, double f, SparseMatrix &m, DenseMatrix &d) {
        vector<long long unsigned> rows, cols;
        vector<double> vals;
        for (size_t i = 0; i < r.r; i++)
            for (size_t j = 0; j < r.k; j++)
            {
                d.SetComponent(i, j, r.v[i][j] * f);
                if (r.v[i][j] == 0)
                    continue;
                if (one)
                    m.SetComponent(i, j, r.v[i][j] * f);
                rows.push_back(i);
                cols.push_back(j);
                vals.push_back(r.v[i][j] * f);
            }
        if (!one)
            m.SetComponents(rows, cols, vals);
    };
    put(ra, 1, a, da);
    put(rb, 1, b, db);
    put(ra, u, c1, d1);
    put(rb, w, c2, d2);
    c.desc << show(ra) << " times " << u << ", " << show(rb) << " times " << w;
    c.nontrivial = ra.interesting() && rb.interesting();
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < k; j++)
        {
            c.near("sparse", c1.GetComponent(i, j), ra.v[i][j] * u, UREL, UABS);
            c.near("dense", d1.GetComponent(i, j), ra.v[i][j] * u, UREL, UABS);
        }
    SparseMatrix p = a * b, q = c1 * c2;
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < l; j++)
        {
            double t = 0, big = 0;
            for (size_t m = 0; m < k; m++)
            {
                t += ra.v[i][m] * rb.v[m][j];
                big = std::max(big, std::fabs(ra.v[i][m] * rb.v[m][j]));
            }
            c.near("sparse-product", p.GetComponent(i, j), t, 1e-12, big * 1e-14);
            c.near("sparse-product-units", q.GetComponent(i, j), t * u * w, 1e-12, big * 1e-14 * u * w);
        }
    vector<double> x = genVec(s, k);
    for (auto &y : x)
        y *= s.chance(1, 3) ? genUnit(s) : 1;
    vector<double> y = a(x), z = c1(times(x, w)), dy = da(x), dz = d1(times(x, w));
    for (size_t i = 0; i < n; i++)
    {
        double t = 0, big = 0;
        for (size_t j = 0; j < k; j++)
        {
            t += ra.v[i][j] * x[j];
            big = std::max(big, std::fabs(ra.v[i][j] * x[j]));
        }
        c.near("sparse-apply", y[i], t, 1e-12, big * 1e-14);
        c.near("dense-apply", dy[i], t, 1e-12, big * 1e-14);
        c.near("sparse-apply-units", z[i], t * u * w, 1e-12, big * 1e-14 * u * w);
        c.near("dense-apply-units", dz[i], t * u * w, 1e-12, big * 1e-14 * u * w);
    }
    for (double f : {s.pick(vector<double>{1e-300, 1e-150, 1e-30, 1e-12, 1e12, 1e30, 1e150, 1e290}), genUnit(s)})
    {
        SparseMatrix m(a);
        m.Scale(f);
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < k; j++)
                c.near("scaled", m.GetComponent(i, j), ra.v[i][j] * f, UREL, 0, std::to_string(f));
    }
    c1.Scale(1 / u);
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < k; j++)
            c.near("scaled-back", c1.GetComponent(i, j), ra.v[i][j], UREL, UABS);
}
// sizes that do not fit in 8 bits
ONCE(many_rows)
{
    c.nontrivial = true;
    for (size_t n : {257, 300})
    {
        const size_t k = n + 3;
        SparseMatrix a(n, k), b(k, n), e(n, n);
        DenseMatrix da(n, k), db(k, n), de(n, n);
        vector<long long unsigned> rows, cols;
        vector<double> vals;
        vector<std::map<size_t, double>> ra(n), rb(k);
        for (size_t i = 0; i < k; i++)
            for (size_t q = 0; q < 3; q++)
            {
                size_t j = (i * 7 + q * 101 + 1) % n;
                double x = double((i * 5 + q) % 11) - 4.5;
                rb[i][j] = x;
                b.SetComponent(i, j, x);
                db.SetComponent(i, j, x);
                ra[j][i] = x * 2;
                rows.push_back(j);
                cols.push_back(i);
                vals.push_back(x * 2);
                da.SetComponent(j, i, x * 2);
            }
        a.SetComponents(rows, cols, vals);
        c.desc << n << " by " << k << " ";
        e.SetToIdentity();
        de.SetToIdentity();
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
            {
                c.eq("identity", e.GetComponent(i, j), double(i == j));
                c.eq("dense-identity", de.GetComponent(i, j), double(i == j));
            }
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < k; j++)
                c.eq("component", a.GetComponent(i, j), ra[i].count(j) ? ra[i][j] : 0.);
        SparseMatrix p = a * b;
        da *= db;
        vector<double> x(n), want(n, 0), got;
        for (size_t i = 0; i < n; i++)
            x[i] = double(i % 13) - 6;
        for (size_t i = 0; i < n; i++)
        {
            vector<double> row(n, 0);
            for (auto &q : ra[i])
                for (auto &t : rb[q.first])
                    row[t.first] += q.second * t.second;
            for (size_t j = 0; j < n; j++)
            {
                c.near("product", p.GetComponent(i, j), row[j], 1e-12, 1e-12);
                c.near("dense-product", da.GetComponent(i, j), row[j], 1e-12, 1e-12);
                want[i] += row[j] * x[j];
            }
        }
        c.nearv("apply", p(x), want, 1e-11, 1e-9);
        c.nearv("dense-apply", da(x), want, 1e-11, 1e-9);
        c.nearv("apply-identity", (p * e)(x), want, 1e-11, 1e-9);
        vector<double> tri;
        for (size_t i = 0; i < n * (n + 1) / 2; i++)
            tri.push_back(double(i));
        de.SetSymmetricMatrix(tri);
        for (size_t j = 0, q = 0; j < n; j++)
            for (size_t i = 0; i <= j; i++, q++)
                c.ok("symmetric", de.GetComponent(i, j) == tri[q] && de.GetComponent(j, i) == tri[q]);
        e.SetZeros();
        de.SetZeros();
        for (size_t i = 0; i < n; i++)
            c.ok("zeros", e.GetComponent(i, i) == 0 && de.GetComponent(n - 1, i) == 0);
        p.Scale(0.5);
        for (auto &w : want)
            w *= 0.5;
        c.nearv("scaled", p(x), want, 1e-11, 1e-9);
    }
}
FACET(algebra, 2)
{
    // laws that hold whatever the entries: associativity with application, distribution over scaling
    size_t n = s.size(1, 5), k = s.size(1, 5), l = s.size(1, 5);
    RM ra(n, k), rb(k, l);
    SparseMatrix a(n, k), b(k, l);
    fillAll(s, a, ra);
    fill(s, b, rb);
    c.desc << show(ra) << " " << show(rb);
    c.nontrivial = ra.interesting() && rb.interesting();
    vector<double> x = genVec(s, l);
    SparseMatrix ab = a * b;
    c.nearv("associative", ab(x), a(b(x)), 1e-11, 1e-11);
    SparseMatrix in(n, n), ik(k, k);
    in.SetToIdentity();
    ik.SetToIdentity();
    sameS(c, "left-identity", in * a, ra);
    sameS(c, "right-identity", a * ik, ra);
    double f = s.fine(3, 1);
    SparseMatrix sa = a;
    sa.Scale(f);
    vector<double> y = ab(x), z = (sa * b)(x);
    for (auto &q : y)
        q *= f;
    c.nearv("scale", z, y, 1e-11, 1e-11);
    sameS(c, "copy-independent", a, ra);
}
