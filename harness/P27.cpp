// Fit results: value semantics of an object that owns a histogram.
// SRC: core data dist histogram function optimise
#include "gens.hpp"
#include <DenseMatrix.h>
#include <FitResult.h>
#include <cstdio>
#include <fstream>
#include <iterator>
#include <memory>
#include <unistd.h>

const char *pbt::kRule =
    "random histories of setting, copying, assigning (in any direction, to itself, from and to empty results) and destroying up to "
    "four fit results, against plain value models; non-trivial: a result with a statistic space was copied or assigned and a "
    "result was changed or destroyed afterwards";

namespace
{
struct RHist
{
    RAxes ax;
    vector<double> v;
    Histogram make() const
    {
        Histogram h(ax.make());
        h.SetBinContents(v);
        return h;
    }
};
struct RRes
{
    ParameterDict best;
    bool valid = true, hasSpace = false;
    double ext = 0;
    RHist space;
    vector<vector<double>> sample;
    std::map<string, RHist> p1, p2;
    vector<vector<double>> cov;
    size_t prec = 5;
};
RHist genH(Src &s, size_t dim)
{
    RHist h;
    h.ax = genAxes(s, dim, dim, 3);
    h.v = genContents(s, h.ax.bins());
    return h;
}
void sameH(Ctx &c, const string &id, const Histogram &h, const RHist &r)
{
    c.ok(id + "-axes", h.GetAxes() == r.ax.make());
    c.nearv(id + "-contents", h.GetBinContents(), r.v, 0, 0);
}
string trim(const string &x)
{
    size_t a = x.find_first_not_of(" \t"), b = x.find_last_not_of(" \t\r");
    return a == string::npos ? "" : x.substr(a, b - a + 1);
}
void checkText(Ctx &c, const string &id, const string &text, const RRes &r)
{
    std::istringstream in(text);
    string line;
    std::map<string, string> got;
    bool started = false;
    while (std::getline(in, line))
    {
        if (line.find("Best Fit Values") != string::npos)
            started = true;
        size_t tab = line.find("\t\t");
        if (!started || tab == string::npos)
            continue;
        got[trim(line.substr(0, tab))] = trim(line.substr(tab));
    }
    c.eq(id + "-lines", got.size(), r.best.size());
    for (auto &p : r.best)
    {
        c.ok(id + "-listed", got.count(p.first), p.first + " is not listed in\n" + text);
        std::ostringstream o;
        o.precision(r.prec);
        o << p.second;
        c.eq(id + "-value", got[p.first], o.str(), p.first);
    }
}
void same(Ctx &c, const FitResult &f, const RRes &r)
{
    c.ok("best-fit", f.GetBestFit() == r.best, str(f.GetBestFit()) + " want " + str(r.best));
    c.eq("valid", f.GetValid(), r.valid);
    c.eq("extreme", f.GetExtremeVal(), r.ext);
    c.ok("sample", f.GetStatSample() == r.sample);
    c.eq("precision", f.GetPrintPrecision(), r.prec);
    if (r.hasSpace)
        sameH(c, "space", f.GetStatSpace(), r.space);
    else
        c.throws<OXSXException>("no-space", [&] { f.GetStatSpace(); });
    for (int k = 0; k < 2; k++)
    {
        HistMap m = k ? f.Get2DProjections() : f.Get1DProjections();
        const std::map<string, RHist> &w = k ? r.p2 : r.p1;
        c.eq("projections", m.size(), w.size());
        for (auto &p : w)
        {
            c.ok("projection-name", m.count(p.first));
            sameH(c, "projection", m.at(p.first), p.second);
        }
    }
    const DenseMatrix cov = f.GetCovarianceMatrix();
    for (size_t i = 0; i < r.cov.size(); i++)
        for (size_t j = 0; j < r.cov.size(); j++)
            c.eq("covariance", cov.GetComponent(i, j), r.cov[i][j]);
    c.throws<NotFoundError>("covariance-size", [&] { cov.GetComponent(r.cov.size(), 0); });
    c.throws<NotFoundError>("covariance-size", [&] { cov.GetComponent(0, r.cov.size()); });
    checkText(c, "text", f.AsString(), r);
}
} // namespace

FACET(history, 8)
{
    vector<std::unique_ptr<FitResult>> f;
    vector<RRes> r;
    bool shared = false;
    auto add = [&](FitResult *p, const RRes &q) {
        f.emplace_back(p);
        r.push_back(q);
    };
    add(new FitResult, RRes());
    size_t steps = s.size(1, 14);
    for (size_t st = 0; st < steps; st++)
    {
        size_t i = s.below(f.size());
        char a = char('A' + i);
        switch (s.below(13))
        {
        case 0:
            if (f.size() < 4)
            {
                c.desc << "new ";
                add(new FitResult, RRes());
            }
            break;
        case 1:
            if (f.size() < 4)
            {
                c.desc << "copy(" << a << ") ";
                RRes q = r[i];
                shared = shared || q.hasSpace;
                add(new FitResult(*f[i]), q);
            }
            break;
        case 2:
        case 3:
        {
            size_t j = s.below(f.size());
            c.desc << char('A' + j) << "=" << a << " ";
            c.tag("self-assignment", i == j);
            shared = shared || (r[i].hasSpace && i != j);
            *f[j] = *f[i];
            RRes q = r[i];
            r[j] = q;
            break;
        }
        case 4:
            if (f.size() > 1)
            {
                c.desc << "delete " << a << " ";
                f.erase(f.begin() + i);
                r.erase(r.begin() + i);
                c.nontrivial = c.nontrivial || shared;
            }
            break;
        case 5:
        case 6:
            r[i].space = genH(s, s.size(1, 3));
            r[i].hasSpace = true;
            f[i]->SetStatSpace(r[i].space.make());
            c.desc << a << ".space ";
            c.nontrivial = c.nontrivial || shared;
            break;
        case 7:
        {
            ParameterDict d;
            const vector<string> pool = styled(s, {"a", "b", "norm", "a_rather_long_parameter_name_of_40_chars", "z"});
            for (size_t k = s.size(0, 4); k-- > 0;)
                d[s.pick(pool)] = s.boolean() ? s.fine(50, 3) : s.boolean() ? s.real(-9, 9) * std::pow(10, double(s.range(-12, 12))) : s.fine(9999, 3) * 1e6;
            r[i].best = d;
            f[i]->SetBestFit(d);
            c.desc << a << ".best" << str(d) << " ";
            c.nontrivial = c.nontrivial || shared;
            break;
        }
        case 8:
            r[i].valid = s.boolean();
            f[i]->SetValid(r[i].valid);
            c.desc << a << ".valid=" << r[i].valid << " ";
            break;
        case 9:
            r[i].ext = s.fine(50, 2);
            f[i]->SetExtremeVal(r[i].ext);
            c.desc << a << ".ext=" << r[i].ext << " ";
            break;
        case 10:
        {
            r[i].sample.assign(s.size(0, 3), vector<double>(2, s.fine(3, 1)));
            f[i]->SetStatSample(r[i].sample);
            r[i].prec = s.size(1, 17);
            f[i]->SetPrintPrecision(r[i].prec);
            c.desc << a << ".sample/precision=" << r[i].prec << " ";
            break;
        }
        case 11:
        {
            std::map<string, RHist> m;
            HistMap hm;
            size_t dim = s.size(1, 2);
            for (size_t k = s.size(0, 2); k-- > 0;)
            {
                string n = "p" + std::to_string(s.below(4));
                m[n] = genH(s, dim);
                hm[n] = m[n].make();
            }
            if (dim == 1)
            {
                r[i].p1 = m;
                f[i]->Set1DProjections(hm);
            }
            else
            {
                r[i].p2 = m;
                f[i]->Set2DProjections(hm);
            }
            c.desc << a << ".projections" << dim << " ";
            break;
        }
        default:
        {
            size_t n = s.size(1, 4);
            DenseMatrix d(n, n);
            r[i].cov.assign(n, vector<double>(n, 0));
            for (size_t p = 0; p < n; p++)
                for (size_t q = 0; q < n; q++)
                    d.SetComponent(p, q, r[i].cov[p][q] = s.fine(3, 1));
            f[i]->SetCovarianceMatrix(d);
            c.desc << a << ".cov ";
        }
        }
        for (size_t k = 0; k < f.size(); k++)
            same(c, *f[k], r[k]);
    }
}
FACET(saved, 1)
{
    RRes r;
    FitResult f;
    for (size_t k = s.size(0, 5); k-- > 0;)
        r.best["par" + std::to_string(s.below(30))] = s.boolean() ? s.real(-9, 9) : s.fine(100, 3);
    r.prec = s.size(1, 17);
    f.SetBestFit(r.best);
    f.SetPrintPrecision(r.prec);
    c.desc << str(r.best);
    c.nontrivial = r.best.size() > 1;
    char dir[] = "/tmp/pbtP27XXXXXX";
    if (!mkdtemp(dir))
        c.fail("mkdtemp", "no scratch directory");
    string path = string(dir) + "/result.txt";
    if (s.boolean())
    { // replaced, not appended to
        std::ofstream(path) << "                     junk\t\t1\n";
    }
    std::ostringstream out;
    std::streambuf *was = std::cout.rdbuf(out.rdbuf());
    f.Print();
    std::cout.rdbuf(was);
    checkText(c, "printed", out.str(), r);
    f.SaveAs(path);
    std::ifstream in(path);
    string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    in.close();
    bool threw = false;
    try
    {
        f.SaveAs(string(dir) + "/no/such/directory/result.txt");
    }
    catch (const OXSXException &)
    {
        threw = true;
    }
    unlink(path.c_str());
    rmdir(dir);
    c.ok("junk-replaced", text.find("junk") == string::npos);
    checkText(c, "file", text, r);
    c.ok("unwritable", threw, "an unwritable file is not reported");
}
